RC='recursiveCallback.hpp'; CB='callback.hpp'; CO='connection.hpp'; SC='scope.hpp'; CL='clone.hpp'; BY='bytes.hpp'; UT='utf.hpp'; SP='span.hpp'
# RecursiveCallback: call body shared, other containers of the result, other order of notification and marking
edit(RC,'''		std::vector<Ret> ret;
		ret.reserve(size());

		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
			if(it->id.get() > 0 || -it->id.get() >= callid) {
				ret.push_back(it->func(static_cast<PassArg<Args>>(a)...));
			}

			if(it == last) {
				break;
			}
		}

		return ret;''','''		std::vector<Ret> ret;
		auto it = subs_.begin();
		bool done = it == subs_.end();
		while(!done) {
			auto id = it->id.get();
			const bool removedBefore = id <= 0 && -id < callid;
			if(!removedBefore) {
				ret.emplace_back(it->func(static_cast<PassArg<Args>>(a)...));
			}

			done = (it == last) || (++it == subs_.end());
		}

		return ret;''')
edit(RC,'''	bool remove = iterationCount_ == 0;

	// reset the ids or notify the ids of removal
	for(auto& sub : subs_) {
		if(remove) {
			sub.id.removed();
		} else if(sub.id.get() > 0) {
			// don't touch already formally removed subscriptions
			sub.id.set(-callID_);
		}
	}

	// clear/remove only if no one is currently iterating
	// we only reset end_ (not really needed, cleanup for easier debugging)
	if(remove) {
		// the destructors of the functions might access this object
		std::forward_list<Subscription> old;
		old.swap(subs_);
		last_ = subs_.end();
	}''','''	if(iterationCount_ != 0) {
		for(auto& sub : subs_) {
			if(sub.id.get() <= 0) continue;
			sub.id.set(-callID_);
		}
		return;
	}

	std::forward_list<Subscription> old;
	std::swap(old, subs_);
	last_ = subs_.end();
	for(auto& sub : old) sub.id.removed();''')
edit(RC,'''	callID_ = (callID_ == std::numeric_limits<std::int64_t>::max()) ? 1 : callID_ + 1;''','''	if(callID_ == std::numeric_limits<std::int64_t>::max()) {
		callID_ = 0;
	}
	callID_ += 1;''')
edit(RC,'''	std::size_t size() const {
		return std::distance(subs_.begin(), subs_.end());''','''	std::size_t size() const {
		std::size_t n = 0;
		for([[maybe_unused]] auto& sub : subs_) ++n;
		return n;''')
edit(RC,'''	auto& sub = emplace();
	sub.func = std::move(func);
	return {*this, sub.id};''','''	Subscription& created = emplace();
	std::swap(created.func, func);
	return Connection(*this, created.id);''')
edit(CB,'''	auto ds = Subscription{{}, id}; // dummy
	auto range = std::equal_range(subs_.begin(), subs_.end(), ds, pred);
	if(range.first == range.second) {
		return false;
	}

	// we can assume that there is only one item in the range
	range.first->id.removed();
	subs_.erase(range.first);
	return true;''','''	(void) pred;
	for(std::size_t i = 0; i < subs_.size(); ++i) {
		if(subs_[i].id.get() != id.get()) continue;
		auto sub = std::move(subs_[i]);
		subs_.erase(subs_.begin() + i);
		sub.id.removed();
		return true;
	}
	return false;''')
edit(CB,'''	for(auto& sub : subs_) {
		sub.id.removed();
	}
	subs_.clear();''','''	std::vector<Subscription> old;
	old.swap(subs_);
	for(auto it = old.begin(); it != old.end(); ++it) {
		it->id.removed();
	}''')
edit(CB,'''		for(auto& func : subs_)
			func.func(static_cast<PassArg<Args>>(a)...);''','''		for(std::size_t i = 0, n = subs_.size(); i < n; ++i)
			subs_[i].func(static_cast<PassArg<Args>>(a)...);''')
edit(CO,'''		connectable_ = lhs.connectable_;
		id_ = lhs.id_;
		lhs.connectable_ = {};
		lhs.id_ = {};
		return *this;''','''		connectable_ = lhs.connectable_;
		lhs.connectable_ = nullptr;
		id_ = lhs.id_;
		lhs.id_ = ID {};
		return *this;''')
edit(CO,'''		ConnectionT<C, ID> ret;
		if(connectable_) {
			ret = {*connectable_, id_};
		}

		id_ = {};
		connectable_ = {};
		return ret;''','''		auto connectable = connectable_;
		auto id = id_;
		connectable_ = nullptr;
		id_ = ID {};
		if(!connectable) return {};
		return {*connectable, id};''')
edit(SC,'''			auto thrown = exceptions_ < std::uncaught_exceptions();
			if((OnSuccess && !thrown) || (OnException && thrown)) {
				func_();
			}''','''			if(std::uncaught_exceptions() > exceptions_) {
				if constexpr(OnException) func_();
			} else {
				if constexpr(OnSuccess) func_();
			}''')
edit(CL,'''template<typename T>
std::unique_ptr<T> clone(const T& obj) {
	auto off = detail::completeOffset(obj);
	auto ptr = static_cast<char*>(obj.doClone());
	return std::unique_ptr<T>(reinterpret_cast<T*>(ptr + off));
}''','''template<typename T>
std::unique_ptr<T> clone(const T& obj) {
	const auto complete = obj.doClone();
	const auto bytes = static_cast<char*>(complete) + detail::completeOffset(obj);
	std::unique_ptr<T> ret;
	ret.reset(reinterpret_cast<T*>(bytes));
	return ret;
}''')
edit(BY,'''	dst.resize(dst.size() + src.size());
	auto dstData = dst.data() + dst.size() - src.size();
	std::memcpy(dstData, src.data(), src.size());''','''	dst.insert(dst.end(), src.begin(), src.end());''')
edit(BY,'''	NYTL_BYTES_ASSERT(dst.size() >= src.size());
	if(!src.empty()) {
		std::memcpy(dst.data(), src.data(), src.size());
	}
	dst = dst.last(dst.size() - src.size());''','''	const auto n = src.size();
	NYTL_BYTES_ASSERT(n <= dst.size());
	for(std::size_t i = 0; i < n; ++i) dst[i] = src[i];
	skip(dst, n);''')
edit(BY,'''inline void skip(ReadBuf& buf, std::size_t bytes) {
	NYTL_BYTES_ASSERT(buf.size() >= bytes);
	buf = buf.last(buf.size() - bytes);''','''inline void skip(ReadBuf& buf, std::size_t bytes) {
	NYTL_BYTES_ASSERT(bytes <= buf.size());
	buf = buf.subspan(bytes);''')
edit(SP,'''        return {data() + (size() - Count), Count};''','''        return span<element_type, Count>(end() - Count, Count);''')
edit(SP,'''    return std::equal(l.begin(), l.end(), r.begin(), r.end());''','''    if(l.size() != r.size()) return false;
    for(std::size_t i = 0; i < l.size(); ++i) if(!(l[i] == r[i])) return false;
    return true;''')
edit(UT,'''inline std::u16string toUtf16(std::u32string_view utf32) {
	return toUtf16(toUtf8(utf32));''','''inline std::u16string toUtf16(std::u32string_view utf32) {
	std::u16string ret;
	for(auto c : utf32) {
		if(c < 0x10000) { ret.push_back(char16_t(c)); continue; }
		ret.push_back(char16_t(0xD800 + ((c - 0x10000) >> 10)));
		ret.push_back(char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)));
	}
	return ret;''')
edit(UT,'''inline std::size_t charCount(std::string_view utf8) {
''','''inline std::size_t charCount(std::string_view utf8) {
	std::size_t n = 0;
	for(char c : utf8) n += (static_cast<unsigned char>(c) & 0xC0) != 0x80;
	if(n < utf8.size() + 1) return n;
''')
