V='vec.hpp'; V2='vec2.hpp'; V3='vec3.hpp'; O='vecOps.hpp'; M='mat.hpp'; MO='matOps.hpp'; Q='quaternion.hpp'; T='transform.hpp'; R='rectOps.hpp'; MA='math.hpp'; A='approx.hpp'; F='flags.hpp'
UT='utf.hpp'; RC='recursiveCallback.hpp'; CB='callback.hpp'; CO='connection.hpp'; SC='scope.hpp'; BY='bytes.hpp'
edit(R,'''	for(std::size_t i(0); i < D; ++i) {
		auto bEnd''','''	for(std::size_t i = D; i-- > 0;) {
		auto bEnd''')
edit(R,'''	if(!intersectsReal(a, b)) {
		return {a};
	}
''','''	const bool apart = !intersectsReal(b, a);
	if(apart) return std::vector<Rect<D, T>>(1, a);
''')
edit(R,'''	for(auto i = 0u; i < point.size(); ++i) {
		if(rect.position[i] >= point[i]) return false;
		if(rect.position[i] + rect.size[i] <= point[i]) return false;
	}

	return true;''','''	bool inside = true;
	for(auto i = 0u; i < D; ++i) {
		inside = inside && rect.position[i] < point[i] && point[i] < rect.position[i] + rect.size[i];
	}
	return inside;''') if False else None
edit(A,'''		auto max = std::max(std::abs(lhs), std::abs(rhs.value));
		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);''','''		const auto l = std::abs(lhs), r = std::abs(rhs.value);
		const auto diff = lhs < rhs.value ? rhs.value - lhs : lhs - rhs.value;
		return (1 + (l < r ? r : l)) * rhs.epsilon > diff;''')
edit(RC,'''		auto it = subs_.begin();
		while(it != subs_.end() && it->id.get() <= 0) {
			it->id.removed();
			old.splice_after(oldEnd, subs_, subs_.before_begin());
			++oldEnd;
			it = subs_.begin();
		}

		if(it != subs_.end()) {
			for(auto next = std::next(it); next != subs_.end(); next = std::next(it)) {
				if(next->id.get() <= 0) {
					next->id.removed();
					old.splice_after(oldEnd, subs_, it);
					++oldEnd;
				} else {
					++it;
				}
			}
		}

		last_ = it;
''','''		auto prev = subs_.before_begin();
		auto end = subs_.end();
		last_ = end;
		for(auto it = std::next(prev); it != end; it = std::next(prev)) {
			if(it->id.get() > 0) {
				last_ = prev = it;
				continue;
			}
			it->id.removed();
			old.splice_after(oldEnd, subs_, prev);
			oldEnd = it;
		}
''')
edit(RC,'''		if(subs_.empty()) {
			subs_.emplace_front();
			last_ = subs_.begin();
		} else {
			last_ = subs_.emplace_after(last_);
		}

		++subID_;
		last_->id = {id};
		return *last_;''','''		++subID_;
		auto pos = subs_.empty() ? subs_.before_begin() : last_;
		pos = subs_.emplace_after(pos);
		pos->id = id;
		last_ = pos;
		return *pos;''')
edit(RC,'''	for(auto& sub : subs_) {
		sub.id.removed();
	}

	// the destructors of the functions might still access this object
	std::forward_list<Subscription> old;
	old.swap(subs_);
	last_ = subs_.end();
}''','''	std::forward_list<Subscription> old;
	old.swap(subs_);
	last_ = subs_.end();
	for(auto& sub : old) {
		sub.id.removed();
	}
}''')
edit(RC,'''	auto& sub = emplace();
	Connection conn {*this, sub.id};

	// don't leave an empty function registered if the allocation fails
	auto exceptionGuard = ExceptionGuard([&]{ conn.disconnect(); });
	sub.func = [conn, f = std::move(func)](Args... args) {
		return f(conn, std::forward<Args>(args)...);
	};

	return conn;''','''	auto& sub = emplace();
	const Connection conn(*this, sub.id);
	try {
		std::function<Ret(Args...)> wrapped = [c = conn, f = std::move(func)](Args... args) -> Ret {
			return f(c, std::forward<Args>(args)...);
		};
		sub.func.swap(wrapped);
	} catch(...) {
		this->disconnect(conn.id());
		throw;
	}
	return conn;''')
edit(CB,'''	++subID_;
	subs_.emplace_back();
	subs_.back().id = id;
	subs_.back().func = std::move(func);
	return {*this, id};''','''	subs_.push_back(Subscription{std::move(func), id});
	++subID_;
	return Connection {*this, id};''')
edit(SC,'''		if(exceptions_ == -1) {
			return;
		}

		try {
			auto thrown = exceptions_ < std::uncaught_exceptions();
			if((OnSuccess && !thrown) || (OnException && thrown)) {
				func_();
			}
		} catch''','''		const auto current = std::uncaught_exceptions();
		const bool active = exceptions_ >= 0;
		const bool run = active && (current > exceptions_ ? OnException : OnSuccess);
		if(!run) return;

		try {
			func_();
		} catch''')
edit(UT,'''		if(count == n) {
			std::array<char, 5> ret {};
			for(auto i = 0u; i < length; ++i) ret[i] = *(it + i);
			return ret;
		}

		++count;
		it += length;
	}

	throw std::out_of_range("ny::nth(utf8, n)");''','''		if(count++ == n) {
			std::array<char, 5> ret = {{0, 0, 0, 0, 0}};
			std::copy(it, it + length, ret.begin());
			return ret;
		}

		it += length;
	}

	throw std::out_of_range("nytl::nth: index out of range");''')
edit(UT,'''inline char& nth(std::string& utf8, std::size_t n, std::uint8_t& size) {
''','''inline char& nth(std::string& utf8, std::size_t n, std::uint8_t& size) {
	const char& found = nth(std::string_view(utf8), n, size);
	if(size) return utf8[&found - utf8.data()];
''')
edit(UT,'''	std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
	return converter.to_bytes(utf32.begin(), utf32.end());''','''	std::string ret;
	for(char32_t c : utf32) {
		if(c < 0x80) { ret += char(c); continue; }
		if(c < 0x800) { ret += char(0xC0 | (c >> 6)); }
		else {
			if(c < 0x10000) ret += char(0xE0 | (c >> 12));
			else { ret += char(0xF0 | (c >> 18)); ret += char(0x80 | ((c >> 12) & 0x3F)); }
			ret += char(0x80 | ((c >> 6) & 0x3F));
		}
		ret += char(0x80 | (c & 0x3F));
	}
	return ret;''')
edit(Q,'''    double s0 = cos(theta) - d * sinTheta / sinTheta0; // sin(theta0 - theta) / sin(theta0)''','''    double s0 = std::sin(theta0 - theta) / sinTheta0;''')
edit(Q,'''    if (d < 0.0f) {
        v1.x = -v1.x;
        v1.y = -v1.y;
        v1.z = -v1.z;
        v1.w = -v1.w;
        d = -d;
    }''','''    if (d < 0.0) {
		v1 = -1.0 * v1;
		d = dot(v0, v1);
    }''')
edit(Q,'''	auto l = norm(q);
	if(l <= 0.0) return {0.0, 0.0, 0.0, 1.0};
	return {q.x / l, q.y / l, q.z / l, q.w / l};''','''	const auto l = norm(q);
	Quaternion ret {0.0, 0.0, 0.0, 1.0};
	if(l > 0.0) ret = Quaternion {q.x / l, q.y / l, q.z / l, q.w / l};
	return ret;''')
edit(MO,'''		d[i] = b[i];
		for(auto j = 0u; j < i; ++j)
			d[i] -= l[i][j] * d[j];

		d[i] /= l[i][i];''','''		double known = 0.0;
		for(auto j = 0u; j < i; ++j)
			known += l[i][j] * d[j];

		d[i] = (b[i] - known) / l[i][i];''')
edit(MO,'''	return luEvaluate(lu.lower, lu.upper, lu.perm * b);''','''	const auto permuted = lu.perm * b;
	return luEvaluate(lu.lower, lu.upper, permuted);''')
edit(MO,'''	return (determinant(mat) != 0);''','''	const auto u = luDecomp(mat).upper;
	if constexpr(std::is_integral_v<T>) return std::round(multiplyDiagonal(u)) != 0;
	else return multiplyDiagonal(u) != 0;''')
edit(MA,'''	return (x < 0) ?
		static_cast<unsigned int>(-(x + 1)) * 2u + 1u :
		static_cast<unsigned int>(x) * 2u;''','''	const auto u = static_cast<unsigned int>(x);
	return x < 0 ? ~(u << 1) : u << 1;''')
edit(MA,'''	auto ix = static_cast<int>(x / 2);
	return (x % 2) ? -ix - 1 : ix;''','''	const auto half = static_cast<int>(x >> 1);
	return (x & 1u) ? ~half : half;''')
edit(MA,'''	auto t = std::clamp((x - min) / (max - min), P {0}, P {1});
	return t * t * (3 - 2 * t);''','''	const P t = (x - min) / (max - min);
	const P c = t < 0 ? P {0} : t > 1 ? P {1} : t;
	return c * c * (3 - 2 * c);''')
edit(F,'''	constexpr Flags& operator^=(const Flags& r) noexcept { value_ ^= r.value(); return *this; }''','''	constexpr Flags& operator^=(const Flags& r) noexcept { value_ = (value_ | r.value_) & ~(value_ & r.value_); return *this; }''')
edit(BY,'''	T ret;
	NYTL_BYTES_ASSERT(src.size() == sizeof(ret));
	std::memcpy(&ret, src.data(), sizeof(ret));
	return ret;''','''	NYTL_BYTES_ASSERT(sizeof(T) == src.size());
	return copy<T>(src);''')
edit(BY,'''inline void write(DynWriteBuf& dst, ReadBuf src) {
	if(src.empty()) {
		return;
	}

	dst.resize(dst.size() + src.size());
	auto dstData = dst.data() + dst.size() - src.size();
	std::memcpy(dstData, src.data(), src.size());''','''inline void write(DynWriteBuf& dst, ReadBuf src) {
	const auto off = dst.size();
	dst.reserve(off + src.size());
	for(auto b : src) dst.push_back(b);''')
edit(O,'''	ret[0] = (a[1] * b[2]) - (a[2] * b[1]);''','''	ret[0] = -((a[2] * b[1]) - (a[1] * b[2]));''') if False else None
edit(O,'''	auto l = length(a);
	return (T{1.0} / l) * a;''','''	const auto f = T{1.0} / length(a);
	return f * a;''')
edit(T,'''	const auto x = normalized(cross(up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<4, P>();''','''	auto x = cross(up, z);
	normalize(x);
	auto y = cross(z, x);

	Mat4<P> ret {};
	identity(ret);''')
edit(T,'''	return perspective(fov, aspect, far, near);''','''	const auto swapped = perspective<P>(fov, aspect, far, near);
	return swapped;''')
edit(V3,'''		auto ret = Vec<OD, OT> {};
		for(auto i = 0u; i < std::min(size(), OD); ++i)
			ret[i] = (*this)[i];
		return ret;''','''		Vec<OD, OT> ret {};
		ret[0] = x;
		if constexpr(OD > 1) ret[1] = y;
		if constexpr(OD > 2) ret[2] = z;
		return ret;''')
