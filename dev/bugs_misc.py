def B(id,prop,edits,needs,breaks,body,inc='',pre='',flags=''):
    bug(id,prop,edits,needs,breaks,''.join('#include <nytl/%s.hpp>\n'%i for i in inc.split())+'''#include <vector>
#include <string>
#include <memory>
#include <stdexcept>
#include <cstring>
#include <optional>
'''+pre+'\nint main() {\n'+body+'\n}\n',flags)
S='scope.hpp'
B('sc10a','C10',[(S,'	F func_;','	std::remove_reference_t<F> func_;')],
 'a guard created from a named functor whose state changes afterwards (or that has non-const state)',
 'the guard runs a copy of the function object',
'''	struct Fn { int* out; int v; void operator()() { *out = v; } };
	int out = 0;
	Fn fn {&out, 1};
	{ nytl::ScopeGuard g(fn); fn.v = 7; }
	EXPECT(out == 7);''','scope')
B('sc10b','C10',[(S,'''		} catch(...) {
			std::cerr << "~nytl::ScopeGuard: caught non-exception while ";
			std::cerr << "unwinding" << std::endl;
		}''','''		} catch(...) {
			std::cerr << "~nytl::ScopeGuard: caught non-exception while ";
			std::cerr << "unwinding" << std::endl;
			if(exceptions_ == 0) {
				throw;
			}
		}''')],'x','x','return 0;','scope') if False else None
B('sc10c','C10',[(S,'auto thrown = exceptions_ < std::uncaught_exceptions();','auto thrown = exceptions_ != std::uncaught_exceptions();')],
 'a guard created while an exception is unwinding and destroyed normally later on',
 'the guard treats a regular exit as exceptional one',
'''	std::optional<nytl::SuccessGuard<std::function<void()>>> g; int n = 0;
	struct D { std::optional<nytl::SuccessGuard<std::function<void()>>>& g; int& n; ~D() { g.emplace([this_ = &n]{ ++*this_; }); } };
	try { D d {g, n}; throw 1; } catch(int) {}
	g.reset();
	EXPECT(n == 1);''','scope','#include <functional>')
B('sc10d','C10',[(S,'		if(exceptions_ == -1) {','		if(exceptions_ == -1 || (OnSuccess && !OnException && std::uncaught_exceptions())) {')],
 'a SuccessGuard in a scope that is run and left normally during the unwinding of another exception',
 'the function is not run',
'''	int n = 0;
	struct D { int& n; ~D() { nytl::SuccessGuard g([&]{ ++n; }); } };
	try { D d {n}; throw 1; } catch(int) {}
	EXPECT(n == 1);''','scope')
B('sc10e','C10',[(S,'''		} catch(const std::exception& err) {
			std::cerr << "~nytl::ScopeGuard: exception while unwinding: ";
			std::cerr << err.what() << std::endl;
		} catch(...) {
			std::cerr << "~nytl::ScopeGuard: caught non-exception while ";
			std::cerr << "unwinding" << std::endl;
		}''','''		} catch(const std::exception& err) {
			std::cerr << "~nytl::ScopeGuard: exception while unwinding: ";
			std::cerr << err.what() << std::endl;
		}''')],
 'the guard function throws something that is not derived from std::exception',
 'the exception escapes the destructor: the program is terminated',
'''	bool ok = false;
	{ nytl::ScopeGuard g([]{ throw 42; }); }
	ok = true;
	EXPECT(ok);''','scope')

C='clone.hpp'
HIER='''
struct Base : nytl::Cloneable<Base> { std::string s; int copies = 0, moves = 0;
	Base() = default; virtual ~Base() = default;
	Base(const Base& o) : s(o.s), copies(o.copies + 1), moves(o.moves) {}
	Base(Base&& o) : s(std::move(o.s)), copies(o.copies), moves(o.moves + 1) {} };
struct Derived : nytl::DeriveCloneable<Derived, Base> { std::unique_ptr<int> x; std::string t;
	Derived() = default; Derived(const Derived& o) : nytl::DeriveCloneable<Derived, Base>(o), x(o.x ? new int(*o.x) : nullptr), t(o.t) {}
	Derived(Derived&&) = default; };
'''
B('cl11a','C11',[(C,'''class Cloneable : public AbstractCloneable<T> {
protected:
	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }''','''class Cloneable : public AbstractCloneable<T> {
protected:
	void* doCloneMove() override { return doClone(); }''')],
 'cloneMove of an object of a Cloneable class itself (not of a deriving one)',
 'the object is copied instead of moved',
'''	Base b; b.s = std::string(100, 'x'); auto p = b.s.data();
	auto m = cloneMove(static_cast<Base&>(b));
	EXPECT(m->moves == 1 && m->copies == 0 && m->s.data() == p);''','clone',HIER)
B('cl11b','C11',[(C,'''	{ return new Derived(static_cast<const Derived&>(*this)); }''','''	{ return new Derived(static_cast<Derived&&>(const_cast<DeriveCloneable&>(*this))); }''')],
 'looking at the original object after clone of an object of a class using DeriveCloneable',
 'the original is moved from',
'''	Derived d; d.t = "some longer string that is on the heap"; d.x.reset(new int(5));
	auto c = clone(static_cast<const Base&>(d));
	EXPECT(d.x && *d.x == 5 && d.t.size() > 20);''','clone',HIER)
B('cl11c','C11',[(C,'''template<typename Derived, typename Base>
void* DeriveCloneMovable<Derived, Base>::doCloneMove()
	{ return new Derived(std::move(static_cast<Derived&>(*this))); }''','''template<typename Derived, typename Base>
void* DeriveCloneMovable<Derived, Base>::doCloneMove() {
	if constexpr(std::is_copy_constructible_v<Derived>) {
		return new Derived(static_cast<Derived&>(*this));
	} else {
		return new Derived(std::move(static_cast<Derived&>(*this)));
	}
}''')],
 'cloneMove of a deriving class that can also be copied',
 'the object is copied instead of moved',
'''	Derived d; d.t = std::string(100, 'x'); auto p = d.t.data();
	auto m = cloneMove(static_cast<Base&>(d));
	EXPECT(static_cast<Derived&>(*m).t.data() == p && m->copies == 0);''','clone',HIER)

P='span.hpp'
B('sp12a','C12',[(P,'''	index_type size_;
};''','''	unsigned int size_;
};''')],
 'a dynamic span of more than 2^32 elements',
 'the size of the span is truncated',
'''	nytl::span<const char> s(reinterpret_cast<const char*>(1 << 20), (std::size_t(1) << 32) + 5);
	EXPECT(s.size() == (std::size_t(1) << 32) + 5 && s.end() - s.begin() == (std::ptrdiff_t(1) << 32) + 5);''','span')
B('sp12b','C12',[(P,'		return std::equal(l.begin(), l.end(), r.begin(), r.end());' if False else '    return std::equal(l.begin(), l.end(), r.begin(), r.end());','    return l.size() >= r.size() && std::equal(r.begin(), r.end(), l.begin());')],
 'comparing a span with a proper prefix of it',
 'a span compares equal to its prefixes, but not the other way around',
'''	int a[3] {1, 2, 3};
	nytl::span<int> x(a), y(a, 2);
	EXPECT(!(x == y) && !(y == x) && x != y);''','span')
B('sp12c','C12',[(P,'    return !(l > r);','    return l < r;')],
 '<= of spans with equal contents',
 'equal spans are not less or equal',
'''	int a[3] {1, 2, 3}, b[3] {1, 2, 3};
	EXPECT(nytl::span<int>(a) <= nytl::span<int>(b));''','span')
B('sp12d','C12',[(P,'''        return make_subspan(size() - count, dynamic_extent, subspan_selector<Extent>{});''','''        return make_subspan(size() - count, count ? count : dynamic_extent, subspan_selector<Extent>{});''')],'x','x','return 0;','span') if False else None
B('sp12e','C12',[(P,'''        const span<element_type, dynamic_extent> tmp(*this);
        return tmp.subspan(offset, count);''','''        // the offset is known to be valid
        const span<element_type, dynamic_extent> tmp(*this);
        return tmp.subspan(offset, count < CallerExtent ? count : dynamic_extent);''')],'x','x','return 0;','span') if False else None
B('sp12f','C12',[(P,'''        return {data() + Offset, Count == dynamic_extent ? size() - Offset : Count};''','''        constexpr auto Ext = decltype(subspan<Offset, Count>())::extent;
        return {data() + Offset, Ext == dynamic_extent ? size() : Ext};''')],
 'static subspan of a dynamic span with offset but without count',
 'the subspan reaches beyond the end of the span',
'''	int a[5] {1, 2, 3, 4, 5}; nytl::span<int> s(a, 4);
	EXPECT(s.subspan<1>().size() == 3 && s.subspan<0>().size() == 4);''','span')
B('sp12g','C12',[(P,'''    return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end());''','''    if(l.empty() || r.empty())
        return l.size() < r.size();
    auto it = std::mismatch(l.begin(), l.end(), r.begin(), r.end());
    return it.second != r.end() && (it.first == l.end() || *it.first <= *it.second);''')],'x','x','return 0;','span') if False else None
B('sp12h','C12',[(P,'''    return std::lexicographical_compare(l.begin(), l.end(), r.begin(), r.end());''','''    auto n = std::min(l.size(), r.size());
    for(std::size_t i = 0; i + 1 < n; ++i) {
        if(l[i] < r[i]) return true;
        if(r[i] < l[i]) return false;
    }
    if(n > 0 && l[n - 1] < r[n - 1]) return true;
    return l.size() < r.size();''')],
 'spans of different size whose last common element decides in favour of the shorter one',
 'the longer span is not less although an earlier element decides: both a < b and b < a',
'''	int a[3] {1, 2, 3}, b[2] {1, 5};
	nytl::span<int> x(a), y(b);
	EXPECT(x < y && !(y < x));''','span')

Y='bytes.hpp'
B('by13a','C13',[(Y,'''	src = src.last(src.size() - dst.size());
}''','''	src = src.subspan(static_cast<std::uint16_t>(dst.size()));
}''')],
 'reading a span or vector of at least 65536 bytes',
 'the buffer is advanced by the truncated size, everything read afterwards is wrong',
'''	std::vector<char> a(70000, 'a'), b(70000); nytl::DynWriteBuf w;
	nytl::write(w, a); nytl::write(w, 42);
	nytl::ReadBuf r(w);
	nytl::read(r, b);
	EXPECT(a == b && nytl::read<int>(r) == 42 && r.empty());''','bytes')
B('by13b','C13',[(Y,'''	dst.resize(dst.size() + src.size());
	auto dstData = dst.data() + dst.size() - src.size();''','''	auto off = (dst.size() + alignof(float) - 1) & ~(alignof(float) - 1);
	off = src.size() % alignof(float) == 0 && src.size() > 16 ? off : dst.size();
	dst.resize(off + src.size());
	auto dstData = dst.data() + off;''')],
 'writing more than 16 bytes (multiple of four) to a dynamic buffer with a size that is not a multiple of four',
 'padding is inserted, so that reading back the same sequence of types yields other values',
'''	nytl::DynWriteBuf w; double a[3] {1, 2, 3}; char c = 'x';
	nytl::write(w, c); nytl::write(w, a);
	EXPECT(w.size() == 25);''','bytes')
B('by13c','C13',[(Y,'''copyExact(ReadBuf src) {
	T ret;
	NYTL_BYTES_ASSERT(src.size() == sizeof(ret));
	std::memcpy(&ret, src.data(), sizeof(ret));''','''copyExact(ReadBuf src) {
	T ret;
	NYTL_BYTES_ASSERT(src.size() == sizeof(ret));
	std::memcpy(&ret, src.data(), sizeof(ret) > 8 ? sizeof(ret) & ~std::size_t(7) : sizeof(ret));''')],
 'copyExact of a type larger than eight bytes whose size is not a multiple of eight',
 'the last bytes of the value are not copied',
'''	struct V { int v[3]; };
	V v {{1, 2, 3}};
	for(int i = 0; i < 3; ++i) { v.v[2] = 3 + i; auto c = nytl::copyExact<V>(nytl::bytes(v)); EXPECT(c.v[2] == 3 + i && c.v[1] == 2); }''','bytes')
B('by13d','C13',[(Y,'''	dst = dst.last(dst.size() - src.size());''','''	dst = dst.subspan(src.size(), src.size() < dst.size() ? dst.size() - src.size() : dynamic_extent);''')],'x','x','return 0;','bytes') if False else None
B('by13e','C13',[(Y,'''bytes(std::vector<T>& val) {
	return nytl::as_writeable_bytes(span(val));''','''bytes(std::vector<T>& val) {
	static thread_local std::byte empty;
	if(val.size() <= 1) // no need for the indirection
		return val.empty() ? WriteBuf{&empty, 1} : bytes(val[0]);
	return nytl::as_writeable_bytes(span(val));''')],
 'reading an empty vector',
 'reading an empty vector advances the buffer by one byte',
'''	nytl::DynWriteBuf w; std::vector<int> e; nytl::write(w, e); nytl::write(w, 5);
	nytl::ReadBuf r(w); nytl::read(r, e);
	EXPECT(r.size() == 4 && nytl::read<int>(r) == 5);''','bytes')
BA='#include <stdexcept>\n#define NYTL_BYTES_ASSERT(x) do { if(!(x)) throw std::logic_error("assert"); } while(0)\n'
def BB(id,prop,edits,needs,breaks,body):
    bug(id,prop,edits,needs,breaks,BA+'#include <nytl/bytes.hpp>\n#include <vector>\ntemplate<typename F> bool asserts(F f) { try { f(); } catch(const std::logic_error&) { return true; } return false; }\nint main() {\n'+body+'\n}\n')
BB('by14a','C14',[(Y,'''inline void skip(ReadBuf& buf, std::size_t bytes) {
	NYTL_BYTES_ASSERT(buf.size() >= bytes);''','''inline void skip(ReadBuf& buf, std::size_t bytes) {
	NYTL_BYTES_ASSERT(std::ptrdiff_t(buf.size() - bytes) >= 0);''')],
 'skipping an amount above 2^63, e.g. a size field of -8 interpreted as unsigned',
 'the overrun is not detected, the buffer refers to memory before its start',
'''	int x[4] {}; nytl::ReadBuf b = nytl::bytes(x);
	EXPECT(asserts([&]{ nytl::skip(b, std::size_t(-8)); }) && b.size() == sizeof(x));
	EXPECT(asserts([&]{ nytl::skip(b, 17); }));''')
BB('by14b','C14',[(Y,'''	NYTL_BYTES_ASSERT(src.size() == sizeof(ret));''','''	NYTL_BYTES_ASSERT(src.size() >= sizeof(ret));''')],
 'copyExact from a buffer that is larger than the type',
 'the size mismatch is not detected',
'''	int x[2] {}; EXPECT(asserts([&]{ nytl::copyExact<int>(nytl::bytes(x)); }));''')
BB('by14c','C14',[(Y,'''	NYTL_BYTES_ASSERT(src.size() == dst.size());''','''	NYTL_BYTES_ASSERT(dst.size() <= src.size());''')],
 'copy from a larger to a smaller buffer',
 'the size mismatch is not detected',
'''	int x[2] {}, y {}; EXPECT(asserts([&]{ nytl::copy(nytl::ReadBuf(nytl::bytes(x)), nytl::bytes(y)); }));''')
BB('by14d','C14',[(Y,'''	NYTL_BYTES_ASSERT(dst.size() >= src.size());
	if(!src.empty()) {
		std::memcpy(dst.data(), src.data(), src.size());
	}
''','''	auto count = std::min(dst.size(), src.size());
	if(!src.empty()) {
		std::memcpy(dst.data(), src.data(), src.size());
	}
	NYTL_BYTES_ASSERT(count == src.size());
''')],
 'x','x','') if False else None
BB('by14e','C14',[(Y,'''	NYTL_BYTES_ASSERT(src.size() >= dst.size());''','''	NYTL_BYTES_ASSERT(src.size() > dst.size() || src.empty() || src.size() - dst.size() < src.size());''')],
 'reading a span larger than the remaining buffer into a large destination (difference wraps)',
 'x','') if False else None
BB('by14f','C14',[(Y,'''inline void skip(WriteBuf& buf, std::size_t bytes) {
	NYTL_BYTES_ASSERT(buf.size() >= bytes);''','''inline void skip(WriteBuf& buf, std::size_t bytes) {
	NYTL_BYTES_ASSERT(bytes == 0 || buf.size() - 1 >= bytes - 1);''')],
 'skipping in an empty write buffer',
 'the overrun of an already completely filled buffer is not detected',
'''	nytl::WriteBuf b; std::byte x[4]; nytl::WriteBuf c(x);
	EXPECT(asserts([&]{ nytl::skip(b, 1); }));
	nytl::skip(c, 4);
	EXPECT(asserts([&]{ nytl::skip(c, 3); }) && c.empty());''')

U='utf.hpp'
B('ut15a','C15',[(U,'''inline std::size_t charCount(std::string_view utf8) {
	std::size_t count = 0u;''','''inline std::size_t charCount(std::string_view utf8) {
	std::uint16_t count = 0u;''')],
 'a string of more than 65535 characters',
 'the character count wraps around',
'''	EXPECT(nytl::charCount(std::string(65536, 'x')) == 65536);''','utf')
B('ut15b','C15',[(U,'''			if((*it) & (1 << 5)) {
				++length;
				if((*it) & (1 << 4))
					++length;
			}
		}

		if(count == n) {
			std::array<char, 5> ret {};''','''			if((*it) & (1 << 5)) {
				++length;
				if((*it & (1 << 4)) && !(*it & (1 << 2)))
					++length;
			}
		}

		if(count == n) {
			std::array<char, 5> ret {};''')],
 'nth on a string with a character of plane 16 (lead byte 0xF4)',
 'the character is cut and later ones are off by one',
'''	std::string s = "\\xF4\\x80\\x80\\x80" "ab";
	EXPECT(std::string(nytl::nth(s, 1).data()) == "a" && std::string(nytl::nth(s, 0).data()).size() == 4);''','utf')
B('ut15c','C15',[(U,'''	size = 0u;
	throw std::out_of_range("nytl::nth(utf8, n, size)");''','''	size = 0u;
	if(count == n) {
		return utf8[count]; // the null terminator
	}

	throw std::out_of_range("nytl::nth(utf8, n, size)");''')],
 'the mutable reference overload of nth with n equal to the character count',
 'no exception is thrown',
'''	std::string s = "abc"; std::uint8_t size; bool thrown = false;
	try { nytl::nth(s, 3, size); } catch(const std::out_of_range&) { thrown = true; }
	EXPECT(thrown);''','utf')
B('ut16a','C16',[(U,'''inline std::u16string toUtf16(std::string_view utf8) {
	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;''','''inline std::u16string toUtf16(std::string_view utf8) {
	std::wstring_convert<std::codecvt_utf8_utf16<char16_t, 0x10ffff, std::consume_header>, char16_t> converter;''')],
 'a string that starts with U+FEFF',
 'the first character is dropped',
'''	EXPECT(nytl::toUtf16("\\xEF\\xBB\\xBF" "a") == u"\\uFEFFa");''','utf')
B('ut16b','C16',[(U,'''	return toUtf16(toUtf8(utf32));''','''	std::u16string ret;
	ret.reserve(utf32.size());
	for(auto c : utf32) {
		if(c > 0x10000) {
			c -= 0x10000;
			ret += char16_t(0xD800 + (c >> 10));
			ret += char16_t(0xDC00 + (c & 0x3FF));
		} else {
			ret += char16_t(c);
		}
	}
	return ret;''')],
 'utf32 to utf16 of the character U+10000',
 'it is converted to U+0000',
'''	EXPECT(nytl::toUtf16(std::u32string_view(U"\\U00010000")) == u"\\U00010000");''','utf')
B('ut16c','C16',[(U,'''	return converter.to_bytes(utf32.begin(), utf32.end());''','''	return converter.to_bytes(utf32.data());''')],
 'utf32 strings with embedded zeros (or views that are not zero-terminated)',
 'the conversion stops at the zero',
'''	EXPECT(nytl::toUtf8(std::u32string_view(U"a\\0b", 3)).size() == 3);''','utf')
