CB='callback.hpp'; RC='recursiveCallback.hpp'; CO='connection.hpp'; S='scope.hpp'; BY='bytes.hpp'; U='utf.hpp'; SP='span.hpp'; MO='matOps.hpp'; RO='rectOps.hpp'; TR='transform.hpp'; Q='quaternion.hpp'; CL='clone.hpp'
def B(id,prop,edits,needs,breaks,body,inc='callback recursiveCallback',pre='',flags=''):
    bug(id,prop,edits,needs,breaks,''.join('#include <nytl/%s.hpp>\n'%i for i in inc.split())+'''#include <vector>
#include <string>
#include <memory>
#include <stdexcept>
#include <cstring>
#include <cmath>
#include <thread>
'''+pre+'\nint main() {\n'+body+'\n}\n',flags)
def T(id,edits,needs,work,inc):
    B(id,'C38',edits,needs,'two threads that use independent objects access a common variable: data race, and wrong results',
'''	auto work = []{ for(int i = 0; i < 2000; ++i) { '''+work+''' } };
	std::thread a(work), b(work);
	a.join(); b.join();
	return 0;''',inc,flags='-fsanitize=thread -g')

B('cb01f','C01',[(RC,'	unsigned int iterationCount_ {};','	std::uint8_t iterationCount_ {};')],
 '256 nested calls, the innermost one disconnects a function',
 'the function is destroyed at once although all outer calls still have to run it',
'''	nytl::RecursiveCallback<void()> cb; nytl::Connection c; int depth = 0, runs = 0;
	cb += [&]{ if(++depth < 256) cb(); else c.disconnect(); };
	c = cb += [&]{ ++runs; };
	cb();
	EXPECT(runs == 256);''')
B('cb01g','C01',[(RC,'	std::int64_t callID_ {};','	std::int32_t callID_ {};')],
 'more than 2^31 calls of one object, later a function is disconnected during a call',
 'the removal mark becomes positive: the disconnected function stays registered',
'''	nytl::RecursiveCallback<void()> cb;
	for(std::int64_t i = 0; i < (1ll << 31) + 10; ++i) cb.call();
	nytl::Connection c; int runs = 0;
	cb += [&]{ c.disconnect(); };
	c = cb += [&]{ ++runs; };
	cb(); cb(); cb();
	EXPECT(runs == 1);''')
B('cb04f','C04',[(CB,'	std::int64_t subID_ {};','	int subID_ {};')],
 '2^31 registrations on one object',
 'new ids are negative: the returned connection does not report connected',
'''	nytl::Callback<void()> cb;
	for(std::int64_t i = 0; i < (1ll << 31) + 10; ++i) { auto c = cb.add([]{}); if(!c.connected()) return 1; c.disconnect(); }''')
B('cb04g','C04',[(CO,'	void set(std::int64_t val) noexcept { if(value) *value = val; }','	void set(std::int64_t val) noexcept { if(value) value = std::make_shared<std::int64_t>(val); }')],
 'a tracked function is disconnected (or cleared) from within a call',
 'other connections to the function do not observe the removal',
'''	nytl::TrackedRecursiveCallback<void()> cb; nytl::TrackedConnection c, d; bool was = true;
	cb += [&]{ c.disconnect(); was = d.connected(); };
	c = d = cb += [&]{ };
	cb();
	EXPECT(!was && !d.connected());''')
B('cb08e','C08',[(CB,'''		for(auto& func : subs_) {
			ret.push_back''','''		for(auto func : subs_) {
			ret.push_back''')],
 'a function object that keeps state, on a callback with return value',
 'a copy of the function object is run: its state is lost after every call',
'''	nytl::Callback<int()> cb;
	cb += [n = 0]() mutable { return n++; };
	cb(); cb();
	EXPECT(cb()[0] == 2);''')
B('cb06d','C06',[(CO,'''		if(connected())
			connectable_->disconnect(id_);''','''		if(connectable_)
			connectable_->disconnect(id_);''')],
 'a tracked unique connection that outlives its callback',
 'the destroyed callback is accessed',
'''	auto cb = std::make_unique<nytl::TrackedCallback<void()>>();
	nytl::TrackedUniqueConnection c = cb->add([]{});
	cb.reset();
	EXPECT(!c.connected());
	c = {};''',flags='-fsanitize=address')
B('sc10f','C10',[(S,'		exceptions_(std::uncaught_exceptions()) {}','		exceptions_(std::uncaught_exceptions() > 0) {}')],
 'a guard created while two exceptions are active, scope left normally',
 'the regular exit is taken for an exceptional one',
'''	int n = 0;
	struct Inner { int& n; ~Inner() { { nytl::SuccessGuard g([&]{ ++n; }); } } };
	struct Outer { int& n; ~Outer() { try { Inner i {n}; throw 2; } catch(int) {} } };
	try { Outer o {n}; throw 1; } catch(int) {}
	EXPECT(n == 1);''','scope')
B('cl11d','C11',[(CL,'''template<typename Derived, typename... Bases>
void* DeriveCloneMovable<Derived, Bases...>::doCloneMove()
	{ return new Derived(std::move(static_cast<Derived&>(*this))); }''','''template<typename Derived, typename... Bases>
void* DeriveCloneMovable<Derived, Bases...>::doCloneMove()
	{ return new Derived(std::move(static_cast<const Derived&>(*this))); }''')],
 'cloneMove on a class that derives from several bases via DeriveCloneable',
 'the object is copied instead of moved',
'''	struct A : nytl::AbstractCloneable<A> { virtual int v() const = 0; };
	struct X { int x {}; };
	struct D : nytl::DeriveCloneable<D, A, X> { std::shared_ptr<int> p = std::make_shared<int>(1); int v() const override { return *p; } };
	D d; A& a = d;
	auto m = nytl::cloneMove(a);
	EXPECT(m->v() == 1 && !d.p);''','clone')
B('ut16d','C16',[(U,'''	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
	return converter.to_bytes(utf16.begin(), utf16.end());''','''	// convert in blocks, to not need a large buffer
	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
	constexpr std::size_t block = 4096;
	std::string ret;
	for(std::size_t i = 0; i < utf16.size(); i += block) {
		auto sub = utf16.substr(i, block);
		ret += converter.to_bytes(sub.begin(), sub.end());
	}

	return ret;''')],
 'a surrogate pair that crosses a multiple of 4096 utf16 units',
 'the conversion fails with an exception or loses the character',
'''	std::u16string s(4095, u'a'); s += u"\\U0001F600"; s += u"bc";
	std::string want(4095, 'a'); want += "\\xF0\\x9F\\x98\\x80" "bc";
	EXPECT(nytl::toUtf8(s) == want);''','utf')
B('ut16e','C16',[(U,'''	std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
	return converter.from_bytes(utf8.begin(), utf8.end());''','''	// skip a byte order mark
	if(utf8.substr(0, 3) == "\\xEF\\xBB\\xBF") {
		utf8.remove_prefix(3);
	}

	std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
	return converter.from_bytes(utf8.data(), utf8.data() + utf8.size());''')],
 'a string that starts with U+FEFF',
 'the first character is dropped',
'''	EXPECT(nytl::toUtf32(std::string_view("\\xEF\\xBB\\xBF" "a")).size() == 2);''','utf')
B('by13e','C13',[(BY,'''	dst.resize(dst.size() + src.size());
	auto dstData = dst.data() + dst.size() - src.size();''','''	auto dstData = dst.data() + dst.size();
	dst.resize(dst.size() + src.size());''')],
 'a write that makes the dynamic buffer reallocate',
 'the bytes are written to the old, freed memory',
'''	nytl::DynWriteBuf buf;
	for(int i = 0; i < 1000; ++i) nytl::write(buf, i);
	nytl::ReadBuf r = buf;
	for(int i = 0; i < 1000; ++i) EXPECT(nytl::read<int>(r) == i);''','bytes')
B('sp12j','C12',[(SP,'    return r < l;','	return !(l < r) && !(l == r);')],
 'spans over floating point values that contain NaN',
 'an element that is not greater makes the span greater',
'''	float a[] = {NAN}, b[] = {1.f};
	nytl::span<float> x(a, 1), y(b, 1);
	EXPECT(!(x > y));''','span')
B('sp12k','C12',[(SP,'    return std::equal(l.begin(), l.end(), r.begin(), r.end());','''	if constexpr(std::is_trivially_copyable_v<ElementType>) {
		return l.size() == r.size() && (l.empty() || __builtin_memcmp(l.data(), r.data(), l.size_bytes()) == 0);
	} else {
		return std::equal(l.begin(), l.end(), r.begin(), r.end());
	}''')],
 'elements whose equality differs from their bytes: zeros of different sign, NaN, padding',
 'spans with equal elements compare unequal',
'''	float a[] = {0.f}, b[] = {-0.f};
	EXPECT(nytl::span<float>(a, 1) == nytl::span<float>(b, 1));''','span')
B('ec21e','C21',[(MO,'		if(pivot(mat, r, c, true) == 0.0) {','		if(std::abs(pivot(mat, r, c, true)) < 1e-6) {')],
 'a matrix with small elements',
 'the rows are taken for zero rows',
'''	nytl::Mat<2, 2, double> m {1e-7, 2e-7, 3e-7, 5e-7};
	nytl::rowEcholon(m);
	EXPECT(std::abs(m[0][0] - 1.0) < 1e-9 && std::abs(m[1][1] - 1.0) < 1e-9);''','mat matOps')
B('lu23b','C23',[(MO,'		col(ret, i, luEvaluate(lu.lower, lu.upper, col(lu.perm, i)));','		col(ret, i, luEvaluate(lu.lower, lu.upper, lu.perm[i]));')],
 'a matrix whose row permutation is not its own inverse (at least a cycle of three rows)',
 'the columns of the inverse are permuted',
'''	nytl::Mat<3, 3, double> m {0, 1, 0, 0, 0, 1, 1, 0, 0};
	auto i = nytl::inverse(m);
	auto p = m * i;
	EXPECT(p[0][0] == 1 && p[1][1] == 1 && p[2][2] == 1);''','mat matOps')
B('lu23c','C23',[(MO,'	return luEvaluate(lu.lower, lu.upper, lu.perm * b);','	return luEvaluate(lu.lower, lu.upper, b * lu.perm);')],
 'x','x','return 0;') if False else None
B('lu22f','C22',[(MO,'	return lu.sign * multiplyDiagonal(lu.upper) * multiplyDiagonal(lu.lower);','	return multiplyDiagonal(lu.upper) * (lu.sign > 0 ? 1u : -1u);')],
 'x','x','return 0;') if False else None
B('lu22g','C22',[(MO,'constexpr bool invertible(const SquareMat<D, T>& mat) {\n	return (determinant(mat) != 0);','constexpr bool invertible(const SquareMat<D, T>& mat) {\n	return static_cast<T>(determinant(mat)) != T(0);')],
 'a regular integer matrix whose determinant is a multiple of 2^32, or a float matrix with determinant below the float range',
 'invertible reports false',
'''	nytl::Mat<2, 2, float> m {1e-30f, 0.f, 0.f, 1e-30f};
	EXPECT(nytl::invertible(m));''','mat matOps')

T('st38a',[(U,'''	std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
	return converter.from_bytes(utf8.begin(), utf8.end());''','''	static std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
	return converter.from_bytes(utf8.begin(), utf8.end());''')],
 'two threads converting strings at the same time','if(nytl::toUtf32("abc").size() != 3) std::exit(1);','utf')
T('st38b',[(CB,'	std::int64_t subID_ {}; // the highest subscription id given','	inline static std::int64_t subID_ {}; // the highest subscription id given, unique for all callbacks')],
 'two threads that register functions in different callbacks','nytl::Callback<void()> cb; cb += []{}; cb();','callback')
T('st38c',[(RC,'	std::int64_t callID_ {};','	inline static std::int64_t callID_ {};')],
 'two threads that call different callbacks','nytl::RecursiveCallback<void()> cb; cb += []{}; cb();','recursiveCallback')
T('st38d',[(BY,'''	T ret;
	read(src, bytes(ret));''','''	static T ret;
	read(src, bytes(ret));''')],
 'two threads reading from different buffers','std::vector<std::byte> v; nytl::write(v, i); nytl::ReadBuf r = v; nytl::read<int>(r);','bytes')
T('st38e',[(U,'''			std::array<char, 5> ret {};
''','''			static std::array<char, 5> ret;
			ret = {};
''')],
 'two threads that use nth','nytl::nth("abc", 1);','utf')
T('st38f',[(RO,'	std::vector<Rect<D, T>> ret;','	static std::vector<Rect<D, T>> ret;\n	ret.clear();')],
 'two threads that compute differences of rects','nytl::difference(nytl::Rect2i {{0, 0}, {5, 5}}, nytl::Rect2i {{1, 1}, {2, 2}});','rect rectOps')
T('st38g',[(TR,'''	P const a = P(1) / std::tan(fov / P(2));
	auto ret = SquareMat<4, P> {};
	ret[0][0] = a / aspect;
	ret[1][1] = a;

	auto s = near > P(0.0) ? P(1.0) : P(-1.0);
	ret[3][2] = s;
	ret[2][3] = s * near;''','''	// avoid computing the tangent again for the same field of view
	static P lastFov {}, a {};
	if(lastFov != fov) {
		lastFov = fov;
		a = P(1) / std::tan(fov / P(2));
	}

	auto ret = SquareMat<4, P> {};
	ret[0][0] = a / aspect;
	ret[1][1] = a;

	auto s = near > P(0.0) ? P(1.0) : P(-1.0);
	ret[3][2] = s;
	ret[2][3] = s * near;''')],
 'two threads that create projection matrices with different fields of view','(void) nytl::perspectiveRevInf(1.f + i % 7, 1.f, 0.1f);','mat vec transform')
