// C20: matrix arithmetic and structure operations against their definitions.
#include "numeric.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>

using nytl::Mat;
using nytl::Vec;

template<std::size_t R, std::size_t C, typename T> void fill(Mat<R, C, T>& m, vh::Rng& rng, bool small, int range = 9) {
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) m.rows_[r][c] = small ? smallValue<T>(rng, range) : anyValue<T>(rng);
}
template<std::size_t R, std::size_t C, typename T> Mat<R, C, T> random(vh::Rng& rng, bool small = true, int range = 9) { Mat<R, C, T> m; fill(m, rng, small, range); return m; }
template<std::size_t R, std::size_t C, typename T> bool equal(const Mat<R, C, T>& a, const Mat<R, C, T>& b) {
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) if(!sameNum(a.rows_[r][c], b.rows_[r][c])) return false;
	return true;
}
template<std::size_t D, typename T> bool equal(const Vec<D, T>& a, const Vec<D, T>& b) {
	for(std::size_t r = 0; r < D; ++r) if(!sameNum(a[r], b[r])) return false;
	return true;
}
template<std::size_t R, std::size_t C, typename T, typename F> void each(const Mat<R, C, T>& m, F&& f, const char* key, bool sign = true) {
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) {
		auto want = f(r, c);
		VH_CHECK((std::is_same_v<std::decay_t<decltype(want)>, T>) && (sign ? sameNum(m.rows_[r][c], want) : m.rows_[r][c] == want), key,
			R << "x" << C << " at " << r << ", " << c << ": " << show(m.rows_[r][c]) << " instead of " << show(want));
	}
}
template<std::size_t R, std::size_t C, typename T> std::uint64_t hash(const Mat<R, C, T>& m) {
	vh::Hash h;
	for(std::size_t r = 0; r < std::min<std::size_t>(R, 8); ++r) for(std::size_t c = 0; c < std::min<std::size_t>(C, 8); ++c) { unsigned char x[sizeof(T)]; std::memcpy(x, &m.rows_[r][c], sizeof(x)); for(auto b : x) h.add(b); }
	return h.v;
}
// for sums: the sign of zeros depends on how they are written
template<typename T> T zero() { return T(0); }

template<std::size_t R, std::size_t C, typename T, typename U> void elementwise(vh::Rng& rng) {
	bool small = rng.chance(1, 3);
	auto a = random<R, C, T>(rng, small);
	auto b = random<R, C, U>(rng, small);
	vh::count("matrices", 2);
	vh::nontrivial(hash(a) ^ hash(b));
	auto safe = [&](auto ok) { for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) if(!ok(a[r][c], b[r][c])) { a[r][c] = smallValue<T>(rng); b[r][c] = smallValue<U>(rng); } };
	safe([](auto p, auto q) { return okAdd(p, q) && okSub(p, q) && okConv<T>(p + q) && okConv<T>(p - q); });
	{
		const auto a0 = a; const auto b0 = b;
		each(a + b, [&](auto r, auto c) { return a0[r][c] + b0[r][c]; }, "add");
		each(a - b, [&](auto r, auto c) { return a0[r][c] - b0[r][c]; }, "sub");
		auto x = a;
		auto& p = (x += b);
		each(x, [&](auto r, auto c) { T t = a0[r][c]; t += b0[r][c]; return t; }, "add-assign");
		VH_CHECK((void*) &p == (void*) &x, "reference", "+=");
		x = a;
		auto& q = (x -= b);
		each(x, [&](auto r, auto c) { T t = a0[r][c]; t -= b0[r][c]; return t; }, "sub-assign");
		VH_CHECK((void*) &q == (void*) &x, "reference", "-=");
		VH_CHECK(equal(a, a0) && equal(b, b0), "arguments", "changed by + -");
		// comparison
		bool eq = true;
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) eq &= !(a[r][c] != b[r][c]);
		VH_CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq && (b != a) == !eq, "compare", "");
		bool self = true; // false for nan
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) self &= !(a[r][c] != a[r][c]);
		VH_CHECK((a == a) == self && (a != a) == !self, "compare", "with itself");
		auto s = random<R, C, T>(rng);
		auto t = s;
		VH_CHECK(s == t && !(s != t) && s == s, "compare", "same content");
		auto k = rng.below(R), l = rng.below(C);
		t[k][l] = t[k][l] == T(1) ? T(0) : T(1);
		VH_CHECK(s != t && !(s == t), "compare", "difference at " << k << ", " << l << " of " << R << "x" << C);
	}
	{ // scalar
		U f = small ? smallValue<U>(rng) : anyValue<U>(rng);
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) {
			if(!okMul(f, a[r][c]) || !okConv<T>(a[r][c] * f)) a[r][c] = smallValue<T>(rng);
			if(!okMul(f, a[r][c]) || !okConv<T>(a[r][c] * f)) a[r][c] = T(0);
			if(!okConv<T>(a[r][c] * f)) f = U(3);
		}
		bool ok = true;
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) ok &= okMul(f, a[r][c]) && okConv<T>(a[r][c] * f);
		if(!ok) { f = smallValue<U>(rng); fill(a, rng, true); }
		const auto a0 = a;
		each(f * a, [&](auto r, auto c) { return f * a0[r][c]; }, "scale");
		VH_CHECK(equal(a, a0), "arguments", "changed by f * a");
		auto& p = (a *= f);
		each(a, [&](auto r, auto c) { T t = a0[r][c]; t *= f; return t; }, "scale-assign");
		VH_CHECK((void*) &p == (void*) &a, "reference", "*=");
	}
}

template<std::size_t R, std::size_t C, typename T> void single(vh::Rng& rng) {
	vh::count("matrices");
	auto m = random<R, C, T>(rng);
	vh::nontrivial(hash(m) + R * 8 + C);
	const auto m0 = m;
	const auto& cm = m;
	VH_CHECK((Mat<R, C, T>::rows() == R) && (Mat<R, C, T>::cols() == C) && m.rows() == R && m.cols() == C, "dimension", "");
	auto n = -m;
	each(n, [&](auto r, auto c) { return T(-m0[r][c]); }, "neg");
	VH_CHECK(equal(m, m0), "arguments", "changed by negation");

	// access
	for(std::size_t r = 0; r < R; ++r) {
		VH_CHECK(&m[r] == &m.rows_[r] && &cm[r] == &m.rows_[r] && &m.at(r) == &m.rows_[r] && &cm.at(r) == &m.rows_[r], "row-access", "row " << r);
		for(std::size_t c = 0; c < C; ++c) VH_CHECK(&m.at(r, c) == &m.rows_[r][c] && &cm.at(r, c) == &m.rows_[r][c], "at", r << ", " << c);
	}
	auto out = [&](auto&& f) { try { f(); } catch(const std::out_of_range&) { return true; } return false; };
	const std::size_t bad[] = {0, 1, R - 1, C - 1, R, C, R + 1, C + 1, std::max(R, C), R * C, 255, 256, 256 + R, 65536, std::size_t(1) << 32, (std::size_t(1) << 32) + 1, std::size_t(1) << 63, std::size_t(-1), std::size_t(-2)};
	for(int k = 0; k < 4; ++k) {
		auto r = rng.pick(bad), c = rng.pick(bad);
		if(k == 0) r = R; if(k == 1) c = C; if(k == 2) r = R, c = C;
		bool o = r >= R || c >= C;
		VH_CHECK(out([&] { m.at(r, c); }) == o, "at-range", "(" << r << ", " << c << ") of " << R << "x" << C);
		VH_CHECK(out([&] { cm.at(r, c); }) == o, "at-range", "const (" << r << ", " << c << ") of " << R << "x" << C);
		VH_CHECK(out([&] { m.at(r); }) == (r >= R), "at-range", "row " << r << " of " << R << "x" << C);
		VH_CHECK(out([&] { cm.at(r); }) == (r >= R), "at-range", "const row " << r << " of " << R << "x" << C);
		vh::count("range_checks", 4);
	}
	VH_CHECK(equal(m, m0), "arguments", "changed by at");

	// aliasing
	auto kr = rng.below(R), kc = rng.below(C);
	auto x = m;
	x *= x[kr][kc];
	each(x, [&](auto r, auto c) { T t = m0[r][c]; t *= m0[kr][kc]; return t; }, "alias-scale");
	x = m;
	each(x[kr][kc] * x, [&](auto r, auto c) { return m0[kr][kc] * m0[r][c]; }, "alias-scale");
	x += x;
	each(x, [&](auto r, auto c) { T t = m0[r][c]; t += m0[r][c]; return t; }, "alias-add");
	x = m;
	x -= x;
	each(x, [&](auto r, auto c) { T t = m0[r][c]; t -= m0[r][c]; return t; }, "alias-sub");
	x = m;
	((x += m) -= m) *= T(1);
	VH_CHECK(x == m, "chain", "");

	// structure
	for(std::size_t c = 0; c < C; ++c) {
		auto v = nytl::col(cm, c);
		VH_CHECK((std::is_same_v<decltype(v), Vec<R, T>>), "col", "type");
		for(std::size_t r = 0; r < R; ++r) VH_CHECK(sameNum(v[r], m0[r][c]), "col", "column " << c << " row " << r);
		x = m;
		for(std::size_t r = 0; r < R; ++r) v[r] = smallValue<T>(rng);
		nytl::col(x, c, v);
		each(x, [&](auto r, auto k) { return k == c ? v[r] : m0[r][k]; }, "set-col");
	}
	for(int k = 0; k < 3; ++k) {
		auto i = rng.below(R), j = k ? rng.below(R) : i;
		x = m;
		nytl::swapRow(x, i, j);
		each(x, [&](auto r, auto c) { return m0[r == i ? j : r == j ? i : r][c]; }, "swapRow");
		i = rng.below(C), j = k ? rng.below(C) : i;
		x = m;
		nytl::swapCol(x, i, j);
		each(x, [&](auto r, auto c) { return m0[r][c == i ? j : c == j ? i : c]; }, "swapCol");
	}
	x = m;
	nytl::one(x);
	each(x, [&](auto, auto) { return T(1); }, "one");
	auto t = nytl::transpose(cm);
	VH_CHECK((std::is_same_v<decltype(t), Mat<C, R, T>>), "transpose", "type");
	each(t, [&](auto r, auto c) { return m0[c][r]; }, "transpose");

	{ // nothing is computed: the same for all values (infinite values, nan, smallest integers)
		const auto y0 = random<R, C, T>(rng, false);
		auto y = y0;
		auto i = rng.below(R), j = rng.below(R), k = rng.below(C), l = rng.below(C);
		nytl::swapRow(y, i, j);
		each(y, [&](auto r, auto c) { return y0[r == i ? j : r == j ? i : r][c]; }, "swapRow");
		y = y0;
		nytl::swapCol(y, k, l);
		each(y, [&](auto r, auto c) { return y0[r][c == k ? l : c == l ? k : c]; }, "swapCol");
		y = y0;
		nytl::col(y, k, nytl::col(y0, l));
		each(y, [&](auto r, auto c) { return y0[r][c == k ? l : c]; }, "set-col");
		each(nytl::transpose(y0), [&](auto r, auto c) { return y0[c][r]; }, "transpose");
		y = y0;
		nytl::one(y);
		each(y, [&](auto, auto) { return T(1); }, "one");
		if constexpr(R == C) {
			y = y0;
			nytl::identity(y);
			each(y, [&](auto r, auto c) { return r == c ? T(1) : T(0); }, "identity");
		}
	}

	// pivot
	if constexpr(std::is_signed_v<T> && std::is_arithmetic_v<T>) {
		for(int k = 0; k < 6; ++k) {
			auto p = random<R, C, T>(rng, true, k < 3 ? 2 : 50);
			if(k == 5) for(std::size_t r = 0; r < R; ++r) p[r][kc] = T(k % 2 ? -3 : 3);
			const auto p0 = p;
			auto row = rng.below(R), column = rng.below(C);
			bool after = rng.chance(1, 2);
			T got = nytl::pivot(p, row, column, after);
			T best = T(std::abs(p0[row][column]));
			for(std::size_t r = after ? row : 0; r < R; ++r) best = std::max(best, T(std::abs(p0[r][column])));
			VH_CHECK(T(std::abs(p[row][column])) == best && got == p[row][column], "pivot", "row " << row << " column " << column << (after ? " after" : "") << ": returned "
				<< show(got) << ", matrix has " << show(p[row][column]) << ", largest is " << show(best));
			// exactly two rows are exchanged
			bool found = p == p0;
			for(std::size_t r = after ? row : 0; r < R && !found; ++r) {
				auto q = p0;
				std::swap(q.rows_[r], q.rows_[row]);
				found = q == p;
			}
			VH_CHECK(found, "pivot", "not a swap of the given with another allowed row");
			vh::count("pivots");
		}
	}

	if constexpr(R == C) {
		x = m;
		nytl::identity(x);
		each(x, [&](auto r, auto c) { return r == c ? T(1) : T(0); }, "identity");
		auto id = nytl::identity<R, T>();
		each(id, [&](auto r, auto c) { return r == c ? T(1) : T(0); }, "identity");
		T tr = m0[0][0], pr = m0[0][0];
		for(std::size_t i = 1; i < R; ++i) tr += m0[i][i];
		VH_CHECK(nytl::trace(cm) == tr, "trace", show(nytl::trace(cm)) << " instead of " << show(tr));
		auto pm = m;
		for(std::size_t i = 0; i < R; ++i) if(R > 8 || rng.chance(1, 2)) pm[i][i] = i < 3 ? T(3) : T(1);
		pr = pm[0][0];
		for(std::size_t i = 1; i < R; ++i) pr *= pm[i][i];
		VH_CHECK(nytl::multiplyDiagonal(pm) == pr, "multiplyDiagonal", show(nytl::multiplyDiagonal(pm)) << " instead of " << show(pr));
		auto s = random<R, R, T>(rng, true, 3);
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < r; ++c) s[r][c] = s[c][r];
		VH_CHECK(nytl::symmetric(s), "symmetric", "symmetric matrix not recognized");
		for(int k = 0; k < 6 && R > 1; ++k) {
			auto y = s;
			auto r = rng.below(R), c = rng.below(R);
			if(r == c) { y[r][r] = T(5); VH_CHECK(nytl::symmetric(y), "symmetric", "diagonal entry"); continue; }
			y[r][c] = y[c][r] == T(1) ? T(0) : T(1);
			VH_CHECK(!nytl::symmetric(y), "symmetric", "difference at " << r << ", " << c << " not noticed");
		}
	}
}

// values for which every sum of products is exact
template<std::size_t R, std::size_t M, std::size_t C, typename T, typename U> void product(vh::Rng& rng) {
	auto a = random<R, M, T>(rng);
	auto b = random<M, C, U>(rng);
	const auto a0 = a; const auto b0 = b;
	vh::count("products");
	vh::nontrivial(hash(a) ^ (hash(b) + C));
	if(R < 5 && rng.chance(1, 300)) { std::ostringstream os; os << "product of " << R << "x" << M << " and " << M << "x" << C << ", a[0][0] = " << show(a[0][0]) << ", b[0][0] = " << show(b[0][0]); vh::sample(os.str(), 4); }
	using P = decltype(a[0][0] * b[0][0] + a[0][0] * b[0][0]);
	auto ab = [&](auto r, auto c) { P s = P(0); for(std::size_t i = 0; i < M; ++i) s += a0[r][i] * b0[i][c]; return s; };
	each(a * b, ab, "product", false);
	VH_CHECK(equal(a, a0) && equal(b, b0), "arguments", "changed by the product");
	Vec<M, U> v;
	for(std::size_t i = 0; i < M; ++i) v[i] = smallValue<U>(rng);
	const auto v0 = v;
	auto w = a * v;
	VH_CHECK((std::is_same_v<decltype(w), Vec<R, P>>), "mat-vec", "type");
	for(std::size_t r = 0; r < R; ++r) {
		P s = P(0);
		for(std::size_t i = 0; i < M; ++i) s += a0[r][i] * v0[i];
		VH_CHECK(w[r] == s, "mat-vec", R << "x" << M << " component " << r << ": " << show(w[r]) << " instead of " << show(s));
	}
	VH_CHECK(equal(a, a0) && equal(v, v0), "arguments", "changed by mat * vec");

	if constexpr(std::is_floating_point_v<T> && std::is_floating_point_v<U>) { // any values, up to rounding
		for(std::size_t r = 0; r < R; ++r) for(std::size_t i = 0; i < M; ++i) a[r][i] = T(rng.normal());
		for(std::size_t i = 0; i < M; ++i) for(std::size_t c = 0; c < C; ++c) b[i][c] = U(rng.normal());
		auto p = a * b;
		for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) {
			long double s = 0, m = 0;
			for(std::size_t i = 0; i < M; ++i) { s += (long double)a[r][i] * b[i][c]; m += std::fabs(a[r][i] * b[i][c]); }
			VH_CHECK(std::fabs(p[r][c] - s) <= m * (M + 1) * std::numeric_limits<P>::epsilon(), "product", "at " << r << ", " << c);
		}
	}
}

template<std::size_t D, typename T, typename U> void productAssign(vh::Rng& rng) {
	auto a = random<D, D, T>(rng, true, 5);
	auto b = random<D, D, U>(rng, true, 5);
	const auto a0 = a; const auto b0 = b;
	auto ab = [&](auto r, auto c) { T s = T(0); for(std::size_t i = 0; i < D; ++i) s += a0[r][i] * b0[i][c]; return s; };
	auto& ref = (a *= b);
	VH_CHECK((void*) &ref == (void*) &a, "reference", "mat *= mat");
	each(a, ab, "product-assign", false);
	VH_CHECK(equal(b, b0), "arguments", "changed by *=");
	a = a0;
	a *= a;
	auto aa = [&](auto r, auto c) { T s = T(0); for(std::size_t i = 0; i < D; ++i) s += a0[r][i] * a0[i][c]; return s; };
	each(a, aa, "alias-product", false);
	if constexpr(std::is_same_v<T, decltype(T{} * T{} + T{} * T{})>) {
		a = a0;
		a = a * a;
		each(a, aa, "alias-product", false);
		if constexpr(std::is_same_v<T, U>) {
			auto x = b0;
			x = a0 * x;
			each(x, ab, "alias-product", false);
		}
	}
	vh::nontrivial(hash(a0) ^ hash(b0));
}

template<std::size_t R, std::size_t C, typename T, std::size_t OR, std::size_t OC, typename OT> void convert(vh::Rng& rng) {
	Mat<R, C, T> m;
	for(std::size_t r = 0; r < R; ++r) for(std::size_t c = 0; c < C; ++c) { m[r][c] = anyValue<T>(rng); if(!okConv<OT>(m[r][c])) m[r][c] = T(rng.below(9)) / 2; }
	const auto m0 = m;
	alignas(64) unsigned char mem[sizeof(Mat<OR, OC, OT>)];
	std::memset(mem, 0x5a, sizeof(mem));
	auto& x = *new(mem) Mat<OR, OC, OT>(m);
	each(x, [&](auto r, auto c) { OT t {}; if(r < R && c < C) t = m0[r][c]; return t; }, "convert");
	each(static_cast<Mat<OR, OC, OT>>(m0), [&](auto r, auto c) { OT t {}; if(r < R && c < C) t = m0[r][c]; return t; }, "convert");
	VH_CHECK(equal(m, m0), "arguments", "changed by conversion");
	vh::nontrivial(rng.next());
}
template<std::size_t R, std::size_t C, typename T, typename OT> void converts(vh::Rng& r) {
	convert<R, C, T, 1, 1, OT>(r); convert<R, C, T, 2, 2, OT>(r); convert<R, C, T, 3, 3, OT>(r); convert<R, C, T, 4, 4, OT>(r);
	convert<R, C, T, 2, 3, OT>(r); convert<R, C, T, 3, 2, OT>(r); convert<R, C, T, 5, 1, OT>(r); convert<R, C, T, 1, 6, OT>(r);
}
template<typename T, typename OT> void convertsAll(vh::Rng& r) {
	converts<1, 1, T, OT>(r); converts<2, 2, T, OT>(r); converts<3, 3, T, OT>(r); converts<4, 4, T, OT>(r); converts<2, 4, T, OT>(r); converts<4, 2, T, OT>(r); converts<3, 1, T, OT>(r);
}

template<typename T, typename U> void els(vh::Rng& r) {
	elementwise<1, 1, T, U>(r); elementwise<2, 2, T, U>(r); elementwise<3, 3, T, U>(r); elementwise<4, 4, T, U>(r);
	elementwise<2, 3, T, U>(r); elementwise<4, 2, T, U>(r); elementwise<1, 5, T, U>(r); elementwise<5, 1, T, U>(r);
}
template<typename T> void singles(vh::Rng& r) {
	single<1, 1, T>(r); single<2, 2, T>(r); single<3, 3, T>(r); single<4, 4, T>(r); single<5, 5, T>(r); single<2, 3, T>(r); single<3, 2, T>(r); single<4, 3, T>(r); single<1, 4, T>(r); single<4, 1, T>(r);
}
template<typename T, typename U> void prods(vh::Rng& r) {
	product<1, 1, 1, T, U>(r); product<2, 2, 2, T, U>(r); product<3, 3, 3, T, U>(r); product<4, 4, 4, T, U>(r); product<2, 3, 4, T, U>(r); product<4, 3, 2, T, U>(r);
	product<3, 1, 3, T, U>(r); product<1, 4, 1, T, U>(r); product<1, 2, 3, T, U>(r); product<3, 2, 1, T, U>(r); product<5, 6, 7, T, U>(r); product<2, 4, 2, T, U>(r); product<4, 2, 4, T, U>(r);
}
template<typename T, typename U> void assigns(vh::Rng& r) { productAssign<1, T, U>(r); productAssign<2, T, U>(r); productAssign<3, T, U>(r); productAssign<4, T, U>(r); productAssign<6, T, U>(r); }

int main(int argc, char** argv) {
	vh::init(argc, argv);
#define EL(T, U) vh::section("elementwise-" #T "-" #U, 1000, 100000, [](vh::Rng& r, std::uint64_t) { els<T, U>(r); });
#define SI(T) vh::section("single-" #T, 400, 30000, [](vh::Rng& r, std::uint64_t) { singles<T>(r); });
#define PR(T, U) vh::section("product-" #T "-" #U, 400, 40000, [](vh::Rng& r, std::uint64_t) { prods<T, U>(r); });
#define AS(T, U) vh::section("product-assign-" #T "-" #U, 400, 40000, [](vh::Rng& r, std::uint64_t) { assigns<T, U>(r); });
#define CO(T, U) vh::section("convert-" #T "-" #U, 300, 40000, [](vh::Rng& r, std::uint64_t) { convertsAll<T, U>(r); });
	using cd = std::complex<double>;
#if PART == 0
	EL(float, float) EL(double, double) EL(int, int) EL(unsigned, unsigned)
#elif PART == 1
	EL(int, double) EL(float, double) EL(double, int) EL(cd, cd) EL(NC, NC) EL(int64_t, int)
#elif PART == 2
	SI(int) SI(float)
#elif PART == 3
	SI(double) SI(int64_t)
#elif PART == 4
	SI(cd) SI(NC) SI(uint8_t)
#elif PART == 5
	PR(float, float) PR(double, double) PR(int, int)
#elif PART == 6
	PR(int, double) PR(cd, cd) PR(NC, NC) PR(uint8_t, uint8_t) PR(float, double)
#elif PART == 7
	AS(float, float) AS(double, double) AS(int, int) AS(double, int) AS(cd, cd) AS(NC, NC) AS(int64_t, int)
	CO(int, double) CO(double, int) CO(float, double) CO(double, float) CO(uint8_t, int) CO(bool, double)
	vh::section("large", 12, 600, [](vh::Rng& r, std::uint64_t) {
		single<40, 40, int>(r); single<300, 2, double>(r); single<2, 300, int>(r); elementwise<260, 3, int, int>(r); product<3, 300, 2, double, double>(r); product<260, 2, 260, int, int>(r);
		convert<300, 2, int, 280, 3, double>(r); convert<2, 300, int, 2, 280, int>(r); productAssign<32, double, double>(r);
	});
#endif
	return vh::finish();
}
