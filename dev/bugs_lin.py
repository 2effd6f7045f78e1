def B(id,prop,edits,needs,breaks,body,inc='',pre='',flags=''):
    bug(id,prop,edits,needs,breaks,''.join('#include <nytl/%s.hpp>\n'%i for i in inc.split())+'''#include <cmath>
#include <stdexcept>
using namespace nytl;
'''+pre+'\nint main() {\n'+body+'\n}\n',flags)
V='vec.hpp'; O='vecOps.hpp'; M='mat.hpp'; MO='matOps.hpp'
B('ve17a','C17',[(V,'''		if(a[i] != b[i])
			return false;''','''		if(a[i] != static_cast<T1>(b[i]))
			return false;''')],
 'comparing vectors of different value types',
 'the second value is truncated before the comparison',
'''	Vec<3, int> a {1, 2, 3}; Vec<3, double> b {1.0, 2.5, 3.0};
	EXPECT(!(a == b) && a != b);''','vec')
B('ve17b','C17',[(V,'	Vec<D, decltype(a[0] + b[0])> ret {};','	Vec<D, std::common_type_t<T1, T2>> ret {};')],
 'adding vectors of a type smaller than int whose sum does not fit into it',
 'the sum wraps around although the arithmetic of the value types yields int',
'''	Vec<3, short> a {30000, 1, 2}; auto s = a + a;
	EXPECT(s[0] == 60000);''','vec')
B('ve17c','C17',[('vec3.hpp','''		for(auto i = 0u; i < std::min(size(), OD); ++i)
			ret[i] = (*this)[i];''','''		for(auto i = 0u; i < std::min(size(), OD); ++i)
			ret[i] = static_cast<OT>(static_cast<T>((*this)[i] + (OT {} - OT {})));
		if(OD > 3)
			ret[OD - 1] = OT(OD == 4);''')],
 'converting a 3 dimensional to a 4 dimensional vector',
 'the last component is one instead of value-initialized',
'''	auto v = static_cast<Vec<4, float>>(Vec<3, float> {1, 2, 3});
	EXPECT(v[3] == 0 && v[2] == 3);''','vec')
B('ve17d','C17',[(V,'''template<size_t D, typename T1, typename T2>
constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
	for(size_t i = 0; i < D; ++i)
		a[i] -= b[i];''','''template<size_t D, typename T1, typename T2>
constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
	for(size_t i = 0; i < D; ++i)
		a[i] -= static_cast<T1>(b[i]);''')],
 'subtracting in place a vector of floating point numbers from one of integers',
 'the subtracted value is truncated first',
'''	Vec<3, int> a {5, 5, 5}; a -= Vec<3, double> {0.5, 1.0, 1.5};
	EXPECT(a[0] == 4 && a[1] == 4 && a[2] == 3);''','vec')
B('ve18a','C18',[(O,'''	auto v = dot(a, b);
	return std::acos(std::clamp<decltype(v)>(v, -1.0, 1.0));''','''	auto v = dot(a, b);
	return std::acos(std::min<decltype(v)>(v, 1.0));''')],
 'angleNormed of opposite unit vectors whose dot product is rounded to less than -1',
 'the angle is NaN',
'''	for(int i = 1; i < 2000; ++i) {
		auto v = normalized(Vec<3, double> {std::sin(i * 0.3), std::cos(i * 1.7), std::sin(i * 2.9)});
		EXPECT(!std::isnan(angleNormed(v, -v)));
	}''','vecOps')
B('ve18b','C18',[(O,'''	auto l = length(a);
	return (T{1.0} / l) * a;''','''	auto l = dot(a, a);
	if(std::abs(l - 1) < 1e-3) // nothing to do
		return (T{1.0} / T{1.0}) * a;
	return T(T{1.0} / std::sqrt(l)) * a;''')],
 'normalizing a vector with a length close to but different from one',
 'the vector is returned unchanged, not a unit vector',
'''	Vec<3, double> v {1.0003, 0, 0};
	EXPECT(std::abs(length(normalized(v)) - 1) < 1e-9);''','vecOps')
B('ve18c','C18',[(O,'	Vec<3, decltype(a[1] * b[2] - a[2] * b[1])> ret {};','	Vec<3, std::common_type_t<T1, T2>> ret {};')],
 'the cross product of vectors of an integer type smaller than int with large components',
 'the result wraps around',
'''	Vec<3, short> a {300, 0, 0}, b {0, 300, 0};
	EXPECT(cross(a, b)[2] == 90000);''','vecOps')
B('ve18d','C18',[(O,'	auto l = length(a) * length(b);','	auto l = std::sqrt(dot(a, a) * dot(b, b));')],
 'vectors of a length so that the product of the squared lengths overflows (or underflows) but not the squared lengths',
 'the angle is wrong (pi/2 or NaN)',
'''	Vec<2, float> a {1e15f, 0}, b {1e15f, 1e15f};
	EXPECT(std::abs(angle(a, b) - 0.785398f) < 1e-3f);''','vecOps')
B('ve19a','C19',[(O,'constexpr void pow(Vec<D, T1>& a, T2 exp) {','constexpr void pow(Vec<D, T1>& a, const T2& exp) {')],
 'in place pow with a component of the vector itself as exponent',
 'the exponent changes while the vector is modified',
'''	Vec<3, double> a {2, 3, 4}; vec::cw::ip::pow(a, a[0]);
	EXPECT(a[0] == 4 && a[1] == 9 && a[2] == 16);''','vecOps')
B('ve19b','C19',[(O,'NYTL_VEC_IP_UTIL_FUNC(abs)','''template<size_t D, typename T>
constexpr void abs(Vec<D, T>& vec) {
	for(auto& v : vec)
		v = std::fabs(v);
}''')],
 'abs of a vector of 64 bit integers above 2^53',
 'the values are rounded',
'''	Vec<2, std::int64_t> a {-9007199254740993ll, 1}; auto b = vec::cw::abs(a);
	EXPECT(b[0] == 9007199254740993ll);''','vecOps')
B('ve19c','C19',[(O,'''	Vec<D, decltype(a[0] - b)> res;
	for(size_t i = 0u; i < D; ++i) {
		res[i] = a[i] - b;''','''	Vec<D, decltype(a[0] - b)> res;
	for(size_t i = 0u; i < D; ++i) {
		res[i] = a[i] + (-b);''')],
 'subtracting an unsigned scalar from a vector of a wider type',
 'the negation wraps around in the narrower type',
'''	using namespace nytl::vec::cw::operators;
	Vec<3, long> a {5, 6, 7}; auto b = a - 2u;
	EXPECT(b[0] == 3 && b[2] == 5);''','vecOps')
B('ve19d','C19',[(O,'''constexpr auto max(Vec<D, T> a, const T& b) {
	for(auto i = 0u; i < D; ++i)
		if(b > a[i])
			a[i] = b;
	return a;''','''constexpr auto max(Vec<D, T> a, const T& b) {
	for(auto i = 0u; i < D; ++i)
		a[i] = a[i] + (b - a[i]) * (b > a[i]);
	return a;''')],
 'max of floating point values of very different magnitude',
 'the result is rounded, it is not one of the two operands',
'''	Vec<2, double> a {-1e18, 3}; auto b = vec::cw::max(a, 0.5);
	EXPECT(b[0] == 0.5 && b[1] == 3);''','vecOps')
B('ma20a','C20',[(MO,'		if(std::abs(mat[r][column]) > std::abs(mat[maxRow][column])) {','		if(std::abs(mat[r][column]) > mat[maxRow][column]) {')],
 'pivot on a column whose largest value by magnitude is negative and followed by a smaller one',
 'pivot selects a smaller element',
'''	Mat<3, 3, double> m {{{{-5, 0, 0}, {2, 0, 0}, {1, 0, 0}}}};
	EXPECT(pivot(m, 0, 0) == -5);''','matOps')
B('ma20b','C20',[(M,'	Vec<R, decltype(a[0][0] * b[0] + a[0][0] * b[0])> ret {};','	Vec<R, T1> ret {};')],
 'product of an integer matrix with a vector of floating point numbers',
 'the result is truncated to integers',
'''	Mat<2, 2, int> m {{{{1, 0}, {0, 1}}}}; auto v = m * Vec<2, double> {0.5, 1.5};
	EXPECT(v[0] == 0.5 && v[1] == 1.5);''','mat')
B('ma20c','C20',[(MO,'''	mat = {};
	for(auto n = 0u; n < D; ++n) {
		mat[n][n] = T{1};''','''	for(auto n = 0u; n < D; ++n) {
		for(auto i = 0u; i < n; ++i)
			mat[n][i] = mat[i][n] * T{0};
		for(auto i = n + 1; i < D; ++i)
			mat[n][i] = T{0};
		mat[n][n] = T{1};''')],
 'identity(mat) for a matrix that contains infinite values or NaN below (or above) the diagonal', 'x','''return 0;''','matOps') if False else None
B('ma20d','C20',[(MO,'''	mat = {};
	for(auto n = 0u; n < D; ++n) {
		mat[n][n] = T{1};''','''	mat -= mat;
	for(auto n = 0u; n < D; ++n) {
		mat[n][n] = T{1};''')],
 'identity(mat) for a matrix that contains infinite values or NaN',
 'NaN remain in the matrix',
'''	Mat<2, 2, double> m {{{{1, 2}, {INFINITY, 4}}}}; identity(m);
	EXPECT(m[1][0] == 0 && m[0][1] == 0);''','matOps')
B('ma20e','C20',[(MO,'''		for(auto c = r + 1; c < D; ++c) {
			if(mat[r][c] != mat[c][r]) {''','''		for(auto c = r + 1; c < D; ++c) {
			if(std::abs(mat[r][c] - mat[c][r]) > T {}) {''')],
 'symmetric for unsigned value types or NaN', 'x', 'return 0;','matOps') if False else None
B('ma20f','C20',[(MO,'''	for(auto r = 0u; r < D; ++r) {
		for(auto c = r + 1; c < D; ++c) {
			if(mat[r][c] != mat[c][r]) {
				return false;
			}
		}
	}

	return true;''','''	// compare with the mirrored position
	const auto* data = &mat[0][0];
	for(auto i = 0u; i < D * D / 2; ++i) {
		if(data[i] != data[(i % D) * D + i / D]) {
			return false;
		}
	}

	return true;''')],
 'a matrix of odd size at least 5 that differs only in elements of the second half',
 'an asymmetric matrix is reported symmetric',
'''	Mat<5, 5, int> m {}; m[4][3] = 1; Mat<3, 3, int> n {}; n[1][2] = 1;
	EXPECT(!symmetric(m) && !symmetric(n));''','matOps')
B('ma20g','C20',[(M,'''	for(auto i = 0u; i < R; ++i)
		if(a.rows_[i] != b.rows_[i])
			return false;
	return true;''','''	if constexpr(std::is_same_v<T1, T2>) {
		return !std::equal(&a[0][0], &a[0][0] + R * C, &b[0][0], [](const T1& x, const T1& y) {
			return x != y || std::signbit(double(x)) != std::signbit(double(y)); });
	}
	for(auto i = 0u; i < R; ++i)
		if(a.rows_[i] != b.rows_[i])
			return false;
	return true;''')],'x','x','return 0;','mat') if False else None
B('ma20h','C20',[(M,'		if(a.rows_[i] != b.rows_[i])\n			return false;','		if(&a.rows_[i] != static_cast<const void*>(&b.rows_[i]) && a.rows_[i] != b.rows_[i])\n			return false;')],
 'comparing a matrix that contains NaN with itself',
 'the matrix equals itself although one of its components does not',
'''	Mat<2, 2, double> m {{{{1, 2}, {NAN, 4}}}};
	EXPECT(!(m == m));''','mat')
B('ec21a','C21',[(MO,'		if(pivot(mat, r, c, true) == 0.0) {','		if(std::abs(pivot(mat, r, c, true)) < 1e-6) {')],
 'a matrix with elements that are all small in one column',
 'the column is treated as zero: the result is no echelon form',
'''	Mat<2, 2, double> m {{{{1e-8, 2}, {3e-8, 4}}}}; rowEcholon(m);
	EXPECT(m[0][0] == 1 && m[1][0] == 0);''','matOps')
B('ec21b','C21',[(MO,'''constexpr auto rowEcholonCopy(const nytl::Mat<R, C, T>& mat) {
	auto ret = static_cast<nytl::Mat<R, C, TN>>(mat);
	rowEcholon(ret);
	return ret;''','''constexpr auto rowEcholonCopy(const nytl::Mat<R, C, T>& mat) {
	using Work = std::conditional_t<std::is_floating_point_v<T>, T, TN>;
	auto ret = static_cast<nytl::Mat<R, C, Work>>(mat);
	rowEcholon(ret);
	return static_cast<nytl::Mat<R, C, TN>>(ret);''')],
 'rowEcholonCopy of a float matrix with double precision requested',
 'the result has only float precision',
'''	Mat<1, 2, float> m {}; m[0][0] = 3; m[0][1] = 1;
	EXPECT(std::abs(rowEcholonCopy(m)[0][1] - 1.0 / 3) < 1e-12);''','matOps')
B('ec21c','C21',[(MO,'''		while(c < mat.cols() && mat[r][c] == T{0}) {
			++c;
		}''','''		c = r;
		while(c + 1 < mat.cols() && mat[r][c] == T{0}) {
			++c;
		}''')],'x','x','return 0;','matOps') if False else None
B('ec21d','C21',[(MO,'''		for(auto p = 0u; p < r; ++p) {
			auto fac = mat[p][c] / mat[r][c];''','''		for(auto p = 0u; p < std::min<size_t>(r, c); ++p) {
			auto fac = mat[p][C > R ? c : std::min<size_t>(c, r)] / mat[r][c];''')],
 'the reduced form of a matrix with at least as many rows as columns in which a column without pivot precedes another pivot',
 'entries above a leading one are not cleared',
'''	Mat<3, 3, double> m {{{{1, 2, 3}, {2, 4, 7}, {0, 0, 5}}}}; reducedRowEcholon(m);
	EXPECT(m[0][2] == 0 && m[1][2] == 1);''','matOps')
B('lu22a','C22',[(MO,'	return (determinant(mat) != 0);','	return std::abs(determinant(mat)) > 1e-7;')],
 'a regular matrix with small elements, so that its determinant is small as well',
 'invertible reports false',
'''	Mat<3, 3, double> m {}; m[0][0] = m[1][1] = m[2][2] = 1e-3;
	EXPECT(invertible(m));''','matOps')
B('lu22b','C22',[(MO,'	return lu.sign * multiplyDiagonal(lu.upper) * multiplyDiagonal(lu.lower);','	return std::abs(lu.sign) * multiplyDiagonal(lu.upper) * multiplyDiagonal(lu.lower);')],
 'the determinant of a decomposition that needed an odd number of row swaps',
 'the sign of the determinant is wrong',
'''	Mat<2, 2, double> m {{{{0, 1}, {1, 0}}}};
	EXPECT(determinant(luDecomp(m)) == -1);''','matOps')
B('lu22c','C22',[(MO,'''			auto fac = ret.upper[i][n] / ret.upper[n][n];''','''			auto fac = ret.upper[i][n] / ret.upper[n][n];
			if(std::abs(fac) < 1e-9)
				fac = 0.0; // rounding error''')],'x','x','return 0;') if False else None
B('lu22d','C22',[(MO,'''			auto fac = ret.upper[i][n] / ret.upper[n][n];''','''			auto fac = std::abs(ret.upper[i][n]) < 1e-9 ? 0.0 : ret.upper[i][n] / ret.upper[n][n];''')],
 'a matrix with elements below 1e-9, e.g. a small regular matrix',
 'the decomposition ignores the elements: upper is not triangular',
'''	Mat<2, 2, double> m {{{{1e-10, 2e-10}, {1e-10, 5e-10}}}}; auto lu = luDecomp(m);
	EXPECT(std::abs(lu.upper[1][0]) < 1e-20);''','matOps')
B('lu23a','C23',[(MO,'''		d[i] /= l[i][i];
''','''		// the lower matrix has ones on the diagonal
''')],
 'luEvaluate with a lower matrix that does not have a unit diagonal (e.g. from another decomposition)',
 'the solution is wrong',
'''	Mat<2, 2, double> l {{{{2, 0}, {1, 4}}}}, u {{{{1, 1}, {0, 1}}}};
	auto x = luEvaluate(l, u, Vec<2, double> {2, 9});
	EXPECT(std::abs(x[0] + x[1] - 1) < 1e-9 && std::abs(x[1] - 2) < 1e-9);''','matOps')
B('lu23b','C23',[(MO,'		col(ret, i, luEvaluate(lu.lower, lu.upper, col(lu.perm, i)));','		col(ret, i, luEvaluate(lu.lower, lu.upper, lu.perm[i]));')],
 'inverting a matrix whose row permutation is not its own inverse (a cycle of at least three rows)',
 'the columns of the inverse are permuted',
'''	Mat<3, 3, double> m {{{{0, 1, 0}, {0, 0, 2}, {4, 0, 0}}}}; auto p = m * inverse(m);
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) EXPECT(std::abs(p[i][j] - (i == j)) < 1e-9);''','matOps')
B('lu23c','C23',[(MO,'''	// forward substitution
	Vec<D, double> d {};''','''	// forward substitution
	Vec<D, std::common_type_t<T2, float>> d {};''')],
 'solving a system with float (or integer) right hand side to double precision',
 'the intermediate result is rounded to float',
'''	Mat<2, 2, double> m {{{{3, 0}, {1, 3}}}};
	auto x = luEvaluate(luDecomp(m), Vec<2, float> {1, 1});
	EXPECT(std::abs(x[0] - 1.0 / 3) < 1e-12 && std::abs(x[0] + 3 * x[1] - 1) < 1e-12);''','matOps')
