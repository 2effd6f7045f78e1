V='vec.hpp'; O='vecOps.hpp'; M='mat.hpp'; MO='matOps.hpp'; Q='quaternion.hpp'; T='transform.hpp'; R='rectOps.hpp'; MA='math.hpp'; A='approx.hpp'; AV='approxVec.hpp'; F='flags.hpp'
edit(O,'''	decltype(a[0] * b[0] + a[0] * b[0]) ret {0};
	for(auto i = 0u; i < D; ++i)
		ret += a[i] * b[i];

	return ret;''','''	decltype(a[0] * b[0] + a[0] * b[0]) ret {0};
	for(auto i = D; i-- > 0;)
		ret = ret + a[i] * b[i];

	return ret;''')
edit(O,'''	auto l = length(a) * length(b);
''','''	auto l = std::sqrt(dot(a, a)) * std::sqrt(dot(b, b));
''')
edit(O,'''	auto v = dot(a, b) / l;
	return std::acos(std::clamp<decltype(v)>(v, -1.0, 1.0));''','''	auto v = dot(a, b) / l;
	if(v > 1.0) v = 1.0;
	if(v < -1.0) v = -1.0;
	return std::acos(v);''')
edit(O,'''	auto l = length(a);
	return (T{1.0} / l) * a;''','''	auto ret = a;
	normalize(ret);
	return ret;''') if False else None
edit(O,'	return mirror + (mirror - point);','	return 2 * mirror - point;') if False else None
edit(O,'''	ret[0] = (a[1] * b[2]) - (a[2] * b[1]);
	ret[1] = (a[2] * b[0]) - (a[0] * b[2]);
	ret[2] = (a[0] * b[1]) - (a[1] * b[0]);
	return ret;''','''	for(auto i = 0u; i < 3; ++i) {
		const auto j = (i + 1) % 3, k = (i + 2) % 3;
		ret[i] = a[j] * b[k] - a[k] * b[j];
	}
	return ret;''')
edit(O,'''template<size_t D, typename T>
constexpr auto max(Vec<D, T> a, const Vec<D, T>& b) {
	for(auto i = 0u; i < D; ++i)
		if(b[i] > a[i])
			a[i] = b[i];
	return a;''','''template<size_t D, typename T>
constexpr auto max(Vec<D, T> a, const Vec<D, T>& b) {
	for(auto i = 0u; i < D; ++i)
		a[i] = std::max(a[i], b[i]);
	return a;''')
edit(MO,'''	for(auto r = 0u, c = 0u; r < R && c < C; ++c) {''','''	auto r = 0u;
	for(auto c = 0u; c < C; ++c) {
		if(r >= R) break;''')
edit(MO,'''		for(auto i = r + 1; i < R; ++i) {
			auto fac = mat[i][c];
			for(auto j = c; j < C; ++j) {
				mat[i][j] -= fac * mat[r][j];
			}
		}

		++r; // go to the next row''','''		for(auto i = R - 1; i > r; --i) {
			const auto fac = mat[i][c];
			for(auto j = C; j-- > c;) {
				mat[i][j] = mat[i][j] - mat[r][j] * fac;
			}
		}

		r += 1;''')
edit(MO,'''	auto [l, u, p, s] = luDecomp(mat);
	unused(l, p);
''','''	const auto lu = luDecomp(mat);
	const auto& u = lu.upper;
	const auto s = lu.sign;
''')
edit(MO,'''	return lu.sign * multiplyDiagonal(lu.upper) * multiplyDiagonal(lu.lower);''','''	auto ret = multiplyDiagonal(lu.upper);
	ret *= lu.sign;
	return ret;''')
edit(MO,'''		col(ret, i, luEvaluate(lu.lower, lu.upper, col(lu.perm, i)));''','''		Vec<D, T> e {};
		e[i] = T{1};
		const auto x = luEvaluate(lu, e);
		for(auto j = 0u; j < D; ++j) ret[j][i] = x[j];''')
edit(MO,'''			ret.upper[i] = ret.upper[i] - fac * ret.upper[n];
''','''			for(auto k = n; k < D; ++k) ret.upper[i][k] -= fac * ret.upper[n][k];
''') if False else None
edit(Q,'''	Vec3d u {q.x, q.y, q.z};
	auto r = 2.0 * dot(u, v) * u
		+ (q.w * q.w - dot(u, u)) * v
		+ 2.0 * q.w * cross(u, v);
	return Vec3<T>(r);''','''	const Vec3d u {q.x, q.y, q.z}, d {double(v[0]), double(v[1]), double(v[2])};
	const auto t = 2.0 * cross(u, d);
	return Vec3<T>(d + q.w * t + cross(u, t));''')
edit(Q,'''	ret[0][0] = 1 - 2 * (yy + zz);''','''	ret[0][0] = q.w * q.w + xx - yy - zz;''')
edit(Q,'''	auto l = norm(q);
	if(l <= 0.0) return {0.0, 0.0, 0.0, 1.0};
	return {q.x / l, q.y / l, q.z / l, q.w / l};''','''	const auto l = norm(q);
	if(l <= 0.0) return Quaternion {};
	const auto f = 1.0 / l;
	return f * q;''')
edit(Q,'''    double s0 = cos(theta) - d * sinTheta / sinTheta0; // sin(theta0 - theta) / sin(theta0)''','''    double s0 = std::sin(theta0 - theta) / sinTheta0;''')
edit(Q,'''	constexpr auto dotThreshold = 0.9995;''','''	constexpr auto dotThreshold = 0.9999;''')
edit(T,'''	const auto c = std::cos(angle);
	return c * v
		+ std::sin(angle) * cross(axis, v)
		+ dot(axis, v) * (P(1.0) - c) * axis;''','''	return rotateMat<3, P>(axis, angle) * v;''') if False else edit(T,'''	const auto c = std::cos(angle);
	return c * v
		+ std::sin(angle) * cross(axis, v)
		+ dot(axis, v) * (P(1.0) - c) * axis;''','''	const auto c = std::cos(angle);
	const auto s = std::sin(angle);
	const auto along = dot(axis, v) * axis;
	return along + c * (v - along) + s * cross(axis, v);''')
edit(T,'''	const auto t = (P(1.0) - c) * r;
''','''	const auto h = std::sin(angle / P(2.0));
	const auto t = (P(2.0) * h * h) * r;
''')
edit(T,'''	ret[2][2] = far / (far - near);

	ret[0][2] = (right + left) / (left - right);
	ret[1][2] = (top + bot) / (bot - top);
	ret[3][2] = 1;

	ret[2][3] = -(far * near) / (far - near);''','''	const auto depth = far - near;
	ret[2][2] = far / depth;

	ret[0][2] = -(left + right) / (right - left);
	ret[1][2] = -(bot + top) / (top - bot);
	ret[3][2] = 1;

	ret[2][3] = -near * (far / depth);''')
edit(T,'''	const auto x = normalized(cross(up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<4, P>();

	ret[0] = Vec4<P>(x);
	ret[1] = Vec4<P>(y);
	ret[2] = Vec4<P>(z);
''','''	auto ret = lookAt<4, P>(z, up);
	const auto x = Vec3<P>(ret[0]), y = Vec3<P>(ret[1]);
''') if False else edit(T,'''	return perspective(fov, aspect, far, near);''','''	auto ret = perspective(fov, aspect, far, near);
	return ret;''')
edit(T,'''	mat[Axis] = -mat[Axis];''','''	for(auto c = 0u; c < D; ++c) mat[Axis][c] *= P(-1);''')
edit(R,'''	return rect.position + (0.5 * rect.size);''','''	auto half = 0.5 * rect.size;
	return half + rect.position;''')
edit(R,'''		if(rect.position[i] > point[i]) return false;
		if(rect.position[i] + rect.size[i] < point[i]) return false;''','''		const auto end = rect.position[i] + rect.size[i];
		const bool inside = point[i] >= rect.position[i] && point[i] <= end;
		if(!inside) return false;''')
edit(R,'''	auto pos = vec::cw::max(a.position, b.position);
	auto end = vec::cw::min(a.position + a.size, b.position + b.size);
''','''	auto pos = vec::cw::max(b.position, a.position);
	auto end = vec::cw::min(b.position + b.size, a.position + a.size);
''')
edit(MA,'''	return t * t * (3 - 2 * t);''','''	return 3 * t * t - 2 * t * t * t;''')
edit(MA,'''	return (n <= 1ul) ? 1ul : n * factorial(n - 1);''','''	unsigned long ret = 1;
	for(unsigned long i = 2; i <= n; ++i) ret *= i;
	return ret;''')
edit(MA,'''	return rad / constants::degree;''','''	return rad * 180.0 / constants::pi;''')
edit(MA,'''	return (1 - a) * x + a * y;''','''	return a * y + (1 - a) * x;''')
edit(A,'''		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);''','''		const auto tolerance = rhs.epsilon + rhs.epsilon * max;
		return std::abs(rhs.value - lhs) < tolerance;''')
edit(F,'''	constexpr Flags operator^(const Flags& r) const noexcept { return Flags(r) ^= *this; }''','''	constexpr Flags operator^(const Flags& r) const noexcept { Flags ret(*this); ret ^= r; return ret; }''')
edit(V,'''template<size_t D, typename T1, typename T2>
constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
	for(size_t i = 0; i < D; ++i)
		a[i] -= b[i];''','''template<size_t D, typename T1, typename T2>
constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
	for(auto i = D; i != 0; --i)
		a[i - 1] -= b[i - 1];''')
