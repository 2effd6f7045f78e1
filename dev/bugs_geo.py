def B(id,prop,edits,needs,breaks,body,inc='',pre='',flags=''):
    bug(id,prop,edits,needs,breaks,''.join('#include <nytl/%s.hpp>\n'%i for i in inc.split())+'''#include <cmath>
#include <stdexcept>
using namespace nytl;
'''+pre+'\nint main() {\n'+body+'\n}\n',flags)
Q='quaternion.hpp'; T='transform.hpp'; R='rectOps.hpp'
NEAR='''static bool near(double a, double b, double e = 1e-9) { return std::abs(a - b) <= e; }
static bool same(Quaternion a, Quaternion b, double e = 1e-9) {
	return std::abs(std::abs(dot(a, b)) - norm(a) * norm(b)) < e && near(norm(a), norm(b), e); }
'''
B('qu24a','C24',[(Q,'''		*this = {nx, ny, nz, nw};
		return *this;''','''		x = nx; y = ny; z = nz;
		w = w * rhs.w - nx * rhs.x - ny * rhs.y - nz * rhs.z;
		return *this;'''),(Q,'''		auto nw = w * rhs.w - x * rhs.x - y * rhs.y - z * rhs.z;
''','')],'any product of two proper rotations around different axes','the real part uses the already overwritten components',
'''	auto a = Quaternion::axisAngle(1, 0, 0, 1.0), b = Quaternion::axisAngle(0, 1, 0, 2.0);
	EXPECT(near(norm(a * b), 1.0));''','quaternion',NEAR)
B('qu24b','C24',[(Q,'			if(m[0][0] < -m[1][1]){','			if(m[0][0] < -m[1][1] && t0 <= 0){'),(Q,'''		double t;
		Quaternion q;''','''		double t, t0 = m[0][0] + m[1][1] + m[2][2] + 0.01;
		Quaternion q;''')],'a rotation by nearly 180 degrees (trace slightly above -0.01) around an axis near z','a branch with cancellation is used and the quaternion is inaccurate or NaN',
'''	for(int i = -200; i < 200; ++i) {
		auto a = 3.14159265358979 + i * 0.0011;
		auto q = Quaternion::axisAngle(0, 0, 1, a);
		auto r = Quaternion::fromMat(toMat<3, float>(q));
		EXPECT(!std::isnan(r.w) && same(r, q, 1e-6));
	}
	for(int i = -200; i < 200; ++i) {
		auto a = 3.14159265358979 + i * 0.0011;
		auto q = normalized(Quaternion::axisAngle(0.6, 0, 0.8, a));
		auto r = Quaternion::fromMat(toMat<3, float>(q));
		EXPECT(!std::isnan(r.w) && same(r, q, 1e-6));
	}
	for(int i = 0; i < 4000; ++i) {
		auto x = i * 0.0004;
		auto ax = std::sin(x), az = std::cos(x);
		auto q = Quaternion::axisAngle(0, ax, az, 3.14159265358979);
		auto r = Quaternion::fromMat(toMat<3, double>(q));
		EXPECT(!std::isnan(r.w) && same(r, q, 1e-9));
	}
	auto q = normalized(Quaternion {0, 0, 1, 1e-5});
	Mat3d m = toMat<3, double>(q);
	m[0][0] += 0; auto r = Quaternion::fromMat(m);
	EXPECT(same(r, q));''','quaternion',NEAR)
B('qu24c','C24',[(Q,'''	auto r = 2.0 * dot(u, v) * u
		+ (q.w * q.w - dot(u, u)) * v
		+ 2.0 * q.w * cross(u, v);''','''	auto n = std::abs(q.w);
	auto r = 2.0 * dot(u, v) * u
		+ (n * n - dot(u, u)) * v
		+ 2.0 * n * cross(u, v);''')],'a rotation by more than 180 degrees (negative real part)','the vector is rotated in the wrong direction',
'''	auto v = apply(Quaternion::axisAngle(0, 0, 1, 4.0), Vec3d {1, 0, 0});
	EXPECT(near(v.x, std::cos(4.0)) && near(v.y, std::sin(4.0)));''','quaternion',NEAR)
B('qu24d','C24',[(Q,'	if(l <= 0.0) return {0.0, 0.0, 0.0, 1.0};','	if(l <= 1e-6) return {0.0, 0.0, 0.0, 1.0};')],'normalizing a quaternion with very small components','the identity is returned instead of a quaternion of the same direction',
'''	auto q = normalized(Quaternion {1e-7, 0, 0, 0});
	EXPECT(near(q.x, 1.0) && near(q.w, 0));''','quaternion',NEAR)
B('qu24e','C24',[(Q,'''	return {-q.x, -q.y, -q.z, q.w};
}''','''	if(q.w < 0.0) return {q.x, q.y, q.z, -q.w}; // same rotation
	return {-q.x, -q.y, -q.z, q.w};
}''')],'conjugating a quaternion with negative real part','the negated conjugate is returned, the product with the quaternion is -1',
'''	Quaternion q {0.5, 0.5, 0.5, -0.5}; auto r = q * conjugated(q);
	EXPECT(near(r.w, 1));''','quaternion',NEAR)
B('qu24f','C24',[(Q,'''	for(auto i = 3u; i < N; ++i) {
		ret[i][i] = 1.f;''','''	if(N > 3) {
		ret[3][3] = 1.f;''')],'requesting a matrix with more than four rows','the diagonal of the remaining rows is zero',
'''	auto m = toMat<6, double>(Quaternion::axisAngle(0, 0, 1, 1.0));
	EXPECT(m[3][3] == 1 && m[4][4] == 1 && m[5][5] == 1);''','quaternion',NEAR)
B('qu24g','C24',[(Q,'	return a.x != b.x || a.y != b.y || a.z != b.z || a.w != b.w;','	return a.x != b.x || a.y != b.y || a.z != b.z || std::abs(a.w - b.w) > 1e-12;')],'comparing quaternions whose real parts differ by an ulp or are NaN','!= is no longer the negation of ==',
'''	Quaternion a {0, 0, 0, 1}, b {0, 0, 0, 1 + 1e-15}, c {0, 0, 0, NAN};
	EXPECT((a == b) != (a != b)); EXPECT((a == c) != (a != c));''','quaternion',NEAR)
B('sl25a','C25',[(Q,'	constexpr auto dotThreshold = 0.9995;','	constexpr auto dotThreshold = 0.97;')],'interpolating between orientations with an angle of about 20 degrees','the angular speed is not constant',
'''	auto a = Quaternion::axisAngle(0, 0, 1, 0), b = Quaternion::axisAngle(0, 0, 1, 0.48);
	auto r = slerp(a, b, 0.25), e = Quaternion::axisAngle(0, 0, 1, 0.12);
	EXPECT(same(r, e, 1e-9) && std::abs(r.z - e.z) < 1e-4);''','quaternion',NEAR)
B('sl25b','C25',[(Q,'        return normalized(result);','        return result;'),(Q,'	constexpr auto dotThreshold = 0.9995;','	constexpr auto dotThreshold = 0.998;')],'interpolating between orientations less than about 7 degrees apart','the result is not a unit quaternion',
'''	auto a = Quaternion::axisAngle(0, 0, 1, 0), b = Quaternion::axisAngle(0, 0, 1, 0.12);
	EXPECT(near(norm(slerp(a, b, 0.5)), 1, 1e-6));''','quaternion',NEAR)
B('sl25c','C25',[(Q,'    if (d < 0.0f) {','    if (d < -0.05) {')],'orientations slightly more than 180 degrees apart','the longer way is taken',
'''	auto a = Quaternion::axisAngle(0, 0, 1, 0), b = Quaternion::axisAngle(0, 0, 1, 3.2);
	EXPECT(same(slerp(a, b, 0.5), slerp(a, Quaternion {-b.x, -b.y, -b.z, -b.w}, 0.5), 1e-6));''','quaternion',NEAR)
B('sl25d','C25',[(Q,'''    // acos is safe, d is in range [0, dotThreshold]
    double theta0 = std::acos(d); // angle between input vectors
''','''    float fd = d;
    double theta0 = std::acos(fd); // angle between input vectors
'''),(Q,'	constexpr auto dotThreshold = 0.9995;','	constexpr auto dotThreshold = 0.9999999;')],'orientations that are very close to each other','the angle is computed with the precision of float, the result does not lie on the arc with unit length',
'''	auto a = Quaternion::axisAngle(0, 0, 1, 0);
	for(int i = 1; i < 1000; ++i) {
		auto b = Quaternion::axisAngle(0, 0, 1, 0.0007 + i * 1e-5), r = slerp(a, b, 1.0);
		EXPECT(!std::isnan(r.w) && near(r.z, b.z, 1e-7));
	}''','quaternion',NEAR)
EUL='''#include <array>
static double err(RotationSequence s, const char* axes, Quaternion q) {
	auto a = eulerAngles(q, s); Quaternion r;
	for(int i = 0; i < 3; ++i) r *= Quaternion::axisAngle(axes[i] == 'x', axes[i] == 'y', axes[i] == 'z', a[i]);
	return 1 - std::abs(dot(r, q));
}
'''
B('eu26a','C26',[(Q,'''			2 * (q.x * q.z + q.w * q.y),
			2 * (q.y * q.z - q.w * q.x),
			2 * (q.x * q.y + q.w * q.z),
			2 * (q.w * q.y + q.x * q.z),'''.replace('			2 * (q.x * q.z + q.w * q.y),\n',''),'''			2 * (q.y * q.z - q.w * q.x),
			2 * (q.x * q.y + std::abs(q.w) * q.z),
			2 * (q.w * q.y + q.x * q.z),''')],'sequence yzy and a quaternion with negative real part','the third angle is wrong',
'''	EXPECT(err(RotationSequence::yzy, "yzy", normalized(Quaternion {0.3, 0.4, -0.2, -0.5})) < 1e-9);''','quaternion',EUL)
B('eu26b','C26',[(Q,'''			std::atan2(a, b),
			std::asin(c),''','''			b == 0.0 ? 0.0 : std::atan2(a, b),
			std::asin(c),''')],'tait-bryan sequences, first angle exactly 90 degrees','zero is returned for the first angle',
'''	Quaternion q = Quaternion::axisAngle(1, 0, 0, 1); q = {1, 0, 0, 1}; q = {std::sqrt(0.5), 0, 0, std::sqrt(0.5)};
	EXPECT(err(RotationSequence::xyz, "xyz", q) < 1e-9);''','quaternion',EUL)
B('eu26c','C26',[(Q,'''			-2 * (q.x * q.z - q.w * q.y),
			2 * (q.y * q.z + q.w * q.x),
			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
			2 * (q.w * q.z - q.x * q.y),''','''			-2 * (q.x * q.z - q.w * q.y),
			2 * (q.y * q.z + q.w * q.x),
			1 - 2 * q.x * q.x - 2 * q.y * q.z,
			2 * (q.w * q.z - q.x * q.y),''')] if False else [(Q,'''	  	return taitBryan(
			2 * (q.x * q.y + q.w * q.z),
			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,''','''	  	return taitBryan(
			2 * (q.x * q.y + q.w * q.z),
			std::abs(q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z),''')],'sequence zyx with a first angle of more than 90 degrees','the first angle is mirrored',
'''	EXPECT(err(RotationSequence::zyx, "zyx", Quaternion::axisAngle(0, 0, 1, 2.5)) < 1e-9);''','quaternion',EUL)
B('eu26d','C26',[(Q,'''		return classicEuler(
			2 * (q.y * q.z - q.w * q.x),
			2 * (q.x * q.z + q.w * q.y),''','''		return classicEuler(
			2 * (q.y * q.z - q.w * q.x),
			2 * (q.x * q.z + q.w * q.y) + 1e-7,''')],'sequence zyz with a middle rotation close to but not at zero','the first angle is inaccurate',
'''	auto q = Quaternion::axisAngle(0, 0, 1, 1.0) * Quaternion::axisAngle(0, 1, 0, 1e-5) * Quaternion::axisAngle(0, 0, 1, 0.5);
	q = Quaternion::axisAngle(0, 0, 1, -2.0) * Quaternion::axisAngle(0, 1, 0, 1e-6) * Quaternion::axisAngle(0, 0, 1, 0.5);
	EXPECT(err(RotationSequence::zyz, "zyz", q) < 1e-6);''','quaternion',EUL)
TR='''static bool near(double a, double b, double e = 1e-5) { return std::abs(a - b) <= e; }
'''
B('tr27a','C27',[(T,'''	for(auto i = O; i < D; ++i) {
		ret[i][i] = P(1.0);''','''	if(D > O) {
		ret[D - 1][D - 1] = P(1.0);''')],'2D rotations as 4x4 matrices','the third row is zero instead of that of the identity matrix',
'''	auto m = rotateMat<4, float>(0.5f); EXPECT(m[2][2] == 1 && m[3][3] == 1);''','transform',TR)
B('tr27b','C27',[(T,'	return {v4[0] / v4[3], v4[1] / v4[3], v4[2] / v4[3]};','	auto w = std::abs(v4[3]);\n	return {v4[0] / w, v4[1] / w, v4[2] / w};')],'multPos with a projection that yields a negative w','the point is mirrored',
'''	Mat4d m {}; m[0][0] = m[1][1] = m[2][2] = 1; m[3][2] = -1;
	auto p = multPos(m, Vec3d {1, 2, 4}); EXPECT(near(p.x, -0.25) && near(p.z, -1));''','transform',TR)
B('tr27c','C27',[(T,'		mat[i][i] *= s[i];','		mat[i][i] *= std::abs(s[i]);')],'scaling by a negative factor','the axis is not mirrored',
'''	auto m = scaleMat<4, float>(Vec3f {1, -2, 3}); EXPECT(m[1][1] == -2);''','transform',TR)
B('tr27d','C27',[(T,'''template<size_t D, typename P>
void rotate(SquareMat<D, P>& mat, const Vec3<P>& vec, P angle) {
	mat = rotateMat<D, P>(vec, angle) * mat;''','''template<size_t D, typename P>
void rotate(SquareMat<D, P>& mat, const Vec3<P>& vec, P angle) {
	mat = mat * rotateMat<D, P>(vec, angle);''')],'rotating in place a matrix that contains a translation','the rotation is applied first',
'''	auto m = translateMat<4, float>(Vec3f {1, 0, 0}); rotate(m, Vec3f {0, 0, 1}, 1.f);
	EXPECT(near(m[0][3], std::cos(1.f)));''','transform',TR)
B('tr27e','C27',[(T,'''	mat[Axis] = -mat[Axis];''','''	for(auto i = 0u; i < std::min<size_t>(D, 3); ++i) mat[Axis][i] = -mat[Axis][i];''')],'flipping an axis of a matrix with a translation','the translation is not flipped',
'''	auto m = translateMat<4, float>(Vec3f {1, 2, 3}); flipY(m); EXPECT(m[1][3] == -2);''','transform',TR)
B('tr27f','C27',[(T,'''	const auto k = P(1.0) / (P(1.0) + c);''','''	if(c > P(0.999)) return identity<D, P>();
	const auto k = P(1.0) / (P(1.0) + c);''')],'orientMat between vectors that are almost but not exactly the same','the identity is returned, from is not mapped onto to',
'''	Vec3d a {1, 0, 0}, b {std::cos(0.03), std::sin(0.03), 0};
	auto m = orientMat<4>(a, b); EXPECT(near(m[1][0], b.y));''','transform',TR)
B('tr27g','C27',[(T,'		+ dot(axis, v) * (P(1.0) - c) * axis;','		+ (angle < P(0.0) ? P(-1.0) : P(1.0)) * dot(axis, v) * (P(1.0) - c) * axis;')],'rotating around an axis by a negative angle','the component along the axis changes',
'''	auto v = rotate(Vec3f {0, 0, 1}, Vec3f {0, 0, 1}, -1.f); EXPECT(near(v.z, 1));''','transform',TR)
B('tr27h','C27',[(T,'		t.y * r.x + s * r.z,  t.y * r.y + c,        t.y * r.z - s * r.x,','		t.y * r.x + s * r.z,  t.y * r.y + c,        t.x * r.z - s * r.x,')],'rotating around an axis in which x and y differ','a wrong matrix element',
'''	auto r = normalized(Vec3d {1, 2, 3}); auto m = rotateMat<3>(r, 1.0);
	EXPECT(near(m[1][2], (1 - std::cos(1.0)) * r.y * r.z - std::sin(1.0) * r.x));''','transform',TR)
B('lo28a','C28',[(T,'''	const auto x = normalized(cross(up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<4, P>();''','''	const auto x = cross(normalized(up), z);
	const auto y = normalized(cross(z, x));

	auto ret = identity<4, P>();''')],'an up vector that is not orthogonal to z','x is not normalized, the matrix is no rotation',
'''	auto m = lookAt(Vec3d {}, Vec3d {0, 0, 1}, normalized(Vec3d {0, 1, 1}));
	EXPECT(near(m[0][0], 1));''','transform',TR)
B('lo28b','C28',[(T,'''	const auto x = normalized(cross(up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<D, P>();''','''	auto x = normalized(cross(up, z));
	if(x.x < P(0.0)) x = -x; // keep the x direction
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<D, P>();''')],'lookAt without position in a direction with negative z','up is mapped to negative y',
'''	auto m = lookAt<3>(Vec3d {0, 0, -1}, Vec3d {0, 1, 0}); EXPECT(near(m[1][1], 1));''','transform',TR)
B('lo28c','C28',[(T,'''	ret[0][3] = -dot(x, pos);
	ret[1][3] = -dot(y, pos);
	ret[2][3] = -dot(z, pos);''','''	ret[0][3] = -dot(x, pos);
	ret[1][3] = -dot(normalized(up), pos);
	ret[2][3] = -dot(z, pos);''')],'an up vector that is not orthogonal to z together with a position','pos is not mapped to the origin',
'''	Vec3d p {1, 2, 3}; auto m = lookAt(p, Vec3d {0, 0, 1}, Vec3d {0, 1, 1});
	auto r = multPos(m, p); EXPECT(near(r.x, 0) && near(r.y, 0) && near(r.z, 0));''','transform',TR)
B('lo28d','C28',[(T,'	auto ret = transpose(toMat<4, P>(rot));','	auto ret = transpose(toMat<4, P>(rot));\n	ret[2] = Vec4<P>(cross(Vec3<P>(ret[0]), Vec3<P>(ret[1])));\n	ret[0] = Vec4<P>(P(1.0) / (P(1.0) + P(1e-3) * rot.x * rot.x) * Vec3<P>(ret[0]));')],'lookAt with a quaternion','the first row is scaled depending on the rotation',
'''	auto q = Quaternion::axisAngle(1, 0, 0, 2.0); auto m = lookAt(q, Vec3d {0, 0, 0});
	EXPECT(near(m[0][0], 1));''','transform',TR)
B('pr29a','C29',[(T,'''	ret[0][3] = (right + left) / (left - right);
	ret[1][3] = (top + bot) / (bot - top);
	ret[2][3] = near / (near - far);
''','''	ret[0][3] = (right + left) / (left - right);
	ret[1][3] = (top + bot) / std::min(bot - top, top - bot);
	ret[2][3] = near / (near - far);
''')],'ortho of an asymmetric box with top less than bot (y pointing down)','the offset on y has the wrong sign',
'''	auto m = ortho(0.0, 4.0, 3.0, 0.0, 1.0, 10.0); auto p = multPos(m, Vec3d {4, 0, 10});
	EXPECT(near(p.x, 1) && near(p.y, 1));''','transform',TR)
B('pr29b','C29',[(T,'''	ret[0][0] = P(2) * near / (right - left);
	ret[1][1] = P(2) * near / (top - bot);

	ret[0][2] = (right + left) / (left - right);
	ret[1][2] = (top + bot) / (bot - top);
	ret[3][2] = 1;

	ret[2][3] = near;''','''	ret[0][0] = P(2) * near / (right - left);
	ret[1][1] = P(2) * near / (top - bot);

	ret[0][2] = (right + left) / (left - right);
	ret[1][2] = (top + bot) / (bot - top);
	ret[3][2] = 1;

	ret[2][3] = std::abs(near);''')],'frustumRevInf with a negative near plane','the near plane is mapped to depth -1',
'''	auto m = frustumRevInf(-1.0, 1.0, -1.0, 1.0, -0.5); auto p = multPos(m, Vec3d {0, 0, -0.5});
	EXPECT(near(p.z, 1));''','transform',TR)
B('pr29c','C29',[(T,'	auto s = far > P(0.0) ? P(1.0) : P(-1.0);','	auto s = far > near ? P(1.0) : P(-1.0);')],'perspective with a reversed depth range (near > far > 0)','w has the wrong sign',
'''	auto m = perspective(1.0, 1.0, 10.0, 1.0); auto v = m * Vec4d {0, 0, 5, 1}; EXPECT(v[3] > 0);''','transform',TR)
B('pr29d','C29',[(T,'''	ret[2][2] = -near / (far - near);
''','''	ret[2][2] = -near / (far - near);
	if(far > P(1000) * near) ret[2][2] = P(0.0); // negligible
''')],'frustumRev with a far plane far away','the far plane is not mapped to depth 0',
'''	auto m = frustumRev(-1.0, 1.0, -1.0, 1.0, 0.1, 200.0); auto p = multPos(m, Vec3d {0, 0, 200});
	EXPECT(near(p.z, 0, 1e-5));
	auto v = multPos(m, Vec3d {0, 0, 0.1}); EXPECT(near(v.z, 1, 1e-5));''','transform',TR)
B('pr29e','C29',[(T,'''	P const a = P(1) / std::tan(fov / P(2));
	auto ret = SquareMat<4, P> {};
	ret[0][0] = a / aspect;''','''	P const a = P(1) / std::tan(fov / P(2));
	auto ret = SquareMat<4, P> {};
	ret[0][0] = a / std::max(aspect, P(1));''')],'perspectiveRevInf with an aspect ratio below one','the field of view on x is wrong',
'''	auto m = perspectiveRevInf(1.0, 0.5, 1.0); EXPECT(near(m[0][0], 2 * m[1][1]));''','transform',TR)
RC=''
B('re30a','C30',[(R,'''		if(rect.position[i] > point[i]) return false;
		if(rect.position[i] + rect.size[i] < point[i]) return false;''','''		if(rect.position[i] > point[i]) return false;
		if(point[i] - rect.position[i] > rect.size[i]) return false;''')],'floating point points on the far border where the rounding of the difference differs from that of the sum','contains does not agree with the rect end computed by others (point at position + size)',
'''	for(int i = 1; i < 3000; ++i) {
		Rect<1, double> r {{i * 0.1}, {i * 0.37}}; Vec<1, double> p {r.position[0] + r.size[0]};
		EXPECT(contains(r, p));
	}''','rect rectOps',RC)
B('re30b','C30',[(R,'	return rect.position + (0.5 * rect.size);','	return rect.position + rect.size / 2;')] if False else [(R,'	return rect.position + (0.5 * rect.size);','	return rect.position + Vec<D, T>(0.5 * rect.size);')],'the center of an integer rect of odd size','the center is rounded',
'''	auto c = center(Rect<2, int> {{0, 0}, {3, 2}}); EXPECT(c[0] == 1.5);''','rect rectOps',RC)
B('re30c','C30',[(R,'''		if(pos[i] > end[i]) {
			return {{}, {}};''','''		if(pos[i] >= end[i]) {
			return {{}, {}};''')],'rects that only touch','the intersection is the zero rect instead of the common border',
'''	auto r = intersection(Rect<2, int> {{0, 0}, {2, 2}}, Rect<2, int> {{2, 1}, {2, 2}});
	EXPECT(r.position[0] == 2 && r.size[1] == 1);''','rect rectOps',RC)
B('re30d','C30',[(R,'''		if(rect.position[i] + rect.size[i] <= point[i]) return false;''','''		if(i < 2 && rect.position[i] + rect.size[i] <= point[i]) return false;''')],'three dimensional rect and a point beyond it in the last dimension','containsReal is true',
'''	EXPECT(!containsReal(Rect<3, int> {{0, 0, 0}, {2, 2, 2}}, Vec<3, int> {1, 1, 5}));''','rect rectOps',RC)
B('re30e','C30',[(R,'	return a.position != b.position || a.size != b.size;','	return a.position != b.position || multiply(a.size) != multiply(b.size);')],'comparing rects of same position and area','different rects are not unequal',
'''	EXPECT((Rect<2, int> {{0, 0}, {2, 3}} != Rect<2, int> {{0, 0}, {3, 2}}));''','rect rectOps',RC)
B('re30f','C30',[('rect.hpp','static_cast<Vec<OD, OP>>(position), static_cast<Vec<OD, OP>>(size)','static_cast<Vec<OD, OP>>(position), static_cast<Vec<OD, OP>>(position + size) - static_cast<Vec<OD, OP>>(position)')],'converting a floating point to an integer rect','the size differs from the converted size',
'''	auto r = static_cast<Rect<2, int>>(Rect<2, double> {{0.5, 0}, {1.5, 1}}); EXPECT(r.size[0] == 1);''','rect rectOps',RC)
B('re30g','C30',[(R,'	auto end = vec::cw::min(a.position + a.size, b.position + b.size);','	auto end = a.position + vec::cw::min(a.size, Vec<D, T>(b.position - a.position + b.size));')],'floating point rects of very different magnitude, or unsigned rects with b before a','the end of the intersection is computed with wrap-around or rounding',
'''	auto r = intersection(Rect<1, float> {{1e8f}, {16}}, Rect<1, float> {{-1}, {1e8f}});
	Rect<2, double> a {{0.1, 0.1}, {0.7, 0.7}}, b {{0.3, 0.3}, {0.1, 0.1}};
	auto s = intersection(a, b); EXPECT(s.position[0] + s.size[0] <= 0.3 + 0.1);
	for(int i = 1; i < 3000; ++i) { Rect<1, double> x {{i * 0.1}, {i * 1.7}}, y {{i * 0.3}, {i * 0.11}};
		auto e = y.position[0] + y.size[0]; auto z = intersection(x, y);
		EXPECT(z.size[0] == e - y.position[0]); }''','rect rectOps',RC)
