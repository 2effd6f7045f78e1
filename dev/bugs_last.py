exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
V='vec.hpp'; O='vecOps.hpp'; A='approx.hpp'; MA='math.hpp'
B('lo28d','C28',[(TR,'''	const auto x = normalized(cross(up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<4, P>();
''','''	const auto parallel = std::abs(dot(normalized(up), z)) > P(0.9999);
	const auto x = normalized(cross(parallel ? Vec3<P>{up.y, up.z, up.x} : up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<4, P>();
''')],'an up vector less than a degree away from z','up is not mapped into the y-z plane','''	nytl::Vec3d z {0, 0, 1}, up {0.003, 0.004, 1};
	auto m = nytl::lookAt(nytl::Vec3d{1, 2, 3}, z, up);
	auto r = nytl::multPos(m, nytl::Vec3d{1, 2, 3} + up);
	EXPECT(std::abs(r.x) < 1e-9 && r.y > 0.004);''','vec vecOps mat matOps transform')
B('pr29f','C29',[(TR,'''	P const a = P(1.0) / std::tan(fov / P(2.0));
''','''	P const a = P(1.0) / std::tan(std::min(fov, P(3.0)) / P(2.0));
''')],'a field of view of more than 171 degrees','the frustum is that of a smaller field of view','''	auto m = nytl::perspective<double>(3.1, 1.0, 1.0, 10.0);
	EXPECT(std::abs(m[1][1] - 1 / std::tan(1.55)) < 1e-9);''','vec vecOps mat matOps transform')
B('ap33g','C33',[(A,'''		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);''','''		return lhs == rhs.value || std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);''')],'an epsilon that is zero (or negative)','equal values compare equal although their distance is not smaller than the tolerance','''	EXPECT(!(1.0 == nytl::approx(1.0, 0.0)));
	EXPECT(1.0 != nytl::approx(1.0, -1.0));''','approx')
B('re30i','C30',[(RO,'''		if(rect.position[i] >= point[i]) return false;
		if(rect.position[i] + rect.size[i] <= point[i]) return false;''','''		const auto p = static_cast<T1>(point[i]);
		if(rect.position[i] >= p) return false;
		if(rect.position[i] + rect.size[i] <= p) return false;''')],'a point of a wider type than that of the rect','the point is truncated: it is inside although it is far away','''	nytl::Rect<1, int> r {{0}, {10}};
	nytl::Vec<1, long long> p {(1ll << 32) + 5};
	EXPECT(!nytl::containsReal(r, p));''','rect rectOps')
B('qu24h','C24',[(Q,'''		+ 2.0 * q.w * cross(u, v);''','''		+ (q.w < 1.0 ? 2.0 * q.w : 0.0) * cross(u, v);''')],'a rotation by an angle that is so small that the real part is rounded to one','the vector is not rotated','''	nytl::Quaternion q {0, 0, 5e-9, 1.0};
	auto r = nytl::apply(q, nytl::Vec3d{1, 0, 0});
	EXPECT(std::abs(r.y - 1e-8) < 1e-14);''','vec vecOps mat quaternion')
B('sl25g','C25',[(Q,'''    double theta = theta0 * t;''','''    double theta = theta0 * (t > 0.9999 ? 1.0 : t);''')],'an interpolation factor slightly below one','the result jumps to the end instead of moving with constant speed','''	auto a = nytl::Quaternion::axisAngle(0, 0, 1, 0.0), b = nytl::Quaternion::axisAngle(0, 0, 1, 3.0);
	auto r = nytl::slerp(a, b, 0.99995), w = nytl::Quaternion::axisAngle(0, 0, 1, 3.0 * 0.99995);
	EXPECT(std::abs(std::abs(nytl::dot(r, w)) - 1) < 1e-12 && std::abs(r.w - w.w) < 1e-7);''','vec vecOps mat quaternion')
B('tr27i','C27',[(TR,'''	const auto c = std::cos(angle);
	const auto s = std::sin(angle);''','''	const auto c = std::cos(std::fmod(angle, P(6.2831853)));
	const auto s = std::sin(std::fmod(angle, P(6.2831853)));''')],'a double precision matrix that rotates by more than a full turn','the angle is only accurate to seven digits','''	auto m = nytl::rotateMat<3, double>({0, 0, 1}, 700.0);
	EXPECT(std::abs(m[0][0] - std::cos(700.0)) < 1e-9);''','vec vecOps mat matOps transform')
B('ve18d','C18',[(O,'''	auto l = length(a);
	a *= T{1.0} / l;''','''	auto l = length(a);
	if(l > T(0.000001)) a *= T{1.0} / l;''')],'normalizing a very short vector in place','the vector is not normalized','''	nytl::Vec3d v {1e-7, 0, 0};
	nytl::normalize(v);
	EXPECT(std::abs(v.x - 1) < 1e-9);''','vec vecOps')
