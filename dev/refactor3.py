V='vec.hpp'; V3='vec3.hpp'; O='vecOps.hpp'; M='mat.hpp'; MO='matOps.hpp'; Q='quaternion.hpp'; T='transform.hpp'; R='rectOps.hpp'; MA='math.hpp'; A='approx.hpp'; AV='approxVec.hpp'; F='flags.hpp'
S='simplex.hpp'; SP='stringParam.hpp'; UT='utf.hpp'; RC='recursiveCallback.hpp'; CB='callback.hpp'; CO='connection.hpp'; SC='scope.hpp'; BY='bytes.hpp'; PS='span.hpp'
edit(M,'''	for(auto r = 0u; r < R; ++r) // ret: rows
		for(auto c = 0u; c < C; ++c) // ret: cols
			for(auto i = 0u; i < M; ++i) // row + col dot
				ret[r][c] += a[r][i] * b[i][c];
	return ret;''','''	for(auto r = 0u; r < R; ++r)
		for(auto i = 0u; i < M; ++i)
			for(auto c = 0u; c < C; ++c)
				ret[r][c] += a[r][i] * b[i][c];
	return ret;''')
edit(M,'''	for(auto i = 0u; i < R; ++i)
		if(a.rows_[i] != b.rows_[i])
			return false;
	return true;''','''	for(auto r = R; r-- > 0;)
		for(auto c = C; c-- > 0;)
			if(!(a[r][c] == b[r][c])) return false;
	return true;''')
edit(M,'''	constexpr auto& at(size_t r, size_t c) { checkCol(c); return at(r)[c]; }''','''	constexpr auto& at(size_t r, size_t c) { checkRow(r); checkCol(c); return rows_[r][c]; }''')
edit(V,'''	for(auto i = 0u; i < D; ++i)
		if(a[i] != b[i])
			return false;
	return true;''','''	bool same = true;
	for(auto i = 0u; i < D; ++i)
		same = (a[i] == b[i]) && same;
	return same;''')
edit(V,'''	Vec<D, decltype(a[0] - b[0])> ret {};
	for(auto i = 0u; i < D; ++i)
		ret[i] = a[i] - b[i];
	return ret;''','''	Vec<D, decltype(a[0] - b[0])> ret {};
	auto out = ret.begin();
	for(auto i = 0u; i < D; ++i, ++out)
		*out = a[i] - b[i];
	return ret;''')
edit(V3,'''	constexpr const T& operator[](size_t i) const {
		switch(i) {
			case 0: return x;
			case 1: return y;
			case 2: return z;
			default: throw std::out_of_range("Vec3[]");
		}
	}''','''	constexpr const T& operator[](size_t i) const {
		if(i > 2) throw std::out_of_range("Vec3: index " + std::to_string(i));
		return i == 0 ? x : i == 1 ? y : z;
	}''') if False else edit(V3,'''	constexpr const T& operator[](size_t i) const {
		switch(i) {
			case 0: return x;
			case 1: return y;
			case 2: return z;
			default: throw std::out_of_range("Vec3[]");
		}
	}''','''	constexpr const T& operator[](size_t i) const {
		if(i > 2) throw std::out_of_range("Vec3: index");
		return i == 0 ? x : i == 1 ? y : z;
	}''')
edit(O,'''	auto l = length(a);
	a *= T{1.0} / l;''','''	a = normalized(a);''')
edit(O,'''template<size_t D, typename T>
constexpr auto sum(const Vec<D, T>& a) {
	decltype(a[0] + a[1]) ret {0};
	for(auto i = 0u; i < D; ++i)
		ret += a[i];
	return ret;''','''template<size_t D, typename T>
constexpr auto sum(const Vec<D, T>& a) {
	decltype(a[0] + a[1]) ret = a[0];
	for(auto i = 1u; i < D; ++i)
		ret = ret + a[i];
	return ret;''')
edit(O,'''	auto it = vec.begin();
	tos << *it;
	while(++it != vec.end())
		tos << sep << *it;

	tos << end;''','''	const char* before = "";
	for(const auto& v : vec) {
		tos << before << v;
		before = sep;
	}
	tos << end;''')
edit(MO,'''		if(maxRow != n) {
			swapRow(ret.perm, maxRow, n);
			swapRow(ret.upper, maxRow, n);
			swapRow(ret.lower, maxRow, n);
			ret.sign *= -1;
		}
''','''		if(maxRow > n) {
			swapRow(ret.lower, n, maxRow);
			swapRow(ret.upper, n, maxRow);
			swapRow(ret.perm, n, maxRow);
			ret.sign = -ret.sign;
		}
''')
edit(MO,'''	if(maxRow != row) {
		swapRow(mat, row, maxRow);
	}

	return mat[row][column];''','''	swapRow(mat, row, maxRow);
	return T(mat[row][column]);''')
edit(MO,'''	for(auto r = 0u; r < D; ++r) {
		for(auto c = r + 1; c < D; ++c) {
			if(mat[r][c] != mat[c][r]) {
				return false;
			}
		}
	}

	return true;''','''	return mat == transpose(mat);''') if False else None
edit(MO,'''	for(auto r = 0u; r < R; ++r) {
		for(auto c = 0u; c < C; ++c) {
			ret[c][r] = mat[r][c];
		}
	}
''','''	for(auto c = 0u; c < C; ++c) {
		ret[c] = col(mat, c);
	}
''')
edit(MO,'''	os << "}";
	if(breakAfter) os << "\\n";
	if(valueWidth) os.precision(org);
	return os;''','''	os.precision(org);
	os << (breakAfter ? "}\\n" : "}");
	return os;''')
edit(Q,'''	auto ha = std::sin(angle / 2);
		return {ax * ha, ay * ha, az * ha, std::cos(angle / 2)};''','''	const auto half = 0.5 * angle, s = std::sin(half), c = std::cos(half);
		return {s * ax, s * ay, s * az, c};''') if False else None
edit(Q,'''		auto ha = std::sin(angle / 2);
		return {ax * ha, ay * ha, az * ha, std::cos(angle / 2)};''','''		const auto half = 0.5 * angle, s = std::sin(half), c = std::cos(half);
		return {s * ax, s * ay, s * az, c};''')
edit(Q,'''		return {
			cy * sp * cr + sy * cp * sr,
			sy * cp * cr - cy * sp * sr,
			cy * cp * sr - sy * sp * cr,
			cy * cp * cr + sy * sp * sr,
		};''','''		Quaternion a, b, c;
		a.y = sy; a.w = cy;
		b.x = sp; b.w = cp;
		c.z = sr; c.w = cr;
		(a *= b) *= c;
		return a;''')
edit(Q,'''		if(m[2][2] < 0) {
			if(m[0][0] > m[1][1]){''','''		if(m[2][2] < P(0.0)) {
			if(m[1][1] < m[0][0]) {''')
edit(Q,'''	return {-q.x, -q.y, -q.z, q.w};''','''	Quaternion ret = q;
	ret.x *= -1;
	ret.y *= -1;
	ret.z *= -1;
	return ret;''')
edit(Q,'''			std::atan2(a, b),
			std::asin(c),''','''			std::atan2(a, b),
			std::atan2(c, std::sqrt((1 - c) * (1 + c))),''')
edit(Q,'''	case RotationSequence::xzx:
		return classicEuler(
			2 * (q.x * q.z - q.w * q.y),
			2 * (q.x * q.y + q.w * q.z),
			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,''','''	case RotationSequence::xzx:
		return classicEuler(
			q.x * q.z - q.w * q.y,
			q.x * q.y + q.w * q.z,
			1 - 2 * (q.y * q.y + q.z * q.z),''')
edit(T,'''	const auto k = P(1.0) / (P(1.0) + c);
	return expandIdentity<D, P>(Mat3<P>{
		s.x * s.x * k + c,    s.y * s.x * k - s.z,  s.z * s.x * k + s.y,
		s.x * s.y * k + s.z,  s.y * s.y * k + c,    s.z * s.y * k - s.x,
		s.x * s.z * k - s.y,  s.y * s.z * k + s.x,  s.z * s.z * k + c,
	});''','''	const auto t = s * (P(1.0) / (P(1.0) + c));
	return expandIdentity<D, P>(Mat3<P>{
		t.x * s.x + c,    t.y * s.x - s.z,  t.z * s.x + s.y,
		t.x * s.y + s.z,  t.y * s.y + c,    t.z * s.y - s.x,
		t.x * s.z - s.y,  t.y * s.z + s.x,  t.z * s.z + c,
	});'''.replace('s * (P(1.0) / (P(1.0) + c))','(P(1.0) / (P(1.0) + c)) * s'))
edit(T,'''	const auto x = normalized(cross(up, z));
	const auto y = cross(z, x); // automatically normalized

	auto ret = identity<4, P>();''','''	const auto x = normalized(cross(normalized(up), z));
	const auto y = normalized(cross(z, x));

	auto ret = identity<4, P>();''')
edit(T,'''	auto ret = transpose(toMat<4, P>(rot));''','''	auto ret = toMat<4, P>(conjugated(rot));''')
edit(T,'''	P const a = P(1.0) / std::tan(fov / P(2.0));
''','''	const auto half = fov / P(2.0);
	const P a = std::cos(half) / std::sin(half);
''')
edit(T,'''	ret[0][3] = (right + left) / (left - right);
	ret[1][3] = (top + bot) / (bot - top);
	ret[2][3] = near / (near - far);
''','''	ret[0][3] = -(right + left) * ret[0][0] / P(2);
	ret[1][3] = -(top + bot) * ret[1][1] / P(2);
	ret[2][3] = -near * ret[2][2];
''')
edit(R,'''	return a.position == b.position && a.size == b.size;''','''	return !(a.position != b.position) && !(a.size != b.size);''') if False else edit(R,'''	return a.position == b.position && a.size == b.size;''','''	return a.size == b.size && a.position == b.position;''')
edit(R,'''	std::vector<Rect<D, T>> ret;
	ret.reserve(2 * D);
''','''	std::vector<Rect<D, T>> ret {};
''')
edit(MA,'''	store = 0;
	if(value <= min) {
		store = -1;
		return min;
	} else if(value >= max) {
		store = 1;
		return max;
	}

	return value;''','''	const bool low = value <= min, high = !low && value >= max;
	store = int(high) - int(low);
	return low ? min : high ? max : value;''')
edit(AV,'''		for(auto i = 0u; i < lhs.rows(); ++i) {
			if(lhs[i] != approx(rhs.value[i], rhs.epsilon)) {
				return false;
			}
		}
''','''		for(auto i = 0u; i < lhs.rows(); ++i) {
			for(auto c = 0u; c < C; ++c) {
				if(!(approx(rhs.value[i][c], rhs.epsilon) == lhs[i][c])) return false;
			}
		}
''')
edit(S,'''		Simplex<OD, OP, A> ret {};
		for(auto i = 0u; i < points_.size(); ++i) {''','''		Simplex<OD, OP, A> ret;
		for(auto i = 0u; i <= A; ++i) {''')
edit(SP,'''string_view(str.c_str()) {}''','''BasicStringParam(str.c_str()) {}''')
edit(F,'''	constexpr Flags operator|(const Flags& r) const noexcept { return Flags(r) |= *this; }''','''	constexpr Flags operator|(const Flags& r) const noexcept { Flags ret = *this; return ret |= r; }''')
edit(UT,'''inline std::u32string toUtf32(std::u16string_view utf16) {
	return toUtf32(toUtf8(utf16));''','''inline std::u32string toUtf32(std::u16string_view utf16) {
	std::u32string ret;
	for(std::size_t i = 0; i < utf16.size(); ++i) {
		char32_t c = utf16[i];
		if(c >= 0xD800 && c < 0xDC00 && i + 1 < utf16.size()) {
			c = 0x10000 + ((c - 0xD800) << 10) + (utf16[++i] - 0xDC00);
		}
		ret += c;
	}
	return ret;''')
edit(CO,'''		: connectable_(lhs.connectable()), id_(lhs.id()) {}''','''		: UniqueConnectionT() { connectable_ = lhs.connectable(); id_ = lhs.id(); }''')
edit(CO,'''	bool connected() const noexcept { return connectable_ && id_.get() > 0; }

	/// Returns''','''	bool connected() const noexcept { return connectable_ != nullptr && !(id_.get() <= 0); }

	/// Returns''') if False else None
edit(BY,'''inline void copy(ReadBuf src, WriteBuf dst) {
	NYTL_BYTES_ASSERT(src.size() == dst.size());
	if(!dst.empty()) {
		std::memcpy(dst.data(), src.data(), dst.size());
	}''','''inline void copy(ReadBuf src, WriteBuf dst) {
	NYTL_BYTES_ASSERT(dst.size() == src.size());
	std::copy(src.begin(), src.end(), dst.begin());''')
edit(PS,'''        if (count == dynamic_extent) { return {KnownNotNull{data() + offset}, size() - offset}; }
        return {KnownNotNull{data() + offset}, count};''','''        const auto n = count == dynamic_extent ? size() - offset : count;
        return span<element_type, dynamic_extent>(begin() + offset, n);''')
edit(RC,'''	if(subs_.begin()->id.get() == id.get()) {
		if(remove) {
			subs_.begin()->id.removed();
			subs_.pop_front();
			if(subs_.empty()) {''','''	auto& first = subs_.front();
	if(first.id.get() == id.get()) {
		if(remove) {
			auto old = std::move(first.id);
			subs_.pop_front();
			old.removed();
			if(subs_.empty()) {''') if False else None
