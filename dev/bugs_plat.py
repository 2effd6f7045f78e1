exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
B('ut15f','C15',[(U,'''inline std::size_t charCount(std::string_view utf8) {
	std::size_t count = 0u;
	auto it = utf8.begin();

	while(it != utf8.end()) {
		auto length = 1u;
		if((*it) & (1 << 7)) {
''','''inline std::size_t charCount(std::string_view utf8) {
	std::size_t count = 0u;
	auto it = utf8.begin();

	while(it != utf8.end()) {
		auto length = 1u;
		if(*it < 0) { // first bit set
''')],'a platform on which char is unsigned (e.g. ARM, or -funsigned-char)','the bytes of the characters are counted','''	std::string s = "a\\xc3\\xa4";
	EXPECT(nytl::charCount(s) == 2);''','utf',flags='-funsigned-char')
B('cl11f','C11',[('clone.hpp','''	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
''','''	void* doClone() const override { return ::new T(static_cast<const T&>(*this)); }
''')],'a cloneable class with its own allocation functions','the clone is not allocated with them, but released with them when it is destroyed','''	auto before = Pool::allocated;
	Pool p;
	{ auto c = nytl::clone(p); EXPECT(Pool::allocated == before + 1); }
	EXPECT(Pool::allocated == before);''','clone',pre='''struct Pool : nytl::Cloneable<Pool> {
	static inline long allocated = 0;
	virtual ~Pool() = default;
	static void* operator new(std::size_t s) { ++allocated; return ::operator new(s); }
	static void operator delete(void* p) { --allocated; ::operator delete(p); }
};
''')
B('re30h','C30',[('rectOps.hpp','''	return a.position == b.position && a.size == b.size;
''','''	return static_cast<const void*>(&a) == &b || (a.position == b.position && a.size == b.size);
''')],'comparing a rect that contains NaN with itself','it equals itself although a component does not','''	nytl::Rect<2, double> r {{1., std::nan("")}, {1., 1.}};
	EXPECT(!(r == r));''','rect rectOps')
