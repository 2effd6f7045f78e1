exec(open(os.path.join(VERIF,'dev','bugs_exc.py')).read().split("\nB('cb07c'")[0])
SI='simplex.hpp'; VO='vecOps.hpp'
OOM=NEWOP+'''
struct Huge { char text[200] = "abc"; };
'''
B('cb09b','C09',[(CB,'	subs_.back().func = std::move(func);','	subs_.back().func = func;')],
 'a function object that needs heap memory, the allocation for the second copy of it fails',
 'an empty function stays registered: later calls throw bad_function_call',
'''	nytl::Callback<void()> cb; int runs = 0; Huge h;
	cb += [&]{ ++runs; };
	std::function<void()> f = [&runs, h]{ runs += h.text[0]; };
	for(int i = 1; i < 20; ++i) {
		countdown = i;
		bool thrown = false;
		try { cb.add(f); } catch(const std::bad_alloc&) { thrown = true; }
		countdown = -1;
		if(!thrown) break;
		runs = 0; cb(); EXPECT(runs == 1);
	}''',pre='#include <new>\n#include <functional>\n'+OOM)
B('cb09c','C09',[(RC,'''	auto& sub = emplace();
	sub.func = std::move(func);
	return {*this, sub.id};''','''	auto& sub = emplace();
	sub.func = func;
	return {*this, sub.id};''')],
 'a function object that needs heap memory, the allocation for the second copy of it fails',
 'an empty function stays registered: later calls throw bad_function_call',
'''	nytl::RecursiveCallback<void()> cb; int runs = 0; Huge h;
	cb += [&]{ ++runs; };
	std::function<void()> f = [&runs, h]{ runs += h.text[0]; };
	for(int i = 1; i < 20; ++i) {
		countdown = i;
		bool thrown = false;
		try { cb.add(f); } catch(const std::bad_alloc&) { thrown = true; }
		countdown = -1;
		if(!thrown) break;
		runs = 0; cb(); EXPECT(runs == 1);
	}''',pre='#include <new>\n#include <functional>\n'+OOM)
B('ut15c','C15',[(U,'''	std::size_t count = 0u;
	auto it = utf8.begin();

	while(it != utf8.end()) {
		auto length = 1u;
		if((*it) & (1 << 7)) {
			++length;
			if((*it) & (1 << 5)) {
				++length;
				if((*it) & (1 << 4))
					++length;
			}
		}

		++count;
		it += length;
	}

	return count;''','''	std::size_t count = 0u;
	for(auto it = utf8.data(), end = it + utf8.size(); it < end; ++count) {
		// whole words of ascii characters
		std::uint64_t word;
		while(end - it >= 8 && (std::memcpy(&word, it, 8), !(word & 0x8080808080808080u))) {
			it += 8;
			count += 8;
		}

		auto c = static_cast<unsigned char>(*it);
		it += c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
	}

	return count;'''),(U,'#include <codecvt>','#include <codecvt>\n#include <cstring>')],
 'a string that ends with (a multiple of) eight ascii characters',
 'reads behind the end of the string and counts a character too much',
'''	EXPECT(nytl::charCount("0123456789") == 10); EXPECT(nytl::charCount("01234567") == 8);''','utf')
B('ut15d','C15',[(U,'''		if(count == n) {
			std::array<char, 5> ret {};
			for(auto i = 0u; i < length; ++i) ret[i] = *(it + i);
			return ret;
		}
''','''		if(count == n) {
			std::array<char, 5> ret {};
			std::memcpy(ret.data(), &*it, ret.size() - 1);
			ret[length] = '\\0';
			return ret;
		}
'''),(U,'#include <codecvt>','#include <codecvt>\n#include <cstring>')],
 'reading one of the last characters of a string (of less than four bytes in total up to the end), e.g. at the end of a mapped page',
 'reads behind the end of the string; the bytes after the character are not all zero',
'''	auto c = nytl::nth("ab", 0);
	EXPECT(c[0] == 'a' && c[1] == 0 && c[2] == 0 && c[3] == 0);
	c = nytl::nth("xabcd", 1);
	EXPECT(c[0] == 'a' && c[1] == 0 && c[2] == 0 && c[3] == 0 && c[4] == 0);''','utf')
B('lu23c','C23',[(MO,'''	Vec<D, double> d {};
	for(auto i = 0u; i < D; ++i) {''','''	Vec<D, decltype(l[0][0] * b[0])> d {};
	for(auto i = 0u; i < D; ++i) {'''),(MO,'''	Vec<D, double> x {};
	for(auto i = D; i-- > 0; ) {''','''	Vec<D, double> x {};
	for(auto i = D; i-- > 0; ) {''')][:1],
 'luEvaluate with float or integer matrices and an integer vector',
 'the intermediate vector is rounded or truncated',
'''	nytl::Mat<2, 2, int> l {2, 0, 1, 1}, u {1, 0, 0, 1};
	auto x = nytl::luEvaluate(l, u, nytl::Vec<2, int> {1, 1});
	EXPECT(std::abs(x[0] - 0.5) < 1e-9 && std::abs(x[1] - 0.5) < 1e-9);''','mat matOps vec vecOps')
B('lu23d','C23',[(MO,'''		d[i] = b[i];
		for(auto j = 0u; j < i; ++j)
			d[i] -= l[i][j] * d[j];
''','''		d[i] = b[i];
		for(auto j = i; j-- > 0 && l[i][j] != 0; ) // l is a band matrix
			d[i] -= l[i][j] * d[j];
''')],
 'a lower matrix with a zero left of which there are non-zero elements',
 'the elements left of a zero are ignored: the solution is wrong',
'''	nytl::Mat<3, 3, double> l {1, 0, 0, 0, 1, 0, 1, 0, 1}, u {1, 0, 0, 0, 1, 0, 0, 0, 1};
	auto x = nytl::luEvaluate(l, u, nytl::Vec<3, double> {1, 1, 1});
	EXPECT(x[2] == 0);''','mat matOps vec vecOps')
B('pr37c','C37',[(MO,'''	if(breakAfter) os << "\\n";
	if(valueWidth) os.precision(org);''','''	if(!breakAfter) return os;
	os << "\\n";
	os.precision(org);''')],
 'print of a matrix without trailing line break',
 'the precision of the stream stays changed',
'''	std::ostringstream os; os.precision(11);
	nytl::print(os, nytl::Mat<1, 2, double> {1, 2}, 8, "", false);
	EXPECT(os.precision() == 11);''','mat matOps vec vecOps',pre='#include <sstream>\n')
B('pr37d','C37',[(MO,'''			if(valueWidth) os.width(valueWidth);
			if(valueWidth)''','''			if(valueWidth) os.width(c ? valueWidth : valueWidth - 1);
			if(valueWidth)''')],'x','x','''	return 0;''','mat matOps vec vecOps')
SPECS.pop()
B('si35b','C35',[(SI,'	PointArray points_ {};','	PointArray points_;'),(SI,'	constexpr Simplex() noexcept = default;','	Simplex() noexcept = default;')],
 'a default constructed simplex in memory that was used before',
 'the points are not initialized',
'''	alignas(16) unsigned char mem[200]; std::memset(mem, 0x41, 200);
	auto* s = new(mem) nytl::Simplex<3, double, 2>;
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) EXPECT(s->points()[i][j] == 0);''','simplex',pre='#include <new>\n')
B('si35c','C35',[(SI,'		for(auto i = 0u; i < points_.size(); ++i) {','		for(auto i = 0u; i < ret.spaceDim + 1 && i < points_.size(); ++i) {'),],
 'x','x','return 0;','simplex'); SPECS.pop()
