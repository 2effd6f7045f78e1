exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
B('ut15e','C15',[(U,'''	std::size_t count = 0u;
	auto it = utf8.begin();

	while(it != utf8.end()) {
		auto length = 1u;
		if((*it) & (1 << 7)) {
			++length;
			if((*it) & (1 << 5)) {
				++length;
				if((*it) & (1 << 4))
					++length;
			}
		}

		++count;
		it += length;
	}

	return count;
''','''	// counting is linear, remember the last result
	thread_local std::string_view last {};
	thread_local std::size_t count = 0u;
	if(utf8.data() == last.data() && utf8.size() == last.size()) {
		return count;
	}

	last = utf8;
	count = 0u;
	auto it = utf8.begin();
	while(it != utf8.end()) {
		auto length = 1u;
		if((*it) & (1 << 7)) {
			++length;
			if((*it) & (1 << 5)) {
				++length;
				if((*it) & (1 << 4))
					++length;
			}
		}

		++count;
		it += length;
	}

	return count;
''')],'counting the characters of a string that was modified in place since the last call (or another one at the same address)',
'the count of the old contents is returned','''	std::string s = "aaaa";
	EXPECT(nytl::charCount(s) == 4);
	s[0] = '\\xc3'; s[1] = '\\xa4';
	EXPECT(nytl::charCount(s) == 3);''','utf')
B('sp12l','C12',[(SP,'''    return std::equal(l.begin(), l.end(), r.begin(), r.end());''','''	return (static_cast<const void*>(l.data()) == r.data() && l.size() == r.size()) ||
		std::equal(l.begin(), l.end(), r.begin(), r.end());''')],
'comparing spans over the same memory whose elements do not equal themselves','spans with unequal elements compare equal',
'''	double d[] = {1., std::nan(""), 2.};
	nytl::span<double> a(d), b(d);
	EXPECT(!(a == b) && a != b);''','span')
B('ec21f','C21',[(MO,'''		//find the pivot
		auto c = 0u;
''','''		// find the pivot, never left of the diagonal
		auto c = r;
''')],'the reduced form of a matrix with at least two more rows than columns','elements behind the rows are read and changed',
'''	nytl::Mat<4, 2, double> m {}; m[0][0] = 1; m[0][1] = 3; m[1][1] = 2; m[2][0] = 5;
	nytl::reducedRowEcholon(m);
	EXPECT(m[0][0] == 1 && m[0][1] == 0 && m[1][0] == 0 && m[1][1] == 1);
	for(int i = 2; i < 4; ++i) EXPECT(m[i][0] == 0 && m[i][1] == 0);''','mat matOps',flags='-fsanitize=address,undefined -fno-sanitize-recover=all')
B('st38h','C38',[(Q,'''        // If the inputs are too close, linearly interpolate and normalize
        Quaternion result = v0 + t * (v1 - v0);
        return normalized(result);''','''        // If the inputs are too close, linearly interpolate and normalize
        static Quaternion diff;
        diff = v1 - v0;
        Quaternion result = v0 + t * diff;
        return normalized(result);''')],'two threads that interpolate between close orientations at the same time','a data race, and wrong results',
'''	auto work = [](double x) { auto a = nytl::Quaternion::axisAngle(1, 0, 0, x), b = nytl::Quaternion::axisAngle(1, 0, 0, x + 0.01); for(int i = 0; i < 2000; ++i) (void) nytl::slerp(a, b, 0.5); };
	std::thread a(work, 0.), b(work, 1.);
	a.join(); b.join();
	return 0;''','vec quaternion',flags='-fsanitize=thread -g')
