exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
B('cb06e','C06',[(CO,'''	~UniqueConnectionT()
	{
		try {
			disconnect();
''','''	~UniqueConnectionT()
	{
		try {
			// an exception from disconnect would terminate the program
			if(!std::uncaught_exceptions()) disconnect();
''')],'a unique connection that is destroyed while an exception unwinds the stack','the function stays registered','''	nytl::Callback<void()> cb; int runs = 0;
	try { nytl::UniqueConnection c = cb.add([&]{ ++runs; }); throw 1; } catch(int) {}
	cb();
	EXPECT(runs == 0);''')
B('cb04j','C04',[(RC,'''	std::int64_t subID_ {}; // the highest subscription id given
''','''	static inline thread_local std::int64_t subID_ {}; // the highest subscription id given
''')],'functions of one callback are registered by different threads (one after the other)','ids are reused within the callback: disconnecting one of them removes the other one','''	nytl::RecursiveCallback<void()> cb; int a = 0, b = 0;
	nytl::Connection c1, c2;
	std::thread([&]{ c1 = cb.add([&]{ ++a; }); }).join();
	std::thread([&]{ c2 = cb.add([&]{ ++b; }); }).join();
	c2.disconnect();
	cb();
	EXPECT(a == 1 && b == 0);''')
B('cb07d','C07',[(RC,'''		if(--iterationCount_ == 0) {
''','''		if(--iterationCount_ == 0 && std::uncaught_exceptions() < 2) {
''')],'a call from within a destructor during unwinding that is itself left by an exception','deferred removals do not become effective after the call','''	nytl::RecursiveCallback<void()> cb; auto p = std::make_shared<int>(); std::weak_ptr<int> w = p;
	nytl::Connection c;
	c = cb.add([&, p]{ c.disconnect(); throw 2; });
	p.reset();
	struct Guard { nytl::RecursiveCallback<void()>& cb; ~Guard() { try { cb(); } catch(int) {} } };
	try { Guard g {cb}; throw 1; } catch(int) {}
	EXPECT(w.expired());''')
