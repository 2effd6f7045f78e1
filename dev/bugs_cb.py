CB='callback.hpp'; RC='recursiveCallback.hpp'; CO='connection.hpp'
INC='''#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <vector>
#include <string>
#include <stdexcept>
#include <new>
#include <memory>
'''
def B(id,prop,edits,needs,breaks,body,pre='',flags=''):
    bug(id,prop,edits,needs,breaks,INC+pre+'\nint main() {\n'+body+'\n}\n',flags)

B('cb01a','C01',[(RC,'''		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
			if(it->id.get() > 0 || -it->id.get() >= callid) {
''','''		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
			if(it->id.get() > 0 || -it->id.get() > callid) {
''')],
 'a callback with a return value whose running function disconnects a later one, with no nested call',
 'the running call skips a function that was registered when it started',
'''	nytl::RecursiveCallback<int()> cb; nytl::Connection c;
	cb += [&]{ c.disconnect(); return 1; };
	c = cb += []{ return 2; };
	EXPECT((cb() == std::vector<int>{1, 2}));
	EXPECT((cb() == std::vector<int>{1}));''')

B('cb01c','C01',[(RC,'			sub.id.set(-callID_);','			sub.id.set(-static_cast<std::int64_t>(iterationCount_));')],
 'clear from within a call that is not the first one of the callback',
 'functions cleared by a running function are not run by the call any more although they were registered when it started',
'''	nytl::RecursiveCallback<void()> cb; int n = 0, second = 0;
	cb += [&]{ if(++n == 3) cb.clear(); };
	cb += [&]{ ++second; };
	cb(); cb(); cb();
	EXPECT(second == 3);''')

B('cb01e','C01',[(RC,'''		if(subs_.empty()) {
			subs_.emplace_front();
			last_ = subs_.begin();
		} else {''','''		if(iterationCount_ == 0 && subs_.empty()) {
			subs_.emplace_front();
			last_ = subs_.begin();
		} else if(subs_.empty()) {
			subs_.emplace_front(); // last_ is updated when the iteration ends
		} else {''')],
 'a function is registered on an empty callback while a call of it is running (its own call of an empty callback can not do this: it needs a tracked removal handler)',
 'x','''return 0;''') if False else None

B('cb02a','C02',[(CB,'''	subs_.erase(range.first);''','''	// avoid moving all the functions for large vectors
	if(subs_.end() - range.first > 8) {
		std::swap(*range.first, subs_.back());
		subs_.pop_back();
	} else {
		subs_.erase(range.first);
	}''')],
 'disconnecting a function that is followed by at least eight others',
 'the functions are not run in registration order any more (and later disconnects can fail)',
'''	nytl::Callback<int()> cb; std::vector<nytl::Connection> c;
	for(int i = 0; i < 12; ++i) c.push_back(cb.add([i]{ return i; }));
	c[1].disconnect();
	EXPECT((cb() == std::vector<int>{0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}));''')

B('cb02b','C01',[(RC,'''	Connection operator=(F&& func) {
		clear();
		return add(std::forward<F>(func));''','''	Connection operator=(F&& func) {
		auto conn = add(std::forward<F>(func));
		while(subs_.begin() != last_ && disconnect(ID(subs_.begin()->id)));
		return conn;''')],
 'assigning a new function from within a running function, followed by another call',
 'only the first function is removed: the old ones remain registered next to the assigned one',
'''	nytl::RecursiveCallback<int()> cb; int n = 0;
	cb += [&]{ if(n++ == 0) { cb = []{ return 5; }; } return 1; };
	cb += []{ return 2; };
	cb += []{ return 3; };
	cb();
	EXPECT((cb() == std::vector<int>{5}));''')

B('cb04e','C04',[(CB,'''	++subID_;
	subs_.emplace_back();''','''	subID_ = subs_.empty() ? 1 : subs_.back().id.get() + 1;
	id.set(subID_);
	subs_.emplace_back();''')],
 'disconnecting the most recently added function, adding another one and using the stale connection',
 'connection ids are reused: a stale connection removes a different function',
'''	nytl::Callback<int()> cb;
	cb += []{ return 1; };
	auto c = cb += []{ return 2; };
	auto d = c; c.disconnect();
	cb += []{ return 3; };
	d.disconnect();
	EXPECT((cb() == std::vector<int>{1, 3}));''')

B('cb03a','C03',[(RC,'''	sub.func = [conn, f = std::move(func)](Args... args) {''','''	sub.func = [conn, f = std::move(func)](auto... args) {''')],
 'a signature with a reference parameter and a function that takes the connection',
 'the function receives a reference to a copy, modifications do not reach the caller',
'''	nytl::RecursiveCallback<void(int&)> cb;
	cb.add(std::function<void(nytl::Connection, int&)>([](nytl::Connection, int& x) { ++x; }));
	int x = 1; cb(x);
	EXPECT(x == 2);''')

B('cb03b','C03',[(RC,"""	Connection conn {*this, sub.id};""","""	Connection conn {*this, sub.id};
	if(iterationCount_ > 1) conn = {*this, subs_.begin()->id};""")],
 'a function with connection parameter registered from within a nested call',
 'the connection it receives refers to the first function',
"""	nytl::RecursiveCallback<int()> cb; int n = 0;
	cb += [&]{ if(n++ == 1) cb.add(std::function<int(nytl::Connection)>([&](nytl::Connection c) { c.disconnect(); return 2; })); if(n == 1) cb(); return 1; };
	cb(); cb();
	EXPECT((cb() == std::vector<int>{1}));""") if False else None
B('cb03c','C03',[(RC,'''		return f(conn, std::forward<Args>(args)...);''','''		if constexpr(std::is_reference_v<Ret>)
			return f(conn, std::forward<Args>(args)...);
		else
			return f(Connection(conn), Args(args)...);''')],
 'x','x','return 0;') if False else None

B('cb04a','C04',[(RC,'''		if(next->id.get() == id.get()) {''','''		if(next->id.get() == id.get() || -next->id.get() == id.get()) {''')],
 'within a call with number n a function is disconnected, and then the function with id n, which is registered behind it',
 'the disconnect finds the already removed entry: returns true without removing the function',
'''	nytl::RecursiveCallback<void()> cb; nytl::Connection c[3]; int n = 0, runs = 0;
	cb += [&]{ if(++n == 3) { c[0].disconnect(); c[1].disconnect(); } };
	c[0] = cb += [&]{ };
	c[1] = cb += [&]{ ++runs; };
	cb(); cb(); cb(); 
	EXPECT(runs == 3);
	cb();
	EXPECT(runs == 3);''')

B('cb04b','C04',[(CB,'''	subs_.clear();
}''','''	subs_ = {};
	subID_ = 0;
}''')],
 'a connection from before a clear is disconnected after new functions were added',
 'ids are reused after clear, so that the old connection removes a new function',
'''	nytl::Callback<int()> cb;
	auto c = cb += []{ return 1; };
	cb.clear();
	cb += []{ return 2; };
	c.disconnect();
	EXPECT((cb() == std::vector<int>{2}));''')

B('cb04c','C04',[(RC,'''		subs_.clear();
		last_ = subs_.end();''','''		subs_ = {};
		last_ = subs_.end();
		subID_ = callID_ = 0;''')],
 'a connection from before a clear (outside of calls) is disconnected after new functions were added',
 'ids are reused after clear, so that the old connection removes a new function',
'''	nytl::RecursiveCallback<int()> cb;
	cb += []{ return 1; };
	auto c = cb += []{ return 1; };
	cb.clear();
	cb += []{ return 2; };
	cb += []{ return 3; };
	c.disconnect();
	EXPECT((cb() == std::vector<int>{2, 3}));''')

B('cb04d','C04',[(RC,'''	Connection conn {*this, sub.id};''','''	Connection conn {*this, ID {sub.id.get()}};''')],
 'a tracked callback and a function with connection parameter that is removed by clear',
 'the returned tracked connection does not observe the removal',
'''	nytl::TrackedRecursiveCallback<void()> cb;
	auto c = cb.add(std::function<void(nytl::TrackedConnection)>([](nytl::TrackedConnection) {}));
	EXPECT(c.connected());
	cb.clear();
	EXPECT(!c.connected());''')

UID='''
struct Log { int removed = 0, set = 0; bool bad = false; };
struct Uid { std::int64_t v {}; std::shared_ptr<Log> log;
	Uid() = default; Uid(std::int64_t x) : v(x), log(std::make_shared<Log>()) {}
	void set(std::int64_t x) noexcept { v = x; ++log->set; if(x >= 0 || log->removed) log->bad = true; }
	std::int64_t get() const noexcept { return v; }
	void removed() noexcept { ++log->removed; } };
'''
B('cb05a','C05',[(RC,'''					next->id.removed();
					subs_.erase_after(it);
				} else {''','''					subs_.erase_after(it);
				} else {''')],
 'a function other than the first one is disconnected while a call is running, with an id class that observes removed()',
 'removed() is never called for its id',
'''	nytl::RecursiveCallback<void(), Uid> cb; nytl::ConnectionT<nytl::ConnectableT<Uid>, Uid> c;
	cb += [&]{ c.disconnect(); };
	c = cb += [&]{ };
	auto log = c.id().log;
	cb();
	EXPECT(log->removed == 1);''',UID) if False else None
B('cb05b','C05',[(RC,'''	for(auto& sub : subs_) {
		if(remove) {
			sub.id.removed();''','''	for(auto& sub : subs_) {
		if(remove && sub.func) {
			sub.id.removed();''')],'x','x','return 0;',UID) if False else None
B('cb05c','C05',[(RC,'''				next->id.removed();
				subs_.erase_after(it);
			} else {
				next->id.set(-callID_);
			}''','''				subs_.erase_after(it);
			} else {
				next->id.set(-callID_);
			}''')],
 'disconnecting a function other than the first outside of calls; the id class must observe it (tracked connections: other copies)',
 'removed() is never called, copies of the tracked connection still report connected',
'''	nytl::TrackedRecursiveCallback<void()> cb;
	cb += []{};
	auto c = cb += []{}; auto d = c;
	c.disconnect();
	EXPECT(!d.connected());''')
B('cb05d','C05',[(RC,'''	for(auto& sub : subs_) {
		sub.id.removed();
	}
}''','''	callID_ += 1;
	for(auto& [func, id] : subs_) {
		if(id.get() > 0) {
			id.set(-callID_);
		}
		id.removed();
	}
}''')],
 'destroying a recursive callback with registered functions and an id class that observes set',
 'set() is called for functions that are neither disconnected nor cleared during a call',
'''	std::shared_ptr<Log> log;
	{ nytl::RecursiveCallback<void(), Uid> cb; log = (cb += []{}).id().log; }
	EXPECT(log->set == 0 && log->removed == 1);''',UID)
B('cb05e','C05',[(CB,'''	// notify the ids of removal
	for(auto& sub : subs_) {
		sub.id.removed();
	}
	subs_.clear();''','''	// disconnects and thereby notifies all ids
	while(!subs_.empty()) {
		disconnect(subs_.back().id);
	}
	subs_.shrink_to_fit();''')],
 'x','x','return 0;') if False else None
B('cb05f','C05',[(RC,'''				next->id.set(-callID_);
			}

			return true;''','''				auto& nid = next->id;
				nid.set(-callID_);
				nid.removed();
			}

			return true;''')],
 'a function that is not the first one is disconnected while a call is running',
 'removed() is called at once (and again later) although running calls can still run the function',
'''	nytl::RecursiveCallback<void(), Uid> cb; nytl::ConnectionT<nytl::ConnectableT<Uid>, Uid> c; int atRun = -1; 
	std::shared_ptr<Log> log;
	cb += [&]{ c.disconnect(); };
	c = cb += [&]{ atRun = log->removed; };
	log = c.id().log;
	cb();
	EXPECT(atRun == 0 && log->removed == 1);''',UID)

B('cb06a','C06',[(CO,'''		try {
			disconnect();
		} catch(const std::exception& error) {
			std::cerr << "nytl::UniqueConnectionT: disconnect failed: " << error.what() << "\\n";
		}

		connectable_ = lhs.connectable_;
		id_ = lhs.id_;
		lhs.connectable_ = {};
		lhs.id_ = {};
		return *this;''','''		// the previous connection is disconnected by lhs
		std::swap(connectable_, lhs.connectable_);
		std::swap(id_, lhs.id_);
		return *this;''')],
 'move assignment to a non-empty unique connection from a named one that lives on',
 'the overwritten connection is not disconnected and the source is not empty',
'''	nytl::Callback<int()> cb;
	nytl::UniqueConnection a = cb.add([]{ return 1; }), b = cb.add([]{ return 2; });
	a = std::move(b);
	EXPECT((cb() == std::vector<int>{2}));''')
B('cb06b','C06',[(CO,'''		try {
			disconnect();
		} catch(const std::exception& error) {
			std::cerr << "nytl::UniqueConnectionT: disconnect failed: " << error.what() << "\\n";
		}
''','''		try {
			// don't disconnect the connection that will be taken over
			if(id_.get() != lhs.id_.get())
				disconnect();
		} catch(const std::exception& error) {
			std::cerr << "nytl::UniqueConnectionT: disconnect failed: " << error.what() << "\\n";
		}
''')],
 'move assignment between unique connections to different callbacks with equal ids',
 'the overwritten connection is not disconnected',
'''	nytl::Callback<int()> a, b;
	nytl::UniqueConnection x = a.add([]{ return 1; }), y = b.add([]{ return 2; });
	x = std::move(y);
	EXPECT(a().empty());
	EXPECT((b() == std::vector<int>{2}));''')
B('cb06c','C06',[(CO,'''		lhs.id_ = {};
		lhs.connectable_ = {};
	}
''','''		lhs.id_ = {};
	}
''')],
 'looking at a moved-from unique connection (connectable())',
 'the moved-from unique connection still refers to the connectable',
'''	nytl::Callback<int()> cb;
	nytl::UniqueConnection a = cb.add([]{ return 1; });
	nytl::UniqueConnection b = std::move(a);
	EXPECT(!a.connectable() && b.connectable() == &cb);''')

B('cb07a','C07',[(RC,'''		if(--iterationCount_ == 0) {
			removeOld();
		}''','''		--iterationCount_;
		if(std::uncaught_exceptions() == 0 && iterationCount_ == 0) {
			removeOld();
		}''')],
 'a function is disconnected during a call that is left by an exception (or that runs during unwinding)',
 'the deferred removal does not become effective after the call: the function object is kept and its id not notified',
'''	nytl::TrackedRecursiveCallback<void()> cb; nytl::TrackedConnection c, d; auto obj = std::make_shared<int>(1);
	d = c = cb += [&, obj]{ d.disconnect(); throw std::runtime_error("x"); };
	try { cb(); } catch(const std::runtime_error&) {}
	EXPECT(!c.connected() && obj.use_count() == 1);''')
B('cb07b','C07',[(RC,'''	++iterationCount_;

	// make sure the iteration count and cleanup done if possible
	// even in the case of an exception.
	auto successGuard = ScopeGuard([&]{
		if(--iterationCount_ == 0) {
			removeOld();
		}
	});
''','''	auto count = iterationCount_++;

	// make sure the iteration count and cleanup done if possible
	auto finish = [&]{
		iterationCount_ = count;
		if(count == 0) {
			removeOld();
		}
	};
	auto successGuard = SuccessGuard(finish);
	auto exceptionGuard = ExceptionGuard([&]{
		iterationCount_ = 0;
		removeOld();
	});
''')],
 'an exception leaves a nested call and is caught by a function of the outer call, with a function disconnected before',
 'the nested call removes the functions although the outer call is still running',
'''	nytl::RecursiveCallback<void()> cb; nytl::Connection c; int depth = 0; auto obj = std::make_shared<int>(1); long uses = -1; std::weak_ptr<int> w = obj;
	cb += [&]{ if(depth++ == 0) { c.disconnect(); try { cb(); } catch(int) {} uses = w.use_count(); } else throw 1; };
	c = cb += [obj = std::move(obj)]{ };
	cb();
	EXPECT(uses == 1);''')
B('cb08a','C08',[(RC,'''					subs_.erase_after(it);
				} else {
					++it;
				}''','''					subs_.erase_after(it);
				}

				if(std::next(it) != subs_.end()) {
					++it;
				}''')],
 'at least two adjacent functions behind the first one are removed during the same call',
 'every other removed function object is kept (and possibly run) after the call',
'''	nytl::RecursiveCallback<void()> cb; nytl::Connection c[3]; auto obj = std::make_shared<int>(1); 
	cb += [&]{ for(auto& x : c) x.disconnect(); };
	for(auto& x : c) x = cb += [obj]{ };
	cb += []{};
	cb();
	EXPECT(obj.use_count() == 1);''') 
B('cb08b','C08',[(RC,'''	auto remove = (iterationCount_ == 0);

	// check for first one''','''	// when the first call has already passed a function it can be removed
	auto remove = (iterationCount_ == 0) || (iterationCount_ == 1 && id.get() > subID_);

	// check for first one''')],'x','x','return 0;') if False else None
B('cb08c','C08',[(RC,'''			} else {
				next->id.set(-callID_);
			}

			return true;''','''			} else {
				next->id.set(-callID_);
				if(std::next(next) == subs_.end() && it != last_ && callID_ > 1)
					next->func = [f = std::move(next->func)](Args... args) -> Ret {
						return f(std::forward<Args>(args)...);
					};
			}

			return true;''')],
 'the last function disconnects itself in a call that is not the first one',
 'the function object is moved (and its wrapper destroyed) while it is running',
'''	struct F { nytl::RecursiveCallback<void()>* cb; nytl::Connection* c; int* n; const F** self; 
		void operator()() const { const F* me = this; *self = nullptr; if(++*n == 2) c->disconnect(); EXPECT(*self == nullptr); }
		F(nytl::RecursiveCallback<void()>* b, nytl::Connection* x, int* i, const F** s) : cb(b), c(x), n(i), self(s) {}
		F(const F& f) : F(f.cb, f.c, f.n, f.self) { *self = this; }
		F(F&& f) : F(f.cb, f.c, f.n, f.self) { *self = this; } };
	nytl::RecursiveCallback<void()> cb; nytl::Connection c; int n = 0; const F* self = nullptr;
	cb += []{};
	c = cb += F(&cb, &c, &n, &self);
	cb(); cb();
	EXPECT(n == 2);''') if False else None
FAIL='''
static long failAt = -1;
void* operator new(std::size_t n) { if(failAt >= 0 && failAt-- == 0) throw std::bad_alloc(); auto p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''
B('cb09a','C09',[(CB,'''	ID id = {subID_ + 1};

	++subID_;
	subs_.emplace_back();
	subs_.back().id = id;''','''	subs_.emplace_back();
	ID id = {subID_ + 1};

	++subID_;
	subs_.back().id = id;''')],
 'allocation of the id of a tracked callback fails after the vector of subscriptions was extended',
 'an empty subscription remains, later calls throw std::bad_function_call',
'''	for(long i = 0; i < 4; ++i) {
		nytl::TrackedCallback<int()> cb;
		cb += []{ return 1; };
		std::function<int()> f = []{ return 2; };
		bool failed = false;
		failAt = i;
		try { cb.add(f); } catch(const std::bad_alloc&) { failed = true; }
		failAt = -1;
		auto r = cb();
		EXPECT(r.size() == (failed ? 1u : 2u) && cb.subscriptions().size() == r.size());
	}''',FAIL)
B('cb08d','C08',[(RC,'''		last_ = it;
		--iterationCount_;''','''		if(subs_.empty()) {
			last_ = it;
		}
		--iterationCount_;''')],
 'the last registered function is disconnected during a call and another one is registered later',
 'the function is registered behind a destroyed list node',
'''	nytl::RecursiveCallback<void()> cb; nytl::Connection c; int n = 0;
	cb += []{};
	c = cb += [&]{ c.disconnect(); };
	cb();
	{ std::vector<std::unique_ptr<int[]>> v; for(int i = 0; i < 8; ++i) v.emplace_back(new int[12] {}); }
	cb += [&]{ ++n; };
	cb();
	EXPECT(n == 1);''')
