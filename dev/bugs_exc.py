exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
NEWOP='''
static long countdown = -1; static long blocks = 0;
void* operator new(std::size_t n) { if(countdown > 0 && --countdown == 0) throw std::bad_alloc(); ++blocks; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if(p) --blocks; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if(p) --blocks; std::free(p); }
'''
B('cb07c','C07',[(RC,'''	// make sure the no list iterators are invalidated while iterating
	++iterationCount_;
''','''	// make sure the no list iterators are invalidated while iterating
	++iterationCount_;
	std::vector<std::conditional_t<std::is_void_v<Ret>, char, Ret>> ret;
	ret.reserve(size());
'''),(RC,'''		std::vector<Ret> ret;
		ret.reserve(size());

''','')],
 'allocating the storage for the results of a call fails',
 'the callback regards itself as running from then on: functions that are disconnected later are never destroyed',
'''	nytl::RecursiveCallback<int()> cb; auto p = std::make_shared<int>(); int thrown = 0;
	auto c = cb += [p]{ return 1; };
	countdown = 1;
	try { cb(); } catch(const std::bad_alloc&) { thrown = 1; }
	countdown = -1;
	EXPECT(thrown == 1); EXPECT(cb().size() == 1);
	c.disconnect();
	EXPECT(p.use_count() == 1);''',pre='#include <new>\n'+NEWOP)
B('cb07d','C07',[(CB,'''			ret.push_back(func.func(static_cast<PassArg<Args>>(a)...));''','''			try { ret.push_back(func.func(static_cast<PassArg<Args>>(a)...)); }
			catch(const std::bad_alloc&) { continue; }''')],
 'a function (or storing its result) throws std::bad_alloc',
 'the exception does not reach the caller, the remaining functions are run',
'''	nytl::Callback<int()> cb; int runs = 0, thrown = 0;
	cb += []() -> int { throw std::bad_alloc(); };
	cb += [&]{ return ++runs; };
	try { cb(); } catch(const std::bad_alloc&) { thrown = 1; }
	EXPECT(thrown == 1 && runs == 0);''',pre='#include <new>\n')
B('by13f','C13',[(BY,'''	dst.resize(dst.size() + src.size());
	auto dstData = dst.data() + dst.size() - src.size();
	std::memcpy(dstData, src.data(), src.size());''','''	// fill up the allocated memory first
	auto first = std::min(src.size(), dst.capacity() - dst.size());
	dst.insert(dst.end(), src.begin(), src.begin() + first);
	dst.insert(dst.end(), src.begin() + first, src.end());''')],
 'a write to a dynamic buffer that does not fit into the capacity fails for lack of memory',
 'a part of the object has been written: when the write is repeated the content can not be read back',
'''	nytl::DynWriteBuf buf; buf.reserve(10); nytl::write(buf, 1);
	std::vector<int> v(20); int thrown = 0;
	countdown = 1;
	try { nytl::write(buf, v); } catch(const std::bad_alloc&) { thrown = 1; }
	countdown = -1;
	EXPECT(thrown == 1 && buf.size() == 4);''','bytes','#include <new>\n'+NEWOP)
