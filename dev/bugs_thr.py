exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
def TT(id,edits,needs,work,inc):
    B(id,'C38',edits,needs,'two threads that use independent objects access a common variable: data race, and wrong results','''
	auto work = []() { for(int i = 0; i < 2000; ++i) { '''+work+''' } };
	std::thread a(work), b(work);
	a.join(); b.join();
	return 0;''',inc,flags='-fsanitize=thread -g')
TT('st38i',[(RC,'''	bool remove = iterationCount_ == 0;

	// reset''','''	static bool remove;
	remove = iterationCount_ == 0;

	// reset''')],'two threads that clear different recursive callbacks','nytl::RecursiveCallback<void()> cb; cb.add([]{}); cb.clear();','recursiveCallback')
TT('st38j',[('vec3.hpp','constexpr T* data() { return &x; }','constexpr T* data() { return &x; }\n\tstatic T& invalid() { static T ret; ret = {}; throw std::out_of_range("Vec3[]"); }'),
('vec3.hpp','''			default: throw std::out_of_range("Vec3[]");
		}
	}

	constexpr const T& operator[]''','''			default: return invalid();
		}
	}

	constexpr const T& operator[]''')],'two threads that access vectors out of range','nytl::Vec3f v; try { v[3 + i % 2] = 1; } catch(const std::out_of_range&) {}','vec')
