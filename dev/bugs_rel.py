exec(open(os.path.join(VERIF,'dev','bugs_more.py')).read().split("\nB('cb01f'")[0])
BY='bytes.hpp'; QU='quaternion.hpp'; MO='matOps.hpp'; TR='transform.hpp'; VO='vecOps.hpp'
bug('cb08g','C08',[(RC,'''		if(--iterationCount_ == 0) {
			removeOld();
		}
	});
''','''		assert(iterationCount_-- > 0 && "unbalanced call");
		if(iterationCount_ == 0) {
			removeOld();
		}
	});
'''),(RC,'#pragma once\n','#pragma once\n\n#include <cassert>\n')],
 'a build without assertions (NDEBUG)','the callback regards itself as running for ever: functions that are disconnected later are never destroyed',
'''#include <nytl/recursiveCallback.hpp>
#include <memory>
int main() {
	nytl::RecursiveCallback<void()> cb; auto p = std::make_shared<int>();
	auto c = cb += [p] {};
	cb();
	c.disconnect();
	EXPECT(p.use_count() == 1);
}''', flags='-DNDEBUG')
bug('by13h','C13',[(BY,'''	dst.resize(dst.size() + src.size());
	auto dstData = dst.data() + dst.size() - src.size();
	std::memcpy(dstData, src.data(), src.size());''','''	const auto off = dst.size();
	NYTL_BYTES_ASSERT((dst.resize(off + src.size()), dst.size() > off));
	auto dstData = dst.data() + dst.size() - src.size();
	std::memcpy(dstData, src.data(), src.size());''')],
 'a build without assertions (NDEBUG)','the dynamic buffer does not grow, old contents or memory before the buffer are overwritten',
'''#include <nytl/bytes.hpp>
int main() {
	nytl::DynWriteBuf buf(8); int x = 5;
	nytl::write(buf, x);
	EXPECT(buf.size() == 12);
}''', flags='-DNDEBUG')
bug('qu24h','C24',[(QU,'''		double t;
		Quaternion q;
		if(m[2][2] < 0) {
			if(m[0][0] > m[1][1]){''','''		double t;
		Quaternion q;
		// any entry can be first, what counts is that it was evaluated
		auto next = [row = m[0].begin()]() mutable { return *row++; };
		auto more = [](auto a, auto b) { return a > b; };
		(void) next;
		if(m[2][2] < 0) {
			if(more(m[0][0], m[1][1])){''')],'x','x','int main() {}'); SPECS.pop()
bug('ma20i','C20',[(MO,'x','y')],'x','x','int main() {}'); SPECS.pop()
