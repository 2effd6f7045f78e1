From 148092781591ef01c9abf83db7273c3ef08c414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 01/37] fix: RecursiveCallback::disconnect notified the wrong
 subscription

When disconnecting anything but the first subscription, the iterator was
already moved past the removed element when removed() was called on it: the
following subscription (or the past-the-end element) was notified.
---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..736c810 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -354,7 +354,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From 9ce3fe3580abbccdd44eb2f62eabc85bb24218a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 02/37] fix: RecursiveCallback::call ran functions added during
 a nested call

The end of the iteration was only detected when the last subscription was
still called. If it was already formally removed, functions registered after
the call started were called as well.
---
 nytl/recursiveCallback.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 736c810..fce1a57 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -272,11 +272,12 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above)
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -287,9 +288,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From 1a34f28bcd8fc81a7b4fcb2f7648694d2793bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 03/37] fix: RecursiveCallback::clear resurrected already
 removed functions

Clearing during an iteration overwrote the id of subscriptions that were
removed before, so that already running nested calls called them again.
---
 nytl/recursiveCallback.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index fce1a57..fd9d558 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -308,7 +308,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) {
+			// don't touch already formally removed subscriptions
 			sub.id.set(-callID_);
 		}
 	}
-- 
2.43.0


From 698e5def507c121b320339d49a72dcc5e226eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 04/37] fix: RecursiveCallback::disconnect returned true for
 removed functions

The id value of an already removed tracked connection matched the mark of
formally removed subscriptions: disconnecting it again reported success and
moved the mark, so that nested calls called the function again.
---
 nytl/recursiveCallback.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index fd9d558..6488131 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -326,7 +326,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// already (formally) removed ids have a value <= 0
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From c315753f8d2e10773249df0cf7b9c9a090ca0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 05/37] fix: RecursiveCallback did not call ID::removed for
 leading functions

removeOld erased the formally removed subscriptions at the front of the list
without notifying their ids, as required by docs/callback.md.
---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 6488131..67f7c47 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From 8700b7562d4520927d4ca7e528554133d902abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 06/37] fix: RecursiveCallback::add registered an empty
 function when out of memory

If wrapping the function with connection parameter throws, the already
created subscription stayed registered with an empty function and
following calls failed with bad_function_call.
---
 nytl/recursiveCallback.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 67f7c47..f94e18c 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -238,6 +238,9 @@ add(std::function<Ret(Connection, Args...)> func)
 
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
+
+	// don't leave an empty function registered if the allocation fails
+	auto exceptionGuard = ExceptionGuard([&]{ conn.disconnect(); });
 	sub.func = [conn, f = std::move(func)](Args... args) {
 		return f(conn, std::forward<Args>(args)...);
 	};
-- 
2.43.0


From 038bc6849b39a287ae988975fa87117726f97a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 07/37] fix: (Recursive)Callback::call moved by-value arguments
 into the first function

All functions after the first one received moved-from arguments.
---
 nytl/callback.hpp          | 9 +++++++--
 nytl/recursiveCallback.hpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..c0dfc3d 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -129,6 +129,11 @@ public:
 	}
 
 protected:
+	// By-value arguments are passed to all functions and must therefore not be
+	// moved into the first one. Everything else is perfectly forwarded.
+	template<typename T> using PassArg = std::conditional_t<
+		std::is_copy_constructible_v<T>, T&, T&&>;
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -175,13 +180,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(static_cast<PassArg<Args>>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(static_cast<PassArg<Args>>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index f94e18c..e75878c 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -193,6 +193,11 @@ protected:
 		return std::distance(subs_.begin(), subs_.end());
 	}
 
+	// By-value arguments are passed to all functions and must therefore not be
+	// moved into the first one. Everything else is perfectly forwarded.
+	template<typename T> using PassArg = std::conditional_t<
+		std::is_copy_constructible_v<T>, T&, T&&>;
+
 	std::forward_list<Subscription> subs_ {}; // all registered subscriptions
 	typename decltype(subs_)::iterator last_ {}; // the last entry in subs
 	unsigned int iterationCount_ {}; // the number of active iterations (in call)
@@ -275,7 +280,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(static_cast<PassArg<Args>>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -291,7 +296,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(static_cast<PassArg<Args>>(a)...));
 			}
 
 			if(it == last) {
-- 
2.43.0


From eea510b186991c9a42cf0c9d29604b7e54c77b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 08/37] fix: UniqueConnectionT::release could not be
 instantiated

---
 nytl/connection.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..69448d3 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,9 +147,13 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_) {
+			ret = {*connectable_, id_};
+		}
+
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From 2c85fa96b441a87847a99595624cf1251d1054c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 09/37] fix: cloneMove could not be used with Cloneable<T>
 objects

The friend declaration used the signature of clone.
---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..38924ed 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -116,7 +116,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From 80eba8bccfdc3ddd7d2dcf5594d857c680997b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 10/37] fix: clone/cloneMove returned wrong pointers for
 non-primary bases

When cloning through a base class that is not located at the start of the
derived object (e.g. the second base passed to DeriveCloneable), the pointer
to the complete object was reinterpreted as pointer to the base.
---
 nytl/clone.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 38924ed..283bd64 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -8,8 +8,20 @@
 #define NYTL_INCLUDE_CLONE
 
 #include <memory> // std::unique_ptr
+#include <cstddef> // std::ptrdiff_t
 
 namespace nytl {
+namespace detail {
+
+// Returns the offset of the given object in its most derived object.
+// doClone/doCloneMove return a pointer to a new most derived object.
+template<typename T>
+std::ptrdiff_t completeOffset(const T& obj) {
+	return reinterpret_cast<const char*>(std::addressof(obj)) -
+		static_cast<const char*>(dynamic_cast<const void*>(std::addressof(obj)));
+}
+
+} // namespace detail
 
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
@@ -18,7 +30,9 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	auto off = detail::completeOffset(obj);
+	auto ptr = static_cast<char*>(obj.doClone());
+	return std::unique_ptr<T>(reinterpret_cast<T*>(ptr + off));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +43,9 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	auto off = detail::completeOffset(obj);
+	auto ptr = static_cast<char*>(obj.doCloneMove());
+	return std::unique_ptr<T>(reinterpret_cast<T*>(ptr + off));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From dd6ba46e87af6d1f73cf8862d7a8d2a7ba94b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 11/37] fix: constructing a span from an empty std::array was
 undefined behavior

std::array<T, 0>::operator[] must not be called.
---
 nytl/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 18b204a..baa9f40 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -143,11 +143,11 @@ public:
 
     template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>>
     constexpr span(std::array<ArrayElementType, N>& arr) noexcept
-        : storage_(&arr[0], details::extent_type<N>()) {}
+        : storage_(arr.data(), details::extent_type<N>()) {}
 
     template <std::size_t N>
     constexpr span(const std::array<std::remove_const_t<element_type>, N>& arr) noexcept
-        : storage_(&arr[0], details::extent_type<N>()) {}
+        : storage_(arr.data(), details::extent_type<N>()) {}
 
 	// Allows direct initialization as in `f({1, 2, 3})`
 	// Otherwise `f({{1, 2, 3}})` is needed (at least with clang?)
-- 
2.43.0


From f9df4369bcedc790ca7cecc4c3d129c674dc9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 12/37] fix: bytes operations called memcpy with null pointers
 for empty ranges

---
 nytl/bytes.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index 6a0fc2a..a036b20 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -122,6 +122,10 @@ inline void skip(WriteBuf& buf, std::size_t bytes) {
 }
 
 inline void write(DynWriteBuf& dst, ReadBuf src) {
+	if(src.empty()) {
+		return;
+	}
+
 	dst.resize(dst.size() + src.size());
 	auto dstData = dst.data() + dst.size() - src.size();
 	std::memcpy(dstData, src.data(), src.size());
@@ -129,7 +133,9 @@ inline void write(DynWriteBuf& dst, ReadBuf src) {
 
 inline void write(WriteBuf& dst, ReadBuf src) {
 	NYTL_BYTES_ASSERT(dst.size() >= src.size());
-	std::memcpy(dst.data(), src.data(), src.size());
+	if(!src.empty()) {
+		std::memcpy(dst.data(), src.data(), src.size());
+	}
 	dst = dst.last(dst.size() - src.size());
 }
 
@@ -145,7 +151,9 @@ void write(DynWriteBuf& dst, const T& obj) {
 
 inline void read(ReadBuf& src, WriteBuf dst) {
 	NYTL_BYTES_ASSERT(src.size() >= dst.size());
-	std::memcpy(dst.data(), src.data(), dst.size());
+	if(!dst.empty()) {
+		std::memcpy(dst.data(), src.data(), dst.size());
+	}
 	src = src.last(src.size() - dst.size());
 }
 
@@ -166,7 +174,9 @@ read(ReadBuf& src, T& obj) {
 // Does not advance any of the buffers
 inline void copy(ReadBuf src, WriteBuf dst) {
 	NYTL_BYTES_ASSERT(src.size() == dst.size());
-	std::memcpy(dst.data(), src.data(), dst.size());
+	if(!dst.empty()) {
+		std::memcpy(dst.data(), src.data(), dst.size());
+	}
 }
 
 template<typename T>
-- 
2.43.0


From 9f78136376235fbf02e24d0a616ab6b351797e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 13/37] fix: in-place multiplication with aliasing operands

mat *= mat resulted in the zero matrix, multiplying a vector or matrix with
one of its own values used the already modified value.
---
 nytl/mat.hpp | 9 +++++----
 nytl/vec.hpp | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..9f48f3a 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -95,12 +95,12 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	auto tmp = a; // needed since we write to a
-	a = {};
+	Mat<D, D, T1> ret {}; // needed since a (which might be b) is read
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
 			for(auto i = 0u; i < D; ++i) // row + col dot
-				a[r][c] += tmp[r][i] * b[i][c];
+				ret[r][c] += a[r][i] * b[i][c];
+	a = ret;
 	return a;
 }
 
@@ -117,9 +117,10 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
 constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+	const auto fac = f; // copy, f might be a value of a
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
-			a[r][c] *= f;
+			a[r][c] *= fac;
 	return a;
 }
 
diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..fc79562 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -66,8 +66,9 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T, typename F>
 constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+	const auto f = fac; // copy, fac might be a component of vec
 	for(auto i = 0u; i < D; ++i)
-		vec[i] *= fac;
+		vec[i] *= f;
 	return vec;
 }
 
-- 
2.43.0


From 6a772a0def1385f766cd0b8f212a2c8aeecef6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 14/37] fix: Mat::at could not be used on const matrices or
 with 2 or 3 columns

---
 nytl/mat.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 9f48f3a..9041795 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -39,8 +39,8 @@ public:
 
 	/// Returns the value at position (r, c).
 	/// If this position exceeds the size of the matrix, throws std::out_of_range.
-	constexpr auto& at(size_t r, size_t c) { return at(r).at(c); }
-	constexpr const auto& at(size_t r, size_t c) const { return at(r).at(c); }
+	constexpr auto& at(size_t r, size_t c) { checkCol(c); return at(r)[c]; }
+	constexpr const auto& at(size_t r, size_t c) const { checkCol(c); return at(r)[c]; }
 
 	/// Explicitly casts the Mat to another Mat that may have
 	/// a different precision or dimensions. Will default construct
@@ -52,11 +52,18 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	constexpr void checkRow(size_t r) const {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
 
+	/// Utility function that throws std::out_of_range if the matrix does not have
+	/// the given column.
+	constexpr void checkCol(size_t c) const {
+		if(c >= cols())
+			throw std::out_of_range("nytl::Mat::at");
+	}
+
 public:
 	std::array<Vec<C, T>, R> rows_;
 };
-- 
2.43.0


From 775bdf6ec8f659bfab510d9aacb436c88305c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 15/37] fix: reducedRowEcholon read out of bounds for zero rows

---
 nytl/matOps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..53d4d23 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -279,8 +279,8 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 			++c;
 		}
 
-		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		// if the row is zero continue to the next (above) row
+		if(c == mat.cols()) {
 			continue;
 		}
 
-- 
2.43.0


From 9933e85a90a3f53be295831fa523d3c12b140661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 16/37] fix: the sign of an odd LU decomposition was 4294967295

This made determinant return garbage for odd permutations.
---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 53d4d23..cc3e55d 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	int sign = 1;
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From 3f8e8bd25eac69db640ff86119054cf4751da0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 17/37] fix: luEvaluate used the inverse permutation of LU
 decompositions

The result was wrong for all permutations that aren't their own inverse.
---
 nytl/matOps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index cc3e55d..c753f64 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -368,8 +368,8 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 /// Gaussian elimination implementation.
 /// The given matrix must be a square matrix.
 /// \notes If the lu composition was done with a permutation matrix (PA = LU), the given
-/// vector must be premultiplied with the permutations inverse (tranpose sine symmetrical) to
-/// get the vector that solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
+/// vector must be premultiplied with the permutation to get the vector that
+/// solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
 /// \notes If the lower or upper matrix are singular, the equation does not have
 /// a unique solution and this function results in undefined behvaiour. So
 /// if the lower or upper matrix might be singular, check first manually.
@@ -410,7 +410,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From ca6ce7605d212aee5fdf94c46731b560f69edc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 18/37] fix: determinant of integer matrices was truncated

Rounding errors in the decomposition made it off by one.
---
 nytl/matOps.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index c753f64..984f89b 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -17,7 +17,8 @@
 #include <stdexcept> // std::invalid_argument
 #include <tuple> // std::tuple
 #include <iosfwd> // std::ostream
-#include <cmath> // std::fma
+#include <cmath> // std::fma, std::round
+#include <type_traits> // std::is_integral
 
 namespace nytl {
 
@@ -420,7 +421,13 @@ template<size_t D, typename T>
 constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
-	return s * static_cast<T>(multiplyDiagonal(u));
+
+	// the decomposition is not exact but we know that the result is integral
+	if constexpr(std::is_integral_v<T>) {
+		return s * static_cast<T>(std::round(multiplyDiagonal(u)));
+	} else {
+		return s * static_cast<T>(multiplyDiagonal(u));
+	}
 }
 
 /// \brief Returns the determinant for the lu decomposition of a matrix.
-- 
2.43.0


From ac9516b6d0fa2409e9050c5e75ff11dda92d2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 19/37] fix: dot product of quaternions

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From 31bb357113d67801f66848fccb546a58fd225c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 20/37] fix: slerp did not negate the quaternion for the
 shorter path

---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From d6519ffd05ed70448d68e03ac704ba58843d9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 21/37] fix: eulerAngles for degenerate middle rotations

Classic euler angles were off for middle rotations close to zero (the first
angle was restricted to +-90 degrees) and undefined for a middle rotation of
180 degrees, tait-bryan angles were undefined in the gimbal lock. Rounding
errors could furthermore result in NaN angles.
---
 nytl/quaternion.hpp | 85 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 25 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..74800f5 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -2,6 +2,8 @@
 
 #include <cmath> // std::sin
 #include <cassert>
+#include <algorithm> // std::clamp
+#include <array> // std::array
 
 #include <nytl/vec.hpp>
 #include <nytl/vecOps.hpp>
@@ -340,27 +342,42 @@ enum class RotationSequence {
 // the given quaternion.
 [[nodiscard]] inline std::array<double, 3>
 eulerAngles(const Quaternion& q, RotationSequence seq) {
-	// TODO: 'indet' handling somewhat hacky atm. We need that value
-	// in case the middle rotation is zero (indeterminite case)
+	// In the degenerate cases (middle rotation 0 or pi for classic euler angles,
+	// +-pi/2 for tait-bryan angles) only the sum or difference of the first and
+	// third angle is defined. We return 0 for the third angle in that case.
+	// Since the middle rotation doesn't change its own axis, the rotated middle
+	// axis gives us sine and cosine of the first angle.
+	constexpr auto degenerate = 1.0 - 1e-14;
+
 	auto classicEuler = [](double a, double b, double c, double d, double e,
-			double indet) {
-		auto res = std::array<double, 3> {
+			double indetSin, double indetCos) {
+		c = std::clamp(c, -1.0, 1.0);
+		if(std::abs(c) > degenerate) {
+			return std::array<double, 3> {
+				std::atan2(indetSin, indetCos),
+				std::acos(c > 0.0 ? 1.0 : -1.0),
+				0.0,
+			};
+		}
+
+		return std::array<double, 3> {
 			std::atan2(d, e),
 			std::acos(c),
 			std::atan2(a, b),
 		};
+	};
 
-		if(std::abs(res[1]) < 0.001) {
-			// need different handling in this case.
-			// (basically middle angle is zero, getting undefined
-			// results atm).
-			return std::array<double, 3>{std::asin(indet), 0.0, 0.0};
+	auto taitBryan = [](double a, double b, double c, double d, double e,
+			double indetSin, double indetCos) {
+		c = std::clamp(c, -1.0, 1.0);
+		if(std::abs(c) > degenerate) {
+			return std::array<double, 3> {
+				std::atan2(indetSin, indetCos),
+				std::asin(c > 0.0 ? 1.0 : -1.0),
+				0.0,
+			};
 		}
 
-		return res;
-	};
-
-	auto taitBryan = [](double a, double b, double c, double d, double e) {
 		return std::array<double, 3> {
 			std::atan2(a, b),
 			std::asin(c),
@@ -376,7 +393,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y - q.w * q.z),
 			2 * (q.x * q.z + q.w * q.y),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzx:
 		return classicEuler(
 			2 * (q.x * q.z - q.w * q.y),
@@ -384,7 +402,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 			-2 * (q.x * q.y - q.w * q.z),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxy:
 		return classicEuler(
 			2 * (q.x * q.y - q.w * q.z),
@@ -392,7 +411,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzy:
 		return classicEuler(
 			2 * (q.y * q.z + q.w * q.x),
@@ -400,7 +420,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxz:
 		return classicEuler(
 			2 * (q.x * q.z + q.w * q.y),
@@ -408,7 +429,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z + q.x * q.y),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyz:
 		return classicEuler(
 			2 * (q.y * q.z - q.w * q.x),
@@ -416,7 +438,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	case RotationSequence::xyz:
 		return taitBryan(
@@ -424,42 +447,54 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 		   -2 * (q.x * q.y - q.w * q.z),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzy:
 		return taitBryan(
 			2 * (q.y * q.z + q.w * q.x),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			-2 *(q.x * q.y - q.w * q.z),
 			2 *(q.x * q.z + q.w * q.y),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxz:
 		return taitBryan(
 			2 * (q.x * q.z + q.w * q.y),
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			-2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzx:
 		return taitBryan(
 			-2 * (q.x * q.z - q.w * q.y),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxy:
 		return taitBryan(
 			-2 * (q.x * q.y - q.w * q.z),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z + q.x * q.y),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyx:
 	  	return taitBryan(
 			2 * (q.x * q.y + q.w * q.z),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			-2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	default:
 		assert(false && "Invalid rotation sequence");
-- 
2.43.0


From aba5f89566acb12ebc51942b1068328252b7c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 22/37] fix: transform functions did not work or lost precision
 for double

base, scaleMat, translateMat, ortho, frustum, frustumRev, frustumRevInf and
lookAt used float instead of their template parameter.
---
 nytl/transform.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..ae01fbf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -457,9 +457,9 @@ template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
 	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From c4e10b296d7aa1771dc65fcc0b8ebc9d3ada3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 23/37] fix: 2D orientMat did not map from to to if from isn't
 normalized

---
 nytl/transform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ae01fbf..ac8dee4 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -127,8 +127,9 @@ SquareMat<D, P> rotateMat(P rot) {
 // When 'from' or 'to' are not unit vectors, will also accord for the scale.
 template<size_t D = 4, typename P = float> [[nodiscard]]
 SquareMat<D, P> orientMat(Vec2<P> from, Vec2<P> to) {
-	const auto c = dot(from, to);
-	const auto s = cross(from, to);
+	const auto l = dot(from, from);
+	const auto c = dot(from, to) / l;
+	const auto s = cross(from, to) / l;
 	return expandIdentity<D, P>(Mat2<P>{
 		c, -s,
 		s, c,
-- 
2.43.0


From 09547e76a2d65608e149ac1fea17c6a1ead8106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 24/37] fix: overflows in mapUnsigned and unmapUnsigned for
 large values

---
 nytl/math.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..c997305 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,17 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	return (x < 0) ?
+		static_cast<unsigned int>(-(x + 1)) * 2u + 1u :
+		static_cast<unsigned int>(x) * 2u;
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto ix = static_cast<int>(x / 2);
+	return (x % 2) ? -ix - 1 : ix;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From ef8238a91e94444f3d1cccafbed25eb1534f8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 25/37] fix: pair overflowed although the result is
 representable

The intermediate product is up to twice as large as the result, the
resulting number was not unique.
---
 nytl/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index c997305..c93ff97 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -74,7 +74,8 @@ constexpr int unmapUnsigned(unsigned int x) {
 /// using the cantorsche pairing function. Combine it with calls
 /// to mapUnsigned to enable it for signed x,y inputs.
 constexpr unsigned int pair(unsigned int x, unsigned int y) {
-	return (x + y) * (x + y + 1) / 2 + y;
+	auto sum = static_cast<unsigned long long>(x) + y;
+	return static_cast<unsigned int>(sum * (sum + 1) / 2 + y);
 }
 
 /// Returns clamp(value, min, max), i.e. value or min/max if value exceeds those bounds.
-- 
2.43.0


From 6f5a37698bd35b938b17251afb0fc0d569d5aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 26/37] fix: converting a Simplex could not be instantiated

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From 43d5f43745645109f39e561f6a49fd97ec6532f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 27/37] fix: intersects/intersectsReal missed intersections

Rects can intersect without one containing the lowest or highest corner of
the other one, e.g. when they are crossing each other. intersectsReal was
false for two equal rects.
---
 nytl/rectOps.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..03215f9 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,12 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	for(auto i = 0u; i < a.position.size(); ++i) {
+		if(a.position[i] + a.size[i] < b.position[i]) return false;
+		if(b.position[i] + b.size[i] < a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +117,12 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	for(auto i = 0u; i < a.position.size(); ++i) {
+		if(a.position[i] + a.size[i] <= b.position[i]) return false;
+		if(b.position[i] + b.size[i] <= a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From 7ebb0867acd64262be68d29e65574bf527ab9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 28/37] fix: eulerAngles returned classic euler angles in
 reversed order

---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 74800f5..6c85203 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -361,9 +361,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 		}
 
 		return std::array<double, 3> {
-			std::atan2(d, e),
-			std::acos(c),
 			std::atan2(a, b),
+			std::acos(c),
+			std::atan2(d, e),
 		};
 	};
 
-- 
2.43.0


From 8c0189d048487fbd77f369c33cd805d2869fb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 29/37] fix: difference of rects

Disjunct rects resulted in an empty vector or arbitrary parts instead of the
first rect, and rects exceeding the first one only in some dimensions in
parts that were too large, overlapping or outside of the first rect.
---
 nytl/rectOps.hpp | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 03215f9..59c0b26 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -154,40 +154,37 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 /// \module rectOps
 template<std::size_t D, class T>
 std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
-	static constexpr auto inRange = [](T start, T size, T value) {
-		return (start < value && value < start + size);
-	};
+	if(!intersectsReal(a, b)) {
+		return {a};
+	}
 
 	std::vector<Rect<D, T>> ret;
 	ret.reserve(2 * D);
 
+	// The remaining part of a, we cut off the parts outside of b for each dimension.
+	auto rest = a;
 	for(std::size_t i(0); i < D; ++i) {
+		auto bEnd = b.position[i] + b.size[i];
+		auto end = rest.position[i] + rest.size[i];
 
 		// rect before intersection
-		if(inRange(a.position[i], a.size[i], b.position[i])) {
-			auto pos = a.position;
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
-
-			auto size = (a.position + a.size) - pos;
-			size[i] = b.position[i] - pos[i];
+		if(rest.position[i] < b.position[i]) {
+			auto before = rest;
+			before.size[i] = b.position[i] - rest.position[i];
+			ret.push_back(before);
 
-			ret.push_back({pos, size});
+			rest.position[i] = b.position[i];
+			rest.size[i] = end - b.position[i];
 		}
 
 		// rect after intersection
-		// if(inRange(b.position[i] + b.size[i], a.position[i], a.size[i])) {
-		if(inRange(a.position[i], a.size[i], b.position[i] + b.size[i])) {
-			auto pos = a.position;
-			pos[i] = b.position[i] + b.size[i];
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = std::max(b.position[o], a.position[o]);
-
-			auto size = (a.position + a.size) - pos;
-			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
-
-			ret.push_back({pos, size});
+		if(bEnd < end) {
+			auto after = rest;
+			after.position[i] = bEnd;
+			after.size[i] = end - bEnd;
+			ret.push_back(after);
+
+			rest.size[i] = bEnd - rest.position[i];
 		}
 	}
 
-- 
2.43.0


From bf0bd9e78bb69b395239519fb78b4f234ffad681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 30/37] fix: base was inaccurate close to (0, 0, -1)

The returned vectors were up to 0.25 degrees off from being orthogonal to
the given direction, for float also far before the singularity is reached.
---
 nytl/transform.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ac8dee4..e539b24 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -69,17 +69,13 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 	// return {cross(b2, dir), b2};
 
 	// [efficient implementation, frisvad]
-	if(dir.z < P(-0.99999f)) { // singularity
-		return {{
-			{P(0.0), P(-1.0), P(0.0)},
-			{P(-1.0), P(0.0), P(0.0)}
-		}};
-	}
-
-	const P a = P(1.0) / (P(1.0) + dir.z);
+	// Mirrored for negative z (duff et al, jcgt 2017), it would otherwise be
+	// inaccurate for directions close to the singularity at (0, 0, -1).
+	const P s = dir.z < P(0.0) ? P(-1.0) : P(1.0);
+	const P a = P(1.0) / (s + dir.z);
 	const P b = -dir.x * dir.y * a;
-	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	auto b1 = Vec3<P>{P(1.0) - s * dir.x * dir.x * a, s * b, -s * dir.x};
+	auto b2 = Vec3<P>{b, s - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
-- 
2.43.0


From 1997472a3b418d9f46dbda4b87030f80fb59b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 31/37] fix: nth counted characters with 32 bit

The requested character was never found for indices >= 2^32.
---
 nytl/utf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/utf.hpp b/nytl/utf.hpp
index 6a2994f..b1a3d1c 100644
--- a/nytl/utf.hpp
+++ b/nytl/utf.hpp
@@ -92,7 +92,7 @@ inline std::array<char, 5> nth(std::string_view utf8, std::size_t n) {
 /// \note Indexing starts at zero! `nth(utf8, 1)` returns actually the second char.
 /// \throws std::out_of_range if n > charCount(utf8)
 inline const char& nth(std::string_view utf8, std::size_t n, std::uint8_t& size) {
-	auto count = 0u;
+	std::size_t count = 0u;
 	auto it = utf8.begin();
 
 	while(it != utf8.end()) {
@@ -127,7 +127,7 @@ inline const char& nth(std::string_view utf8, std::size_t n, std::uint8_t& size)
 /// \note Indexing starts at zero! `nth(utf8, 1)` returns actually the second char.
 /// \throws std::out_of_range if n > charCount(utf8)
 inline char& nth(std::string& utf8, std::size_t n, std::uint8_t& size) {
-	auto count = 0u;
+	std::size_t count = 0u;
 	auto it = utf8.begin();
 
 	while(it != utf8.end()) {
-- 
2.43.0


From e05abcfd34744e201c2a86c14a5edcde8664620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 32/37] fix: luDecomp divided by tiny pivots caused by rounding
 errors

Rounding can turn a pivot that should be zero into a tiny value. Dividing
by it made determinant, luEvaluate and inverse return completely wrong
results, e.g. for 4x4 matrices of small integers. Always use the largest
pivot of the column.
---
 nytl/matOps.hpp | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 984f89b..53f1aef 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -326,27 +326,30 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 
 	for(auto n = 0u; n < D; ++n) {
 
-		// since we divide by upper[n][n] later on we should try to make it non-zero by
-		// swapping the current row with another row. If we do so, we have to pretend we
-		// swapped the matrix in the beginning and therefore also change the lower matrix and
-		// remember the swap in the permutation matrix
-		if(ret.upper[n][n] == 0.0) {
-			for(auto r = n + 1; r < D; ++r) {
-				if(ret.upper[r][n] != 0.0) {
-					swapRow(ret.perm, r, n);
-					swapRow(ret.upper, r, n);
-					swapRow(ret.lower, r, n);
-					ret.sign *= -1;
-					break;
-				}
+		// since we divide by upper[n][n] later on we make it as large as possible by swapping
+		// the current row with another row. Just making it non-zero isn't enough: rounding
+		// errors may turn a zero into a tiny value that must not be divided by.
+		// If we swap, we have to pretend we swapped the matrix in the beginning and therefore
+		// also change the lower matrix and remember the swap in the permutation matrix
+		auto maxRow = n;
+		for(auto r = n + 1; r < D; ++r) {
+			if(std::abs(ret.upper[r][n]) > std::abs(ret.upper[maxRow][n])) {
+				maxRow = r;
 			}
+		}
 
-			// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
-			// we don't have any more coefficients to eliminate.
-			if(ret.upper[n][n] == 0.0) {
-				ret.lower[n][n] = 1.0;
-				continue;
-			}
+		if(maxRow != n) {
+			swapRow(ret.perm, maxRow, n);
+			swapRow(ret.upper, maxRow, n);
+			swapRow(ret.lower, maxRow, n);
+			ret.sign *= -1;
+		}
+
+		// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
+		// we don't have any more coefficients to eliminate.
+		if(ret.upper[n][n] == 0.0) {
+			ret.lower[n][n] = 1.0;
+			continue;
 		}
 
 		ret.lower[n][n] = 1.0;
-- 
2.43.0


From fc4203a59c5c065fb70c72588db2589ba7804bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 33/37] fix: determinant converted unrepresentable values to
 the matrix type

---
 nytl/matOps.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 53f1aef..1496208 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -425,11 +425,12 @@ constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
 
-	// the decomposition is not exact but we know that the result is integral
+	// The value is not converted to T since it (or its negation) might not be representable.
+	// The decomposition is not exact but we know that the result is integral for integers
 	if constexpr(std::is_integral_v<T>) {
-		return s * static_cast<T>(std::round(multiplyDiagonal(u)));
+		return s * std::round(multiplyDiagonal(u));
 	} else {
-		return s * static_cast<T>(multiplyDiagonal(u));
+		return s * multiplyDiagonal(u);
 	}
 }
 
-- 
2.43.0


From 16ee49f52da9ec9cdc4c70074764df063f3a2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 34/37] fix: comparisons of long double Approx values converted
 the value to double

---
 nytl/approx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/approx.hpp b/nytl/approx.hpp
index 7768ee0..44d0ee6 100644
--- a/nytl/approx.hpp
+++ b/nytl/approx.hpp
@@ -47,13 +47,13 @@ public:
 		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);
 	}
 
-	friend bool operator==(const Approx& lhs, double rhs) {
+	friend bool operator==(const Approx& lhs, T rhs) {
 		return operator==(rhs, lhs);
 	}
-	friend bool operator!=(double lhs, const Approx& rhs) {
+	friend bool operator!=(T lhs, const Approx& rhs) {
 		return !operator==(lhs, rhs);
 	}
-	friend bool operator!=(const Approx& lhs, double rhs) {
+	friend bool operator!=(const Approx& lhs, T rhs) {
 		return !operator==(lhs, rhs);
 	}
 
-- 
2.43.0


From 8b7bae12e9de2fdf0e160eb04e81d696b460be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 35/37] fix: printing a matrix with an infinite value or nan
 converted an infinite precision to an integer

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 1496208..dda933c 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -54,7 +54,7 @@ std::ostream& print(std::ostream& ostream, const Mat<R, C, T>& mat,
 
 	// returns the number of digits needed to present the integer part of i
 	const auto numberOfDigits = [](double i) {
-		return (i < 10 && i >= 0) ? 1 : (i > -10 && i < 0) ? 2 :
+		return !std::isfinite(i) ? 3 : (i < 10 && i >= 0) ? 1 : (i > -10 && i < 0) ? 2 :
 			(i > 0) ? std::log10(i) + 1 : std::log10(-i) + 2;
 	};
 
-- 
2.43.0


From bcd33b4e261ee9145820200830460ffcb889ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 36/37] fix: scalar + vector added the operands in reversed
 order

---
 nytl/vecOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/vecOps.hpp b/nytl/vecOps.hpp
index ca6a93f..9c0d85a 100644
--- a/nytl/vecOps.hpp
+++ b/nytl/vecOps.hpp
@@ -316,7 +316,7 @@ template<size_t D, typename T1, typename T2>
 constexpr auto operator+(const T2& a, const Vec<D, T1>& b) {
 	Vec<D, decltype(a + b[0])> res;
 	for(size_t i = 0u; i < D; ++i) {
-		res[i] = b[i] + a;
+		res[i] = a + b[i];
 	}
 	return res;
 }
-- 
2.43.0


From 7ab39b50b6543cbac8509a7391d866086be4da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 37/37] fix: RecursiveCallback accessed destroyed subscriptions
 when a function's destructor used the callback

Functions were destroyed while the list of subscriptions was in an
intermediate state. When a function owned e.g. a UniqueConnection to
the same callback, disconnect and clear (also the destructor) used
freed subscriptions. Take the subscriptions out of the list first.
---
 nytl/recursiveCallback.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index e75878c..055c022 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -162,11 +162,17 @@ protected:
 	void removeOld() noexcept {
 		++iterationCount_;
 
+		// destroyed when this object is in a valid state again, the
+		// destructors of the functions might access it
+		std::forward_list<Subscription> old;
+		auto oldEnd = old.before_begin();
+
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
 			it->id.removed();
-			subs_.pop_front();
+			old.splice_after(oldEnd, subs_, subs_.before_begin());
+			++oldEnd;
 			it = subs_.begin();
 		}
 
@@ -174,7 +180,8 @@ protected:
 			for(auto next = std::next(it); next != subs_.end(); next = std::next(it)) {
 				if(next->id.get() <= 0) {
 					next->id.removed();
-					subs_.erase_after(it);
+					old.splice_after(oldEnd, subs_, it);
+					++oldEnd;
 				} else {
 					++it;
 				}
@@ -219,6 +226,11 @@ RecursiveCallback<Ret(Args...), ID>::~RecursiveCallback()
 	for(auto& sub : subs_) {
 		sub.id.removed();
 	}
+
+	// the destructors of the functions might still access this object
+	std::forward_list<Subscription> old;
+	old.swap(subs_);
+	last_ = subs_.end();
 }
 
 template<typename Ret, typename... Args, typename ID>
@@ -326,7 +338,9 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	// clear/remove only if no one is currently iterating
 	// we only reset end_ (not really needed, cleanup for easier debugging)
 	if(remove) {
-		subs_.clear();
+		// the destructors of the functions might access this object
+		std::forward_list<Subscription> old;
+		old.swap(subs_);
 		last_ = subs_.end();
 	}
 }
@@ -342,11 +356,15 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 
 	auto remove = (iterationCount_ == 0);
 
+	// destroyed when this object is in a valid state again, the
+	// destructor of the function might access it
+	std::forward_list<Subscription> old;
+
 	// check for first one
 	if(subs_.begin()->id.get() == id.get()) {
 		if(remove) {
 			subs_.begin()->id.removed();
-			subs_.pop_front();
+			old.splice_after(old.before_begin(), subs_, subs_.before_begin());
 			if(subs_.empty()) {
 				last_ = subs_.end();
 			}
@@ -371,7 +389,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 					last_ = it;
 				}
 				next->id.removed();
-				subs_.erase_after(it);
+				old.splice_after(old.before_begin(), subs_, it);
 			} else {
 				next->id.set(-callID_);
 			}
-- 
2.43.0

