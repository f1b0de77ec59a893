From d958cba12d465e49ce2061bd537e91547685a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 01/41] fix: notify the removed id in
 RecursiveCallback::disconnect, not the one after it

---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..736c810 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -354,7 +354,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From e0117ef884f1f0508f419a2ed77c80745e98192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 02/41] fix: end RecursiveCallback calls at the last function
 even if it was removed

---
 nytl/recursiveCallback.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 736c810..a6d3712 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -272,11 +272,11 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above)
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -287,9 +287,9 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From f5d095b21d25dc5ca2dcc5716b342a3df375945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 03/41] fix: RecursiveCallback::clear must not touch functions
 removed earlier in the call

---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index a6d3712..16c99bb 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -306,7 +306,7 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) { // keep when it was removed before
 			sub.id.set(-callID_);
 		}
 	}
-- 
2.43.0


From eb644d6bf7445ce130781a1ccb5c8f88c25c00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 04/41] fix: RecursiveCallback::disconnect returns false for
 already removed functions

---
 nytl/recursiveCallback.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 16c99bb..143967b 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -323,7 +323,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// ids of already removed functions are never positive
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From b4ecb975068c518e8a4eac672b22dcf1d31a6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 05/41] fix: notify ids of deferred removals at the front of a
 RecursiveCallback

---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 143967b..e8eb68f 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From b147a7f4b06e5e2c056ed71c998316ea33035e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 06/41] fix: ConnectionT::disconnect must not access the
 callback when not connected

---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..0e0be24 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -46,7 +46,7 @@ public:
 	/// Disconnects the represented connection.
 	void disconnect()
 	{
-		if(connectable_)
+		if(connected())
 			connectable_->disconnect(id_);
 		connectable_ = {};
 		id_ = {};
-- 
2.43.0


From e998030e635e6d84bd6e4ae9504009571486b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 07/41] fix: UniqueConnectionT::release returns a connection
 (did not compile)

---
 nytl/connection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 0e0be24..6268938 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -147,9 +147,11 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_)
+			ret = {*connectable_, id_};
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From bb1d6c09685972d8fed1e24684619a713edfe8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 08/41] fix: include <cstdint> for std::int64_t in
 connection.hpp

---
 nytl/connection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 6268938..6d6ea77 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -10,6 +10,7 @@
 #define NYTL_INCLUDE_CONNECTION
 
 #include <iostream> // std::cerr
+#include <cstdint> // std::int64_t
 #include <exception> // std::exception
 #include <memory> // std::shared_ptr
 
-- 
2.43.0


From 32b167de60a353f5dd06964c773232f427ce1ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 09/41] fix: every function of a callback gets by-value
 arguments unchanged

---
 nytl/callback.hpp          | 11 ++++++++---
 nytl/recursiveCallback.hpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..ee47e18 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -17,7 +17,7 @@
 #include <utility> // std::move
 #include <cstdint> // std::uint64_t
 #include <cstddef> // std::size_t
-#include <type_traits> // std::is_same
+#include <type_traits> // std::is_same, std::conditional_t
 #include <vector> // std::vector
 #include <limits> // std::numeric_limits
 #include <iostream> // std::cerr
@@ -129,6 +129,11 @@ public:
 	}
 
 protected:
+	// How call passes an argument to each function: by-value arguments are copied
+	// (if possible) so that every function gets the original value.
+	template<typename T> using PassArg = std::conditional_t<
+		std::is_reference<T>::value || !std::is_copy_constructible<T>::value, T&&, const T&>;
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -175,13 +180,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(static_cast<PassArg<Args>>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(static_cast<PassArg<Args>>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index e8eb68f..42c8aa5 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -18,7 +18,7 @@
 #include <utility> // std::move
 #include <cstdint> // std::uint64_t
 #include <cstddef> // std::size_t
-#include <type_traits> // std::is_same
+#include <type_traits> // std::is_same, std::conditional_t
 #include <vector> // std::vector
 #include <limits> // std::numeric_limits
 #include <iostream> // std::cerr
@@ -118,6 +118,11 @@ public:
 	}
 
 protected:
+	// How call passes an argument to each function: by-value arguments are copied
+	// (if possible) so that every function gets the original value.
+	template<typename T> using PassArg = std::conditional_t<
+		std::is_reference<T>::value || !std::is_copy_constructible<T>::value, T&&, const T&>;
+
 	// Represents one callback subscription entry.
 	// Invalid (formally removed) when id is not valid.
 	// Note that these means that alternative ID classes can
@@ -272,7 +277,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(static_cast<PassArg<Args>>(a)...);
 			}
 			// we will not call functions that were registered after
 			// this call started (this is why we store last above)
@@ -287,7 +292,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(static_cast<PassArg<Args>>(a)...));
 			}
 			if(it == last) {
 				break;
-- 
2.43.0


From 30c3f0b6c257ce66a6109462dae0fd4d78e83d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 10/41] fix: c_str() of a default constructed StringParam is
 null-terminated

---
 nytl/stringParam.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nytl/stringParam.hpp b/nytl/stringParam.hpp
index 9622830..1f4292f 100644
--- a/nytl/stringParam.hpp
+++ b/nytl/stringParam.hpp
@@ -22,11 +22,14 @@ public:
 	using string = std::basic_string<Char>;
 
 public:
-	constexpr BasicStringParam() = default;
+	constexpr BasicStringParam() noexcept : string_view(&terminator_, 0) {}
 	constexpr BasicStringParam(const Char* cstr) : string_view(cstr) {}
 	BasicStringParam(const string& str) : string_view(str.c_str()) {}
 
 	const Char* c_str() const { return this->data(); }
+
+protected:
+	static constexpr Char terminator_ {}; // empty string, also null-terminated
 };
 
 using StringParam = BasicStringParam<char>;
-- 
2.43.0


From 51ce7e2c8d821de4ba3b764d5b44530febb6fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 11/41] fix: cloneMove can access Cloneable classes (did not
 compile)

---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..38924ed 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -116,7 +116,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From 7e47762f6b440ff2d81e992ce1a2092ee5315ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 12/41] fix: clone and cloneMove through bases that are not the
 first one

---
 nytl/clone.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 38924ed..0588198 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -10,6 +10,18 @@
 #include <memory> // std::unique_ptr
 
 namespace nytl {
+namespace detail {
+
+// doClone/doCloneMove return a pointer to an object of the dynamic type of 'obj'.
+// Returns a pointer to the same 'T' base inside the given new object.
+template<typename T>
+T* cloneBase(const T& obj, void* cloned) {
+	auto complete = static_cast<const char*>(dynamic_cast<const void*>(&obj));
+	auto offset = reinterpret_cast<const char*>(&obj) - complete;
+	return reinterpret_cast<T*>(static_cast<char*>(cloned) + offset);
+}
+
+} // namespace detail
 
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
@@ -18,7 +30,7 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	return std::unique_ptr<T>(detail::cloneBase<T>(obj, obj.doClone()));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +41,7 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	return std::unique_ptr<T>(detail::cloneBase<T>(obj, obj.doCloneMove()));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From d68304b942047c95e2329baad48f4eb35d94c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 13/41] fix: mapUnsigned and unmapUnsigned for values that need
 all bits

---
 nytl/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..3d765b2 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,16 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	auto ux = static_cast<unsigned int>(x);
+	return (x < 0) ? 2 * ~ux + 1 : 2 * ux;
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto half = static_cast<int>(x / 2);
+	return (x % 2) ? -half - 1 : half;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From c66a26cd898ac6fb22b85ceb2c371e018f82ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 14/41] fix: pair does not overflow when the result is
 representable

---
 nytl/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 3d765b2..bbf1ed5 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -73,7 +73,9 @@ constexpr int unmapUnsigned(unsigned int x) {
 /// using the cantorsche pairing function. Combine it with calls
 /// to mapUnsigned to enable it for signed x,y inputs.
 constexpr unsigned int pair(unsigned int x, unsigned int y) {
-	return (x + y) * (x + y + 1) / 2 + y;
+	// divide the even factor so that only the result has to fit
+	auto sum = x + y;
+	return ((sum % 2) ? (sum / 2 + 1) * sum : (sum / 2) * (sum + 1)) + y;
 }
 
 /// Returns clamp(value, min, max), i.e. value or min/max if value exceeds those bounds.
-- 
2.43.0


From 77b8a99a83dc64c03674722f39ad0e8b1b047ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 15/41] fix: Approx compares values of its own type on both
 sides

---
 nytl/approx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/approx.hpp b/nytl/approx.hpp
index 7768ee0..44d0ee6 100644
--- a/nytl/approx.hpp
+++ b/nytl/approx.hpp
@@ -47,13 +47,13 @@ public:
 		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);
 	}
 
-	friend bool operator==(const Approx& lhs, double rhs) {
+	friend bool operator==(const Approx& lhs, T rhs) {
 		return operator==(rhs, lhs);
 	}
-	friend bool operator!=(double lhs, const Approx& rhs) {
+	friend bool operator!=(T lhs, const Approx& rhs) {
 		return !operator==(lhs, rhs);
 	}
-	friend bool operator!=(const Approx& lhs, double rhs) {
+	friend bool operator!=(const Approx& lhs, T rhs) {
 		return !operator==(lhs, rhs);
 	}
 
-- 
2.43.0


From 74fc59ffe049a2d7df155c21a88fcce7cfd56c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 16/41] fix: scaling a Vec by one of its own components

---
 nytl/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..de42094 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -65,7 +65,7 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 }
 
 template<size_t D, typename T, typename F>
-constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, F fac) {
 	for(auto i = 0u; i < D; ++i)
 		vec[i] *= fac;
 	return vec;
-- 
2.43.0


From 29c5f0c2c502126b07a19aa6a3283862992640e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 17/41] fix: multiplying a Mat by itself or by one of its own
 elements

---
 nytl/mat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..159d185 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -94,8 +94,8 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
-constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	auto tmp = a; // needed since we write to a
+constexpr auto& operator*=(Mat<D, D, T1>& a, Mat<D, D, T2> b) {
+	auto tmp = a; // needed since we write to a (as is the copy of b, might be a)
 	a = {};
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
@@ -116,7 +116,7 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
-constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+constexpr auto& operator*=(Mat<R, C, T>& a, F f) {
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
 			a[r][c] *= f;
-- 
2.43.0


From e392434e28ad4190d637f377a506ea57278296e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 18/41] fix: Mat::at for const matrices and for 2 or 3 columns
 (did not compile)

---
 nytl/mat.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 159d185..3538577 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -39,8 +39,8 @@ public:
 
 	/// Returns the value at position (r, c).
 	/// If this position exceeds the size of the matrix, throws std::out_of_range.
-	constexpr auto& at(size_t r, size_t c) { return at(r).at(c); }
-	constexpr const auto& at(size_t r, size_t c) const { return at(r).at(c); }
+	constexpr auto& at(size_t r, size_t c) { checkCol(c); return at(r)[c]; }
+	constexpr const auto& at(size_t r, size_t c) const { checkCol(c); return at(r)[c]; }
 
 	/// Explicitly casts the Mat to another Mat that may have
 	/// a different precision or dimensions. Will default construct
@@ -52,11 +52,18 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	constexpr void checkRow(size_t r) const {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
 
+	/// Utility function that throws std::out_of_range if the matrix does not have
+	/// the given column.
+	constexpr void checkCol(size_t c) const {
+		if(c >= cols())
+			throw std::out_of_range("nytl::Mat::at");
+	}
+
 public:
 	std::array<Vec<C, T>, R> rows_;
 };
-- 
2.43.0


From 607580baea6a36d35930889fa0737d2be08869b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 19/41] fix: reducedRowEcholon must not access elements behind
 a zero row

---
 nytl/matOps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..4989a15 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -279,8 +279,8 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 			++c;
 		}
 
-		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		// if the whole row is zero continue to the next (above) row
+		if(c == mat.cols()) {
 			continue;
 		}
 
-- 
2.43.0


From dc9a70fc2c46d360cf0dc61b50619931de34c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 20/41] fix: luDecomp pivots by the largest element so that PA
 = LU holds for small pivots

---
 nytl/matOps.hpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 4989a15..fc20c36 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -325,27 +325,30 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 
 	for(auto n = 0u; n < D; ++n) {
 
-		// since we divide by upper[n][n] later on we should try to make it non-zero by
-		// swapping the current row with another row. If we do so, we have to pretend we
+		// since we divide by upper[n][n] later on we swap the row with the largest coefficient
+		// in this column here. A small one would result in large elements in lower and upper
+		// in which the elements of the original matrix get lost. If we swap, we have to pretend we
 		// swapped the matrix in the beginning and therefore also change the lower matrix and
 		// remember the swap in the permutation matrix
-		if(ret.upper[n][n] == 0.0) {
-			for(auto r = n + 1; r < D; ++r) {
-				if(ret.upper[r][n] != 0.0) {
-					swapRow(ret.perm, r, n);
-					swapRow(ret.upper, r, n);
-					swapRow(ret.lower, r, n);
-					ret.sign *= -1;
-					break;
-				}
+		auto max = n;
+		for(auto r = n + 1; r < D; ++r) {
+			if(std::abs(ret.upper[r][n]) > std::abs(ret.upper[max][n])) {
+				max = r;
 			}
+		}
 
-			// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
-			// we don't have any more coefficients to eliminate.
-			if(ret.upper[n][n] == 0.0) {
-				ret.lower[n][n] = 1.0;
-				continue;
-			}
+		if(max != n) {
+			swapRow(ret.perm, max, n);
+			swapRow(ret.upper, max, n);
+			swapRow(ret.lower, max, n);
+			ret.sign *= -1;
+		}
+
+		// If all coefficients in the column are zero (e.g. a zero matrix), its ok since
+		// we don't have any more coefficients to eliminate.
+		if(ret.upper[n][n] == 0.0) {
+			ret.lower[n][n] = 1.0;
+			continue;
 		}
 
 		ret.lower[n][n] = 1.0;
-- 
2.43.0


From b008c392f2fc5f34ee68d42ff2d0d63e1284f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:05 +0000
Subject: [PATCH 21/41] fix: the sign of an LU decomposition can be negative
 (wrong determinants)

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index fc20c36..0143bda 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	int sign = 1; // sign of the permutation
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From c20dc18676ab5acbb03ed5c11b1326b4e7578543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 22/41] fix: determinant of integer matrices must round instead
 of truncating

---
 nytl/matOps.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 0143bda..9273274 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -16,6 +16,7 @@
 #include <utility> // std::swap
 #include <stdexcept> // std::invalid_argument
 #include <tuple> // std::tuple
+#include <type_traits> // std::is_integral
 #include <iosfwd> // std::ostream
 #include <cmath> // std::fma
 
@@ -423,7 +424,14 @@ template<size_t D, typename T>
 constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
-	return s * static_cast<T>(multiplyDiagonal(u));
+	auto det = s * multiplyDiagonal(u);
+
+	// the decomposition is not exact, so don't truncate a value like 1.999... to 1
+	if constexpr(std::is_integral_v<T>) {
+		return static_cast<T>(std::round(det));
+	} else {
+		return static_cast<T>(det);
+	}
 }
 
 /// \brief Returns the determinant for the lu decomposition of a matrix.
-- 
2.43.0


From a4ccfb381bbd03b1b47afd2b5986e54e005f39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 23/41] fix: luEvaluate applies the permutation of the
 decomposition, not its inverse

---
 nytl/matOps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 9273274..af78205 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -372,8 +372,8 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 /// Gaussian elimination implementation.
 /// The given matrix must be a square matrix.
 /// \notes If the lu composition was done with a permutation matrix (PA = LU), the given
-/// vector must be premultiplied with the permutations inverse (tranpose sine symmetrical) to
-/// get the vector that solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
+/// vector must be premultiplied with the permutation matrix to get the vector that
+/// solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
 /// \notes If the lower or upper matrix are singular, the equation does not have
 /// a unique solution and this function results in undefined behvaiour. So
 /// if the lower or upper matrix might be singular, check first manually.
@@ -414,7 +414,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From c5cdf40f70a2b0fc27d093279798ccb200be33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 24/41] fix: intersects and intersectsReal for Rects without a
 corner in the other one

---
 nytl/rectOps.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..e7a10b1 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,12 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] + a.size[i] < b.position[i]) return false;
+		if(b.position[i] + b.size[i] < a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +117,12 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] + a.size[i] <= b.position[i]) return false;
+		if(b.position[i] + b.size[i] <= a.position[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From acb3071b1e26ea1a896bf4062ebdcd7ed5f456fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 25/41] fix: difference of Rects for all relative positions

---
 nytl/rectOps.hpp | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index e7a10b1..fd886c2 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -154,41 +154,40 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 /// \module rectOps
 template<std::size_t D, class T>
 std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
-	static constexpr auto inRange = [](T start, T size, T value) {
-		return (start < value && value < start + size);
-	};
+	if(!intersectsReal(a, b)) {
+		return {a};
+	}
 
 	std::vector<Rect<D, T>> ret;
 	ret.reserve(2 * D);
 
+	// Cut off the parts of a that are before and after b in every dimension.
+	// What is left in the end is the intersection.
+	auto rest = a;
 	for(std::size_t i(0); i < D; ++i) {
+		auto end = rest.position[i] + rest.size[i];
+		auto bend = b.position[i] + b.size[i];
 
 		// rect before intersection
-		if(inRange(a.position[i], a.size[i], b.position[i])) {
-			auto pos = a.position;
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
-
-			auto size = (a.position + a.size) - pos;
-			size[i] = b.position[i] - pos[i];
+		if(rest.position[i] < b.position[i]) {
+			auto part = rest;
+			part.size[i] = b.position[i] - part.position[i];
+			ret.push_back(part);
 
-			ret.push_back({pos, size});
+			rest.position[i] = b.position[i];
 		}
 
 		// rect after intersection
-		// if(inRange(b.position[i] + b.size[i], a.position[i], a.size[i])) {
-		if(inRange(a.position[i], a.size[i], b.position[i] + b.size[i])) {
-			auto pos = a.position;
-			pos[i] = b.position[i] + b.size[i];
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = std::max(b.position[o], a.position[o]);
-
-			auto size = (a.position + a.size) - pos;
-			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
-
-			ret.push_back({pos, size});
+		if(bend < end) {
+			auto part = rest;
+			part.position[i] = bend;
+			part.size[i] = end - bend;
+			ret.push_back(part);
+
+			end = bend;
 		}
+
+		rest.size[i] = end - rest.position[i];
 	}
 
 	return ret;
-- 
2.43.0


From 1e46a3b85cbc3b5a80abec5eee57fa5d960e1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 26/41] fix: converting a Simplex (did not compile)

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From d1a66bfdafa817a492e4f8e970130219bf0387df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 27/41] fix: dot product of quaternions

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From 8eb1070df11a8630cd228aec06b90511fbfec8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 28/41] fix: slerp takes the shorter path for a negative dot
 product

---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From bfe3e833df102d68c407d191a5956db22c063cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 29/41] fix: eulerAngles returns the angles of classic
 sequences in order

---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..bab2f9a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -345,9 +345,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 	auto classicEuler = [](double a, double b, double c, double d, double e,
 			double indet) {
 		auto res = std::array<double, 3> {
-			std::atan2(d, e),
-			std::acos(c),
 			std::atan2(a, b),
+			std::acos(c),
+			std::atan2(d, e),
 		};
 
 		if(std::abs(res[1]) < 0.001) {
-- 
2.43.0


From 360a994f57eb7db88bbcd87ea2967fe3862577f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 30/41] fix: eulerAngles must not return NaN or wrong angles
 for degenerate middle angles

---
 nytl/quaternion.hpp | 88 +++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index bab2f9a..f3d3c7c 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -340,32 +340,34 @@ enum class RotationSequence {
 // the given quaternion.
 [[nodiscard]] inline std::array<double, 3>
 eulerAngles(const Quaternion& q, RotationSequence seq) {
-	// TODO: 'indet' handling somewhat hacky atm. We need that value
-	// in case the middle rotation is zero (indeterminite case)
-	auto classicEuler = [](double a, double b, double c, double d, double e,
-			double indet) {
-		auto res = std::array<double, 3> {
-			std::atan2(a, b),
-			std::acos(c),
-			std::atan2(d, e),
-		};
-
-		if(std::abs(res[1]) < 0.001) {
-			// need different handling in this case.
-			// (basically middle angle is zero, getting undefined
-			// results atm).
-			return std::array<double, 3>{std::asin(indet), 0.0, 0.0};
+	// The middle angle is computed with atan2 since acos and asin are not defined
+	// for values that are (due to rounding) slightly outside of [-1, 1] and lose
+	// precision near that. If the rotation axes of the first and last angle (almost)
+	// coincide, only their sum or difference is determined. In that case the last
+	// angle is set to zero and the first one is computed from its
+	// sine and cosine (indetSin, indetCos).
+	constexpr auto indetThreshold = 1e-7;
+
+	auto classicEuler = [&](double a, double b, double c, double d, double e,
+			double indetSin, double indetCos) {
+		auto sinMiddle = std::hypot(a, b);
+		auto middle = std::atan2(sinMiddle, c);
+		if(sinMiddle < indetThreshold) {
+			return std::array<double, 3>{std::atan2(indetSin, indetCos), middle, 0.0};
 		}
 
-		return res;
+		return std::array<double, 3>{std::atan2(a, b), middle, std::atan2(d, e)};
 	};
 
-	auto taitBryan = [](double a, double b, double c, double d, double e) {
-		return std::array<double, 3> {
-			std::atan2(a, b),
-			std::asin(c),
-			std::atan2(d, e),
-		};
+	auto taitBryan = [&](double a, double b, double c, double d, double e,
+			double indetSin, double indetCos) {
+		auto cosMiddle = std::hypot(a, b);
+		auto middle = std::atan2(c, cosMiddle);
+		if(cosMiddle < indetThreshold) {
+			return std::array<double, 3>{std::atan2(indetSin, indetCos), middle, 0.0};
+		}
+
+		return std::array<double, 3>{std::atan2(a, b), middle, std::atan2(d, e)};
 	};
 
 	switch(seq){
@@ -376,7 +378,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y - q.w * q.z),
 			2 * (q.x * q.z + q.w * q.y),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzx:
 		return classicEuler(
 			2 * (q.x * q.z - q.w * q.y),
@@ -384,7 +387,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 			-2 * (q.x * q.y - q.w * q.z),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxy:
 		return classicEuler(
 			2 * (q.x * q.y - q.w * q.z),
@@ -392,7 +396,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzy:
 		return classicEuler(
 			2 * (q.y * q.z + q.w * q.x),
@@ -400,7 +405,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxz:
 		return classicEuler(
 			2 * (q.x * q.z + q.w * q.y),
@@ -408,7 +414,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z + q.x * q.y),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyz:
 		return classicEuler(
 			2 * (q.y * q.z - q.w * q.x),
@@ -416,7 +423,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	case RotationSequence::xyz:
 		return taitBryan(
@@ -424,42 +432,54 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 		   -2 * (q.x * q.y - q.w * q.z),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzy:
 		return taitBryan(
 			2 * (q.y * q.z + q.w * q.x),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			-2 *(q.x * q.y - q.w * q.z),
 			2 *(q.x * q.z + q.w * q.y),
-			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
+			2 * (q.w * q.x - q.y * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yxz:
 		return taitBryan(
 			2 * (q.x * q.z + q.w * q.y),
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			-2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y - q.x * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::yzx:
 		return taitBryan(
 			-2 * (q.x * q.z - q.w * q.y),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxy:
 		return taitBryan(
 			-2 * (q.x * q.y - q.w * q.z),
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z + q.x * q.y),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyx:
 	  	return taitBryan(
 			2 * (q.x * q.y + q.w * q.z),
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			-2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
+			2 * (q.w * q.z - q.x * q.y),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 
 	default:
 		assert(false && "Invalid rotation sequence");
-- 
2.43.0


From a45b291e17ef4c5bc73aff7b20c4a9753a60dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 31/41] fix: transforms in double precision (did not compile or
 lost precision)

---
 nytl/transform.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..ae01fbf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -457,9 +457,9 @@ template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
 	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From 8cec542713abeba48a278f13c9282d1930d52698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 32/41] fix: orientMat (2D) accounts for the length of the
 vectors

---
 nytl/transform.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ae01fbf..ac8dee4 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -127,8 +127,9 @@ SquareMat<D, P> rotateMat(P rot) {
 // When 'from' or 'to' are not unit vectors, will also accord for the scale.
 template<size_t D = 4, typename P = float> [[nodiscard]]
 SquareMat<D, P> orientMat(Vec2<P> from, Vec2<P> to) {
-	const auto c = dot(from, to);
-	const auto s = cross(from, to);
+	const auto l = dot(from, from);
+	const auto c = dot(from, to) / l;
+	const auto s = cross(from, to) / l;
 	return expandIdentity<D, P>(Mat2<P>{
 		c, -s,
 		s, c,
-- 
2.43.0


From da66b770ef5ba3f7320ae216224927193e2a0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 33/41] fix: base returns orthogonal vectors for directions
 close to the negative z axis

---
 nytl/transform.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index ac8dee4..dec4409 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -69,17 +69,14 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 	// return {cross(b2, dir), b2};
 
 	// [efficient implementation, frisvad]
-	if(dir.z < P(-0.99999f)) { // singularity
-		return {{
-			{P(0.0), P(-1.0), P(0.0)},
-			{P(-1.0), P(0.0), P(0.0)}
-		}};
-	}
-
-	const P a = P(1.0) / (P(1.0) + dir.z);
-	const P b = -dir.x * dir.y * a;
-	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	// Extended by "Building an Orthonormal Basis, Revisited", Duff et al, 2017:
+	// uses the sign of dir.z to avoid the loss of precision (and the
+	// singularity) around dir.z = -1
+	const P sign = std::copysign(P(1.0), dir.z);
+	const P a = P(-1.0) / (sign + dir.z);
+	const P b = dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) + sign * dir.x * dir.x * a, sign * b, -sign * dir.x};
+	auto b2 = Vec3<P>{b, sign + dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
-- 
2.43.0


From d47e291ccb71530957f50906122036e070dc214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 34/41] fix: include <cstdint> for std::uint8_t in utf.hpp

---
 nytl/utf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/utf.hpp b/nytl/utf.hpp
index 6a2994f..1b3e4f3 100644
--- a/nytl/utf.hpp
+++ b/nytl/utf.hpp
@@ -11,6 +11,7 @@
 
 #include <string> // std::string
 #include <string_view> // std::string_view
+#include <cstdint> // std::uint8_t
 #include <array> // std::array
 #include <locale> // std::wstring_convert
 #include <codecvt> // std::codecvt_utf8
-- 
2.43.0


From ed1b502c979ac7f0a99cceda69dd8a74237ebbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 35/41] fix: inverse of a LUDecomposition that is not in double
 precision did not compile

---
 nytl/matOps.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index af78205..8685ac0 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -467,7 +467,8 @@ template<size_t D, typename T>
 constexpr auto inverse(const LUDecomposition<D, T>& lu) {
 	Mat<D, D, T> ret {};
 	for(auto i = 0u; i < D; ++i) {
-		col(ret, i, luEvaluate(lu.lower, lu.upper, col(lu.perm, i)));
+		auto c = luEvaluate(lu.lower, lu.upper, col(lu.perm, i));
+		col(ret, i, static_cast<Vec<D, T>>(c));
 	}
 
 	return ret;
-- 
2.43.0


From 09a9291127659c8ee2d00f8c72db4de87fa043b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 36/41] fix: the runtime subspan and last of a span are not
 usable in constant expressions

---
 nytl/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 18b204a..19e5bc0 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -293,13 +293,13 @@ private:
     class subspan_selector { };
 
     template <std::size_t CallerExtent>
-    span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
+    constexpr span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
             subspan_selector<CallerExtent>) const {
         const span<element_type, dynamic_extent> tmp(*this);
         return tmp.subspan(offset, count);
     }
 
-    span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
+    constexpr span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
             subspan_selector<dynamic_extent>) const {
         if (count == dynamic_extent) { return {KnownNotNull{data() + offset}, size() - offset}; }
         return {KnownNotNull{data() + offset}, count};
-- 
2.43.0


From 8a773e53d5810bf8f402c32a877e3c248aea4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 37/41] fix: componentwise + and - with a scalar are not usable
 in constant expressions

---
 nytl/vecOps.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/vecOps.hpp b/nytl/vecOps.hpp
index ca6a93f..0236748 100644
--- a/nytl/vecOps.hpp
+++ b/nytl/vecOps.hpp
@@ -305,7 +305,7 @@ constexpr auto operator/(const Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator+(const Vec<D, T1>& a, const T2& b) {
-	Vec<D, decltype(a[0] + b)> res;
+	Vec<D, decltype(a[0] + b)> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = a[i] + b;
 	}
@@ -314,7 +314,7 @@ constexpr auto operator+(const Vec<D, T1>& a, const T2& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator+(const T2& a, const Vec<D, T1>& b) {
-	Vec<D, decltype(a + b[0])> res;
+	Vec<D, decltype(a + b[0])> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = b[i] + a;
 	}
@@ -323,7 +323,7 @@ constexpr auto operator+(const T2& a, const Vec<D, T1>& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator-(const Vec<D, T1>& a, const T2& b) {
-	Vec<D, decltype(a[0] - b)> res;
+	Vec<D, decltype(a[0] - b)> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = a[i] - b;
 	}
@@ -332,7 +332,7 @@ constexpr auto operator-(const Vec<D, T1>& a, const T2& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator-(const T2& a, const Vec<D, T1>& b) {
-	Vec<D, decltype(a - b[0])> res;
+	Vec<D, decltype(a - b[0])> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = a - b[i];
 	}
-- 
2.43.0


From 890c76321bf6c1b667a9320dd87bbc6bec976e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 38/41] fix: span constructors from containers and arrays of
 other or constant elements leave overload resolution

---
 nytl/span.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 19e5bc0..6e67061 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -141,11 +141,14 @@ public:
     constexpr span(element_type (&arr)[N]) noexcept
         : storage_(KnownNotNull{&arr[0]}, details::extent_type<N>()) {}
 
-    template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>>
+    template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>,
+        class = std::enable_if_t<
+            details::is_allowed_element_type_conversion<ArrayElementType, element_type>::value>>
     constexpr span(std::array<ArrayElementType, N>& arr) noexcept
         : storage_(&arr[0], details::extent_type<N>()) {}
 
-    template <std::size_t N>
+    template <std::size_t N, class ConstElementType = element_type,
+        class = std::enable_if_t<std::is_const<ConstElementType>::value>>
     constexpr span(const std::array<std::remove_const_t<element_type>, N>& arr) noexcept
         : storage_(&arr[0], details::extent_type<N>()) {}
 
@@ -172,10 +175,10 @@ public:
 	  class = std::enable_if_t<
 			!details::is_span<Container>::value && !details::is_std_array<Container>::value &&
 			std::is_convertible_v<
-				std::remove_pointer_t<decltype(std::data(std::declval<Container&>()))>(*)[],
+				std::remove_pointer_t<decltype(std::data(std::declval<const Container&>()))>(*)[],
 	  			element_type(*)[]> &&
 		  	std::is_convertible_v<
-				decltype(std::size(std::declval<Container&>())),
+				decltype(std::size(std::declval<const Container&>())),
 				std::size_t>>>
 	constexpr span(const Container& cont) : span(std::data(cont), static_cast<index_type>(std::size(cont))) {}
     constexpr span(const span& other) noexcept = default;
-- 
2.43.0


From a158ee5c3596a3659a8476c4d4dea26694e0d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 39/41] fix: functions of a callback may own connections to it

Destroying such a function disconnects another function of the same callback
while the list of functions is being changed: RecursiveCallback accessed freed
memory in clear, assignment, its destructor and at the end of calls, Callback
removed a wrong function or kept the owned one.
---
 nytl/callback.hpp          | 11 ++++++++++-
 nytl/recursiveCallback.hpp | 22 +++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index ee47e18..2bfe26b 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -145,6 +145,10 @@ Callback<Ret(Args...), ID>::~Callback()
 	for(auto& sub : subs_) {
 		sub.id.removed();
 	}
+
+	// the functions might own connections to this callback
+	std::vector<Subscription> old;
+	old.swap(subs_);
 }
 
 template<typename Ret, typename... Args, typename ID>
@@ -200,7 +204,10 @@ void Callback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		sub.id.removed();
 	}
-	subs_.clear();
+
+	// the functions might own connections to this callback
+	std::vector<Subscription> old;
+	old.swap(subs_);
 }
 
 template<typename Ret, typename... Args, typename ID>
@@ -218,7 +225,9 @@ bool Callback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 	}
 
 	// we can assume that there is only one item in the range
+	// the function is destroyed last, it might own connections to this callback
 	range.first->id.removed();
+	std::swap(ds.func, range.first->func);
 	subs_.erase(range.first);
 	return true;
 }
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 42c8aa5..ad48441 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,13 +165,16 @@ protected:
 	// Removes all old functions that could previously
 	// not be removed because of an active iteration.
 	void removeOld() noexcept {
+		// the functions are destroyed when everything is done since
+		// they might own connections to this callback
+		std::forward_list<Subscription> old;
 		++iterationCount_;
 
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
 			it->id.removed();
-			subs_.pop_front();
+			old.splice_after(old.before_begin(), subs_, subs_.before_begin());
 			it = subs_.begin();
 		}
 
@@ -179,7 +182,7 @@ protected:
 			for(auto next = std::next(it); next != subs_.end(); next = std::next(it)) {
 				if(next->id.get() <= 0) {
 					next->id.removed();
-					subs_.erase_after(it);
+					old.splice_after(old.before_begin(), subs_, it);
 				} else {
 					++it;
 				}
@@ -219,6 +222,10 @@ RecursiveCallback<Ret(Args...), ID>::~RecursiveCallback()
 	for(auto& sub : subs_) {
 		sub.id.removed();
 	}
+
+	// the functions might own connections to this callback
+	std::forward_list<Subscription> old;
+	old.swap(subs_);
 }
 
 template<typename Ret, typename... Args, typename ID>
@@ -319,8 +326,10 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 
 	// clear/remove only if no one is currently iterating
 	// we only reset end_ (not really needed, cleanup for easier debugging)
+	// the functions might own connections to this callback
 	if(remove) {
-		subs_.clear();
+		std::forward_list<Subscription> old;
+		old.swap(subs_);
 		last_ = subs_.end();
 	}
 }
@@ -336,11 +345,14 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 
 	auto remove = (iterationCount_ == 0);
 
+	// the function is destroyed last, it might own connections to this callback
+	std::forward_list<Subscription> old;
+
 	// check for first one
 	if(subs_.begin()->id.get() == id.get()) {
 		if(remove) {
 			subs_.begin()->id.removed();
-			subs_.pop_front();
+			old.splice_after(old.before_begin(), subs_, subs_.before_begin());
 			if(subs_.empty()) {
 				last_ = subs_.end();
 			}
@@ -365,7 +377,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 					last_ = it;
 				}
 				next->id.removed();
-				subs_.erase_after(it);
+				old.splice_after(old.before_begin(), subs_, it);
 			} else {
 				next->id.set(-callID_);
 			}
-- 
2.43.0


From eea4bbf3c93776c2927adc17541e522f208859c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 40/41] fix: a failed registration of a function with
 connection leaves no empty function

RecursiveCallback::add(std::function<Ret(Connection, Args...)>) inserted the
subscription before the wrapper was allocated. When that failed, the empty
subscription stayed registered and the next call threw std::bad_function_call.
---
 nytl/recursiveCallback.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index ad48441..3409bac 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -250,6 +250,9 @@ add(std::function<Ret(Connection, Args...)> func)
 
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
+
+	// storing the function might throw, no empty function may stay registered
+	ExceptionGuard guard([&]{ disconnect(conn.id()); });
 	sub.func = [conn, f = std::move(func)](Args... args) {
 		return f(conn, std::forward<Args>(args)...);
 	};
-- 
2.43.0


From 982c1cc19e3d847e2a5dc16e88c381c588d339aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 41/41] fix: invertible works if the determinant is not
 representable in the value type

---
 nytl/matOps.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 8685ac0..f9bd068 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -447,7 +447,20 @@ constexpr auto determinant(const LUDecomposition<D, T>& lu) {
 /// to calculate the determinant using the decomposition.
 template<size_t D, typename T>
 constexpr bool invertible(const SquareMat<D, T>& mat) {
-	return (determinant(mat) != 0);
+	// don't use determinant(mat) here, its value might not be representable in T
+	const auto lu = luDecomp(mat);
+	if constexpr(std::is_integral_v<T>) {
+		return std::round(determinant(lu)) != 0;
+	} else {
+		// the product of (not zero but) small diagonal elements might underflow
+		for(auto n = 0u; n < D; ++n) {
+			if(lu.upper[n][n] == 0.0) {
+				return false;
+			}
+		}
+
+		return true;
+	}
 }
 
 /// \brief Returns the inverse of the given matrix.
-- 
2.43.0

