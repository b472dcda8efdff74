From 167db14ba44abe4bd6a08591df967207c3e350ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 01/11] fix: assign and reset shared_ptr by swap, releasing the
 old owner last

---
 code/xmem/basic_shared_ptr.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..ac5828f 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,8 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        // swap before release: r may be a part of the object that gets destroyed
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -40,8 +40,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +49,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -61,8 +59,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -73,8 +70,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
@@ -101,8 +97,7 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        basic_shared_ptr().swap(*this);
     }
 
     template <typename U>
-- 
2.43.0


From ec04e9002b6edb6f8e049e7dbb75959e78b31350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 02/11] fix: don't set up shared_from for a null pointer

---
 code/xmem/common_control_block.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..8033ff0 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,11 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ptr) {
+                ebf_type* ebf = ptr;
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From 8fd6f776473f9d961856bb557a1ffa96d882f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 03/11] fix: shared_from on an expired object must not drop a
 ref it never took

---
 code/xmem/basic_shared_from.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..a65d674 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -27,24 +27,23 @@ protected:
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
     sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<const void> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = m;
+        return ret;
     }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<T> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = {m.cb, ptr};
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 49161f5ad4ca0c42fc82f23e212e371f789d3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 04/11] fix: unique_ptr::swap must swap the deleters along with
 the pointers

---
 code/xmem/unique_ptr.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..0d2a174 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +175,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +238,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +291,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 0b49afac935fed88348d3c39575cbe35ef41a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 05/11] fix: shared_ptr::reset with a deleter must use that
 deleter

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index ac5828f..09619a4 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -107,7 +107,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From f82e39caab65c512908f11d1cd2d1e08acff85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 06/11] fix: a failed compare_exchange must not destroy objects
 under the lock

---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 19 +++++++++++--------
 code/xmem/std_helpers.hpp                     | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..6465702 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,15 +38,18 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
-        impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        shared_pointer_type cur;
+        {
+            impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        // not under the lock: this may destroy the object previously held by expect
+        expect = std::move(cur);
+        return false;
     }
 };
 
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..cd9d01d 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,15 +121,18 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        xmem::impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur;
+        {
+            xmem::impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        // not under the lock: this may destroy the object previously held by expect
+        expect = std::move(cur);
+        return false;
     }
 };
 #endif
-- 
2.43.0


From 59aee6226be6f4759c9268e1d0da80d3f4e13bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 07/11] fix: allocator::allocate must not return a short block
 on overflow

---
 code/xmem/allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/xmem/allocator.hpp b/code/xmem/allocator.hpp
index de67253..b4cdb09 100644
--- a/code/xmem/allocator.hpp
+++ b/code/xmem/allocator.hpp
@@ -3,6 +3,7 @@
 //
 #pragma once
 #include <memory>
+#include <new>
 
 namespace xmem {
 
@@ -20,6 +21,7 @@ public:
     static inline constexpr std::align_val_t align_val{alignof(T)};
 
     [[nodiscard]] T* allocate(size_t n) {
+        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length();
         auto ret = ::operator new(n * sizeof(T), align_val);
         return reinterpret_cast<T*>(ret);
     }
-- 
2.43.0


From f0e73588b3bf73462d706bb3800c852bd0c72622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 08/11] fix: weak_ptr conversion to a virtual base must not
 read an expired object

---
 code/xmem/basic_weak_ptr.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 49735e6..31516e2 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -6,6 +6,17 @@
 
 namespace xmem {
 
+namespace impl {
+// Converting a pointer to one to a virtual base reads the object which is pointed to.
+// These are the conversions which cannot be undone with a static_cast.
+template <typename From, typename To, typename = void>
+struct ptr_conversion_reads_object : std::true_type {};
+template <typename From, typename To>
+struct ptr_conversion_reads_object<From, To,
+    std::void_t<decltype(static_cast<const volatile From*>(std::declval<To*>()))>
+> : std::false_type {};
+}
+
 template <typename CBF, typename T>
 class basic_weak_ptr {
 public:
@@ -30,12 +41,12 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(r.m);
+        init_from_copy(converted(r));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
         if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(r.m);
+        init_from_copy(converted(r));
         return *this;
     }
 
@@ -155,10 +166,23 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = std::move(r.m);
+        m = converted(r);
+        r.m.reset();
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
 
+    template <typename U>
+    static cb_ptr_pair_type converted(const basic_weak_ptr<CBF, U>& r) noexcept {
+        using from_type = typename basic_weak_ptr<CBF, U>::element_type;
+        if constexpr (impl::ptr_conversion_reads_object<from_type, element_type>::value) {
+            // keep the object alive while converting, if it still is
+            return {r.m.cb, r.lock().get()};
+        }
+        else {
+            return r.m;
+        }
+    }
+
     cb_ptr_pair_type m;
 
     template <typename, typename> friend class basic_weak_ptr;
-- 
2.43.0


From 198343ec8051d726e2c3fac4ec922c5d097934d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 09/11] fix: unique_ptr move assignment from within the object
 it disposes of

---
 code/xmem/unique_ptr.hpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 0d2a174..e083769 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -72,8 +72,9 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(std::move(other));
+        swap(tmp);
         return *this;
     }
 
@@ -84,8 +85,9 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(std::move(other));
+        swap(tmp);
         return *this;
     }
 
@@ -153,8 +155,9 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(std::move(other));
+        swap(tmp);
         return *this;
     }
 
@@ -162,8 +165,9 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(std::move(other));
+        swap(tmp);
         return *this;
     }
 
@@ -216,8 +220,9 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(std::move(other));
+        swap(tmp);
         return *this;
     }
 
@@ -225,8 +230,9 @@ public:
     unique_ptr(unique_ptr<U, deleter_type>&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(other.release(), other.get_deleter());
+        swap(tmp);
         return *this;
     }
 
@@ -275,8 +281,9 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // the source may live in the object which we're about to dispose of
+        unique_ptr tmp(std::move(other));
+        swap(tmp);
         return *this;
     }
 
-- 
2.43.0


From 0f2e8afeb0595fb7b956493e23124b64522c90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 10/11] fix: unique_ptr with a function pointer deleter of a
 base type

---
 code/xmem/unique_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index e083769..75ad162 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -195,7 +195,7 @@ public:
 
 template <typename T, typename B>
 class unique_ptr<T, void(*)(B*)> : public impl::uptr_common<T*> {
-    static_assert(std::is_convertible_v<B*, T*>, "unique_ptr type needs to be convertible to deleter type");
+    static_assert(std::is_convertible_v<T*, B*>, "unique_ptr type needs to be convertible to deleter type");
     using common = impl::uptr_common<T*>;
     void (*m_deleter)(B*);
 public:
-- 
2.43.0


From d10a78e712f3793a62d97ab4561e2c0a5c9167f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 11/11] fix: weak_ptr conversion to a virtual base may be what
 destroys the object

---
 code/xmem/basic_weak_ptr.hpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 31516e2..3f17b32 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -41,12 +41,12 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(converted(r));
+        [[maybe_unused]] auto alive = keep_alive_for_conversion(r);
+        init_from_copy(converted(r, alive));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(converted(r));
+        basic_weak_ptr(r).swap(*this);
         return *this;
     }
 
@@ -66,8 +66,7 @@ public:
     }
     template <typename U>
     basic_weak_ptr& operator=(basic_weak_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_move(r);
+        basic_weak_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -166,17 +165,32 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = converted(r);
+        [[maybe_unused]] auto alive = keep_alive_for_conversion(r);
+        m = converted(r, alive);
         r.m.reset();
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
 
     template <typename U>
-    static cb_ptr_pair_type converted(const basic_weak_ptr<CBF, U>& r) noexcept {
-        using from_type = typename basic_weak_ptr<CBF, U>::element_type;
-        if constexpr (impl::ptr_conversion_reads_object<from_type, element_type>::value) {
-            // keep the object alive while converting, if it still is
-            return {r.m.cb, r.lock().get()};
+    static constexpr bool conversion_reads_object =
+        impl::ptr_conversion_reads_object<typename basic_weak_ptr<CBF, U>::element_type, element_type>::value;
+
+    // Keeps the object alive while converting the pointer, if it still is and that's needed.
+    // To be released after both pointers are in their final state: this may destroy the object
+    template <typename U>
+    static auto keep_alive_for_conversion(const basic_weak_ptr<CBF, U>& r) noexcept {
+        if constexpr (conversion_reads_object<U>) {
+            return r.lock();
+        }
+        else {
+            return nullptr;
+        }
+    }
+
+    template <typename U, typename Alive>
+    static cb_ptr_pair_type converted(const basic_weak_ptr<CBF, U>& r, const Alive& alive) noexcept {
+        if constexpr (conversion_reads_object<U>) {
+            return {r.m.cb, alive.get()};
         }
         else {
             return r.m;
-- 
2.43.0

