From b75c8d853a7625b8e343f0f9a7b809028aef174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 01/74] fix: StringView: let rfind of a string search the whole
 view by default

---
 src/StringView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..09e02df 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,10 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos) const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos) const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From 11fea4bf989d41e444b3ab681e24251958225af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 02/74] fix: StringHasher: hash a std::string like any other
 range of the same characters

---
 src/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index 29f3590..b6a9d09 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -137,7 +137,7 @@ struct StringHasher {
     std::size_t operator()(std::string const & v) const
             noexcept(noexcept(std::declval<StringHasher const &>()(v.begin(),
                                                                    v.end())))
-    { return boost::hash_range(v.begin(), v.end()); }
+    { return this->operator()(v.begin(), v.end()); }
 
     std::size_t operator()(char const * const v) const noexcept
     { return this->operator()(v, Detail::TerminatingNullCharacterSentinel()); }
-- 
2.43.0


From 4bbd407ad999c9f3b536ccfacaabe4c3a79937d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 03/74] fix: make shifting a uint_t by a uint_t compile

---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..40921b4 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -746,7 +746,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = std::min(std::size_t(num_of_bits), std::size_t(64u));
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From 5eade9578554a689f15335ef0a790b627ebfb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 04/74] fix: do not multiply promoted signed blocks in uint_t

---
 src/uint_t.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 40921b4..bc05142 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -480,7 +480,9 @@ public: /* Methods: */
 
         // static if
         if (num_of_blocks == 1) {
-            uint_t result = x.least_significant_block() * y.least_significant_block();
+            uint_t result = static_cast<block_t>(
+                        std::uintmax_t(x.least_significant_block())
+                        * y.least_significant_block());
             result.clear_unused_bits_();
             return result;
         }
-- 
2.43.0


From 77d3453b69f7c1c83eac23d6a97a84f7531b5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 05/74] fix: construct uint_t of at most 64 bits from uint128_t

---
 src/uint_t.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bc05142..3240629 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -815,8 +815,11 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            // The upper half does not fit into widths of 64 bits or less:
+            if (N > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From 6f85591b8e5f96e2937d231f3d4cd65add676a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 06/74] fix: divide one-bit uint_t without shifting by its
 width

---
 src/uint_t.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uint_t.h b/src/uint_t.h
index 3240629..bcc6d14 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -563,6 +563,12 @@ public: /* Methods: */
         quot = 0;
         rem = 0;
 
+        // static if: there is nothing to shift in a single bit, the divisor is 1
+        if (num_of_bits == 1) {
+            const div_t result = { x, rem };
+            return result;
+        }
+
         uint_t bit = 1;
         bit <<= (num_of_bits - 1);
         while (bit != 0) {
-- 
2.43.0


From b8026056f4b16eaa35a4e75ea36a30257d942494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 07/74] fix: BitVec::append of empty, short and own contents

---
 src/BitVector.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..e877f2e 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -281,27 +281,31 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
+        // Note that other may be *this:
+        const size_type other_bits = other.m_num_bits;
+        const size_type other_blocks = compute_block_count (other_bits);
+        const size_type new_blocks =
+                compute_block_count (m_num_bits + other_bits);
+        const block_type r = m_num_bits % bits_per_block();
         if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
+            for (size_type i = 0; i < other_blocks; ++ i) {
+                const block_type b = other.m_blocks[i];
+                m_blocks.push_back (b);
             }
         }
         else {
             assert (! empty ());
             assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
+            const block_type mask = bit_mask (m_num_bits) - 1;
+            for (size_type i = 0; i < other_blocks; ++ i) {
+                const block_type b = other.m_blocks[i];
+                m_blocks.back () = (m_blocks.back () & mask) | (b << r);
+                if (m_blocks.size () < new_blocks) {
+                    m_blocks.push_back (b >> (bits_per_block() - r));
+                }
+            }
         }
-
-        m_num_bits += other.m_num_bits;
+        m_num_bits += other_bits;
     }
 
     template <typename Rng>
-- 
2.43.0


From ae8d263ecd33fce9cdd1722c0bfa1d82777e98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 08/74] fix: make BitVec copyable as its operators expect

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index e877f2e..5f0b291 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(const BitVec& other) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(const BitVec& other) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From db83a26f4981bae9faacb46ac5fe1b84e7165d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 09/74] fix: BitVec::clear_and_release leaves an empty vector

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 5f0b291..d9a0787 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -376,7 +376,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From 0822ff90d3d62e1b3821c5278358558f7fd2553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 10/74] fix: UnalignedReference assignment converts the
 assigned value

---
 src/UnalignedReference.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..c61b47d 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -61,7 +61,8 @@ public: /* Methods: */
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        T const & value = v; // Converts if needed
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From d17cc036517abd5ce2aa1041c5f6bd83b7ea8d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 11/74] fix: UnalignedPointer differences compile and are
 signed

---
 src/UnalignedPointer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..a0c708c 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,10 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const volatile>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From dfc0130c15d18dd806cee5ddb57546be5aa5b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 12/74] fix: call minSizeInBytes() in packed structures

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From 13cfe8f0af476319e8234c69a34ce9b539c09c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 13/74] fix: DynamicPackedStruct assignment operators

---
 src/DynamicPackedStruct.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..f9b988d 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,6 +138,7 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
@@ -148,7 +149,7 @@ public: /* Methods: */
                     if (void * const newData =
                             ::operator new(copy.size(), std::nothrow))
                     {
-                        m_data = newData;
+                        m_data.reset(newData);
                     } else {
                         if (m_sizes[lastSizesIndex]
                                 < copy.m_sizes[lastSizesIndex])
@@ -156,13 +157,14 @@ public: /* Methods: */
                     }
                 }
             } else {
-                m_data = ::operator new(copy.size());
+                m_data.reset(::operator new(copy.size()));
             }
             std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
         } else {
             m_data.reset();
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From 8f94649f199cac7c4cb14bc03843da1c8a2e72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 14/74] fix: IdentifierPool: let reserve() throw instead of
 terminating

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From 8893e08d8fd142a68145ff25be9a2955ae21168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 15/74] fix: IdentifierPool: keep the identifier on
 self-move-assignment

---
 src/IdentifierPool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..fe21b1f 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,6 +116,8 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
+            if (this == &move)
+                return *this;
             if (m_state)
                 m_state->recycle(m_id);
             m_id = move.m_id;
-- 
2.43.0


From c1f3876602f0a392214e0130c5ab9d37ac7f0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 16/74] fix: IdentifierPool of strong types: throw the declared
 ReserveException

---
 src/IdentifierPool.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index fe21b1f..26609bb 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -181,15 +181,12 @@ public: /* Types: */
 
     using ValueType = StrongType<T, Tag, Mixins...>;
 
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
+    using Exception = typename IdentifierPool<T>::Exception;
     /**
       \brief Signifies that ID reservation failed because the identifier space
              in type T is exhausted.
     */
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
-            Exception,
-            ReserveException,
-            "No more identifiers can be reserved.");
+    using ReserveException = typename IdentifierPool<T>::ReserveException;
 
 public: /* Types: */
 
-- 
2.43.0


From 5e007aa90ca5c9dabc5c21007708a38a0d7b5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 17/74] fix: SharedResourceMap: let exceptions of resource
 constructors through

---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From 31080cd0f51b7af271ecbde4284d90f4ca236a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 18/74] fix: SharedResourceMap: forEach no longer deadlocks
 when it drops the last handle

---
 src/SharedResourceMap.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index cc5cd69..195d3f8 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -79,10 +80,14 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            // The deleters lock m_mutex, hence release these only after unlock:
+            std::vector<std::shared_ptr<Value> > ptrs;
             std::unique_lock<std::mutex> lock(m_mutex);
             for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
+                if (auto ptr = v.second->weakPtr.lock()) {
+                    ptrs.emplace_back(ptr);
                     f(v.first, std::move(ptr));
+                }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From d2bf09dfc3510270f8828527190c7e56f4f4e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 19/74] fix: SharedResourceMap: destroy resources whose map is
 gone or whose handle was revived

---
 src/SharedResourceMap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 195d3f8..82f3129 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -170,13 +170,16 @@ public: /* Methods: */
                         Inner & c = *static_cast<Inner *>(cPtr.get());
                         std::lock_guard<std::mutex> const guard(c.m_mutex);
                         auto const it = c.m_data.find(valueObj->key);
+                        valueObj.reset();
+                        // Erase if no other handle (or its deleter) remains:
                         if ((it != c.m_data.end())
-                            && it->second->weakPtr.expired())
+                            && (it->second.use_count() == 1))
                         {
-                            valueObj.reset();
                             c.m_data.erase(it);
                             c.m_cond.notify_all();
                         }
+                    } else {
+                        valueObj.reset();
                     }
                 });
             valueObj->weakPtr = r;
-- 
2.43.0


From 8a83ab8aae954a4035ae61c16f2f283bc277edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 20/74] fix: LRU: copies no longer refer to the lists of the
 original

---
 src/LRU.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/LRU.h b/src/LRU.h
index 0a45c7b..3e90ea6 100644
--- a/src/LRU.h
+++ b/src/LRU.h
@@ -79,6 +79,19 @@ public: /* Methods: */
         : m_sizeLimit{(assert(limit > 0u), limit)}
     {}
 
+    LRU(LRU &&) = default;
+
+    LRU(LRU const & copy)
+        : m_sizeLimit{copy.m_sizeLimit}
+        , m_cacheList(copy.m_cacheList)
+        , m_weakList(copy.m_weakList)
+    {
+        // The iterators in copy.m_cacheMap refer to the lists of the original:
+        for (auto * const list : {&m_cacheList, &m_weakList})
+            for (auto it = list->begin(); it != list->end(); ++it)
+                m_cacheMap.emplace(it->key(), it);
+    }
+
     /** \brief Inserts a item into the cache. */
     void insert(key_t key, str_ptr value) {
         auto const it(m_cacheMap.find(key));
-- 
2.43.0


From ca4a6567146ba852f452cea8f8bd24674bd5d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 21/74] fix: IntrusiveUnorderedSharedItemSet: do not own items
 which were not inserted

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..33a50eb 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From 88b9109762c49c6122ad83aa46031b928b0aedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 22/74] fix: ObjectTree: child nodes are not copyable

---
 src/ObjectTree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ObjectTree.h b/src/ObjectTree.h
index 715dc8c..02359e1 100644
--- a/src/ObjectTree.h
+++ b/src/ObjectTree.h
@@ -47,6 +47,9 @@ class ChildNodeBase {
 
 public: /* Methods: */
 
+    ChildNodeBase(ChildNodeBase const &) = delete;
+    ChildNodeBase & operator=(ChildNodeBase const &) = delete;
+
     virtual ~ChildNodeBase() noexcept {}
 
     typename ParentNodeType::ParentType * parent() const noexcept
-- 
2.43.0


From ad8c0fc44e2ffb0d1c9103b09afb841b9ab8a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 23/74] fix: AlignedAllocator: throw bad_alloc when the size
 overflows

---
 src/AlignedAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..1b133ea 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -115,6 +115,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > static_cast<std::size_t>(-1) / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From e89b60eaa59ba70c534d13a8b2a649ff68e886db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 24/74] fix: AlignedAllocator: allocate storage for types of
 small alignment

---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index 1b133ea..8552bdc 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -34,8 +34,11 @@ template <std::size_t ALIGNMENT>
 inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
+    // posix_memalign() requires a multiple of sizeof(void *):
+    constexpr std::size_t const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 56dd23bb8adaf57be6ecfb7997abf039644e69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 25/74] fix: UninitializedDynamicArray: move assignment
 returns, and keeps the size on self-move

---
 src/UninitializedDynamicArray.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..c50a156 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -67,9 +67,12 @@ public: /* Methods: */
     UninitializedDynamicArray & operator=(
                 UninitializedDynamicArray && move) noexcept
     {
-        m_size = move.m_size;
-        m_data = std::move(move.m_data);
-        move.m_size = 0u;
+        if (this != &move) {
+            m_size = move.m_size;
+            m_data = std::move(move.m_data);
+            move.m_size = 0u;
+        }
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From 71e56b0dfb542fafcec3aef126ceeb92ea62a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 26/74] fix: ReferenceVector: make CRefVec constructible from a
 RefVec

---
 src/ReferenceVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceVector.h b/src/ReferenceVector.h
index cd4fa88..13ab7dc 100644
--- a/src/ReferenceVector.h
+++ b/src/ReferenceVector.h
@@ -142,7 +142,7 @@ public: /* Methods: */
     { }
 
     explicit CRefVec(RefVec<T> const & immvec)
-        : Base(immvec)
+        : Base(immvec.begin(), immvec.size())
     {}
 
     using Base::empty;
-- 
2.43.0


From 48e7d25ea25ec7b0a7772cef9a569c6ad8fb78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 27/74] fix: syscallLoop() must not let the construction of the
 exception change the reported errno

---
 src/Posix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Posix.h b/src/Posix.h
index 6cf003d..a1e1a63 100644
--- a/src/Posix.h
+++ b/src/Posix.h
@@ -25,8 +25,10 @@ inline auto syscallLoop(F f, P okPred, Args && ... args) noexcept(false) {
         auto r = f(std::forward<Args>(args)...);
         if (okPred(r))
             return r;
-        if (errno != EAGAIN && errno != EINTR)
-            throwNested(ErrnoException(errno), E());
+        // The construction of E might change errno:
+        auto const error = errno;
+        if (error != EAGAIN && error != EINTR)
+            throwNested(ErrnoException(error), E());
     }
 }
 
-- 
2.43.0


From 23b7bc4b430dc6755004e75906860c08fe90f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 28/74] fix: moving over an undecided Promise must break it

---
 src/Future.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..76bde96 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -407,7 +407,11 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise tmp(std::move(move)); \
+            swap(tmp); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From 8626453e2e3745d227ba7ff3d28e2a9b3b21b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 29/74] fix: wake all waiters of a Future

---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 76bde96..98fcc32 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -135,7 +135,7 @@ struct SharedState {
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -167,7 +167,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From f0894de7ae3bab84c9829e18bdc27a1307a794cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 30/74] fix: destroy the value of a Future

---
 src/Future.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 98fcc32..f263535 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,11 @@ struct SharedState {
 
 /* Methods: */
 
+    ~SharedState() noexcept {
+        if (hasValue)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
@@ -134,6 +139,7 @@ struct SharedState {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
+                    hasValue = true;
                     isSet = true;
                     cond.notify_all();
                     return std::move(m_continuation);
@@ -151,6 +157,7 @@ struct SharedState {
 /* Fields: */
 
     typename std::aligned_storage<sizeof(T), alignof(T)>::type m_data;
+    bool hasValue = false;
 
 };
 
-- 
2.43.0


From fb31e6e192a3a26326e5a14fe7f09ccd85dba0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 31/74] fix: keep the Promise undecided if the constructor of
 the value throws

---
 src/Future.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index f263535..0fc72a1 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -135,7 +135,10 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_)
+                    noexcept(noexcept(T(std::forward<Args>(args_)...)))
+                    -> ContinuationPtr
+                {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -477,8 +480,13 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        SharedStatePtr state(std::move(m_state));
+        try {
+            return state->emplaceValue(std::forward<Args>(args)...);
+        } catch (...) { // No value was constructed, hence nothing was decided
+            m_state = std::move(state);
+            throw;
+        }
     }
 
     void setValue(T && v)
-- 
2.43.0


From b4b205461320becfb6742b4378ada6bf3d841cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 32/74] fix: makeExceptionalFuture() must not move from lvalues

---
 src/Future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 0fc72a1..2350873 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -542,7 +542,7 @@ inline Future<T> makeExceptionalFuture(std::exception_ptr exception) {
 template <typename T, typename Exception>
 inline Future<T> makeExceptionalFuture(Exception && exception) {
     Promise<T> p;
-    p.setException(std::move(exception));
+    p.setException(std::forward<Exception>(exception));
     return p.takeFuture();
 }
 
-- 
2.43.0


From dcbb33335ef4a8b1e076155da211355ca28f0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 33/74] fix: PackagedTask::reset() did not compile

---
 src/Future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 2350873..f42b048 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -608,7 +608,7 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() { *this = PackagedTask(std::move(m_function)); }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
-- 
2.43.0


From d04610fa7043bdf6e11b135e2af7f7f4df1e8287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 34/74] fix: support PackagedTask<void(...)>

---
 src/Future.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index f42b048..6e5222d 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -598,7 +598,7 @@ public: /* Methods: */
     template <typename ... Args>
     void operator()(Args && ... args) noexcept {
         try {
-            m_promise.setValue(m_function(std::forward<Args>(args)...));
+            run(std::is_void<R>(), std::forward<Args>(args)...);
         } catch (...) {
             m_promise.setException(std::current_exception());
         }
@@ -618,6 +618,18 @@ public: /* Methods: */
 
 private: /* Methods: */
 
+    template <typename ... Args>
+    void run(std::false_type, Args && ... args)
+    { m_promise.setValue(m_function(std::forward<Args>(args)...)); }
+
+    template <typename ... Args>
+    void run(std::true_type, Args && ... args) {
+        m_function(std::forward<Args>(args)...);
+        m_promise.setReady();
+    }
+
+private: /* Fields: */
+
     Promise<R> m_promise;
     Function m_function;
 
-- 
2.43.0


From d1c65d9cb98ed78e88273b82776f83a3b8eb9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 35/74] fix: the constructor of PackagedTask can throw

---
 src/Future.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 6e5222d..6c387e7 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -570,9 +570,6 @@ public: /* Methods: */
 
     template <typename F>
     PackagedTask(F && f)
-            noexcept(noexcept(std::is_nothrow_constructible<
-                                    decltype(PackagedTask::m_function),
-                                    decltype(std::forward<F>(f))>::value))
         : m_function(std::forward<F>(f))
     {}
 
-- 
2.43.0


From a98cbd5934241ba83ff309789da91e74df715e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 36/74] fix: TimeoutsThread::stop() must also precede tasks
 from before the epoch of the clock

---
 src/TimeoutsThread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index cc3fb3a..e76e9be 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -258,7 +258,7 @@ public: /* Methods: */
 
     void stop() noexcept {
         if (m_stopTask)
-            addTask(Clock::time_point(), std::move(m_stopTask));
+            addTask(Clock::time_point::min(), std::move(m_stopTask));
     }
 
 private: /* Fields: */
-- 
2.43.0


From f21201b24cc2b0dfb65077ce24e0dcea3b2f704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 37/74] fix: avoid overflow in TimeoutsThread::addTimeoutTask()

---
 src/TimeoutsThread.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index e76e9be..84fe1fe 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -208,7 +208,14 @@ public: /* Methods: */
 
     void addTimeoutTask(Clock::duration const & duration,
                         std::unique_ptr<Task> task) noexcept
-    { return addTask(Clock::now() + duration, std::move(task)); }
+    {
+        auto const now(Clock::now());
+        // Avoid overflow:
+        return addTask((duration < Clock::time_point::max() - now)
+                       ? now + duration
+                       : Clock::time_point::max(),
+                       std::move(task));
+    }
 
     template <typename TimePoint>
     void addTask(TimePoint && timePoint, std::unique_ptr<Task> task) noexcept {
-- 
2.43.0


From 1ad8cbcde0f0934cd564627acaae479c78db6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 38/74] fix: EventLoop must survive an interrupted or empty
 read when flushing its pipe

---
 src/EventLoop.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..9382198 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,14 +328,19 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
+                        if (rd < 0) {
+                            assert(rd == -1);
+                            if (errno == EAGAIN) // Nothing left to discard
+                                goto Sharemind_EventLoop_run_continue;
+                            if (errno != EINTR)
+                                return; // Error signalled
+                            continue;
+                        }
                         assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
-                        if (rd <= 0) {
-                            if (rd == 0 // HUP or EOF
-                                    || (static_cast<void>(assert(rd == -1)),
-                                        (errno != EAGAIN) && (errno != EINTR)))
-                                return; // Error or stop signalled
-                        } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
-                        { goto Sharemind_EventLoop_run_continue; }
+                        if (rd == 0)
+                            return; // Stop signalled (HUP or EOF)
+                        if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
+                            goto Sharemind_EventLoop_run_continue;
                     }
                 }
                 handleEvent(*it);
-- 
2.43.0


From e16dc5fa763e98b634c0bda108832cf2b7d9b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 39/74] fix: stopping an EventLoop from several threads must
 close the pipe only once

---
 src/EventLoop.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 9382198..e183e15 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -162,14 +162,22 @@ private: /* Types: */
         }
 
         void writeEndClose() noexcept {
+            std::lock_guard<std::mutex> const guard{writeEndMutex};
             if (writeEnd == readEnd)
                 return;
             ::close(writeEnd);
             writeEnd = readEnd;
         }
 
+        ssize_t writeByte() noexcept {
+            static char const data = '\0';
+            std::lock_guard<std::mutex> const guard{writeEndMutex};
+            return ::write(writeEnd, &data, 1u);
+        }
+
     /* Fields: */
 
+        std::mutex writeEndMutex;
         int readEnd;
         int writeEnd;
 
@@ -374,9 +382,8 @@ private: /* Methods: */
         }
         if (m_loopCounter.load(std::memory_order_acquire) != start)
             return;
-        static char const data = '\0';
         for (;;) {
-            auto const w = ::write(m_closePipe.writeEnd, &data, 1u);
+            auto const w = m_closePipe.writeByte();
             assert(w <= 1);
             if (w > 0)
                 break;
-- 
2.43.0


From 7a5eea58823e2fe87b101608e3fadedf7bd24ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 40/74] fix: waiting for the end of an EventLoop iteration must
 neither hang on an idle loop nor end early on a stopping one

---
 src/EventLoop.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index e183e15..fca714d 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -388,18 +388,18 @@ private: /* Methods: */
             if (w > 0)
                 break;
             assert(w == -1);
-            if (errno != EAGAIN
-                && errno != EINTR
-                #if defined(EWOULDBLOCK) && (EWOULDBLOCK != EAGAIN)
-                && errno != EWOULDBLOCK
-                #endif
-                && errno != ENOSPC
-                && errno != EIO
-                && errno != ENOBUFS)
-                return;
+            /* Otherwise the pipe is already full or the loop is being stopped
+               or is about to wake up on its own by timeout: */
+            if (errno != EINTR)
+                break;
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            if (m_stopMutex.try_lock()) { // Not running
+                m_stopMutex.unlock();
+                return;
+            }
             spinFunction();
+        }
     }
 
     #if defined(__linux__)
-- 
2.43.0


From 725d7eae1449b84b68ffc7693a00b7e545b63a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 41/74] fix: Flags and AtomicFlags of integral types must
 compile

---
 src/AtomicFlags.h | 5 +++--
 src/Flags.h       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..27abdc3 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -23,6 +23,7 @@
 #include <atomic>
 #include <type_traits>
 #include "Flags.h"
+#include "TypeIdentity.h"
 
 
 namespace sharemind {
@@ -187,8 +188,8 @@ using AtomicFlags =
             EnumOrIntegral,
                 typename std::conditional<
                     std::is_integral<EnumOrIntegral>::value,
-                    EnumOrIntegral,
-                    typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                    TypeIdentity<EnumOrIntegral>,
+                    std::underlying_type<EnumOrIntegral> >::type::type>;
 
 } /* namespace Sharemind { */
 
diff --git a/src/Flags.h b/src/Flags.h
index dee9c60..979e92f 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -21,6 +21,7 @@
 #define SHAREMIND_FLAGS_H
 
 #include <type_traits>
+#include "TypeIdentity.h"
 
 
 namespace sharemind {
@@ -104,8 +105,8 @@ using Flags =
             EnumOrIntegral,
             typename std::conditional<
                 std::is_integral<EnumOrIntegral>::value,
-                EnumOrIntegral,
-                typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                TypeIdentity<EnumOrIntegral>,
+                std::underlying_type<EnumOrIntegral> >::type::type>;
 
 } /* namespace Sharemind { */
 
-- 
2.43.0


From c2d326ced9aa74ec84c558cd2e9daacf51435217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 42/74] fix: the queries of AtomicFlags must compile

---
 src/AtomicFlags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 27abdc3..0385b87 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -38,7 +38,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
-- 
2.43.0


From 27bbb46bee1dec5e64f6e311f2b5d073faecab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 43/74] fix: StrongTypeSwappable must compile

---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From e6f0138dd5f27f17f1a88a0e4f9d7fd7125ec499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 44/74] fix: a copied ScopeExit runs its action twice, and
 makeScopeExit() does not compile

---
 src/ScopeExit.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ScopeExit.h b/src/ScopeExit.h
index 31ce1c2..d54f63c 100644
--- a/src/ScopeExit.h
+++ b/src/ScopeExit.h
@@ -32,7 +32,17 @@ public: /* Methods: */
 
     template <typename ... Args>
     ScopeExit(Args && ... args) : m_f{std::forward<Args>(args)...} {}
-    ~ScopeExit() noexcept(false) { m_f(); }
+
+    ScopeExit(ScopeExit && move) noexcept : m_f{std::move(move.m_f)}
+    { move.m_f = nullptr; }
+
+    ScopeExit(ScopeExit const &) = delete;
+    ScopeExit & operator=(ScopeExit const &) = delete;
+
+    ~ScopeExit() noexcept(false) {
+        if (m_f)
+            m_f();
+    }
 
 private: /* Fields: */
 
-- 
2.43.0


From 598502128f88ab3e530195837acb338cbdae4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 45/74] fix: do not mark an Optional as holding a value before
 it is copied or moved

---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..85644f9 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>()
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true;
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>()
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true;
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From 27a692ec51860eed82d897142ce5101e76e49078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 46/74] fix: allow empty optionals to be converted

---
 src/Optional.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 85644f9..16b5beb 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -399,7 +399,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    Optional(Optional<U> const & v) : Optional() {
+        if (v.hasValue())
+            emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -408,9 +411,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+    explicit Optional(Optional<U> const & v) : Optional() {
+        if (v.hasValue())
+            emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -419,7 +423,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    Optional(Optional<U> && v) : Optional() {
+        if (v.hasValue())
+            emplace(*std::move(v));
+    }
 
     template <
             typename U = T,
@@ -428,9 +435,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+    explicit Optional(Optional<U> && v) : Optional() {
+        if (v.hasValue())
+            emplace(*std::move(v));
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From 79f52cd619891e923a25e5e68968ad25a433fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 47/74] fix: make converting assignments of Optional compile

---
 src/Optional.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 16b5beb..8761758 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -464,7 +464,18 @@ public: /* Methods: */
     Optional & operator=(Optional<U> const & rhs)
             noexcept(std::is_nothrow_constructible<T, U const &>::value
                      && std::is_nothrow_assignable<T, U const &>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(rhs); }
+    {
+        if (rhs.hasValue()) {
+            if (this->m_containsValue) {
+                this->m_data = *rhs;
+            } else {
+                emplace(*rhs);
+            }
+        } else {
+            this->reset_();
+        }
+        return *this;
+    }
 #undef SHAREMIND_OPTIONAL_H_COPY_ASSIGN
 
     template <
@@ -478,7 +489,18 @@ public: /* Methods: */
     Optional & operator=(Optional<U> && rhs)
             noexcept(std::is_nothrow_constructible<T, U &&>::value
                      && std::is_nothrow_assignable<T, U &&>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(rhs); }
+    {
+        if (rhs.hasValue()) {
+            if (this->m_containsValue) {
+                this->m_data = *std::move(rhs);
+            } else {
+                emplace(*std::move(rhs));
+            }
+        } else {
+            this->reset_();
+        }
+        return *this;
+    }
 #undef SHAREMIND_OPTIONAL_H_MOVE_ASSIGN
 
     constexpr T const * operator->() const noexcept
-- 
2.43.0


From edf90f47bce703c36439a3eb19d45c62871d407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 48/74] fix: make swap(Optional &, Optional &) usable

---
 src/Optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 8761758..11756a7 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -707,8 +707,10 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
+typename std::enable_if<
+    std::is_move_constructible<T>::value && IsSwappable<T>::value,
+    void
+>::type
 swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
 
 template <typename T>
-- 
2.43.0


From 9656e5d1fb099d4df6e5875717c9ba42153b1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 49/74] fix: copies of an UnorderedMap share their values with
 the original

---
 src/UnorderedMap.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a3cdfba..ec04ff2 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -372,7 +372,7 @@ public: /* Methods: */
         , m_allocator(
             std::allocator_traits<allocator_type>
                 ::select_on_container_copy_construction(copy.m_allocator))
-    {}
+    { cloneValues(m_container, m_allocator); }
 
     UnorderedMap(UnorderedMap && move) = default;
 
@@ -385,7 +385,7 @@ public: /* Methods: */
         , m_pred(copy.m_pred)
         , m_container(copy.m_container)
         , m_allocator(allocator)
-    {}
+    { cloneValues(m_container, m_allocator); }
 
     UnorderedMap(UnorderedMap && move, allocator_type const & allocator)
         : m_hasher(std::move(move.m_hasher))
@@ -400,13 +400,17 @@ public: /* Methods: */
 
     UnorderedMap & operator=(UnorderedMap const & rhs) {
         if (&rhs != this) {
-            m_hasher = rhs.m_hasher;
-            m_pred = rhs.m_pred;
-            m_container = rhs.m_container;
+            allocator_type newAllocator(m_allocator);
             Detail::UnorderedMap::PropagateAllocator<
                         std::allocator_traits<allocator_type>
                             ::propagate_on_container_copy_assignment::value
-                    >::copy(m_allocator, rhs.m_allocator);
+                    >::copy(newAllocator, rhs.m_allocator);
+            InnerContainer newContainer(rhs.m_container);
+            cloneValues(newContainer, newAllocator);
+            m_hasher = rhs.m_hasher;
+            m_pred = rhs.m_pred;
+            m_container = std::move(newContainer);
+            m_allocator = std::move(newAllocator);
         }
         return *this;
     }
@@ -970,6 +974,16 @@ public: /* Methods: */
 
     void reserve(size_type n) { m_container.reserve(n); }
 
+private: /* Methods: */
+
+    /** Replaces values shared with another container with copies of them. */
+    static void cloneValues(InnerContainer & container,
+                            allocator_type const & allocator)
+    {
+        for (auto & v : container)
+            v.second = std::allocate_shared<value_type>(allocator, *v.second);
+    }
+
 private: /* Fields: */
 
     hasher m_hasher;
-- 
2.43.0


From 7a639c3fca20207cfbe90d1ff8495641ce982e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 50/74] fix: make list assignment and hinted insert_or_assign
 of UnorderedMap compile

---
 src/UnorderedMap.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index ec04ff2..4d8720f 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -429,12 +429,13 @@ public: /* Methods: */
     }
 
     UnorderedMap & operator=(std::initializer_list<value_type> values) {
-        InnerContainer newInner;
-        for (auto & v : values)
-            newInner.emplace(std::allocate_shared<value_type>(m_allocator,
-                                                              std::move(v)));
-        newInner.rehash();
-        std::swap(m_container, newInner);
+        UnorderedMap newMap(values,
+                            bucket_count(),
+                            m_hasher,
+                            m_pred,
+                            m_allocator);
+        newMap.max_load_factor(max_load_factor());
+        std::swap(m_container, newMap.m_container);
         return *this;
     }
 
@@ -576,7 +577,7 @@ public: /* Methods: */
     iterator insert_or_assign(const_iterator /* hint */,
                               key_type && k,
                               Value && v)
-    { return insert_or_assign(std::move(k), std::forward<Value>(v)); }
+    { return insert_or_assign(std::move(k), std::forward<Value>(v)).first; }
 
     iterator erase(const_iterator position)
     { return iterator(m_container.erase(position.base())); }
-- 
2.43.0


From 24d653744f2dfb1c964d3731d59256b3f18db1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 51/74] fix: do not treat strings with embedded null characters
 as equal to their prefix

---
 src/StringHasher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index b6a9d09..8d9689b 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <cstddef>
-#include <cstring>
 #include <iterator>
 #include <string>
 #include <utility>
@@ -111,11 +110,11 @@ struct StringHasher {
 
         bool operator()(char const * const a, std::string const & b)
                 const noexcept
-        { return std::strcmp(a, b.c_str()) == 0; }
+        { return a == b; }
 
         bool operator()(std::string const & a, char const * const b)
                 const noexcept
-        { return std::strcmp(a.c_str(), b) == 0; }
+        { return a == b; }
 
     };
 
-- 
2.43.0


From cd085e6b3b36290c68abcd67e1f64d2abbf32ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 52/74] fix: publish the elements of
 MpscWaitFreeSemiIntrusiveQueue to the consumer

---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From 07e9e724bf3ac19f26aaac57a185c54108f43549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 53/74] fix: let timed participants of a thread pool return by
 their deadline

---
 src/ThreadPool.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..81de186 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -211,7 +211,7 @@ private: /* Methods: */
     {}
 
     Task waitAndPop() noexcept {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::lock_guard<decltype(m_headMutex)> const headGuard(m_headMutex);
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -238,7 +238,10 @@ private: /* Methods: */
     std::pair<Task, Status> waitAndPop(
             std::chrono::time_point<Clock, Duration> const & timepoint) noexcept
     {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::unique_lock<decltype(m_headMutex)> const headGuard(m_headMutex,
+                                                                timepoint);
+        if (!headGuard.owns_lock()) // Another thread is waiting for a task
+            return {Task(), Timeout};
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -271,7 +274,7 @@ private: /* Methods: */
 
 private: /* Fields: */
 
-    std::mutex m_headMutex;
+    std::timed_mutex m_headMutex;
     mutable TicketSpinLock m_tailMutex;
     std::condition_variable_any m_dataCond;
     TaskWrapper * m_tail;
-- 
2.43.0


From ae3d0620b69cadd06f3f804923ab937344f07ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 54/74] fix: allocate the shared state of a Strand with the
 alignment it requires

---
 src/Strand.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Strand.h b/src/Strand.h
index 6cb3b2c..4ce8717 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -25,6 +25,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include "AlignedAllocator.h"
 #include "CallStack.h"
 #include "StrongType.h"
 #include "ThreadPool.h"
@@ -160,7 +161,9 @@ private: /* Types: */
 public: /* Methods: */
 
     Strand(std::shared_ptr<ThreadPool> threadPool)
-        : m_internal(std::make_shared<Internal>(std::move(threadPool)))
+        : m_internal(
+            std::allocate_shared<Internal>(AlignedAllocator<Internal>(),
+                                           std::move(threadPool)))
     {
         std::weak_ptr<Internal> weakInternal(m_internal);
         m_internal->m_sliceTask =
-- 
2.43.0


From 52dd07ce859a971e2009e679a187445aea75ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 55/74] fix: make reversed ranges of arrays usable as sized
 ranges

---
 src/ReversedRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 2d5afba..25b6263 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -25,6 +25,7 @@
 #include "Iterator.h"
 #include "Range.h"
 #include "RemoveCvref.h"
+#include "Size.h"
 
 
 namespace sharemind {
@@ -139,7 +140,7 @@ struct RangeReversionWrapperImpl { SHAREMIND_REVERSEDRANGE_H_ };
 template <typename T>
 struct RangeReversionWrapperImpl<T, true> {
     SHAREMIND_REVERSEDRANGE_H_
-    auto size() const { return this->m_range.size(); }
+    auto size() const { return sharemind::size(this->m_range); }
 };
 #undef SHAREMIND_REVERSEDRANGE_H_
 
-- 
2.43.0


From f44d2766022286f11ae079fb78a7a6e136fc0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 56/74] fix: do not abort when reading a file into a Datum
 fails or is interrupted

---
 src/Datum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..4780257 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,7 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
+                    assert(read < 0 || static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
-- 
2.43.0


From 60c9365924e0b9d2422e45e7ddf8aabc995194ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 57/74] fix: do not index past the end of the container of a
 Datum

---
 src/Datum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4780257..589c378 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -113,20 +113,20 @@ public: /* Methods: */
         m_data.resize(size);
         std::copy(static_cast<char const *>(data),
                   static_cast<char const *>(data) + size,
-                  &m_data[0]);
+                  m_data.data());
     }
 
     HashValue hash() const noexcept
-    { return hashRawData(&m_data[0u], m_data.size()); }
+    { return hashRawData(m_data.data(), m_data.size()); }
 
     void clear() noexcept { m_data.clear(); }
     bool empty() const noexcept { return m_data.empty(); }
     size_type size() const noexcept { return m_data.size(); }
-    void * data() noexcept { return &m_data[0u]; }
-    void * dataEnd() noexcept { return &*m_data.end(); }
-    void const * constData() const noexcept { return &m_data[0u]; }
+    void * data() noexcept { return m_data.data(); }
+    void * dataEnd() noexcept { return m_data.data() + m_data.size(); }
+    void const * constData() const noexcept { return m_data.data(); }
     void const * constDataEnd() const noexcept
-    { return &*m_data.end(); }
+    { return m_data.data() + m_data.size(); }
 
 private: /* Methods: */
 
-- 
2.43.0


From 0ccae1f6ced72422f5c7b6c3451172d63dd4ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 58/74] fix: let empty network messages be read

---
 src/NetworkMessage.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..fc347ee 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -238,21 +238,23 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < size)
         return false;
 
-    std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
-    m_offset += size;
+    if (size > 0u) {
+        std::memcpy(buffer, ptrAdd(this->data, m_offset), size);
+        m_offset += size;
+    }
     return true;
 }
 
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -267,7 +269,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -298,7 +300,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -365,7 +367,7 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     using S = decltype(sizeof(T) * size);
@@ -377,8 +379,10 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
     if (getRemainingSize() < sizeInBytes)
         return false;
 
-    std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
-    m_offset += sizeInBytes;
+    if (sizeInBytes > 0u) {
+        std::memcpy(data, ptrAdd(this->data, m_offset), sizeInBytes);
+        m_offset += sizeInBytes;
+    }
     return true;
 }
 
-- 
2.43.0


From a8abfeaf76b4dac14e2da532f5e6265e2da06370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 59/74] fix: do not write non-const strings and messages as raw
 objects

---
 src/NetworkMessage.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index fc347ee..dfb1a29 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -138,6 +138,19 @@ public: /* Methods: */
 
 class OutgoingNetworkMessage: public SeekableNetworkMessage {
 
+private: /* Types: */
+
+    /* Strings and messages are written by their own overloads, even if not
+       const: */
+    template <typename T>
+    using WrittenAsBytes =
+            std::integral_constant<
+                bool,
+                !std::is_same<T, char *>::value
+                && !std::is_base_of<std::string, T>::value
+                && !std::is_base_of<NetworkMessage, T>::value
+            >;
+
 public: /* Methods: */
 
     OutgoingNetworkMessage(OutgoingNetworkMessage const &) = delete;
@@ -155,7 +168,14 @@ public: /* Methods: */
     inline void write(std::string const & val) noexcept(false);
     inline void write(NetworkMessage const & val) noexcept(false);
 
-    template<typename T>
+    template<typename T,
+             typename = typename std::enable_if<
+                    WrittenAsBytes<
+                        typename std::remove_cv<
+                            typename std::remove_reference<T>::type
+                        >::type
+                    >::value
+                >::type>
     inline void write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
@@ -412,7 +432,7 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
         noexcept(false)
 { writeBytes(message.data, message.size); }
 
-template <typename T>
+template <typename T, typename>
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
-- 
2.43.0


From 97b46f2d2433a33bf90ffe4e6dee5b8fa1e38b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 60/74] fix: make input memory streams of other characters than
 char compile

---
 src/InputMemoryStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputMemoryStream.h b/src/InputMemoryStream.h
index c2730b8..bbd1dd6 100644
--- a/src/InputMemoryStream.h
+++ b/src/InputMemoryStream.h
@@ -51,7 +51,7 @@ public: /* Methods: */
 
     BasicInputMemoryStream(CharT const * data, std::size_t size)
         : Detail::BasicMemoryBuffer<CharT, Traits>(data, size)
-        , std::istream(
+        , std::basic_istream<CharT, Traits>(
               static_cast<Detail::BasicMemoryBuffer<CharT, Traits> *>(this))
     {}
 
-- 
2.43.0


From 233bfcb5a21ea5f797411bd0953525ac517cf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 61/74] fix: let verbosePrintException() print exceptions with
 nothing nested

---
 src/DebugVerboseHandlers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DebugVerboseHandlers.h b/src/DebugVerboseHandlers.h
index 6336e3e..39074b8 100644
--- a/src/DebugVerboseHandlers.h
+++ b/src/DebugVerboseHandlers.h
@@ -50,7 +50,8 @@ inline void verbosePrintException(std::exception_ptr e,
             if (!ne)
                 return;
             e = ne->nested_ptr();
-            assert(e);
+            if (!e) // Nothing was nested
+                return;
         } catch (...) {
             oss << n << ": [" SHAREMIND_T "]" << std::endl
                 << "... unable to continue printing nested exceptions, if any "
-- 
2.43.0


From 1d307525d543bfce50d80fa113f40bfeee55f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 62/74] fix: print string views also with a negative width

---
 src/StringView.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StringView.h b/src/StringView.h
index 09e02df..282f911 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -128,6 +128,8 @@ class BasicStringView {
                         }
 
                     }
+                } else { // As for strings, negative widths do not pad
+                    Detail::StringView::doOut(os, v.m_start, v.m_size);
                 }
                 os.width(0);
             }
-- 
2.43.0


From bd4052a338cdec858238eba850c6ddabbd30c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 63/74] Revert "fix: print string views also with a negative
 width"

This reverts commit 1d307525d543bfce50d80fa113f40bfeee55f993.
---
 src/StringView.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 282f911..09e02df 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -128,8 +128,6 @@ class BasicStringView {
                         }
 
                     }
-                } else { // As for strings, negative widths do not pad
-                    Detail::StringView::doOut(os, v.m_start, v.m_size);
                 }
                 os.width(0);
             }
-- 
2.43.0


From 759afa0cc914e5f2e8fb018169aae43c61ca1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 64/74] fix: leave the position in network messages unchanged
 when a size read does not fit

---
 src/NetworkMessage.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index dfb1a29..a945794 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -348,12 +348,16 @@ template <typename SerializedSizeType,
 inline bool IncomingNetworkMessage::readSize(SizeType & size)
         noexcept(false)
 {
+    std::size_t const rollbackOffset = m_offset;
+
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -370,12 +374,16 @@ inline bool IncomingNetworkMessage::readSize(
     static_assert(std::is_unsigned<SerializedSizeType>::value, "");
     static_assert(std::is_unsigned<SizeType>::value, "");
 
+    std::size_t const rollbackOffset = m_offset;
+
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From 8301975be7ebc4a4b85c07673d5ee04b6863039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:12 +0000
Subject: [PATCH 65/74] fix: do not deadlock when a SharedResourceMap runs out
 of memory for a handle

---
 src/SharedResourceMap.h | 61 +++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 82f3129..0c314f9 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -116,6 +116,32 @@ private: /* Types: */
         Map_ m_data;
     };
 
+    struct Handle_ {
+
+    /* Methods: */
+
+        ~Handle_() noexcept {
+            if (!valueObj)
+                return;
+            if (auto cPtr = valueObj->container.lock()) {
+                Inner & c = *static_cast<Inner *>(cPtr.get());
+                std::lock_guard<std::mutex> const guard(c.m_mutex);
+                auto const it = c.m_data.find(valueObj->key);
+                valueObj.reset();
+                // Erase if no other handle (or its deleter) remains:
+                if ((it != c.m_data.end()) && (it->second.use_count() == 1)) {
+                    c.m_data.erase(it);
+                    c.m_cond.notify_all();
+                }
+            }
+        }
+
+    /* Fields: */
+
+        std::shared_ptr<ValueObj_> valueObj;
+
+    };
+
 public: /* Types: */
 
     using type = SharedResourceMap<Key, Value>;
@@ -161,30 +187,17 @@ public: /* Methods: */
             Constructor && constructor,
             Args && ... args)
     {
-        static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
-        {
-            std::shared_ptr<Value> r(
-                valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
-                        Inner & c = *static_cast<Inner *>(cPtr.get());
-                        std::lock_guard<std::mutex> const guard(c.m_mutex);
-                        auto const it = c.m_data.find(valueObj->key);
-                        valueObj.reset();
-                        // Erase if no other handle (or its deleter) remains:
-                        if ((it != c.m_data.end())
-                            && (it->second.use_count() == 1))
-                        {
-                            c.m_data.erase(it);
-                            c.m_cond.notify_all();
-                        }
-                    } else {
-                        valueObj.reset();
-                    }
-                });
-            valueObj->weakPtr = r;
-            return r;
-        };
+        static auto const createShared =
+                [](std::shared_ptr<ValueObj_> const & valueObj)
+                {
+                    // Might throw, in which case nothing must be released:
+                    auto handle(std::make_shared<Handle_>());
+                    handle->valueObj = valueObj;
+                    std::shared_ptr<Value> r(handle,
+                                             valueObj->realPtr.get());
+                    valueObj->weakPtr = r;
+                    return r;
+                };
 
         std::lock_guard<std::mutex> const guard(m_inner->m_mutex);
         auto it = m_inner->m_data.find(key);
-- 
2.43.0


From b4c15ce3f22f43ecdf7650dcec6e40bcf2c6ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 66/74] fix: do not leak when creating a thread pool or a task
 runs out of memory

---
 src/ThreadPool.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 81de186..8596333 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -144,7 +144,7 @@ public: /* Methods: */
 
 protected: /* Methods: */
 
-    ThreadPool() : ThreadPool(new TaskWrapper(nullptr)) {}
+    ThreadPool() : ThreadPool(Task(new TaskWrapper(nullptr))) {}
 
     void workerThread() {
         while (Task task = waitAndPop()) {
@@ -205,9 +205,9 @@ protected: /* Methods: */
 
 private: /* Methods: */
 
-    ThreadPool(TaskWrapper * const emptyTaskWrapper)
-        : m_tail(emptyTaskWrapper)
-        , m_head(emptyTaskWrapper)
+    ThreadPool(Task emptyTaskWrapper)
+        : m_tail(emptyTaskWrapper.get())
+        , m_head(std::move(emptyTaskWrapper))
     {}
 
     Task waitAndPop() noexcept {
@@ -269,7 +269,8 @@ private: /* Methods: */
     template <typename TaskSubclass>
     static Task createTask_(TaskSubclass * const task) {
         assert(task);
-        return Task(new TaskWrapper(std::unique_ptr<TaskBase>(task)));
+        std::unique_ptr<TaskBase> taskPtr(task);
+        return Task(new TaskWrapper(std::move(taskPtr)));
     }
 
 private: /* Fields: */
-- 
2.43.0


From e4ac58b6d9d2292d88be8229c7b5756edfcb8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:09 +0000
Subject: [PATCH 67/74] fix: leave a bit vector as it was when appending to it
 runs out of memory

---
 src/BitVector.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index d9a0787..4ee8d22 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -291,21 +291,22 @@ public: /* Methods: */
         const size_type new_blocks =
                 compute_block_count (m_num_bits + other_bits);
         const block_type r = m_num_bits % bits_per_block();
+        size_type pos = num_blocks_ ();
+        m_blocks.resize (new_blocks); // May throw, leaving everything as it was
         if (r == 0) {
             for (size_type i = 0; i < other_blocks; ++ i) {
-                const block_type b = other.m_blocks[i];
-                m_blocks.push_back (b);
+                m_blocks[pos + i] = other.m_blocks[i];
             }
         }
         else {
             assert (! empty ());
             assert (! m_blocks.empty ());
             const block_type mask = bit_mask (m_num_bits) - 1;
-            for (size_type i = 0; i < other_blocks; ++ i) {
+            for (size_type i = 0; i < other_blocks; ++ i, ++ pos) {
                 const block_type b = other.m_blocks[i];
-                m_blocks.back () = (m_blocks.back () & mask) | (b << r);
-                if (m_blocks.size () < new_blocks) {
-                    m_blocks.push_back (b >> (bits_per_block() - r));
+                m_blocks[pos - 1] = (m_blocks[pos - 1] & mask) | (b << r);
+                if (pos < new_blocks) {
+                    m_blocks[pos] = b >> (bits_per_block() - r);
                 }
             }
         }
-- 
2.43.0


From a62c5a9551df866586a79f84249da10a32755fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 68/74] fix: do not wait for ever for a strand whose thread
 pool was stopped

---
 src/Strand.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Strand.h b/src/Strand.h
index 4ce8717..204a9cc 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -85,8 +85,9 @@ private: /* Types: */
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
             gcThreadPool = std::move(m_threadPool);
             assert(!m_threadPool);
-            m_joinCond.wait(tailLock,
-                            [this]() noexcept { return m_sliceTask.get(); });
+            /* A slice still waiting in the thread pool does nothing once we have
+               stopped. Don't wait for it, the pool might never run it. */
+            m_joinCond.wait(tailLock, [this]() noexcept { return !m_running; });
             return gcThreadPool;
         }
 
@@ -124,6 +125,7 @@ private: /* Types: */
                     assert(m_head.get() != m_tail);
                     assert(m_head->m_value);
                     assert(m_head->m_next);
+                    m_running = true;
                     task = std::move(m_head);
                     m_head = std::move(task->m_next);
                 }
@@ -136,6 +138,7 @@ private: /* Types: */
             }
 
             std::lock_guard<decltype(m_tailMutex)> tailGuard(m_tailMutex);
+            m_running = false;
             if (m_threadPool && (m_head.get() != m_tail)) {
                 m_threadPool->submit(std::move(sliceTask));
             } else {
@@ -155,6 +158,7 @@ private: /* Types: */
         ThreadPool::Task m_head{new ThreadPool::TaskWrapper(nullptr)};
         ThreadPool::TaskWrapper * m_tail{m_head.get()};
         ThreadPool::Task m_sliceTask;
+        bool m_running = false;
 
     };
 
-- 
2.43.0


From 5f2e4ddc889ce866381faaec7780974dba50ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:00 +0000
Subject: [PATCH 69/74] fix: do not deadlock when visiting shared resources
 runs out of memory

---
 src/SharedResourceMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 0c314f9..e15a516 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -83,6 +83,7 @@ private: /* Types: */
             // The deleters lock m_mutex, hence release these only after unlock:
             std::vector<std::shared_ptr<Value> > ptrs;
             std::unique_lock<std::mutex> lock(m_mutex);
+            ptrs.reserve(m_data.size()); // Nothing below may throw but f
             for (auto const & v : m_data)
                 if (auto ptr = v.second->weakPtr.lock()) {
                     ptrs.emplace_back(ptr);
-- 
2.43.0


From 6605ee191419df733246da80b9d6b3ce18463b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:34 +0000
Subject: [PATCH 70/74] fix: destroy the unrun tasks of a thread pool without
 recursion

---
 src/ThreadPool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 8596333..ea0c346 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -95,7 +95,11 @@ public: /* Methods: */
     ThreadPool & operator=(ThreadPool &&) = delete;
     ThreadPool & operator=(ThreadPool const &) = delete;
 
-    virtual ~ThreadPool() noexcept {}
+    virtual ~ThreadPool() noexcept {
+        // Not recursively, because any number of tasks might still be queued:
+        while (m_head)
+            m_head = std::move(m_head->m_next);
+    }
 
     template <typename F>
     static Task createTask(F && f) {
-- 
2.43.0


From a641c7971e853ece8ea70ed43c983079b958ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:42 +0000
Subject: [PATCH 71/74] fix: destroy the unrun jobs of a strand without
 recursion

---
 src/Strand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Strand.h b/src/Strand.h
index 204a9cc..fbee766 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -65,6 +65,12 @@ private: /* Types: */
             : m_threadPool(std::move(threadPool))
         {}
 
+        ~Internal() noexcept {
+            // Not recursively, because any number of tasks might still be queued:
+            while (m_head)
+                m_head = std::move(m_head->m_next);
+        }
+
         void submit(ThreadPool::Task && task) noexcept {
             assert(task);
             assert(task->m_value);
-- 
2.43.0


From 765056234d313fb8349cdbc4be59c49575143526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 72/74] fix: keep a copy of named functions in handlers made by
 EventLoop::createHandler

---
 src/EventLoop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index fca714d..a386551 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -14,6 +14,7 @@
 #include <memory>
 #include <mutex>
 #include <thread>
+#include <type_traits>
 #include "detail/ExceptionMacros.h"
 #include "Exception.h"
 #include "Posix.h"
@@ -226,7 +227,7 @@ public: /* Methods: */
                     noexcept final override
             { m_f(events); }
 
-            F m_f;
+            typename std::decay<F>::type m_f;
         };
         return std::unique_ptr<EventHandler>(
                     new TempHandler(std::forward<F>(f)));
-- 
2.43.0


From ae336c491bbc9de87970054154a188a5a9c85616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 73/74] fix: construct bit vectors from single-pass iterators

---
 src/BitVector.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 4ee8d22..8ff24bf 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -167,11 +167,10 @@ public: /* Methods: */
     template <typename InputIterator>
     BitVec (InputIterator begin, InputIterator end, const Alloc& alloc = Alloc ())
         : m_blocks (alloc)
-        , m_num_bits (std::distance (begin, end))
+        , m_num_bits (0)
     {
-        const size_type num_blocks = compute_block_count (m_num_bits);
-        m_blocks.resize (num_blocks);
-        assign (begin, end);
+        typename std::iterator_traits<InputIterator>::iterator_category category;
+        init_ (begin, end, category);
     }
 
     ~BitVec () {
@@ -402,6 +401,20 @@ private: /* Methods: */
 
     size_type num_blocks_() const { return m_blocks.size (); }
 
+    template <typename InputIterator>
+    void init_ (InputIterator begin, InputIterator end, std::input_iterator_tag) {
+        // Single-pass iterators can not be used to find the distance beforehand:
+        for (; begin != end; ++ begin) {
+            push_back (static_cast<bool> (*begin));
+        }
+    }
+
+    template <typename InputIterator>
+    void init_ (InputIterator begin, InputIterator end, std::forward_iterator_tag) {
+        resize (std::distance (begin, end));
+        assign (begin, end);
+    }
+
     template <typename InputIterator>
     void assign_ (InputIterator begin, InputIterator end, std::input_iterator_tag) {
         std::vector<typename std::iterator_traits<InputIterator>::value_type > temp (begin, end);
-- 
2.43.0


From edf1e63cc5758643edfaedd821808ebbf820b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:40 +0000
Subject: [PATCH 74/74] fix: Allow writing parts of a network message to itself

---
 src/NetworkMessage.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index a945794..f4d7846 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -15,6 +15,8 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <functional>
+#include <functional>
 #include <limits>
 #include <new>
 #include <sharemind/EndianMacros.h>
@@ -198,7 +200,9 @@ private: /* Methods: */
     std::size_t spaceLeft() const noexcept
     { return std::numeric_limits<std::size_t>::max() - m_offset; }
 
-    inline void addBytes(std::size_t const bytes) noexcept(false);
+    /** \returns the given source, or where it is now, if it is a part of this. */
+    inline void const * addBytes(std::size_t const bytes, void const * source)
+            noexcept(false);
     inline void pokeBytes(void const * data, std::size_t const bytes) noexcept;
 
 }; /* class OutgoingNetworkMessage { */
@@ -464,8 +468,8 @@ inline void OutgoingNetworkMessage::writeArray(T const * data, SizeType size)
     if (spaceLeft() / sizeof(T) < size)
         throw MessageLengthError();
     auto const arraySizeInBytes(size * sizeof(T));
-    addBytes(arraySizeInBytes);
-    pokeBytes(data, arraySizeInBytes);
+    auto const source = addBytes(arraySizeInBytes, data);
+    pokeBytes(source, arraySizeInBytes);
 }
 
 template <typename SerializedSizeType, typename T, typename SizeType>
@@ -489,11 +493,12 @@ inline void OutgoingNetworkMessage::writeSizeAndArray(T const * data,
     }
     auto const arraySizeInBytes(size * sizeof(T));
 
-    addBytes(sizeof(SerializedSizeType) + arraySizeInBytes);
+    auto const source =
+            addBytes(sizeof(SerializedSizeType) + arraySizeInBytes, data);
     SerializedSizeType const serializedSize(
                 hostToSharemindNetOrder(static_cast<SerializedSizeType>(size)));
     pokeBytes(&serializedSize, sizeof(serializedSize));
-    pokeBytes(data, arraySizeInBytes);
+    pokeBytes(source, arraySizeInBytes);
 }
 
 inline void OutgoingNetworkMessage::writeBytes(void const * data,
@@ -505,17 +510,27 @@ inline void OutgoingNetworkMessage::writeBytes(void const * data,
     if (bytes > spaceLeft())
         throw MessageLengthError{};
 
-    addBytes(bytes);
-    pokeBytes(data, bytes);
+    auto const source = addBytes(bytes, data);
+    pokeBytes(source, bytes);
 }
 
-inline void OutgoingNetworkMessage::addBytes(std::size_t const bytes)
+inline void const * OutgoingNetworkMessage::addBytes(std::size_t const bytes,
+                                                     void const * source)
         noexcept(false)
 {
     assert(bytes > 0u);
     assert(bytes <= std::numeric_limits<std::size_t>::max() - m_offset);
     assert(this->size == m_offset); // All data previously poked
 
+    // Reallocation invalidates source if it is a part of this message:
+    std::less<void const *> const less{};
+    bool const sourceIsInternal =
+            this->data
+            && !less(source, this->data)
+            && less(source, ptrAdd(this->data, this->size));
+    auto const sourceOffset =
+            sourceIsInternal ? ptrDist(this->data, source) : 0;
+
     std::size_t const newSize = this->size + bytes;
     void * const newData = std::realloc(const_cast<void *>(this->data), newSize);
     if (!newData)
@@ -523,6 +538,7 @@ inline void OutgoingNetworkMessage::addBytes(std::size_t const bytes)
 
     this->data = newData;
     this->size = newSize;
+    return sourceIsInternal ? ptrAdd(this->data, sourceOffset) : source;
 }
 
 inline void OutgoingNetworkMessage::pokeBytes(void const * data,
-- 
2.43.0

