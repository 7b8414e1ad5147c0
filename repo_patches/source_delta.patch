From d75ea4f110244d198a02e3ef95c6a2c9c670b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 1/7] fix: return early from sha2_base::update when n == 0

All other hash algorithms do this; without it update( nullptr, 0 ) after a
partial block calls memcpy with a null source.
---
 include/boost/hash2/sha2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..a2c9d6d 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -54,6 +54,8 @@ struct sha2_base
 
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From d7696bf9a161e4943e20e978ea411bdec04a3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 2/7] fix: avoid signed overflow in get_integral_result 2 -> 1
 contraction

uint16_t * uint16_t is promoted to int, and 0xFFFF * 0xBF01 overflows it.
---
 include/boost/hash2/get_integral_result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..ebdbfd1 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -31,10 +31,10 @@ template<class U, class R>
 
 // 2 -> 1
 template<class U, class R>
-    constexpr typename std::enable_if<sizeof(R) == 2 && sizeof(U) == 1, R>::type
+    constexpr typename std::enable_if<sizeof(R) == 2 && sizeof(U) == 1, unsigned>::type
     get_result_multiplier()
 {
-    return 0xBF01;
+    return 0xBF01u;
 }
 
 // 4 -> 1
-- 
2.43.0


From 431e4247e5dfd58363647fb91a50b964d07dc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 3/7] fix: make get_integral_result constexpr and noexcept, as
 documented

This also makes hash_append_unordered_range usable in constant expressions.
---
 include/boost/hash2/get_integral_result.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index ebdbfd1..8703c86 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -6,6 +6,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #include <boost/hash2/detail/read.hpp>
+#include <boost/config.hpp>
 #include <type_traits>
 #include <limits>
 #include <cstddef>
@@ -132,8 +133,8 @@ template<class U, class R>
 // contraction
 
 template<class T, class R>
-    typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -150,8 +151,8 @@ template<class T, class R>
 // identity or expansion
 
 template<class T, class R>
-    typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -168,8 +169,8 @@ template<class T, class R>
 // array-like R
 
 template<class T, class R>
-    typename std::enable_if< !std::is_integral<R>::value, T >::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if< !std::is_integral<R>::value, T >::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
-- 
2.43.0


From a1c5b1a4bee0f8edf0296a592bbb70b92fe7a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 4/7] fix: hash the value type, not the proxy, in sized and
 unordered ranges

hash_append_range already does this.
---
 include/boost/hash2/hash_append.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index aacf57d..9014e17 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -123,7 +123,8 @@ template<class Hash, class Flavor, class It> void BOOST_CXX14_CONSTEXPR hash_app
 
     for( ; first != last; ++first, ++m )
     {
-        hash2::hash_append( h, f, *first );
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h, f, v );
     }
 
     hash2::hash_append_size( h, f, m );
@@ -153,7 +154,8 @@ template<class Hash, class Flavor = default_flavor, class It> BOOST_CXX14_CONSTE
     for( ; first != last; ++first, ++m )
     {
         Hash h2( h );
-        hash2::hash_append( h2, f, *first );
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h2, f, v );
 
         w += hash2::get_integral_result<std::uint64_t>( h2.result() );
     }
-- 
2.43.0


From 939f91cf53deb717791737ba4a4ec2f3ab55ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 5/7] fix: use a 64 bit message length in xxhash_32

With std::size_t, hosts with a 32 bit size_t wrap the length of messages of
4 GB or more, and then take the short message branch in result().
---
 include/boost/hash2/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/xxhash.hpp b/include/boost/hash2/xxhash.hpp
index 263314c..08b2bb6 100644
--- a/include/boost/hash2/xxhash.hpp
+++ b/include/boost/hash2/xxhash.hpp
@@ -47,7 +47,7 @@ private:
     unsigned char buffer_[ 16 ] = {};
     std::size_t m_ = 0; // == n_ % 16
 
-    std::size_t n_ = 0;
+    std::uint64_t n_ = 0;
 
 private:
 
-- 
2.43.0


From 65a236391020737c71c9bf562c31da9912739c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 6/7] fix: apply the documented precedence when a type fits
 several categories

---
 include/boost/hash2/hash_append.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index 9014e17..fec6531 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -192,7 +192,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< std::is_enum<T>::value, void >::type
+    typename std::enable_if< std::is_enum<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append( h, f, static_cast<typename std::underlying_type<T>::type>( v ) );
@@ -247,7 +247,7 @@ template<class Hash, class Flavor, class T, std::size_t N> BOOST_CXX14_CONSTEXPR
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_contiguous_range<T>::value && !has_constant_size<T>::value, void >::type
+    typename std::enable_if< container_hash::is_contiguous_range<T>::value && !has_constant_size<T>::value && !container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append_range( h, f, v.data(), v.data() + v.size() );
@@ -258,7 +258,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_range<T>::value && !has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value && !container_hash::is_unordered_range<T>::value, void >::type
+    typename std::enable_if< container_hash::is_range<T>::value && !has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value && !container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append_sized_range( h, f, v.begin(), v.end() );
@@ -273,7 +273,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_contiguous_range<T>::value && has_constant_size<T>::value, void >::type
+    typename std::enable_if< container_hash::is_contiguous_range<T>::value && has_constant_size<T>::value && !container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     if( v.size() == 0 )
@@ -292,7 +292,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_range<T>::value && has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value, void >::type
+    typename std::enable_if< container_hash::is_range<T>::value && has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value && !container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     if( v.begin() == v.end() )
@@ -314,7 +314,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_unordered_range<T>::value, void >::type
+    typename std::enable_if< container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append_unordered_range( h, f, v.begin(), v.end() );
@@ -337,7 +337,7 @@ template<class Hash, class Flavor, class T> BOOST_CXX14_CONSTEXPR void hash_appe
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< !container_hash::is_range<T>::value && container_hash::is_tuple_like<T>::value, void >::type
+    typename std::enable_if< !container_hash::is_range<T>::value && container_hash::is_tuple_like<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     using Seq = mp11::make_index_sequence<std::tuple_size<T>::value>;
@@ -355,7 +355,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_described_class<T>::value, void >::type
+    typename std::enable_if< container_hash::is_described_class<T>::value && !container_hash::is_range<T>::value && !container_hash::is_tuple_like<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     static_assert( !std::is_union<T>::value, "Described unions are not supported" );
-- 
2.43.0


From ac2a6d1054e7d715f3bd41cb3b680c66897bc39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:15 +0000
Subject: [PATCH 7/7] fix: use a 64 bit message length in murmur3_128 and
 spooky2_128

With std::size_t, hosts with a 32 bit size_t wrap the length of messages of
4 GB or more: murmur3_128 then mixes in a truncated length, and spooky2_128
takes the short message branch in result().
---
 include/boost/hash2/legacy/murmur3.hpp | 2 +-
 include/boost/hash2/legacy/spooky2.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/hash2/legacy/murmur3.hpp b/include/boost/hash2/legacy/murmur3.hpp
index d04899a..34b0606 100644
--- a/include/boost/hash2/legacy/murmur3.hpp
+++ b/include/boost/hash2/legacy/murmur3.hpp
@@ -221,7 +221,7 @@ private:
     unsigned char buffer_[ 16 ];
     std::size_t m_; // == n_ % 16
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
diff --git a/include/boost/hash2/legacy/spooky2.hpp b/include/boost/hash2/legacy/spooky2.hpp
index 6d76c7f..e9b08e7 100644
--- a/include/boost/hash2/legacy/spooky2.hpp
+++ b/include/boost/hash2/legacy/spooky2.hpp
@@ -37,7 +37,7 @@ private:
 
     std::size_t m_; // == n_ % N
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
@@ -339,7 +339,7 @@ public:
 
         if( n_ < N )
         {
-            short_hash( buffer_, n_, h0, h1 );
+            short_hash( buffer_, static_cast<std::size_t>( n_ ), h0, h1 );
         }
         else
         {
@@ -390,7 +390,7 @@ public:
 
         if( n_ < N )
         {
-            n_ = 0; // in case of overflow (N does not divide 2^32)
+            n_ = 0; // in case of overflow (N does not divide 2^64)
         }
 
         // clear buffered plaintext
-- 
2.43.0

