From 065693e0a1d289de0c4a8eef70626253953af983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 01/30] fix: matrix negation negates the matrix instead of the
 default matrix

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..6accd7f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1217,7 +1217,7 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
+    Matrix< M, N, T > result( *this );
     result *= -1.0;
     return result;
 }
-- 
2.43.0


From 9405473c8e68f3f2bad11cfb6f7bfa6045ee2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 02/30] fix: get_max of a matrix without positive elements

---
 vmmlib/matrix.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6accd7f..3a272a1 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2353,10 +2353,9 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
-
     const_iterator  it = begin(),
     it_end = end();
+    T max_value = *it;
     for( ; it != it_end; ++it)
     {
         if ( *it > max_value ) {
-- 
2.43.0


From 76381fa7c89583cf2553c72a89602d0cb86c466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 03/30] fix: tensor product for non-square matrices

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3a272a1..f43a89c 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1230,8 +1230,8 @@ Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-            at( row_index, col_index ) = u.array[ col_index ] *
-                                         v.array[ row_index ];
+            at( row_index, col_index ) = u.array[ row_index ] *
+                                         v.array[ col_index ];
 }
 
 
-- 
2.43.0


From 8c22381054ab34c0c8fa78ef7abc458ef2b6844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 04/30] fix: convolution of non-square matrices and kernels

---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index f43a89c..87ce7ab 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -529,27 +529,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = y_ - U/2 + j;
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = x_ - V/2 + i;
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From 79abf776bcf78ce5a2238f5a193e4894ff817230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 05/30] fix: multiplying a matrix in place with itself

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 87ce7ab..023bb3d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1082,8 +1082,9 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    const Matrix< M, N, T > left( *this );
+    const Matrix< O, P, TT > copy( right ); // right may be *this
+    multiply( left, copy );
     return 0;
 }
 
-- 
2.43.0


From 4c216d97c8397a0c23817beb1656e06f0a25c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 06/30] fix: row index equal to the row count is out of bounds

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 023bb3d..8cc9283 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From 1b7af9ea81c5136c6df299a837dc1735b053a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 07/30] fix: column-major set does not read past the end of the
 given sequence

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 8cc9283..d0b6738 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1505,7 +1505,8 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator dst = begin(); dst != end() && it != end_; ++dst, ++it )
+            *dst = static_cast< T >( *it );
     }
 }
 
-- 
2.43.0


From 56b03584852892cb72b1033d9e6bb9a694d8bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 08/30] fix: 2x2 inversion refuses singular matrices for a zero
 tolerance

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d0b6738..4d2ba24 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -667,7 +667,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From e61a3397c92202624d3162e9dbea5df44f9d5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 09/30] fix: p-norm of matrices with negative elements

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 4d2ba24..1cf5fb2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2270,7 +2270,7 @@ Matrix< M, N, T >::p_norm( double p ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += std::pow(*it, p);
+        norm += std::pow(std::abs(double(*it)), p);
     }
 
     return std::pow(norm,1./p);
-- 
2.43.0


From 6821672306d1e345708a5b800735e4c2bac3eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 10/30] fix: reject sub-matrices that do not fit before writing
 any element

---
 vmmlib/matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 1cf5fb2..618ab66 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1670,6 +1670,11 @@ Matrix< M, N, T >::
 set_sub_matrix( const Matrix< O, P, T >& sub_matrix,
     size_t row_offset, size_t col_offset )
 {
+    #ifdef VMMLIB_SAFE_ACCESSORS
+    if ( row_offset > M - O || col_offset > N - P )
+        VMMLIB_ERROR( "index out of bounds.", VMMLIB_HERE );
+    #endif
+
     for( size_t row = 0; row < O; ++row )
     {
         for( size_t col = 0; col < P; ++col )
-- 
2.43.0


From 7142d2eca7bb7ac1b818f45fa28a9c6c4cf9b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 11/30] fix: find_abs_max_index returns the index of the
 largest magnitude

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..e9f57ea 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1497,7 +1497,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From 0399b1aa24df4938e21baf039d48cab5d30cd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 12/30] fix: scale_to maps the given minimum to zero for
 asymmetric ranges

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index e9f57ea..9e8b26a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1444,13 +1444,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T half_range  = range * 0.5;
     T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) + half_range ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From 56c605459162bb7628357a6e621443e51eacd12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 13/30] fix: vector and matrix reverse iterators

---
 vmmlib/matrix.hpp | 8 ++++----
 vmmlib/vector.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 618ab66..38678f0 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2189,7 +2189,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -2199,7 +2199,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -2209,7 +2209,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -2219,7 +2219,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 9e8b26a..4f4ec45 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1573,7 +1573,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -1581,7 +1581,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -1589,7 +1589,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -1597,7 +1597,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
-- 
2.43.0


From 63df5c1a1d133ead123c0315648ad21fde7e3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 14/30] fix: planes through three points have a unit normal

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4f4ec45..3a19681 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -484,8 +484,7 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
-    plane.normalize();
+    Vector< 4, T > plane = normalize( cb.cross( ba ));
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
 }
-- 
2.43.0


From ddf76510df631bf792248a59eb64017f2f994baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 15/30] fix: cross product in place with one of its operands

---
 vmmlib/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 3a19681..84f9921 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1108,9 +1108,11 @@ void Vector< M, T >::cross( const Vector< M, TT >& aa,
                             const Vector< M, TT >& bb,
                             typename enable_if< M == 3, TT >::type* )
 {
-    array[ 0 ] = aa.y() * bb.z() - aa.z() * bb.y();
-    array[ 1 ] = aa.z() * bb.x() - aa.x() * bb.z();
+    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
+    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
     array[ 2 ] = aa.x() * bb.y() - aa.y() * bb.x();
+    array[ 0 ] = x_;
+    array[ 1 ] = y_;
 }
 
 
-- 
2.43.0


From dab7b397dde520941768a07720746ef8ecf03b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 16/30] fix: bounding box emptiness compares the z extent

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From cb09f786b516ca1d46f5dac8bb534a943bd1902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 17/30] fix: bounding box of and containment test for spheres

---
 vmmlib/aabb.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index a1f4787..9114a70 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -137,9 +137,9 @@ AABB< T >::AABB( const Vector< 3, T >& pMin,
 template< typename T >
 AABB< T >::AABB( const Vector< 4, T >& sphere )
 {
-    _max = _min = sphere.getCenter();
-    _max += sphere.getRadius();
-    _min -= sphere.getRadius();
+    _max = _min = Vector< 3, T >( sphere.x(), sphere.y(), sphere.z( ));
+    _max += sphere.w();
+    _min -= sphere.w();
 }
 
 template< typename T >
@@ -153,11 +153,12 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 template< typename T >
 inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 {
-    Vector< 3, T > sv ( sphere.getCenter() );
-    sv += sphere.getRadius();
+    const Vector< 3, T > center( sphere.x(), sphere.y(), sphere.z( ));
+    Vector< 3, T > sv( center );
+    sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.getRadius() * 2.0f;
+    sv = center - sphere.w();
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From 07121371822f932e9a576e64d3b1a71e06ce77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 18/30] fix: emptying a bounding box of integers

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 9114a70..c2c4bed 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -365,7 +365,7 @@ template< typename T >inline
 void AABB< T >::setEmpty()
 {
     _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    _max = std::numeric_limits< T >::lowest();
 }
 
 
-- 
2.43.0


From 9e8e5b0e12a316b6b36956499c91f6e688024727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 19/30] fix: center of a bounding box of integers

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index c2c4bed..74ff87a 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -313,7 +313,7 @@ AABB< T >::operator!=( const AABB< U >& other )
 template< typename T >
 Vector< 3, T > AABB< T >::getCenter() const
 {
-    return _min + ( ( _max - _min ) * 0.5f );
+    return _min + ( ( _max - _min ) / static_cast< T >( 2 ));
 }
 
 template< typename T >
-- 
2.43.0


From a6f9e09b8a67224ddd3a83af0729a1f017f5be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 20/30] fix: quaternion minus vector keeps the component order

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..181b8fd 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -719,7 +719,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
-- 
2.43.0


From fd8b8ae66530bf6ce05da85c66203d74864ca876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 21/30] fix: quaternion times vector keeps the component order

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 181b8fd..ec8bcd0 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -728,10 +728,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
-                        w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+    return Quaternion( w() * a.x() + y() * a.z() - z() * a.y(),
+                       w() * a.y() + z() * a.x() - x() * a.z(),
+                       w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z() );
 }
 
 
-- 
2.43.0


From 44b701d4082906871369b3d6402003f2e678bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 22/30] fix: adding a vector to a quaternion in place

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index ec8bcd0..e816e63 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -741,7 +741,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From 297bd54ed9c3e1e55899bc36c9f14ce3f4e8faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 23/30] fix: sign of the real part of quaternions from matrices
 with small trace

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index e816e63..dd0a600 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From d1e2a369f796a82b21b02436477b609d6741c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 24/30] fix: quaternion comparison with a tolerance in double
 precision

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index dd0a600..fb9d5da 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -457,10 +457,10 @@ template < typename T >
 bool
 Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
 {
-    if( fabsf( w() - a.w() ) > delta ||
-        fabsf( x() - a.x() ) > delta ||
-        fabsf( y() - a.y() ) > delta ||
-        fabsf( z() - a.z() ) > delta
+    if( std::abs( w() - a.w() ) > delta ||
+        std::abs( x() - a.x() ) > delta ||
+        std::abs( y() - a.y() ) > delta ||
+        std::abs( z() - a.z() ) > delta
         )
         return false;
     return true;
-- 
2.43.0


From e5743f99e0800e987df19a27e7ee7b3b5b2ae41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 25/30] fix: perspective frustum scales with the near plane
 distance

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..0cf636f 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane();
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From 636b5f0f2ffc7381d8148a8d63420d6a20106081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 26/30] fix: tolerant comparison of unsigned vectors and
 matrices

---
 vmmlib/matrix.hpp | 5 ++++-
 vmmlib/vector.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 38678f0..778f8ca 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -935,7 +935,10 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
     {
         for( size_t col_index = 0; is_ok && col_index < N; col_index++)
         {
-            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
+            // larger minus smaller: the difference of unsigned values wraps
+            const T& a = at( row_index, col_index );
+            const T& b = other( row_index, col_index );
+            is_ok = fabs( a < b ? b - a : a - b ) < tolerance;
         }
     }
     return is_ok;
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 84f9921..0a77c4a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1325,8 +1325,13 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+    {
+        // larger minus smaller: the difference of unsigned values wraps
+        const T& a_ = at( index );
+        const T& b_ = other( index );
+        if( fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) >= tolerance )
             return false;
+    }
     return true;
 
 }
-- 
2.43.0


From 5ca5d42b3cf06e0d2a2ead210d4abf1deb846331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 27/30] fix: negating a matrix of unsigned elements

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 778f8ca..cc32b58 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1222,7 +1222,7 @@ Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
     Matrix< M, N, T > result( *this );
-    result *= -1.0;
+    result *= static_cast< T >( -1 );
     return result;
 }
 
-- 
2.43.0


From d68cb153e9894f152e871cb63c693748585fdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 28/30] fix: operator<< left the stream's adjustment flags
 changed

---
 vmmlib/frustum.hpp | 2 +-
 vmmlib/matrix.hpp  | 2 +-
 vmmlib/vector.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 0cf636f..41025f1 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index cc32b58..635e01e 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -470,7 +470,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 0a77c4a..8cf6e1a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -348,7 +348,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From d4841bddd2983fd5c9b2e988e33b01bd3564c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 29/30] fix: read_from_raw leaked its buffer when the file
 could not be opened

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 635e01e..a7243c3 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2680,11 +2680,11 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
             }
         }
 
-        delete[] data;
         infile.close();
     } else {
         std::cout << "no file open" << std::endl;
     }
+    delete[] data;
 
 }
 
-- 
2.43.0


From 5f6e489be5a77d84c416bdfc7e8762d133d0f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 30/30] fix: reject an out-of-range row or column in
 Matrix::get_minor before writing the minor

---
 vmmlib/matrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index a7243c3..4779b16 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1756,6 +1756,10 @@ Matrix< M, N, T >::
 get_minor( Matrix< O, P, T >& minor_, size_t row_to_cut, size_t col_to_cut,
 typename enable_if< O == M-1 && P == N-1 && M == N && M >= 2 >::type* ) const
 {
+#ifdef VMMLIB_SAFE_ACCESSORS
+    if( row_to_cut >= M || col_to_cut >= N )
+        VMMLIB_ERROR( "get_minor() - index out of bounds.", VMMLIB_HERE );
+#endif
     size_t row_offset = 0;
     size_t col_offset = 0;
     for( size_t row_index = 0; row_index < M; ++row_index )
-- 
2.43.0

