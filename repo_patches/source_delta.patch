From 09241d273be3ca774466bef12ecdcad4108d2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 01/64] fix: SortingStatus::visits(v) clears the stored count
 before setting it

The count bits were toggled instead of cleared, so setting (or constructing
with) v visits stored v - old - 1 instead of v.
---
 src/sorting_status.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorting_status.hpp b/src/sorting_status.hpp
index dbdc764..718e16f 100644
--- a/src/sorting_status.hpp
+++ b/src/sorting_status.hpp
@@ -86,7 +86,7 @@ public:
   template<typename T>
   status_t visits(T v) {
     if (v <= static_cast<status_t>(-1) >> v_shift){
-      this->status ^= v_mask; // keep everything but the number of visits
+      this->status &= ~v_mask; // keep everything but the number of visits
       this->status += v << v_shift; // add the offset visits value
     }
     else
-- 
2.43.0


From 5a97382733ebf63493c8bf7bb3b241c11465c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 02/64] fix: stable matching compares proposals with the
 column's own preferences

A proposal to a matched column was judged with the preferences of the column
that has the proposing row's index, which could leave a blocking pair.
---
 src/smp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..9b9b031 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -132,7 +132,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
         // if the preferred column has a proposed match
         if (cmatched[thisc]){
           // and if the column prefers this row over the proposed row
-          if (cpref[i*dim + i] < cpref[i*dim + csol[thisc]]){
+          if (cpref[thisc*dim + i] < cpref[thisc*dim + csol[thisc]]){
             // unmatch the other row
             rmatched[csol[thisc]] = false;
             rsol[csol[thisc]] = T(0);
-- 
2.43.0


From 715712556e0153fda1b309d99070e34172e09c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 03/64] fix: apply_inverse_permutation puts the displaced
 object back

The displaced object's index was stored in its place.
---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..de7b9ee 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From c61552359cd182f596ed510f6531785d252825ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 04/64] fix: VertexMapSet::insert grows from zero capacity

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..d7b9a94 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u); // + 1: the capacity may be zero
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From 5b4cbb7aa222046bcd8d78a2b2c6ef87e1e5ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 05/64] fix: in-place matrix_transpose uses the matrix size

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..5cfc0e5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From b68027afa2066980659ec3ae6c75de7f4fdf78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 06/64] fix: binomial_coefficient no longer wraps in its
 intermediate products

---
 src/utilities.tpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 5cfc0e5..3919645 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -689,7 +689,7 @@ indistinguishable objects can be chosen.
 template<class T, class R>
 std::enable_if_t<std::is_unsigned<T>::value&&std::is_unsigned<R>::value, unsigned long long>
 binomial_coefficient(const T n, const R k){
-  unsigned long long ans{1}, num{1}, den{1}, comdiv;
+  unsigned long long ans{1}, num, den, comdiv;
   if (k>n){
     std::string msg = "The binomial coefficient requires more choices than selections.";
     msg += "\n binomial_coefficient(" + std::to_string(n) + ":" + std::to_string(k) + ") is invalid";
@@ -699,20 +699,15 @@ binomial_coefficient(const T n, const R k){
   R m = (n-k < k) ? static_cast<R>(n-k) : k;
   bool overflow = false;
   for (R i=0; i<m; ++i){
-    unsigned long long lastnum{num}, lastden{den};
-    num *= static_cast<unsigned long long>(n-i);
-    den *= static_cast<unsigned long long>(i)+1;
-    if (lastnum > num || lastden > den){
-      comdiv = gcd(lastnum, lastden);
-      if (comdiv > 1){
-        num = lastnum/comdiv;
-        den = lastden/comdiv;
-        --i;
-      } else {
-        overflow = true;
-      }
-    }
+    // ans is binomial(n, i); with common factors removed den divides it exactly
+    num = static_cast<unsigned long long>(n-i);
+    den = static_cast<unsigned long long>(i)+1;
+    comdiv = gcd(num, den);
+    num /= comdiv;
+    ans /= den/comdiv;
+    overflow = ans > (std::numeric_limits<unsigned long long>::max)() / num;
     if (overflow) break;
+    ans *= num;
   }
 
   if (overflow){
@@ -720,8 +715,6 @@ binomial_coefficient(const T n, const R k){
     for (T i=0; i<m; ++i)
       dans *= static_cast<long double>(n-i)/(static_cast<long double>(i)+1);
     ans = std::llround(dans);
-  } else {
-    ans = num/den;
   }
   return ans;
 }
-- 
2.43.0


From 3c996cfa4946c646ad91a78b30351047be972c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 07/64] fix: LU_decomposition indexes by the matrix dimension
 and compares pivots

---
 src/linear_algebra.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/linear_algebra.hpp b/src/linear_algebra.hpp
index 6d89717..e6a363b 100644
--- a/src/linear_algebra.hpp
+++ b/src/linear_algebra.hpp
@@ -87,13 +87,13 @@ namespace brille::linear_algebra {
     std::vector<size_t> refs(M);
     std::iota(refs.begin(), refs.end(), 0u);
     T det{1};
-    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * N + j;};
+    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * M + j;};
 
     // LU factorisation:
-    for (size_t p=0; p < N-1; ++p){
+    for (size_t p=0; p < M-1; ++p){
       // locate pivot element
-      for (size_t i=p; i < N; ++i){
-        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, i)])) {
+      for (size_t i=p; i < M; ++i){
+        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, p)])) {
           // switch the index for the p -1 pivot row
           std::swap(refs[p], refs[i]);
           det = -det;
@@ -105,15 +105,15 @@ namespace brille::linear_algebra {
       // multiply diagonal
       det *= LU[s2i(p, p)];
       // form multiplier
-      for (size_t i=p+1; i < N; ++i){
+      for (size_t i=p+1; i < M; ++i){
         LU[s2i(i, p)] /= LU[s2i(p, p)];
         // eliminate [p-1]
-        for (size_t j=p+1; j < N; ++j){
+        for (size_t j=p+1; j < M; ++j){
           LU[s2i(i, j)] -= LU[s2i(i, p)] * LU[s2i(p, j)];
         }
       }
     }
-    det = det * LU[s2i(N-1, N-1)];
+    det = det * LU[s2i(M-1, M-1)];
     return std::make_tuple(det != 0, det, LU);
   }
 
-- 
2.43.0


From 2299c441913387c26cf3ad9b086fe484046a2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 08/64] fix: lin2sub of column ordered strides sets the last
 subscript

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..468610a 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -546,7 +546,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (size_t i=ndim; i--; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From 23b728606dbfeea207bdf3ff3fb74b48599a3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 09/64] fix: ThreadException combines exceptions which are not
 std::exceptions

---
 src/thread_exception.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thread_exception.h b/src/thread_exception.h
index cc6d03d..5ed523b 100644
--- a/src/thread_exception.h
+++ b/src/thread_exception.h
@@ -17,6 +17,8 @@ public:
         if (ptr_) std::rethrow_exception(ptr_);
       } catch (const std::exception & e){
         oss << e.what();
+      } catch (...) {
+        oss << "unknown exception";
       }
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     }
@@ -30,11 +32,15 @@ public:
         if (ptr_) std::rethrow_exception(ptr_);
       } catch (const std::exception & e){
         oss << e.what();
+      } catch (...) {
+        oss << "unknown exception";
       }
       try {
         std::rethrow_exception(std::current_exception());
       } catch (const std::exception & e){
         oss << "\n" << e.what();
+      } catch (...) {
+        oss << "\nunknown exception";
       }
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     } else {
-- 
2.43.0


From 60f35faa33da565526d33a3f6e5aaa9fc80a3c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 10/64] fix: subscript iteration and broadcasting over shapes
 without elements ends at once

---
 src/subscript.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index 468610a..c299462 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -175,6 +175,7 @@ public:
   holder* operator->() {return &_sub;}
   SubIt<T> begin() const {
     // return SubIt<T>(_shape, _inpt, _sub, _fixed);
+    if (std::find(_shape.begin(), _shape.end(), T(0)) != _shape.end()) return this->end(); // nothing to visit
     size_t n = this->ndim();
     holder sub(n,T(0));
     for (size_t i=0; i<sub.size(); ++i) if (_fixed[i]) sub[i] = _inpt[i];
@@ -284,6 +285,7 @@ public:
   holder* operator->() {return &_sub;}
   // std::tuple<T,T> operator*() const {return std::make_tuple(_sub[0], _sub[1])};
   SubIt2<T> begin() const {
+    if (_shape[0] == T(0) || _shape[1] == T(0)) return this->end(); // nothing to visit
     holder sub({T(0), T(0)});
     if (_fixed[0]) sub[0] = _inpt[0];
     if (_fixed[1]) sub[1] = _inpt[1];
@@ -355,7 +357,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i]; // the other one, which may be zero, if one is a singleton
       }
   }
   BroadcastIt(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -403,6 +405,7 @@ public:
 
   std::tuple<holder,holder,holder> operator*() const {return triple_subscripts();}
   BroadcastIt<T> begin() const {
+    if (this->size() == T(0)) return this->end(); // nothing to visit
     size_t n = this->ndim();
     /* Something here causes a compiler warning */
     holder s0(n,0), s1(n,0), sO(n,0);
@@ -474,7 +477,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i]; // the other one, which may be zero, if one is a singleton
       }
   }
   BroadcastIt2(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -515,6 +518,7 @@ public:
     return std::make_tuple(_subO, _sub0, _sub1);
   }
   BroadcastIt2<T> begin() const {
+    if (this->size() == T(0)) return this->end(); // nothing to visit
     holder s0({0,0}), s1({0,0}), sO({0,0});
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
-- 
2.43.0


From 1159dbd7966281ffc69b25c9fcba208ea664fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 11/64] fix: approximate array equality of unsigned with signed
 integers

The smallest signed value, converted to unsigned, was used as the bound under
which any difference counts as none, so different values compared equal.
---
 src/approx_float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/approx_float.hpp b/src/approx_float.hpp
index 715bd6c..ad5dcf9 100644
--- a/src/approx_float.hpp
+++ b/src/approx_float.hpp
@@ -223,7 +223,8 @@ namespace brille::approx_float{
     bool answer=true;
     // we need <= in case T and R are integer, otherwise this is *always* false since 0 !< 0
     if (useT){
-      T Tmin = std::numeric_limits<T>::min();
+      // the smallest normal number; an integer type has none and its most negative value is not meant here
+      T Tmin = std::numeric_limits<T>::is_integer ? T(0) : std::numeric_limits<T>::min();
       for (size_t i=0; i<NM; ++i){
         auto x = brille::abs(a[i]-b[i]);
         // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
@@ -231,7 +232,7 @@ namespace brille::approx_float{
         answer &= x <= Tabs + Trel*brille::abs(a[i]+b[i]) || x < Tmin;
       }
     } else {
-      R Rmin = std::numeric_limits<R>::min();
+      R Rmin = std::numeric_limits<R>::is_integer ? R(0) : std::numeric_limits<R>::min();
       for (size_t i=0; i<NM; ++i){
         auto x = brille::abs(a[i]-b[i]);
         // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-- 
2.43.0


From 04cd9950800df79a1fb9bf41f7eec86f90a6913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 12/64] fix: PrimitiveTransform::get_6P of a primitive lattice
 is six times the identity

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..d33e037 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return { 6, 0, 0,  0, 6, 0,  0, 0, 6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From e5999890a353ecda6d54f613537bedb0a4fc90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 13/64] fix: Motion::to_ascii writes negative and rounded
 translations as text that can be read back

---
 src/motion.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..19be063 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -1,5 +1,9 @@
 #ifndef BRILLE_MOTION_HPP_
 #define BRILLE_MOTION_HPP_
+#include <cmath>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include "symmetry_common.hpp"
 #include "hdf_interface.hpp"
 namespace brille {
@@ -143,12 +147,22 @@ operations.
             std::string lout;
             if (v != T(0)){
                 // try finding a rational number:
-                int num{0}, den{0};
+                const T a = std::abs(v);
+                int num{1}, den{0};
                 for (; num<256; ++num){
-                    den = T(num)/v;
-                    if (brille::approx_float::scalar(v, T(num)/T(den))) break;
+                    const T inv = T(num)/a;
+                    den = (inv < T(65536)) ? static_cast<int>(std::round(inv)) : 0;
+                    if (den > 0 && brille::approx_float::scalar(a, T(num)/T(den))) break;
+                }
+                // the sign is part of the numerator or, without one, of the decimal number
+                if (v < T(0)) lout += "-";
+                if (num < 256) {
+                    lout += std::to_string(num) + "/" + std::to_string(den);
+                } else {
+                    std::ostringstream decimal;
+                    decimal << std::fixed << std::setprecision(std::numeric_limits<T>::max_digits10) << a;
+                    lout += decimal.str();
                 }
-                lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
             }
             std::vector<std::string> es{"x","y","z"};
             for (int i=0; i<3; ++i) if (e[i] != 0)
-- 
2.43.0


From e23cbcdcfcf75fa9f32efd95298133f3ccea4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 14/64] fix: Motion::from_ascii accepts spaces around signs

---
 src/motion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 19be063..a170a3a 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -240,7 +240,8 @@ operations.
                         hasdigit |= digits.find(char(stream.peek()))!=std::string::npos;
                         hasslash |= '/'==stream.peek();
                         haspoint |= '.'==stream.peek();
-                        tmp << char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
+                        char d = char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
+                        if (d != ' ') tmp << d; // spaces do not separate a sign from what follows it
                     }
                     // Make sure the end-of-motion character is next even if we're at the end of the string
                     if (!stream.good()) stream.putback(special ? ' ' : ';');
-- 
2.43.0


From 3827951b75d1b3c7b51e7a21b5c1ec8f1804eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:07 +0000
Subject: [PATCH 15/64] fix: PointSymmetry::add of an encoded operation reads
 all its rows

---
 src/pointsymmetry.cpp | 55 ++++++-------------------------------------
 1 file changed, 7 insertions(+), 48 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..4b64794 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -37,56 +37,15 @@ size_t PointSymmetry::add(const Matrix<int>& r){
   return this->R.size();
 }
 size_t PointSymmetry::add(const std::string& s){
-  Matrix<int> newR{0,0,0,0,0,0,0,0,0};
-  // a valid encoded Motion will be of the form
-  // ∑ₙiₙαₙ + f where each iₙ is an integer, αₙ∈{x,y,z}
-  // and f one of 0, ±1/12, ±1/6, ±1/4, ±1/3, ±1/2
-  // but we should support any rational or floating point value for f
-  int n{0}, i{1};
-  char c{' '};
+  // one or more CIF xyz encoded Motions, separated by semicolons; any translation
+  // part strictly shouldn't be here for pointgroup operations, but is just skipped
+  size_t ret{this->size()};
   std::istringstream stream(s);
-  size_t ret{0};
-  while (stream.good()){
-    c = char(stream.get());
-    switch (c){
-      case ';': // end of one motion
-        ret = this->add(newR);
-        newR = {0,0,0,0,0,0,0,0,0};
-        n=0;
-        i=1;
-        break;
-      case ',': // end of motion component
-        i=1;
-        break;
-      case 'x':
-        newR[n*3] = i;
-        i=1;
-        break;
-      case 'y':
-        newR[n*3+1] = i;
-        i=1;
-        break;
-      case 'z':
-        newR[n*3+2] = i;
-        i=1;
-        break;
-      default: // not ;,xyz
-        std::stringstream tmp;
-        tmp << c;
-        bool haspoint{false}, hasslash{false};
-        while (std::strchr(";,xyz-+",stream.peek())==nullptr){
-          hasslash |= '/'==stream.peek();
-          haspoint |= '.'==stream.peek();
-          tmp << stream.get();
-        }
-        if (haspoint && hasslash) throw std::logic_error("Number has both point and slash?!");
-        if (!(haspoint^hasslash)) tmp >> i; // TT (error) or FF (integer)
-        // either floating point or rational numbers represent part of the
-        // translation which strictly shouldn't be here for pointgroup
-        // operations, but we should just skip for now
-    }
+  for (std::string one; std::getline(stream, one, ';');) {
+    Motion<int,double> motion;
+    motion.from_ascii(one);
+    ret = this->add(motion.getr());
   }
-  if (';'!=c) ret = this->add(newR);
   return ret;
 }
 bool PointSymmetry::set(const size_t i, const int *r){
-- 
2.43.0


From f1b253da1a01b9a8edea8671738647ca8edafe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:07 +0000
Subject: [PATCH 16/64] fix: generate multiplies operations until no new ones
 are found

---
 src/pointsymmetry.cpp | 7 +++++++
 src/symmetry.cpp      | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index 4b64794..b72822a 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -273,6 +273,13 @@ PointSymmetry PointSymmetry::generate() const {
       }
     }
   }
+  // the products of powers are all operations of the group only for some orders of the
+  // generators, so multiply every operation by each generator until no new ones appear
+  // (no finite group of integer matrices has more than 48 operations)
+  for (size_t j=0; j<gen.size() && gen.size()<=48u; ++j) for (size_t i=0; i<this->size(); ++i){
+    brille::utils::multiply_matrix_matrix(y.data(), this->data(i), gen.data(j));
+    if (!gen.has(y)) gen.add(y);
+  }
   return gen;
 }
 PointSymmetry PointSymmetry::generators() const {
diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..3646d74 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -142,6 +142,14 @@ Symmetry Symmetry::generate() const {
       }
     }
   }
+  // the products of powers are all motions of the group only for some orders of the
+  // generators, so multiply every motion by each generator until no new ones appear
+  // (generators of infinite order are not motions of a space group and never finish)
+  const size_t too_many{4096};
+  for (size_t j=0; j<gen.size() && gen.size()<too_many; ++j) for (size_t i=0; i<this->size(); ++i){
+    auto y = getm(i) * gen.getm(j);
+    if (!gen.has(y)) gen.add(y);
+  }
   return gen;
 }
 Symmetry Symmetry::generators() const{
-- 
2.43.0


From e7087b7ff11907e62d5d12d44666f853ccb3d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:07 +0000
Subject: [PATCH 17/64] fix: the B-centred entries of the space group table are
 B-centred, not primitive

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..81b31b4 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From c63e179d91b278f973490fb3138167c1eac6ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:07 +0000
Subject: [PATCH 18/64] fix: international_number_to_hall_number knows number
 230

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 81b31b4..3bebdf9 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>0 && n<=230) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 4ba48deae1aded6e9ec8db7417aa007f44f102c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 19/64] fix: lin2sub honours the stride of one-dimensional
 arrays

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index c299462..166fccb 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -546,7 +546,7 @@ template <class I>
 std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   std::vector<I> sub;
   size_t ndim = stride.size();
-  if (1 == ndim) sub.push_back(l);
+  if (1 == ndim) sub.push_back(l/stride[0]);
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-- 
2.43.0


From a066dc5c84fe359a90d2f88068050e53efeed64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 20/64] fix: HallSymbol reports symbols outside the grammar and
 impossible axes as invalid

---
 src/hall_symbol.cpp | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..26ece0a 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -23,17 +23,24 @@ bool HallSymbol::from_ascii(const std::string& s){
   char c;
   bool hassubsup;
   this->L = Bravais::_;
+  this->centrosymmetric = false;
+  this->symbols.clear();
+  this->V = Motion<double,double>({1,0,0, 0,1,0, 0,0,1}, {0,0,0});
   hassubsup = s.find('^') != std::string::npos;
   hassubsup |= s.find('_') != std::string::npos;
   // bool hasspace = s.find(' ') != std::string::npos;
 
   bool isneg = false, issup = false, issub = false;
+  bool valid = true; // false once a character has no meaning where it is found
   SeitzSymbol ssym;
   std::istringstream stream(s);
   while (stream.good()){
     c = char(stream.get());
+    if (!stream.good()) break; // the end of the string
+    bool known = (' '==c || '('==c || '-'==c) && !isneg; // a sign must be followed by a letter or an order
     // if c is one of the Lattice symbols:
-    if (std::strchr("PABCIRF",c)){
+    if ('\0'!=c && std::strchr("PABCIRF",c)){
+      known = Bravais::_ == this->L && this->symbols.empty();
       this->setl(c, isneg);
       if (' '==stream.peek()) c = char(stream.get());
       isneg = false;
@@ -57,23 +64,28 @@ bool HallSymbol::from_ascii(const std::string& s){
       // subscript follows -- advance to the next character
       if ('_'==c) { issub = true; c = char(stream.get()); }
       if (issub && std::strchr("abcnuvwd12345",c)) {
+        known = 0 != ssym.get_order() && !isneg;
         ssym.add_tran(c);
         issub = false;
       } else if (std::strchr("12346",c)) {
+        known = Bravais::_ != this->L && !issub && !issup;
         if (ssym.get_order()) this->addsymbol(ssym);
         ssym = SeitzSymbol((isneg?-1:1)*(c-'0'));
         isneg = false;
         issup = false;
       }
       if (issup && std::strchr("xyz'\"*",c)){
+        known = 0 != ssym.get_order() && !isneg;
         ssym.add_axis(c);
         issup = false;
       }
     } else /* without ^ or _ we can only distinguish symbols by spaces */{
       if (ssym.get_order()){
+        if (std::strchr("abcnuvwd12345xyz'\"*",c)) known = !isneg;
         if (std::strchr("abcnuvwd12345",c)) ssym.add_tran(c);
         if (std::strchr("xyz'\"*",c)) ssym.add_axis(c);
       } else if (std::strchr("12346",c)) {
+        known = Bravais::_ != this->L;
         ssym = SeitzSymbol((isneg?-1:1)*(c-'0'));
         isneg = false;
       }
@@ -94,9 +106,18 @@ bool HallSymbol::from_ascii(const std::string& s){
     if ('('==c){
       std::string tmp;
       std::getline(stream, tmp, ')');
-      this->V.from_ascii(tmp, true);
+      // the change of basis is either three integers or a list of components
+      int shifts{0};
+      std::istringstream list(tmp);
+      for (int shift; list >> shift; ) ++shifts;
+      known &= !stream.eof() && (tmp.find(',') != std::string::npos || (3 == shifts && list.eof()));
+      if (known) this->V.from_ascii(tmp, true);
     }
+    valid &= known;
   }
+  valid &= !(isneg || issub || issup);
+  // without a centring the symbol is never valid
+  if (!valid) this->L = Bravais::_;
   // At the end of the string we might still have a valid temporary Seitz symbol
   if (ssym.get_order()) this->addsymbol(ssym);
   return this->validate();
@@ -105,7 +126,20 @@ bool HallSymbol::from_ascii(const std::string& s){
 bool HallSymbol::validate(){
   // verify that everything went ok
   bool ok = brille::bravais_is_known(this->L);
-  for (auto ss: this->symbols) ok &= ss.validate();
+  for (auto & ss: this->symbols) ok &= ss.validate();
+  // every explicit or implied axis must be possible for the order of its rotation
+  try {
+    SeitzSymbol pre;
+    for (size_t i=0; ok && i<symbols.size(); ++i){
+      const auto & s{symbols[i]};
+      SeitzSymbol e(s.get_order(), s.get_tran(), i ? s.implicit_axis(pre) : s.implicit_axis());
+      auto r = i ? e.getr(pre) : e.getr();
+      ok = 1 == std::abs(brille::utils::matrix_determinant(r.data()));
+      pre = e;
+    }
+  } catch (const std::runtime_error &) {
+    ok = false;
+  }
   // further validation could be possible by finding the full spacegroup
   return ok;
 }
@@ -201,6 +235,9 @@ bool SeitzSymbol::validate() {
   if (T.size()>0) for (char c: subscripts)
     if (std::count_if(T.begin(), T.end(), [c](const char& d){return d==c;}) > 1)
       return false;
+  // a screw has one translation, which is a fraction of a lattice vector
+  int screws{0};
+  for (char c: T) if (c >= '1' && c <= '5' && (screws++ || c - '0' >= std::abs(N))) return false;
   // getting this far *should* mean that the SeitzSymbol is valid
   return true;
 }
-- 
2.43.0


From 1a56b310b1ebe4efd4d800bcee209856c67c110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 21/64] fix: HallSymbol::to_ascii writes the origin shift

---
 src/hall_symbol.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 26ece0a..56f30b7 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -198,6 +198,14 @@ std::string HallSymbol::to_ascii() const {
   if (this->centrosymmetric) s += "-";
   s += brille::bravais_letter(this->L);
   for (auto z: this->symbols) s += " " + z.to_ascii();
+  if (!this->V.has_identity_rotation()) s += " (" + this->V.to_ascii() + ")";
+  else if (!this->V.has_identity_translation()) {
+    // the origin shift is written in twelfths
+    auto v = this->V.gett();
+    s += " (";
+    for (size_t i=0; i<3; ++i) s += (i ? " " : "") + std::to_string(std::lround(12*v[i]));
+    s += ")";
+  }
   return s;
 }
 
-- 
2.43.0


From 17eb2867328988dcaa8a57dbce42d49349cb31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 22/64] fix: the origin shift of a Hall symbol may be padded
 with spaces

---
 src/hall_symbol.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 56f30b7..b91929e 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -107,11 +107,13 @@ bool HallSymbol::from_ascii(const std::string& s){
       std::string tmp;
       std::getline(stream, tmp, ')');
       // the change of basis is either three integers or a list of components
-      int shifts{0};
+      std::vector<int> shifts;
       std::istringstream list(tmp);
-      for (int shift; list >> shift; ) ++shifts;
-      known &= !stream.eof() && (tmp.find(',') != std::string::npos || (3 == shifts && list.eof()));
-      if (known) this->V.from_ascii(tmp, true);
+      for (int shift; list >> shift; ) shifts.push_back(shift);
+      bool components = tmp.find(',') != std::string::npos;
+      known &= !stream.eof() && (components || (3 == shifts.size() && list.eof()));
+      if (known && components) this->V.from_ascii(tmp, true);
+      if (known && !components) this->V = Motion<double,double>({1,0,0, 0,1,0, 0,0,1}, {shifts[0]/12., shifts[1]/12., shifts[2]/12.});
     }
     valid &= known;
   }
-- 
2.43.0


From 9278694cbf785317388dd58d7c87510489e2245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 23/64] fix: ptg_get_transformation_matrix compares with known
 operations only and sums the powers of a rotation

---
 src/pointgroup.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..5dc00aa 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -229,7 +229,7 @@ PointSymmetry brille::ptg_get_pointsymmetry(const int *rotations, const int num_
   // so that our outer for loop can start from the second one
   for (int i = 1; i < num_rotations; i++) {
     bool isunique = true;
-    for (int j = 0; j < num_rotations; j++)
+    for (size_t j = 0; j < pointsym.size(); j++)
       if ( brille::utils::equal_matrix(rotations+i*9, pointsym.data(j)) ){
        isunique = false;
        break;
@@ -575,7 +575,9 @@ static int get_orthogonal_axis(int ortho_axes[], const int *proper_rot, const in
   int vec[3];
   int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1};
   for (i = 0; i < rot_order; i++) {
-    brille::utils::multiply_matrix_matrix(rot, proper_rot, rot);
+    int power[9]; // the product can not be stored in one of its factors
+    brille::utils::multiply_matrix_matrix(power, proper_rot, rot);
+    brille::utils::copy_matrix(rot, power);
     brille::utils::add_matrix(sum_rot, rot, sum_rot);
   }
   for (i = 0; i < NUM_ROT_AXES; i++) {
-- 
2.43.0


From 3fbad122b46b715fa6111f8d92934356e02be39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 24/64] fix: the standard setting of trigonal and hexagonal
 point groups has axes at 120 degrees

---
 src/pointgroup.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5dc00aa..54f0667 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -462,15 +462,14 @@ static int laue_one_axis(int axes[3], const PointSymmetry & pointsym, const int
   for (int i = 0; i < num_ortho_axis; i++) {
     axes[0] = ortho_axes[i];
     brille::utils::multiply_matrix_vector(axis_vec, prop_rot, rot_axes[axes[0]]);
+    int minus_vec[3];
+    for (int k=0; k<3; ++k) minus_vec[k] = -axis_vec[k];
     for (int j = 0; j < num_ortho_axis; j++) {
+			is_found = 0;
 			if (brille::utils::equal_vector<int,3>(axis_vec, rot_axes[ortho_axes[j]]))
 				is_found = 1;
-			if (!is_found){
-				for (int k=0; k<3; ++k)
-					axis_vec[k] *= -1;
-				if (brille::utils::equal_vector<int,3>(axis_vec, rot_axes[ortho_axes[j]]))
-					is_found = -1;
-			}
+			else if (brille::utils::equal_vector<int,3>(minus_vec, rot_axes[ortho_axes[j]]))
+				is_found = -1;
 			if (is_found){
 				axes[1] = ortho_axes[j] + (is_found < 0 ? NUM_ROT_AXES : 0);
 				axes_found = true;
-- 
2.43.0


From 4df2639ffca609edc80e58302c62156ab2957169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 25/64] fix: the Schoenflies symbol of point group 32 has no
 trailing space

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 54f0667..0042800 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -98,7 +98,7 @@ static PointgroupType pointgroup_data[33] = {
   {/*15*/{0,2,0,5,1,1,5,0,2,0},"4/mmm","D4h",Holohedry::tetragonal,Laue::_4mmm,},
   {/*16*/{0,0,0,0,0,1,0,2,0,0},"3"    ,"C3" ,Holohedry::trigonal  ,Laue::_3   ,},
   {/*17*/{0,0,2,0,1,1,0,2,0,0},"-3"   ,"C3i",Holohedry::trigonal  ,Laue::_3   ,},
-  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3 ",Holohedry::trigonal  ,Laue::_3m  ,},
+  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3" ,Holohedry::trigonal  ,Laue::_3m  ,},
   {/*19*/{0,0,0,3,0,1,0,2,0,0},"3m"   ,"C3v",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*20*/{0,0,2,3,1,1,3,2,0,0},"-3m"  ,"D3d",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*21*/{0,0,0,0,0,1,1,2,0,2},"6"    ,"C6" ,Holohedry::hexagonal ,Laue::_6m  ,},
-- 
2.43.0


From 40c54eb59fe53a05771281fa49f663b776198c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 26/64] fix: arrays which are not contiguous are indexed,
 copied and reduced by their strides

---
 src/array.hpp  | 22 +++++++++++++++++-----
 src/array.tpp  | 47 ++++++++++++-----------------------------------
 src/array2.hpp |  5 ++++-
 src/array2.tpp | 12 ++++++------
 4 files changed, 39 insertions(+), 47 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..fd4361e 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -340,7 +340,17 @@ protected: // so inherited classes can calculate subscript indexes into their da
   //   return offset_sub2lin(_offset, s, _stride);
   // }
   ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    // the linear index counts the elements of the view, in its own order
+    const size_t nd{_shape.size()};
+    const bool column{nd > 0 && _stride.front() < _stride.back()};
+    ind_t left{l}, out{_shift};
+    for (size_t k=0; k+1<nd; ++k){
+      const size_t i{column ? k : nd-1-k};
+      if (_shape[i] < 2u) continue;
+      out += (left % _shape[i]) * _stride[i];
+      left /= _shape[i];
+    }
+    return out + left * (nd > 0 ? _stride[column ? nd-1 : 0] : 1u);
   }
   ind_t s2l_d(const shape_t& s) const {
     return sub2lin(s, _stride) + _shift;
@@ -414,17 +424,19 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
-    if (nnum == _num) {
+    shape_t new_st{_stride};
+    if (this->is_contiguous() && nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
-      //subscript conversion necessary due to offset
+      //subscript conversion necessary due to offset or strided array
+      new_st = this->calculate_stride(_shape);
       //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..bb0bd9c 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -503,7 +503,7 @@ Array<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array<int>\
 Array<T>:: X () const {\
-  Array<int> out(_shape, _stride);\
+  Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -516,16 +516,10 @@ ARRAY_ELEMENTWISE_INT_TRANSFORM(ceil)
 template<class T>
 Array<T>
 Array<T>::sum(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{0};
@@ -542,16 +536,10 @@ Array<T>::sum(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::prod(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{1};
@@ -568,16 +556,10 @@ Array<T>::prod(const ind_t dim) const{
 template<class T>
 Array<T>
 Array<T>::min(const ind_t dim) const{
-  size_t ndim = _shape.size();
-  assert(dim < ndim);
-  shape_t ostride = this->stride();
+  assert(dim < _shape.size());
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{(std::numeric_limits<T>::max)()};
@@ -597,14 +579,9 @@ Array<T>
 Array<T>::max(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize); // preserve orderness
   // the stride along any dimension can not be zero. protect against it:
   for (ind_t i=0; i<ndim; ++i) if (ostride[i] < 1u) ostride[i] = 1u;
 
@@ -734,7 +711,7 @@ Array<T>::count(const brille::cmp expr, const T val) const {
 template<class T>
 Array<bool>
 Array<T>::is(const brille::cmp expr, const T val) const {
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -765,7 +742,7 @@ Array<T>::is(const brille::cmp expr, const Array<R>& that) const {
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   size_t ndim = _shape.size();
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
@@ -847,7 +824,7 @@ Array<T>::unique() const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array<T> out(osize, _stride);
+  Array<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -877,7 +854,7 @@ T Array<T>::norm(ind_t i) const {
 template<class T>
 Array<T>
 Array<T>::operator-() const{
-  Array<T> neg(_shape, _stride);
+  Array<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: SubIt(_shape)) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..786f3b5 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -309,7 +309,10 @@ public:
   const T& operator[](const shape_t& sub) const {return _data[this->s2l_d(sub)];}
 protected: // so inherited classes can calculate subscript indexes into their data
   [[nodiscard]] ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous()) return l + _shift;
+    // the linear index counts the elements of the view, in its own order
+    return _stride[0] < _stride[1] ? ij2l_d(l % _shape[0], l / _shape[0])
+                                   : ij2l_d(l / _shape[1], l % _shape[1]);
   }
   [[nodiscard]] ind_t ij2l_d(const ind_t x, const ind_t y) const {
     return sub2lin(x, y, _stride) + _shift;
diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..6eaa602 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -703,7 +703,7 @@ Array2<T>::count(const brille::cmp expr, const T val, const T Ttol, const int to
 template<class T>
 Array2<bool>
 Array2<T>::is(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -735,7 +735,7 @@ Array2<T>::is(const brille::cmp expr, const Array2<R>& that, const T Ttol, const
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
     brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
@@ -1240,7 +1240,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape); // allocates row-ordered strides
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
-- 
2.43.0


From 2297019572187f430f73274752f21772eb05647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 27/64] fix: permutation_vector never names a row twice

---
 src/array2.tpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 6eaa602..4aea525 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1063,9 +1063,8 @@ template<class R>
 std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T Ttol, const R Rtol, int tol) const {
   auto not_present = [](const auto & a, const auto & b){
     if (a.size() == 0) throw std::runtime_error("Can not find a not in b since a is empty");
-    if (b.size() == 0) return a[0];
-    const auto ptr = std::find_first_of(a.begin(), a.end(), b.begin(), b.end(),
-                                        [](const auto & x, const auto & y){return x != y;});
+    const auto ptr = std::find_if(a.begin(), a.end(),
+                                  [&b](const auto & x){return std::find(b.begin(), b.end(), x) == b.end();});
     if (ptr == a.end())
       throw std::runtime_error("b contains all of a!");
     return *ptr;
-- 
2.43.0


From 0620311dd7d9de3e651ed10e3b175091039917a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:45 +0000
Subject: [PATCH 28/64] fix: compare translations of composed motions with room
 for rounding

---
 src/motion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index a170a3a..3535d80 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -97,8 +97,10 @@ operations.
             // limit its elements to the range [0,1) and transform such that 0 and 1 are near zero
             for (int i=0; i<3; ++i) d[i] = T(0.5) - std::abs(d[i] - std::floor(d[i]) - T(0.5));
             // so if the difference vector is ~ ⃗0 or ~ ⃗1 and the matrix parts match
-            // then the Motions are equivalent
-            return brille::approx_float::vector(d.data(), z.data()) && brille::approx_float::matrix(W.data(), mW.data());
+            // then the Motions are equivalent. The translation of a product of Motions
+            // carries the rounding of every factor, so allow for it when comparing to 0
+            const T tol = static_cast<T>(1e-12);
+            return brille::approx_float::vector(d.data(), z.data(), tol, tol) && brille::approx_float::matrix(W.data(), mW.data());
         }
         template<class S>
         bool equal_matrix(const Matrix<S>& m) const {
-- 
2.43.0


From 84ab7823154d5077cd836b876c44b3b586354ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 29/64] fix: read a translation written with a leading decimal
 point

---
 src/motion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 3535d80..9a9e4fc 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -237,7 +237,7 @@ operations.
                     debug_update_if(special, "which is not one of ';,xyz ' so search until one of '",nosearch,"' is found next");
                     std::stringstream tmp;
                     tmp << c; // if a number, tmp might be the sign.
-                    bool haspoint{false}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
+                    bool haspoint{'.'==c}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
                     while (nosearch.find(char(stream.peek()))==std::string::npos && stream.good()){
                         hasdigit |= digits.find(char(stream.peek()))!=std::string::npos;
                         hasslash |= '/'==stream.peek();
-- 
2.43.0


From 84ba16219c741c58d2fea7c1fa8c325d0dc10fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:11 +0000
Subject: [PATCH 30/64] fix: a Hall symbol ends with its change of basis and
 marks each character once

---
 src/hall_symbol.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index b91929e..8e4044e 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -31,6 +31,7 @@ bool HallSymbol::from_ascii(const std::string& s){
   // bool hasspace = s.find(' ') != std::string::npos;
 
   bool isneg = false, issup = false, issub = false;
+  bool haschange = false; // true once a change of basis has been found
   bool valid = true; // false once a character has no meaning where it is found
   SeitzSymbol ssym;
   std::istringstream stream(s);
@@ -38,6 +39,7 @@ bool HallSymbol::from_ascii(const std::string& s){
     c = char(stream.get());
     if (!stream.good()) break; // the end of the string
     bool known = (' '==c || '('==c || '-'==c) && !isneg; // a sign must be followed by a letter or an order
+    bool misplaced = haschange && ' '!=c; // the change of basis is the last part of a symbol
     // if c is one of the Lattice symbols:
     if ('\0'!=c && std::strchr("PABCIRF",c)){
       known = Bravais::_ == this->L && this->symbols.empty();
@@ -63,6 +65,7 @@ bool HallSymbol::from_ascii(const std::string& s){
       if ('^'==c) { issup = true; c = char(stream.get()); }
       // subscript follows -- advance to the next character
       if ('_'==c) { issub = true; c = char(stream.get()); }
+      misplaced |= issub && issup; // a character is either a superscript or a subscript
       if (issub && std::strchr("abcnuvwd12345",c)) {
         known = 0 != ssym.get_order() && !isneg;
         ssym.add_tran(c);
@@ -104,6 +107,7 @@ bool HallSymbol::from_ascii(const std::string& s){
       isneg = false;
     }
     if ('('==c){
+      haschange = true;
       std::string tmp;
       std::getline(stream, tmp, ')');
       // the change of basis is either three integers or a list of components
@@ -111,11 +115,14 @@ bool HallSymbol::from_ascii(const std::string& s){
       std::istringstream list(tmp);
       for (int shift; list >> shift; ) shifts.push_back(shift);
       bool components = tmp.find(',') != std::string::npos;
-      known &= !stream.eof() && (components || (3 == shifts.size() && list.eof()));
+      // and a lone sign at the end is not an integer
+      size_t last = tmp.find_last_not_of(' ');
+      bool digit = last != std::string::npos && std::isdigit(static_cast<unsigned char>(tmp[last]));
+      known &= !stream.eof() && (components || (3 == shifts.size() && list.eof() && digit));
       if (known && components) this->V.from_ascii(tmp, true);
       if (known && !components) this->V = Motion<double,double>({1,0,0, 0,1,0, 0,0,1}, {shifts[0]/12., shifts[1]/12., shifts[2]/12.});
     }
-    valid &= known;
+    valid &= known && !misplaced;
   }
   valid &= !(isneg || issub || issup);
   // without a centring the symbol is never valid
-- 
2.43.0


From f93c10774cda9724aef057ba5b365c34a7500c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:15 +0000
Subject: [PATCH 31/64] fix: star() of lattice vectors gives the same vector in
 the dual lattice

---
 src/array_functions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..78f1a03 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -406,6 +406,7 @@ star(const L<T>& v){
   vsh.back() = 0;
   for (auto x: v.subItr(vsh)) // iterate over all but the last dimension
     brille::utils::multiply_matrix_vector(vstar.ptr(x), covariant_metric.data(), v.ptr(x));
+  vstar /= brille::math::two_pi; // ai= gij/2/pi * ai_star
   return vstar;
 }
 
-- 
2.43.0


From 67f6faf791aec6fa2cb1737f42c058f9b38577d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 32/64] fix: a name given with its choice of setting is not
 mistaken for a Hall symbol

---
 src/spg_database.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 3bebdf9..387c0e8 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -643,8 +643,11 @@ int brille::hall_symbol_to_hall_number(const std::string& hsymbol){
 
 // When we don't know if we're searching for a Hall Symbol or
 // International Table Name/Symbol search for either, starting with Hall symbols
+// unless a choice is given, which only International Table Names/Symbols have
 int brille::string_to_hall_number(const std::string& str, const std::string& ch){
-  int tmp = brille::hall_symbol_to_hall_number(str);
+  int tmp{0};
+  if (!ch.empty()) tmp = brille::international_string_to_hall_number(str, ch);
+  if (!tmp) tmp = brille::hall_symbol_to_hall_number(str);
   if (!tmp) tmp = brille::international_string_to_hall_number(str, ch);
   return tmp;
 }
-- 
2.43.0


From ad1b610c7a00b66cf447e57d52249e7ab15cd019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 33/64] fix: snapping basis vectors to their symmetry does not
 turn them

---
 src/lattice_dual.hpp | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..730ef3a 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -25,28 +25,21 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   Find the rotation matrix which takes us to the standard upper triangular
    *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
-  // tan(mu) = -ay / az
-  S mu = arctan(-bv[3], bv[6]);
-  auto [c_mu, s_mu] = math::cos_and_sin(mu);
-
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
-  auto [c_nu, s_nu] = math::cos_and_sin(nu);
-
-  // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
-  S num = bv[1] * s_nu - bv[4] * c_nu * s_mu + bv[7] * c_nu * c_mu;
-  S den = bv[4] * c_mu + bv[7] * s_mu;
-  S xi = arctan(num, den);
-  auto [c_xi, s_xi] = math::cos_and_sin(xi);
-
-  // Rotation matrix, verified 'by hand' multiple times.
-  std::array<S,9> rotation_matrix{
-      {c_nu,                              s_nu * s_mu,                      -s_nu * c_mu,
-       s_xi * s_nu,  c_xi * c_mu - s_xi * c_nu * s_mu,  c_xi * s_mu + s_xi * c_nu * c_mu,
-       c_xi * s_nu, -s_xi * c_mu - c_xi * c_nu * s_mu, -s_xi * s_mu + c_xi * c_nu * c_mu}
-  };
+  // The rows are the standard x, y, and z axes: a is along x, b is in the x-y plane with
+  // a positive y component, and z is on the same side of that plane as c.
+  std::array<S,3> x, y, z;
+  S a{0}, ab{0}, b{0}, c{0};
+  for (size_t i=0; i<3u; ++i) a += bv[3*i] * bv[3*i];
+  for (size_t i=0; i<3u; ++i) ab += bv[3*i] * bv[3*i+1];
+  for (size_t i=0; i<3u; ++i) x[i] = bv[3*i] / std::sqrt(a);
+  for (size_t i=0; i<3u; ++i) y[i] = bv[3*i+1] - bv[3*i] * ab / a;
+  for (size_t i=0; i<3u; ++i) b += y[i] * y[i];
+  for (size_t i=0; i<3u; ++i) y[i] /= std::sqrt(b);
+  for (size_t i=0; i<3u; ++i) z[i] = x[(i+1u)%3u] * y[(i+2u)%3u] - x[(i+2u)%3u] * y[(i+1u)%3u];
+  for (size_t i=0; i<3u; ++i) c += z[i] * bv[3*i+2];
+  if (c < S(0)) for (auto & z_i: z) z_i *= S(-1);
+
+  std::array<S,9> rotation_matrix{{x[0], x[1], x[2], y[0], y[1], y[2], z[0], z[1], z[2]}};
   return rotation_matrix;
 }
 
-- 
2.43.0


From 36524a29f4bebec8cc0120e68d1eac7006b5d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 34/64] fix: move points into a zone found with the
 conventional lattice of a centred lattice

---
 src/bz_move.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..8b138ed 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -107,8 +107,8 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> Qprim(Q.type(), _inner);
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
-  PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  // no transformation is made if the conventional lattice was used to find the zone
+  bool transform_needed = this->isprimitive() && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +121,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  auto pa = this->isprimitive() ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = this->isprimitive() ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = this->isprimitive() ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From 2f38344e3b5dddeeb88f07591cc7eaa580003a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 35/64] fix: shift points by the face they are farthest beyond
 when moving into the first Brillouin zone

---
 src/bz_move.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index 8b138ed..788e1ab 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -23,7 +23,7 @@ part_moveinto_prim(const LVec<double> & Q, const LVec<double> & normals,
     auto Q_i = Q.view(i); // avoid fetching from the shared array multiple times
     auto tau_i = Q_i.round();
     auto q_i = Q_i - tau_i;
-    auto last_shift = tau_i;
+    auto last_shift = 0 * tau_i;
     auto count = 0 * max_count;
     while (count++ < max_count && !point_inside_all_planes(pa, pb, pc, q_i, ftol, atol)){
       auto qi_dot_normals = dot(q_i, normals);
@@ -31,12 +31,14 @@ part_moveinto_prim(const LVec<double> & Q, const LVec<double> & normals,
       if (std::any_of(N_hkl.begin(), N_hkl.end(), [](int a){return a > 0.;})) {
         int max_nm{0};
         ind_t max_at{0};
+        // the distance of the point beyond each face, since a shift by τ only helps if it is positive
+        auto beyond = [&](const ind_t j){return qi_dot_normals[j] - tau_lens[j] / 2.;};
         for (ind_t j=0; j<N_hkl.size(); ++j) {
           // protect against oscillating by ±τ
           if (N_hkl[j] > 0 && N_hkl[j] >= max_nm &&
               (0 == max_nm ||
                (norm(taus.view(j) + last_shift).all(brille::cmp::gt, 0.) &&
-                qi_dot_normals[j] > qi_dot_normals[max_at]))
+                beyond(j) > beyond(max_at)))
           ) {
             max_nm = N_hkl[max_at = j];
           }
-- 
2.43.0


From b4cb7e5bda10382e4d30c7a916e690a4f27474ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 36/64] fix: data race writing bits of a shared vector in
 isinside_wedge

---
 src/bz.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..46f9978 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -667,7 +667,8 @@ public:
       msg += "used to define the BrillouinZone object";
       throw std::runtime_error(msg);
     }
-    std::vector<bool> out(p.size(0), true);
+    // the elements of a std::vector<bool> share bytes so can not be set in parallel
+    std::vector<char> out(p.size(0), 1);
     auto normals =
         isouter ? get_ir_wedge_normals() : get_primitive_ir_wedge_normals();
     if (normals.size(
@@ -695,9 +696,9 @@ public:
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
         //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        out[i] = dot(normals, p.view(i)).all(c, 0.) ? 1 : 0;
     }
-    return out;
+    return {out.begin(), out.end()};
   }
   /*! \brief Find q and τ such that Q=q+τ and τ is a reciprocal lattice vector
     \param[in] Q A reference to lattice::LVec list of Q points
-- 
2.43.0


From 72f016755100a3b2c09b499efafaf0908a88ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 37/64] fix: use the tolerances of the zone to identify its
 faces among those of the irreducible polyhedron

---
 src/bz.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..65cc551 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -26,8 +26,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   auto bz_p = this->get_points();
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
-    // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
@@ -42,8 +41,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
     std::vector<bool> no_inverse(ir_n.size(0), true), keep(ir_n.size(0), true);
     for (ind_t i=0; i<ir_n.size(0)-1; ++i) if (no_inverse[i])
     for (ind_t j=i+1; j<ir_n.size(0); ++j) if (no_inverse[j])
-    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0.)) {
-      // FIXME Consider adding tolerance                             ^^^
+    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0., float_tolerance, approx_tolerance)) {
       no_inverse[i] = no_inverse[j] = keep[j] = false;
       break;
     }
-- 
2.43.0


From 753529537db8a74b1c50ca614f203f981e4b16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 38/64] fix: centroid of polyhedra with vertices in units of a
 lattice

---
 src/polyhedron_faces.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index c5aacef..41f4938 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -224,12 +224,14 @@ namespace brille::polyhedron{
         for (ind_t i=1; i < face.size() - 1; ++i) {
           const auto b{x.view(face[i])};
           const auto c{x.view(face[i + 1])};
-          auto cr = cross(b-a, c-a);
-          auto sq = (((a+b)^T(2))+ ((b+c)^T(2)) + ((c+a)^T(2)));
-          for (ind_t j=0; j<3; ++j) cen[j] += cr[j] * sq[j];
+          // the (signed) volume of the tetrahedron (origin, a, b, c), times six, and four times its centroid,
+          // which are correct in any coordinate system -- including the units of a lattice
+          const auto vol = dot(cross(b-a, c-a), a).sum();
+          const auto sum = a + b + c;
+          for (ind_t j=0; j<3; ++j) cen[j] += vol * sum[j];
         }
       }
-      return cen / (T(48) * this->volume(x));
+      return cen / (T(24) * this->volume(x));
     }
     template<class T, template<class> class A>
     std::enable_if_t<isArray<T,A>, A<T>> rand_rejection(const A<T>& x, const ind_t n, const unsigned int seed) const {
-- 
2.43.0


From 69ac84cb12ee5be3d8c41b0763646da10f74f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 39/64] fix: face indexes of polyhedra constructed from
 duplicated vertices

---
 src/polyhedron_faces.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 41f4938..2e3ba66 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -59,7 +59,8 @@ namespace brille::polyhedron{
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
         debug_update("First-pass faces:\n", _faces);
-        if (polygon_face_vertex_purge(unique_vertices, _faces)) {
+        polygon_face_vertex_purge(unique_vertices, _faces);
+        if (unique_vertices.size(0) < vertices.size(0)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
                        get_xyz(unique_vertices).to_string(), "),\n", _faces);
           // the _faces vectors point into the smaller unique_vertices, so we
@@ -87,7 +88,8 @@ namespace brille::polyhedron{
       auto v = T(1) * vertices;
       std::tie(v, _faces) = remove_duplicate_points_and_update_face_indexing(v, _faces);
       _faces = polygon_faces(_faces, v);
-      if (polygon_face_vertex_purge(v, _faces)){
+      polygon_face_vertex_purge(v, _faces);
+      if (v.size(0) < vertices.size(0)){
         debug_update("Some vertices purged. Now vertices\nnp.array(\n", get_xyz(v).to_string(), "),\n", _faces);
         // the _faces vectors point into the smaller unique_vertices, so we
         // need to find *an* equivalent vertex in vertices for each retained
-- 
2.43.0


From 11aa48a5378ff9073d5c5a44916d16dfc657225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 40/64] fix: convex hulls of points which lie on a face or an
 edge of the hull

---
 src/geometry.hpp         | 40 +++++++++++++++++-----------------------
 src/polyhedron_faces.hpp |  2 ++
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..0a8262f 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -338,28 +338,21 @@ namespace brille {
   template<class T, template<class> class A>
   std::enable_if_t<isArray<T,A>, bool>
   face_has_area(const A<T> &points, const bool strict = false) {
-    // first verify that all points are coplanar
-    // pick the first three points to define a plane, then ensure all points are in it
     if (points.size(0) < 3) return false; // can't be a face
-    // move to the 2-D face coordinate system so that we can use orient2d
-    auto centre = points.sum(0) / static_cast<T>(points.size(0));
-    auto facet = points - centre;
-    // pick the first on-face vector to be our x-axis
-    auto x = facet.view(0).decouple(); // decouple since we're going to normalise this
-    auto z = three_point_normal(facet, 0, 1, 2);
-    auto y = cross(z, x);
-    x /= norm(x);
-    y /= norm(y);
-    T a[2] = {1, 0}, b[2], c[2];
-    T s{0};
-    for (ind_t i = 1; i < facet.size(0) - 1; ++i) {
-      on_plane_vector(x, y, facet.view(i), b);
-      on_plane_vector(x, y, facet.view(i+1), c);
-      auto piece = orient2d(a, b, c);
-      if (!strict) piece = std::abs(piece);
-      s += piece;
+    // sum up the areas of the triangles sharing the first point, any of which could have its three points on one line
+    auto first = points.view(0);
+    auto directed = T(0) * get_xyz(first);
+    T s{0}, longest{0};
+    for (ind_t i = 1; i < points.size(0) - 1; ++i) {
+      auto b = points.view(i) - first;
+      auto c = points.view(i+1) - first;
+      auto piece = get_xyz(cross(b, c));
+      if (strict) directed += piece; else s += norm(piece).sum();
+      longest = (std::max)({longest, dot(b, b).sum(), dot(c, c).sum()});
     }
-    return (s > T(0));
+    if (strict) s = norm(directed).sum();
+    // rounding errors do not make an area
+    return s > longest * T(100) * std::numeric_limits<T>::epsilon();
   }
 
   /*! \brief Check if a point is 'behind' a plane
@@ -667,6 +660,8 @@ namespace brille {
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
+        // an on-plane point must not exclude the plane due to rounding errors
+        if (approx_float::scalar(d, T(0), Ttol, Ttol, tol)) continue;
         positive &= d >= 0;
         negative &= d <= 0;
       }
@@ -951,10 +946,9 @@ namespace brille {
     std::vector<ind_t> updated;
     updated.reserve(s);
     if (s > 2) {
-      updated.push_back(face[0]);
-      auto e0 = points.view(face[1]) - points.view(face[0]);
+      auto e0 = points.view(face[0]) - points.view(face[s - 1]);
       e0 /= norm(e0);
-      for (ind_t i = 1; i < s; ++i) {
+      for (ind_t i = 0; i < s; ++i) {
         auto e1 = points.view(face[(i + 1) % s]) - points.view(face[i]);
         e1 /= norm(e1);
         if (dot(e0, e1).any(cmp::lt, 1., t_tol, i_tol)) updated.push_back(face[i]);
diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 2e3ba66..a47281d 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -59,6 +59,8 @@ namespace brille::polyhedron{
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
         debug_update("First-pass faces:\n", _faces);
+        // points part way along an edge are not corners of the convex hull
+        _faces = remove_middle_colinear_points_from_faces(unique_vertices, _faces, Ttol, tol);
         polygon_face_vertex_purge(unique_vertices, _faces);
         if (unique_vertices.size(0) < vertices.size(0)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
-- 
2.43.0


From 7f3d27edae725c87e3683b6af1c74a868ea3386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:21 +0000
Subject: [PATCH 41/64] fix: a polyhedron without faces contains nothing, and
 asking does not read past the end

---
 src/polyhedron_faces.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index a47281d..b363b8c 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -320,6 +320,8 @@ namespace brille::polyhedron{
     template<class T, class R, template<class> class A, template<class> class B>
     [[nodiscard]] std::enable_if_t<isArray<T,A> && isArray<R,B>, std::vector<bool>>
     contains(const A<T>& v, const B<R>& x, const T t=T(0), const int n=1) const {
+      // without faces there is no inside
+      if (_faces.empty()) return std::vector<bool>(x.size(0), false);
       std::vector<std::atomic<int>> tmp(x.size(0));
       A<T> pa, pb, pc;
       std::tie(pa, pb, pc) = this->planes(v);
-- 
2.43.0


From b14599a050a85760af8c209f973ff204bcdeac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:51 +0000
Subject: [PATCH 42/64] fix: tolerances of the convex hull are relative to its
 size

---
 src/polyhedron_faces.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index b363b8c..0c267b4 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -53,14 +53,17 @@ namespace brille::polyhedron{
       debug_update("Find convex hull of points\n", get_xyz(vertices).to_string());
       auto unique = vertices.is_unique(Ttol, tol);
       auto unique_vertices = vertices.extract(unique);
-      auto[a, b, c] = find_convex_hull_planes(unique_vertices, Ttol, tol);
-      auto fpv = find_planes_containing_point(a, b, c, unique_vertices, Ttol, tol);
+      // tolerances are relative to the size of the hull, since rounding errors are as well
+      T extent = norm(unique_vertices - unique_vertices.view(0)).max(0).sum();
+      auto scaled = unique_vertices / (extent > T(0) ? extent : T(1));
+      auto[a, b, c] = find_convex_hull_planes(scaled, Ttol, tol);
+      auto fpv = find_planes_containing_point(a, b, c, scaled, Ttol, tol);
       auto max = std::transform_reduce(fpv.begin(), fpv.end(), 0u, [](const auto & x, const auto & y){return x > y ? x : y;}, [](const auto & z){return z.size();});
       if (max > 2u) {
-        _faces = polygon_faces(a, b, c, fpv, unique_vertices);
+        _faces = polygon_faces(a, b, c, fpv, scaled);
         debug_update("First-pass faces:\n", _faces);
         // points part way along an edge are not corners of the convex hull
-        _faces = remove_middle_colinear_points_from_faces(unique_vertices, _faces, Ttol, tol);
+        _faces = remove_middle_colinear_points_from_faces(scaled, _faces, Ttol, tol);
         polygon_face_vertex_purge(unique_vertices, _faces);
         if (unique_vertices.size(0) < vertices.size(0)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
-- 
2.43.0


From 0f125f297bc5433964a36f3c9119cea2225faeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:51 +0000
Subject: [PATCH 43/64] fix: divide() shifts the dividing planes together with
 the polyhedron

---
 src/polyhedron_faces.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 0c267b4..61ffabb 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -412,7 +412,7 @@ namespace brille::polyhedron{
     divide(const A<T>& v, const B<R>& a, const B<R>& b, const B<R>& c) const {
       // this all seems unnecessary
       auto z = this->centroid(v);
-      auto [cv, cf] = this->cut(v - z, a, b, c);
+      auto [cv, cf] = this->cut(v - z, a - z, b - z, c - z);
       return std::make_tuple(cv + z, cf);
     }
 
-- 
2.43.0


From e4551cbc9355c857a35060f12c26452ce46e4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:51 +0000
Subject: [PATCH 44/64] fix: the intersection with an empty polyhedron is empty

---
 src/polyhedron_flex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polyhedron_flex.hpp b/src/polyhedron_flex.hpp
index c0dbfb5..6ec912d 100644
--- a/src/polyhedron_flex.hpp
+++ b/src/polyhedron_flex.hpp
@@ -211,6 +211,8 @@ namespace brille::polyhedron{
     }
     template<class R, template<class> class B>
     [[nodiscard]] std::enable_if_t<isArray<R,B>, Poly<T,A>> intersection(const Poly<R,B>& that, const R Rtol=R(0), const int tol=1) const{
+      // nothing is common with a polyhedron which has no inside
+      if (that.face_count() == 0) return Poly<T,A>(_vertices, faces_t());
       auto [a, b, c] = that.planes();
       return this->cut(a, b, c, Rtol, tol);
     }
-- 
2.43.0


From ec37138fa8b7587f0d253a9f89fd98c70f6b2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 45/64] fix: tetgen finds a tetrahedron to start from when all
 samples are dead

---
 lib/tetgen/tetgen.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 839e7c0..366bff8 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -25105,6 +25105,12 @@ int tetgenmesh::scout_point(point searchpt, triface *searchtet, int /*randflag*/
     if (searchtet->tet == NULL) {
       // Randomly select a good starting tet.
       randomsample(searchpt, searchtet);
+      if (searchtet->tet == NULL) {
+        // Every sample was a dead or a far away tet. Any live one will do.
+        tetrahedrons->traversalinit();
+        searchtet->tet = tetrahedrontraverse();
+        searchtet->ver = 11;
+      }
     }
   
     if (ishulltet(*searchtet)) {
-- 
2.43.0


From 9ec76ab7089f86d2a9158057b5eb1db4902a44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 46/64] fix: the origin stays where it is when a node is
 triangulated

---
 src/triangulation_poly.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..99b2b7c 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -87,6 +87,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   try {
     if (addGamma && !gammaPresent){
       tgb.insertaddpoints = 1;
+      tgb.smooth_maxiter = 0; // mesh smoothing would move the inserted point
       tetgenio add_in;
       add_in.numberofpoints = 1;
       add_in.pointlist = new double[3];
-- 
2.43.0


From 8bb43e26a46516c6f8d2784c192cb74f7ac9db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 47/64] fix: the trellis refuses points outside of it

---
 src/trellis_poly.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 74a2dc6..6945d92 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -247,10 +247,22 @@ public:
     std::vector<std::pair<ind_t,VertexComponents>> iw{};
     if (x.ndim()!=2 && x.size(0)!=1u && x.size(1)!=3u)
       throw std::runtime_error("The indices and weights can only be found for one point at a time.");
-    // if node_index does not throw an error then the indicated node *should*
-    // contain the interpolation point (but rounding might be a problem)
+    const auto sub = this->node_subscript(x);
+    // without a non-null node the point is not in the domain of the trellis
+    if (!this->subscript_ok_and_not_null(sub)) return iw;
+    // the indicated node *should* contain the interpolation point
+    // (but rounding might be a problem)
     const bool should_contain = true;
-    nodes_.indices_weights(this->node_index(x), vertices_, x, iw, should_contain);
+    nodes_.indices_weights(this->sub2idx(sub), vertices_, x, iw, should_contain);
+    // rounding can not explain more than a tiny extrapolation
+    const VertexComponents tiny{1e-6};
+    VertexComponents total{0};
+    bool outside{false};
+    for (const auto & i_w: iw) {
+      total += i_w.second;
+      if (i_w.second < -tiny) outside = true;
+    }
+    if (outside || std::abs(total - VertexComponents(1)) > tiny) iw.clear();
     return iw;
   }
   //! Check that the held data can be used for linear interpolation
-- 
2.43.0


From cbef06b08581095171cc919de7ae654e7b067c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 48/64] fix: the mesh refuses points outside of it

---
 src/mesh.hpp                 | 14 +++++++++++---
 src/triangulation_layers.hpp |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..5bad7b7 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -80,7 +80,7 @@ public:
   }
   template<class... Args>
   Mesh3(const poly_t& poly, Args... args){
-    this->construct(poly.vertices(), poly.facets().facets(), args...);
+    this->construct(poly.vertices(), poly.faces().faces(), args...);
   }
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
@@ -175,11 +175,19 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    size_t unfound{0};
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
       auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      if (verts_weights.size()){
+        data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      } else {
+        ++unfound;
+      }
+    }
+    if (unfound > 0){
+      throw std::runtime_error(std::to_string(unfound) + " points not found in tetrahedral mesh");
     }
     return std::make_tuple(vals, vecs);
   }
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..487cf21 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -410,6 +410,8 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
+      // no tetrahedron of the higher layer contains the point
+      if (idx >= layers[i-1].number_of_tetrahedra()) return {};
       const TetSet& tosearch = connections[i-1][idx];
       idx = layers[i].unsafe_locate(tosearch, x, vw);
     }
-- 
2.43.0


From f56efb15bf67fd7cf6e7bc1fe7e456adc7f174aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 49/64] fix: the nest returns the value of a vertex at that
 vertex

---
 src/nest.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..fbd455f 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -190,13 +190,17 @@ public:
     }
     // No solution found:
     if (solutions.empty()) return {};
-    // More than one sol -- find the 'best' one:
-    size_t best{0};
-    if (solutions.size() > 1u) {
-      for (size_t i=0; i<solutions.size(); ++i){
-        bool better{true};
-        for (auto & j : solutions[i]) if (j.second <= 0) better = false;
-        if (better) best = i;
+    auto is_zero = [t_tol, n_tol](double x){return approx_float::scalar(x, 0., t_tol, t_tol, n_tol);};
+    // More than one sol -- find the 'best' one. Neighbouring leaves do not need
+    // to share all of their vertices, so use the one that needs the fewest points:
+    // that is a single point if the position is that of a vertex
+    size_t best{0}, fewest{5u};
+    for (size_t i=0; i<solutions.size(); ++i){
+      size_t count{0};
+      for (auto & j : solutions[i]) if (!is_zero(j.second)) ++count;
+      if (count < fewest) {
+        fewest = count;
+        best = i;
       }
     }
     // (Attempt to) deal with slightly-negative weights by reducing maximum
-- 
2.43.0


From 593dd3627f8bd0ddf30d31f92c676019bc23646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 50/64] fix: the nest allocates its vectors by their own shape
 and refuses points outside

---
 src/nest.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index fbd455f..a136a60 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -204,7 +204,6 @@ public:
       }
     }
     // (Attempt to) deal with slightly-negative weights by reducing maximum
-    auto is_zero = [t_tol, n_tol](double x){return approx_float::scalar(x, 0., t_tol, t_tol, n_tol);};
     auto sol = solutions[best];
     for (size_t i=0; i<4u; ++i){
       // check this in the loop incase sol[i] modified in previous loop
@@ -362,7 +361,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
@@ -377,6 +376,8 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty())
+        throw std::runtime_error("The point " + x.to_string(i) + " was not found in the Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From ae304a37bca4267c7ed458d225d5c36d969ac8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:36 +0000
Subject: [PATCH 51/64] fix: tetgen inserts points that rounding left just
 outside of a face

---
 lib/tetgen/tetgen.cxx | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 366bff8..586d2c5 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -25128,8 +25128,23 @@ int tetgenmesh::scout_point(point searchpt, triface *searchtet, int /*randflag*/
     loc = locate_point_walk(searchpt, searchtet, 0); // encflg = 0.
 
     if (loc == OUTSIDE) {
-      //randomsample(searchpt, searchtet);
-      searchtet->tet = NULL;
+      // The walk left the mesh through a face. Rounding alone can have put a
+      //   point of that face on its outside.
+      int t1ver;
+      triface chkface = *searchtet;
+      fsymself(chkface);
+      point pa = org(chkface);
+      point pb = dest(chkface);
+      point pc = apex(chkface);
+      REAL averlen = (distance(pa, pb) + distance(pb, pc) + distance(pc, pa)) / 3.;
+      REAL ori = orient3d(pa, pb, pc, searchpt, use_inexact, use_filter, o3d_filter);
+      if (fabs(ori) / (averlen * averlen * averlen) < b->epsilon) {
+        *searchtet = chkface;
+        loc = ONFACE;
+      } else {
+        //randomsample(searchpt, searchtet);
+        searchtet->tet = NULL;
+      }
     }
 
     iter++;
@@ -25415,6 +25430,11 @@ void tetgenmesh::insertconstrainedpoints(point *insertarray, int arylen,
     // Find the location of the inserted point.
     // Do not use 'recenttet', since the mesh may be non-convex.
     ivf.iloc = scout_point(insertarray[i], &searchtet, randflag);
+    if (ivf.iloc == (int) OUTSIDE) {
+      // Only points of the domain can be inserted.
+      unuverts++;
+      continue;
+    }
 
     // Decide the right type for this point.
     setpointtype(insertarray[i], FREEVOLVERTEX); // Default.
-- 
2.43.0


From eec6b75de475a106fd3480df4ee4319a2ba5bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:43 +0000
Subject: [PATCH 52/64] fix: real-space vectors and tensors rotate with the
 inverse operation, as axial ones do

---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..f878c8f 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From ff06c2760f4e2041081c52e98590b105442bb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:43 +0000
Subject: [PATCH 53/64] fix: displacements that do not match the atoms are
 refused instead of aborting

---
 src/interpolator_gamma.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..5ee3176 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -63,6 +63,10 @@ bool Interpolator<T>::rip_gamma_complex(
   auto no = this->count_scalars_vectors_matrices();
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
+  // for Γ transformations there *must* be one vector per atom
+  auto Nat = static_cast<ind_t>(pgt.lattice().basis().size());
+  if (no[1] && no[1] != Nat)
+    throw std::runtime_error("Atomic displacement Gamma transformation requires one vector per atom in the basis");
   // for Γ transformations of tensors, there *must* be N×N in total:
   ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
   if (no[2] != 9*Nmat*Nmat){
-- 
2.43.0


From f3b1c73c603f3474b62dd386e7e7fddba55a126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:43 +0000
Subject: [PATCH 54/64] fix: pairs of atoms have tensors that turn with both
 atoms

---
 src/interpolator_gamma.tpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index 5ee3176..42abb36 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -68,11 +68,9 @@ bool Interpolator<T>::rip_gamma_complex(
   if (no[1] && no[1] != Nat)
     throw std::runtime_error("Atomic displacement Gamma transformation requires one vector per atom in the basis");
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
-    std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
-    return false;
-  }
+  ind_t Nmat = no[2] ? Nat : 0u;
+  if (no[2] != Nmat*Nmat)
+    throw std::runtime_error("Atomic displacement Gamma transformation requires NxN 3x3 tensors!");
   const ind_t b_{this->branches()}, s_{this->branch_span()};
   // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
   long long xsize = brille::utils::u2s<long long, ind_t>(x.size(0));
@@ -120,18 +118,18 @@ bool Interpolator<T>::rip_gamma_complex(
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          T phn = e_iqd_gt(i, n, iRii);
+          auto v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
-            ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
+            T phm = std::conj(e_iqd_gt(i, m, iRii));
+            auto k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
             brille::utils::mul_mat_mat(t0, 3u, xi+o+9u*(n*Nmat+m), rot[Rii].data());
             // next calculate R⁻¹*t0, storing in the temporary all matrix array
             brille::utils::mul_mat_mat(t1, 3u, rot[iRii].data(), t0);
-            // include the R R⁻¹ phase factor
-            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = Rph*iRph*t1[j];
+            // include the phase factors of both atoms
+            for (int j=0; j<9; ++j) tA[(v*Nmat+k)*9u+j] = phn*phm*t1[j];
           }
         }
         for (ind_t j=0; j<no[2]*9u; ++j) xi[o+j] = tA[j];
-- 
2.43.0


From 16b1cc3a9634bf8265e6255cdf2e4f04824bcf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:23 +0000
Subject: [PATCH 55/64] fix: tetgen searches for a point from a tetrahedron
 that is alive

---
 lib/tetgen/tetgen.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 586d2c5..6b3aa5e 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -25100,6 +25100,13 @@ int tetgenmesh::scout_point(point searchpt, triface *searchtet, int /*randflag*/
   enum locateresult loc = OUTSIDE;
   int maxiter = 100, iter = 0;
 
+  if (isdeadtet(recenttet)) {
+    // It went when the exterior was carved away. Any live one will do.
+    tetrahedrons->traversalinit();
+    recenttet.tet = tetrahedrontraverse();
+    recenttet.ver = 11;
+  }
+
   do {
     // 'searchtet' must be a valid tetrahedron.
     if (searchtet->tet == NULL) {
-- 
2.43.0


From 0a6f93cfe5fe8c08097620a0808403908eb07c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:28 +0000
Subject: [PATCH 56/64] fix: the mesh finds points on its surface within its
 own tolerance

---
 src/mesh.hpp                 | 12 +++++++++---
 src/triangulation_layers.hpp | 32 ++++++++++++++++----------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index 5bad7b7..565a54e 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -85,6 +85,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
@@ -145,9 +147,11 @@ public:
     // Interpolator2::interpolate_at through the constructor:
     brille::Array2<DataValues> vals2(vals);
     brille::Array2<DataVectors> vecs2(vecs);
+    auto t = approx_.reciprocal<double>();
+    auto n = approx_.digit();
     for (ind_t i=0; i<x.size(0); ++i){
       verbose_update("Locating ",x.to_string(i));
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->mesh.locate(x.view(i), t, n);
       if (verts_weights.size()<1){
         debug_update("Point ",x.to_string(i)," not found in tetrahedra!");
         throw std::runtime_error("Point not found in tetrahedral mesh");
@@ -175,11 +179,13 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
+    auto t = approx_.reciprocal<double>();
+    auto n = approx_.digit();
     size_t unfound{0};
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize, t, n) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->mesh.locate(x.view(i), t, n);
       if (verts_weights.size()){
         data_.interpolate_at(verts_weights, vals2, vecs2, i);
       } else {
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 487cf21..cc6e38e 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -153,34 +153,34 @@ public:
   //   }
   //   return nTetrahedra;
   // }
-  ind_t locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
-    return unsafe_locate(x, vw);
+    return unsafe_locate(x, vw, t, n);
   }
-  ind_t unsafe_locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t unsafe_locate(const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     // no specified tetrahedra to check against, so check them all
     std::vector<ind_t> tosearch(nTetrahedra);
     std::iota(tosearch.begin(), tosearch.end(), 0u);
-    return unsafe_locate(tosearch, x, vw);
+    return unsafe_locate(tosearch, x, vw, t, n);
   }
-  ind_t locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
     if (std::any_of(tosearch.begin(), tosearch.end(), [this](ind_t a){return a>=this->nTetrahedra;}))
       throw std::domain_error("Out-of-bounds tetrahedra index to search");
-    ind_t found = this->unsafe_locate(tosearch, x, vw);
+    ind_t found = this->unsafe_locate(tosearch, x, vw, t, n);
     if (found >= nTetrahedra)
       throw std::runtime_error("The point was not located!");
     return found;
   }
-  ind_t unsafe_locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw) const {
+  ind_t unsafe_locate(const std::vector<ind_t>& tosearch, const vert_t& x, std::vector<std::pair<ind_t,double>>& vw, const double t=0., const int n=1) const {
     std::array<double,4> ws{};
     vw.clear();// make sure w is back to zero-elements
     for (ind_t idx: tosearch){
-      if (this->unsafe_might_contain(idx, x) && this->unsafe_contains(idx, x, ws)){
+      if (this->unsafe_might_contain(idx, x, t, n) && this->unsafe_contains(idx, x, ws, t, n)){
         // unsafe_contains sets the weights in ws
-        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0.))
+        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0., t, t, n))
           vw.emplace_back(vertices_per_tetrahedron.val(idx,i), ws[i]);
         return idx;
       }
@@ -251,16 +251,16 @@ public:
     return keys;
   }
 protected:
-  [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
-    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet]);
+  [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x, const double t=0., const int n=1) const {
+    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet], t, n);
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
     return this->unsafe_contains(tet,x,w);
   }
-  bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
+  bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w, const double t=0., const int n=1) const {
     this->weights(tet, x, w);
-    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||brille::approx_float::scalar(z,0.)); });
+    return std::all_of(w.begin(), w.end(), [t,n](double z){ return (z>0.||brille::approx_float::scalar(z, 0., t, t, n)); });
   }
   void weights(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     const ind_t* i = vertices_per_tetrahedron.ptr(tet);
@@ -399,7 +399,7 @@ public:
   //   return this->locate(x, v, w);
   // }
   [[nodiscard]] std::vector<std::pair<ind_t,double>>
-  locate(const bArray<double>& x) const {
+  locate(const bArray<double>& x, const double t=0., const int n=1) const {
     if (x.ndim()!=2u || x.size(0)!=1u || x.size(1)!=3u)
       throw std::runtime_error("locate requires a single 3-element vector.");
     if (layers.size() < 1)
@@ -407,13 +407,13 @@ public:
     // setup temporary vertex(index) and weight vectors
     std::vector<std::pair<ind_t,double>> vw;
     // find the point within the highest-layer tetrahedra:
-    ind_t idx = layers[0].unsafe_locate(x,vw);
+    ind_t idx = layers[0].unsafe_locate(x, vw, t, n);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
       // no tetrahedron of the higher layer contains the point
       if (idx >= layers[i-1].number_of_tetrahedra()) return {};
       const TetSet& tosearch = connections[i-1][idx];
-      idx = layers[i].unsafe_locate(tosearch, x, vw);
+      idx = layers[i].unsafe_locate(tosearch, x, vw, t, n);
     }
     return vw;
   }
-- 
2.43.0


From 494571f8ce185a8eccfa7dc01a58a1afca5371bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 57/64] fix: the trellis finds points near its planes within
 its own tolerance

---
 src/trellis_poly.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 6945d92..2d3043b 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -72,11 +72,11 @@ static size_t find_bin(const std::vector<T>& bin_edges, const T x){
   return d>0 ? d-1 : d;
 }
 template<class T>
-static int on_boundary(const std::vector<T>& bin_edges, const T x, const size_t i){
+static int on_boundary(const std::vector<T>& bin_edges, const T x, const size_t i, const T t=T(0), const int n=1){
   // if (i==0) then above d was *either* 0 or 1, otherwise d = i + 1;
   // if (i==0) we can't go lower in either case, so no problem.
-  if (i+2<bin_edges.size() && brille::approx_float::scalar(bin_edges[i+1],x)) return  1;
-  if (i  >0                && brille::approx_float::scalar(bin_edges[i  ],x)) return -1;
+  if (i+2<bin_edges.size() && brille::approx_float::scalar(bin_edges[i+1], x, t, t, n)) return  1;
+  if (i  >0                && brille::approx_float::scalar(bin_edges[i  ], x, t, t, n)) return -1;
   return 0;
 }
 
@@ -404,7 +404,7 @@ public:
       // directions. if we are, on_boundary returns the direction in which we
       // can safely take a step without leaving the binned region
       for (ind_t i=0; i<3; ++i)
-        close[i] = on_boundary(knots_[i], pos[i], sub[i]);
+        close[i] = on_boundary(knots_[i], pos[i], sub[i], approx_.template reciprocal<VertexComponents>(), approx_.digit());
       auto num_close = std::count_if(close.begin(), close.end(), [](int a){return a!=0;});
       // check one
       std::array<ind_t,3> newsub{sub};
-- 
2.43.0


From d3de757b5dbc3b762700db7a8017d229146b1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:53 +0000
Subject: [PATCH 58/64] fix: a vertex at Gamma but for rounding is Gamma when
 triangulating

---
 src/triangulation_poly.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 99b2b7c..7a52c87 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -64,7 +64,9 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   debug_update_if(addGamma,"Check whether the Gamma point is present");
   bool gammaPresent{false};
   if (addGamma){
-    gammaPresent = points.row_is(brille::cmp::eq, 0 * points.view(0)).any();
+    // tetgen can not insert a point closer to another one than its own tolerance
+    const T close = static_cast<T>(tgb.epsilon) * norm(points).max(0)[0];
+    gammaPresent = points.row_is(brille::cmp::eq, 0 * points.view(0), close, close).any();
   }
   debug_update("Initialize and fill the input object's facetlist parameter");
   tgi.numberoffacets = static_cast<int>(f.size());
-- 
2.43.0


From 2e69fbe845af28ef001dbfd70583af3e1066bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:12 +0000
Subject: [PATCH 59/64] fix: the phased copy of a real vector is the vector

---
 src/utilities.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 3919645..115b29c 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,9 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* p) {
+    for (I i=0; i<n; ++i) p[i] = b[i];
+  }
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From 690d99e1227dd6f330e1cb016c3c9bdaca28b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:23 +0000
Subject: [PATCH 60/64] fix: permutations of modes are forgotten when the modes
 are replaced

---
 src/interpolatordual.hpp  | 2 ++
 src/permutation_table.hpp | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 50bdca0..095693c 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -217,6 +217,8 @@ public:
   void update_permutation_table(){
     // preserve the keys in the permutation table, if possible
     this->permutation_table_.refresh(this->size(), this->branches());
+    // but the permutations sorted whatever data was held before
+    this->permutation_table_.forget();
   }
   /*! Set the cost information for the eigenvalues
 
diff --git a/src/permutation_table.hpp b/src/permutation_table.hpp
index cdc2bd3..870a24c 100644
--- a/src/permutation_table.hpp
+++ b/src/permutation_table.hpp
@@ -127,6 +127,13 @@ public:
 		}
 		return invalidated;
 	}
+	//! Reset all double-index mappings to the identity permutation, keeping their keys
+	void forget(){
+		const size_t br{permutations[0].size()};
+		for (auto& itr: ijmap) itr.second = 0u; // all mapped values reset to the invalid value
+		permutations.clear();
+		this->add_zeroth(br);
+	}
 	//! Access the find method of the double-index map
 	std::map<size_t,size_t>::const_iterator find(const size_t i, const size_t j) const {
 		auto itr = this->ij2key(i,j);
-- 
2.43.0


From 63399b52323a54c93dd9ea63053d3d03af80f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:57 +0000
Subject: [PATCH 61/64] fix: tetgen draws from its own random numbers, not ones
 shared by all threads

---
 lib/tetgen/tetgen.cxx | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/tetgen/tetgen.cxx b/lib/tetgen/tetgen.cxx
index 6b3aa5e..3255a21 100644
--- a/lib/tetgen/tetgen.cxx
+++ b/lib/tetgen/tetgen.cxx
@@ -10740,7 +10740,7 @@ void tetgenmesh::transfernodes()
 //  exactinit(b->verbose);
 
   // Use the number of points as the random seed.
-  srand(in->numberofpoints);
+  randomseed = in->numberofpoints;
 
   // 'longest' is the largest possible edge length formed by input vertices.
   longest = sqrt(x * x + y * y + z * z);
@@ -11220,7 +11220,7 @@ enum tetgenmesh::locateresult
     
     // We enter from one of serarchtet's faces, which face do we exit?
     // Randomly choose one of three faces (containig  toppo) of this tet.
-    s = rand() % 3; // s \in \{0,1,2\}
+    s = randomnation(3); // s \in \{0,1,2\}
     for (i = 0; i < s; i++) enextself(*searchtet);
 
     oriorg = orient3d(dest(*searchtet), apex(*searchtet), toppo, searchpt, use_inexact, use_filter, o3d_filter);
@@ -11713,7 +11713,7 @@ int  tetgenmesh::insert_vertex_bw(point insertpt, triface *searchtet,
 
     // Set a handle for speeding point location.
     // Randomly pick a new tet.
-    i = rand() % f_out;
+    i = randomnation(f_out);
     recenttet = * (triface *) fastlookup(cavebdrylist, i);    
     setpoint2tet(insertpt, (tetrahedron) (recenttet.tet));
 
@@ -11797,7 +11797,7 @@ int  tetgenmesh::insert_vertex_bw(point insertpt, triface *searchtet,
     // Set a handle for speeding point location.
     //recenttet = newtet;
     //setpoint2tet(insertpt, (tetrahedron) (newtet.tet));
-    i = rand() % f_out;
+    i = randomnation(f_out);
     recenttet = * (triface *) fastlookup(cavebdrylist, i);
     // This is still an oldtet.
     fsymself(recenttet);
@@ -11974,9 +11974,9 @@ void tetgenmesh::incrementaldelaunay(clock_t& tv)
     if (b->verbose) {
       printf("  Permuting vertices.\n"); 
     }
-    srand(in->numberofpoints);
+    randomseed = in->numberofpoints;
     for (i = 0; i < in->numberofpoints; i++) {
-      randindex = rand() % (i + 1); // randomnation(i + 1);
+      randindex = randomnation(i + 1);
       permutarray[i] = permutarray[randindex];
       permutarray[randindex] = (point) points->traverse();
     }
@@ -19264,7 +19264,7 @@ int tetgenmesh::add_steinerpt_in_schoenhardtpoly(triface *abtets, int n,
 
   if (splitsliverflag) {
     // randomly pick a tet.
-    int idx = rand() % n;
+    int idx = randomnation(n);
 
     // Calulcate the barycenter of this tet.
     point pa = org(abtets[idx]);
@@ -25386,9 +25386,9 @@ void tetgenmesh::insertconstrainedpoints(point *insertarray, int arylen,
     }
     point swappoint;
     int randindex;
-    srand(arylen);
+    randomseed = arylen;
     for (i = 0; i < arylen; i++) {
-      randindex = rand() % (i + 1); 
+      randindex = randomnation(i + 1);
       swappoint = insertarray[i];
       insertarray[i] = insertarray[randindex];
       insertarray[randindex] = swappoint;
@@ -25707,9 +25707,9 @@ void tetgenmesh::collectremovepoints(arraypool *remptlist)
       // Sort the list of points randomly.
       point *parypt_i, swappt;
       int randindex, i;
-      srand(intptlist->objects);
+      randomseed = intptlist->objects;
       for (i = 0; i < intptlist->objects; i++) {
-        randindex = rand() % (i + 1); // randomnation(i + 1);
+        randindex = randomnation(i + 1);
         parypt_i = (point *) fastlookup(intptlist, i); 
         parypt = (point *) fastlookup(intptlist, randindex);
         // Swap this two points.
@@ -27630,7 +27630,7 @@ tetgenmesh::locate_on_surface(point searchpt, face* searchsh)
         enextself(searchtet);
       } else if (ori2 < 0) {
         // Randomly choose one.
-        if (rand() % 2) { // flipping a coin.
+        if (randomnation(2)) { // flipping a coin.
           //E.ver = _enext_tbl[E.ver];
           enextself(searchtet);
         } else {
@@ -29055,7 +29055,7 @@ void tetgenmesh::repairbadtets(REAL queratio, int chkencflag)
 
 
     // Randomly select a tet to split.
-    i = rand() % check_tets_list->objects;
+    i = randomnation(check_tets_list->objects);
     quetet = (triface *) fastlookup(check_tets_list, i);
     checktet = *quetet;
     
-- 
2.43.0


From aceb7c4b9aaca2279c2fe142c6a3e9392d44008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:40 +0000
Subject: [PATCH 62/64] fix: sorting a point group keeps the order of equals,
 so that what is loaded is ordered as what was stored

---
 src/pointsymmetry.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index b72822a..7874b1b 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -136,13 +136,13 @@ void PointSymmetry::sort(const int mode) {
   auto idw = [](Matrix<int> a, Matrix<int> b){ return isometry_value(a.data()) > isometry_value(b.data());};
   switch(mode){
     // sort by isometry, decreasing
-    case -2: std::sort(this->R.begin(),this->R.end(),idw); break;
+    case -2: std::stable_sort(this->R.begin(),this->R.end(),idw); break;
     // sort by order, decreasing
-    case -1: std::sort(this->R.begin(),this->R.end(),odw); break;
+    case -1: std::stable_sort(this->R.begin(),this->R.end(),odw); break;
     // sort by isometry, increasing
-    case  2: std::sort(this->R.begin(),this->R.end(),iup); break;
+    case  2: std::stable_sort(this->R.begin(),this->R.end(),iup); break;
     // sort by order, increasing
-    default: std::sort(this->R.begin(),this->R.end(),oup);
+    default: std::stable_sort(this->R.begin(),this->R.end(),oup);
   }
 }
 void PointSymmetry::permute(const std::vector<size_t>& p){
-- 
2.43.0


From 40b8955338142c44e09016476c330d41f3f60054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:40 +0000
Subject: [PATCH 63/64] fix: a loaded interpolator takes its vector cost
 function from where it was stored

---
 src/interpolator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..e10c7fb 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -660,7 +660,7 @@ private:
     group.getDataSet("costmult").read(c);
     group.getDataSet("funtype").read(f);
     //
-    return {d, s, e, r, l, static_cast<int>(f[0]), static_cast<int>(f[1]), c};
+    return {d, s, e, r, l, static_cast<int>(f[1]), static_cast<int>(f[0]), c};
   }
   static Interpolator<T> from_hdf(const std::string& filename, const std::string& dataset){
     HighFive::File file(filename, HighFive::File::ReadOnly);
-- 
2.43.0


From ca1801f0fcb6082c3bb2ec03198d88909909f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:06 +0000
Subject: [PATCH 64/64] fix: a loaded point group has its operations in the
 order they were stored

---
 src/pointsymmetry.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pointsymmetry.hpp b/src/pointsymmetry.hpp
index 58383bf..7310a40 100644
--- a/src/pointsymmetry.hpp
+++ b/src/pointsymmetry.hpp
@@ -107,9 +107,9 @@ public:
     from_hdf(HF& obj, const std::string& entry){
         std::vector<HF_Matrix<int>> hfm;
         obj.getDataSet(entry).read(hfm);
-        Matrices<int> m;
-        for (const auto& x: hfm) m.push_back(x.array());
-        return PointSymmetry(m);
+        PointSymmetry p; // keep the stored order, which need not be sorted
+        for (const auto& x: hfm) p.R.push_back(x.array());
+        return p;
     }
 
 };
-- 
2.43.0

