From 586b1bf659426976c002b23ea77f13afd6c0df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 01/38] fix: is_sorted() read out of bounds on empty vectors
 and rejected equal neighbours

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..635958a 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -108,8 +108,10 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
+        if (v.empty()) return true;
+
         for (uint_t i : range(1, v.size())) {
-            if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
+            if (typename vec<Dim,Type>::comparator_less()(v.data[i], v.data[i-1])) return false;
         }
 
         return true;
-- 
2.43.0


From 6f81b2ef266da802cd19b18af9e9207a0a38af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 02/38] fix: inplace_shift()/shift() divided by zero on empty
 vectors and overflowed on the smallest shift

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 635958a..e7dfc74 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,7 +12,9 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
-        n = (-n) % int_t(v.size());
+        if (v.empty()) return;
+
+        n = -(n % int_t(v.size()));
         if (n < 0) n = int_t(v.size())+n;
 
         if (n != 0) {
-- 
2.43.0


From aed5017badcc9c28b270ac4bc55c7beda49cccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 03/38] fix: replicate() divided by zero when replicating an
 empty vector

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index e7dfc74..e695526 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -55,6 +55,8 @@ namespace vif {
         static const std::size_t FDim = Dim+meta::dim_total<Args...>::value;
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
+        if (t.empty()) return v;
+
         std::size_t pitch = t.size();
         std::size_t n = v.size()/pitch;
         for (uint_t i : range(n))
-- 
2.43.0


From 5b472db4a440bab84e6937dff753964fe7522e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 04/38] fix: inplace_remove() accepted repeated indices, and
 out of range indices of multi-dimensional vectors

---
 include/vif/utility/bits/generic-rearrange.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index e695526..67fa41d 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -128,7 +128,7 @@ namespace vif {
 
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
+        uint_t osize = v.dims[0];
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
@@ -138,9 +138,10 @@ namespace vif {
 
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
+                vif_check(i0 != ids.safe[ids.size()-1-i], "remove indices contain duplicates");
+
                 i0 = ids.safe[ids.size()-1-i];
 
-                vif_check(i0 != i1, "remove indices contain duplicates");
                 vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
                     "dimensions ", v.dims);
 
-- 
2.43.0


From e49cb296d9f1d3789dc7e48c91f4b8feaffcce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 05/38] fix: append<N>()/prepend<N>() accepted vectors whose
 other dimensions differ

---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 67fa41d..7c24781 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -172,8 +172,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
@@ -195,8 +197,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From a1a5aa2823294d76ee29b1851c648f8a8f0cb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 06/38] fix: match() gave different results for large vectors
 (order, repeated values, NaN values)

---
 include/vif/utility/bits/generic-find.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 99e4769..a1050ea 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -225,6 +225,8 @@ namespace vif {
             // Sort the two vectors and traverse
             vec1u ids1 = sort(v1);
             vec1u ids2 = sort(v2);
+            vec1u found(n1);
+            for (uint_t& f : found) f = npos;
 
             uint_t i1 = 0, i2 = 0;
             while (i1 < n1 && i2 < n2) {
@@ -234,10 +236,20 @@ namespace vif {
                     ++i1;
                 } else if (tv1 > tv2) {
                     ++i2;
+                } else if (tv1 == tv2) {
+                    found.safe[ids1.safe[i1]] = ids2.safe[i2];
+                    ++i1;
                 } else {
-                    id1.data.push_back(ids1.safe[i1]);
-                    id2.data.push_back(ids2.safe[i2]);
-                    ++i1; ++i2;
+                    // Only NaN values left
+                    break;
+                }
+            }
+
+            // Return matches in the order of v1, as above
+            for (uint_t i : range(n1)) {
+                if (found.safe[i] != npos) {
+                    id1.data.push_back(i);
+                    id2.data.push_back(found.safe[i]);
                 }
             }
 
-- 
2.43.0


From 12aaf1f08b360d3d9efce3b9b0d47d990a94b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 07/38] fix: equal_range() returned one past the last index,
 and positions of absent values

---
 include/vif/utility/bits/generic-find.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index a1050ea..4c7f9d3 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -433,9 +433,9 @@ namespace vif {
         auto tres = std::equal_range(v.data.begin(), v.data.end(), x,
             typename vec<Dim,Type>::comparator_less());
 
-        if (tres.first != v.data.end()) {
+        if (tres.first != tres.second) {
             res[0] = tres.first - v.data.begin();
-            res[1] = tres.second - v.data.begin();
+            res[1] = tres.second - v.data.begin() - 1;
         } else {
             res[0] = res[1] = npos;
         }
-- 
2.43.0


From d31190086431e43cc30d9a84f1d12add8170e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 08/38] fix: set_union()/set_intersection() did not compile for
 views

---
 include/vif/utility/bits/generic-find.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 4c7f9d3..b065b1c 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -286,10 +286,10 @@ namespace vif {
         }
 
         template<std::size_t D, typename T>
-        vec<D,meta::rtype_t<T>> make_sorted_(vec<D,T*> v) {
-            auto tv = v.concretize();
+        vec<D,meta::rtype_t<T*>> make_sorted_(vec<D,T*> v) {
+            vec<D,meta::rtype_t<T*>> tv = v;
             inplace_sort(tv);
-            return std::move(tv);
+            return tv;
         }
     }
 
-- 
2.43.0


From 999db720290919b9e0db9633554d490d2d2a5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:48 +0000
Subject: [PATCH 09/38] fix: range(i, e) truncated 'e' to the type of 'i', e.g.
 in range(1, v.size())

---
 include/vif/core/range.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/range.hpp b/include/vif/core/range.hpp
index f354349..7102bee 100644
--- a/include/vif/core/range.hpp
+++ b/include/vif/core/range.hpp
@@ -38,6 +38,22 @@ namespace impl {
         template<typename T>
         using dtype = typename dtype_impl<T, std::is_integral<T>::value>::type;
 
+        // Type of the values in a range from a 'T' to a 'U': that of the start value, widened if
+        // necessary so that the end value is not truncated
+        template<typename T, typename U, bool widen = std::is_integral<U>::value && (sizeof(U) > sizeof(T))>
+        struct vtype_impl {
+            using type = T;
+        };
+
+        template<typename T, typename U>
+        struct vtype_impl<T,U,true> {
+            using type = typename std::conditional<std::is_signed<T>::value,
+                typename std::make_signed<U>::type, typename std::make_unsigned<U>::type>::type;
+        };
+
+        template<typename T, typename U>
+        using vtype = typename vtype_impl<T,U>::type;
+
         template <typename T>
         dtype<T> make_step(dtype<T> e, dtype<T> b, dtype<T> n) {
             return (e-b)/n;
@@ -184,8 +200,9 @@ namespace impl {
 
     // Define a range from start 'i', end 'e' (exclusive) in integer steps
     template<typename T, typename U = T, typename enable = typename std::enable_if<std::is_integral<T>::value>::type>
-    impl::range_impl::range_t<T> range(T i, U e) {
-        return range(i, e, std::abs(impl::range_impl::dtype<T>(e)-impl::range_impl::dtype<T>(i)));
+    impl::range_impl::range_t<impl::range_impl::vtype<T,U>> range(T i, U e) {
+        using V = impl::range_impl::vtype<T,U>;
+        return range(V(i), e, std::abs(impl::range_impl::dtype<V>(e)-impl::range_impl::dtype<V>(i)));
     }
 
     // Define a range from '0' to 'n' (exclusive) in integer steps
-- 
2.43.0


From 5f1466499892787cc71b32a57eba1b72d0fa3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 10/38] fix: negative indices of narrow integer types reached
 the wrong element, or looped for ever

---
 include/vif/core/bits/access.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..dff3e9a 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -281,6 +281,13 @@ namespace vec_access {
         return vif::range(rng.first, rng.last+1);
     }
 
+    // Translate a strictly negative index, counted backward from the end of the array. The
+    // calculation must not be done with type 'T', which may be too narrow to hold 'size'.
+    template<typename T>
+    uint_t wrap_idx(uint_t size, T i) {
+        return size - 1 - static_cast<uint_t>(-(i + 1)) % size;
+    }
+
     template<typename T>
     uint_t to_idx_(uint_t size, T ui, meta::cte_t<false>) {
         vif_check(ui < size, "operator[]: index out of bounds (", ui, " vs. ", size, ")");
@@ -290,8 +297,7 @@ namespace vec_access {
     template<typename T>
     uint_t to_idx_(uint_t size, T i, meta::cte_t<true>) {
         vif_check(size > 0, "operator[]: index out of bounds (", i, " vs. ", size, ")");
-        while (i < 0) i += size;
-        uint_t ui(i);
+        uint_t ui(i < 0 ? wrap_idx(size, i) : i);
         vif_check(ui < size, "operator[]: index out of bounds (", ui, " vs. ", size, ")");
         return ui;
     }
@@ -305,8 +311,7 @@ namespace vec_access {
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T i, meta::cte_t<true>) {
         vif_check(dims[I] > 0, "operator[]: index out of bounds (", i, " vs. ", dims[I], ")");
-        while (i < 0) i += dims[I];
-        uint_t ui(i);
+        uint_t ui(i < 0 ? wrap_idx(dims[I], i) : i);
         vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
-- 
2.43.0


From 712f1802ca496f1d582514d08c1c4debd66c5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 11/38] fix: out of bounds read of the dimensions when
 reporting an out of bounds index

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index dff3e9a..905942d 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -304,7 +304,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From 45d3458e849b01810338e93bc23c4a4f8d1fb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 12/38] fix: ranges past the end of an array, or reversed,
 allocated memory before being checked and threw an exception

---
 include/vif/core/range.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/core/range.hpp b/include/vif/core/range.hpp
index 7102bee..51ed31b 100644
--- a/include/vif/core/range.hpp
+++ b/include/vif/core/range.hpp
@@ -176,12 +176,17 @@ namespace impl {
             return size;
         }
         inline uint_t range_size(left_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return rng.last+1;
         }
         inline uint_t range_size(right_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return size - rng.first;
         }
         inline uint_t range_size(left_right_range_t rng, uint_t size) {
+            check_bounds(rng, size);
+            vif_check(rng.first <= rng.last+1, "lower bound of range is greater than its upper bound "
+                "(", rng.first, " vs. ", rng.last, ")");
             return (rng.last+1) - rng.first;
         }
     }
-- 
2.43.0


From 35ea39bac8a48e48cfee57671820653eff7d9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:49 +0000
Subject: [PATCH 13/38] fix: negative indices in index lists were rejected by
 operator()

---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 905942d..93a8719 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -427,7 +427,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -462,7 +462,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -547,7 +547,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From e1bb514c2636a65aff2b2059fd5b3c5ea116a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:10 +0000
Subject: [PATCH 14/38] fix: arrays that were moved from by assignment,
 flatten() or reform() kept their dimensions

---
 include/vif/core/vec.hpp                  | 5 ++++-
 include/vif/utility/bits/generic-dims.hpp | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..acda132 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -146,7 +146,10 @@ namespace vif {
 
         vec& operator = (vec&& v) {
             data = std::move(v.data);
-            dims = std::move(v.dims);
+            dims = v.dims;
+            for (uint_t i : range(Dim)) {
+                v.dims[i] = 0;
+            }
             return *this;
         }
 
diff --git a/include/vif/utility/bits/generic-dims.hpp b/include/vif/utility/bits/generic-dims.hpp
index fb21603..4917dae 100644
--- a/include/vif/utility/bits/generic-dims.hpp
+++ b/include/vif/utility/bits/generic-dims.hpp
@@ -21,6 +21,7 @@ namespace vif {
         vec<1,Type> r;
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.clear();
         return r;
     }
 
@@ -70,6 +71,7 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.clear();
 
         return r;
     }
-- 
2.43.0


From 45bf26782855f41e962c166dc9085fb3bef7f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 15/38] fix: assignments from a const view of the assigned
 array were not protected against aliasing

---
 include/vif/core/vec.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index acda132..ecc2de8 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -194,8 +194,8 @@ namespace vif {
             return false;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        template<std::size_t D, typename T>
+        bool view_same(const vec<D,T*>& v) const {
             return v.view_same(*this);
         }
 
@@ -801,19 +801,14 @@ namespace vif {
 
         template<std::size_t D, typename T>
         bool view_same(const vec<D,T>& v) const {
-            return false;
+            return static_cast<const void*>(&v) == parent;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        template<std::size_t D, typename T>
+        bool view_same(const vec<D,T*>& v) const {
             return v.parent == parent;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
-        }
-
         bool empty() const {
             return data.empty();
         }
-- 
2.43.0


From 22391bbbf6e5ca4da476da8415dd19e39135f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 16/38] fix: a range of a view referred to that view instead of
 the original array, defeating the protection against aliasing

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 93a8719..c38294e 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -648,7 +648,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From 72f5196049d3546304918d374f71a5bc1855d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:39 +0000
Subject: [PATCH 17/38] fix: compound assignment by one of the array's own
 elements used its modified value

---
 include/vif/core/vec.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index ecc2de8..a789fb5 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -593,8 +593,9 @@ namespace vif {
                 meta::is_scalar<U>::value \
             >::type> \
             vec& operator op (const U& u) { \
+                const typename std::decay<const U&>::type t = u; /* may be an element of this vector */ \
                 for (auto& v : data) { \
-                    v op u; \
+                    v op t; \
                 } \
                 return *this; \
             }
-- 
2.43.0


From 3825a7b739a2e2343e032673985d84320597f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 18/38] fix: vectorize_lambda_first() moved its extra arguments
 into the first call, leaving nothing for the others

---
 include/vif/core/bits/vectorize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/bits/vectorize.hpp b/include/vif/core/bits/vectorize.hpp
index 18b5fe7..33b34c3 100644
--- a/include/vif/core/bits/vectorize.hpp
+++ b/include/vif/core/bits/vectorize.hpp
@@ -160,7 +160,7 @@ namespace vif {
                 vec<D,typename std::decay<decltype(lambda(std::declval<const meta::rtype_t<T>&>(),
                     std::forward<Args>(args)...))>::type> ret(t.dims);
                 for (uint_t i : range(t)) {
-                    ret.safe[i] = lambda(t.safe[i], std::forward<Args>(args)...);
+                    ret.safe[i] = lambda(t.safe[i], args...);
                 }
                 return ret;
             }
@@ -172,7 +172,7 @@ namespace vif {
                 vec<D,typename std::decay<decltype(lambda(std::declval<meta::rtype_t<T>>(),
                     std::forward<Args>(args)...))>::type> ret(t.dims);
                 for (uint_t i : range(t)) {
-                    ret.safe[i] = lambda(std::move(t.safe[i]), std::forward<Args>(args)...);
+                    ret.safe[i] = lambda(std::move(t.safe[i]), args...);
                 }
                 return ret;
             }
-- 
2.43.0


From 8810d1d911128995553f6feeb516f95264b55656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:53 +0000
Subject: [PATCH 19/38] fix: flat_id() with a vector of indices did not compile

---
 include/vif/utility/bits/generic-indices.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/vif/utility/bits/generic-indices.hpp b/include/vif/utility/bits/generic-indices.hpp
index 6588053..953c3c9 100644
--- a/include/vif/utility/bits/generic-indices.hpp
+++ b/include/vif/utility/bits/generic-indices.hpp
@@ -55,6 +55,12 @@ namespace vif {
                 std::forward<Args>(args)...);
         }
 
+        template<std::size_t D, typename TI>
+        uint_t flat_id_(const std::array<uint_t,D>&, uint_t ret, meta::cte_t<D>,
+            const vec<1,TI>&) {
+            return ret;
+        }
+
         template<std::size_t D, std::size_t I, typename TI>
         uint_t flat_id_(const std::array<uint_t,D>& dims, uint_t ret,
             meta::cte_t<I>, const vec<1,TI>& ids) {
@@ -65,13 +71,15 @@ namespace vif {
         }
     }
 
-    template<std::size_t D, typename ... Args>
+    template<std::size_t D, typename ... Args, typename enable = typename std::enable_if<
+        meta::are_all_true<meta::bool_list<!meta::is_vec<Args>::value...>>::value>::type>
     uint_t flat_id(const std::array<uint_t,D>& dims, Args&& ... args) {
         static_assert(sizeof...(Args) == D, "wrong number of IDs provided");
         return impl::flat_id_(dims, 0, meta::cte_t<0>{}, std::forward<Args>(args)...);
     }
 
-    template<std::size_t D, typename T, typename ... Args>
+    template<std::size_t D, typename T, typename ... Args, typename enable = typename std::enable_if<
+        meta::are_all_true<meta::bool_list<!meta::is_vec<Args>::value...>>::value>::type>
     uint_t flat_id(const vec<D,T>& v, Args&& ... args) {
         return flat_id(v.dims, std::forward<Args>(args)...);
     }
@@ -79,7 +87,7 @@ namespace vif {
     template<std::size_t D, typename TI>
     uint_t flat_id(const std::array<uint_t,D>& dims, const vec<1,TI>& ids) {
         vif_check(ids.size() == D, "wrong number of IDs provided");
-        return impl::flat_id_(dims, meta::cte_t<0>{}, ids);
+        return impl::flat_id_(dims, 0, meta::cte_t<0>{}, ids);
     }
 
     template<std::size_t D, typename T, typename TI>
-- 
2.43.0


From d9e6c983f0a935b6fe5ea5a242642741249d4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:53 +0000
Subject: [PATCH 20/38] fix: increment_index_list() wrote out of bounds for an
 empty list

---
 include/vif/utility/bits/generic-indices.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/generic-indices.hpp b/include/vif/utility/bits/generic-indices.hpp
index 953c3c9..b3217f6 100644
--- a/include/vif/utility/bits/generic-indices.hpp
+++ b/include/vif/utility/bits/generic-indices.hpp
@@ -99,7 +99,7 @@ namespace vif {
     // This is an alternative to a recursive loop.
     inline void increment_index_list(vec1u& ids, const vec1u& n) {
         uint_t i = ids.size();
-        do {
+        while (i != 0) {
             --i;
             ++(ids.safe[i]);
             if (ids.safe[i] == n.safe[i]) {
@@ -107,12 +107,12 @@ namespace vif {
             } else {
                 break;
             }
-        } while (i != 0);
+        }
     }
 
     inline void increment_index_list(vec1u& ids, const uint_t& n) {
         uint_t i = ids.size();
-        do {
+        while (i != 0) {
             --i;
             ++(ids.safe[i]);
             if (ids.safe[i] == n) {
@@ -120,6 +120,6 @@ namespace vif {
             } else {
                 break;
             }
-        } while (i != 0);
+        }
     }
 }
-- 
2.43.0


From 9b83c41e6e228f2880bf09bb08804538d8c9ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 21/38] fix: percentiles of data containing NaN no longer
 return NaN for the highest ranks

---
 include/vif/math/reduce.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..7698ba2 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -213,7 +213,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +231,7 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
@@ -244,6 +244,7 @@ namespace vif {
 
         vec<1,meta::rtype_t<Type>> r(sizeof...(Args));
         uint_t nwrong = impl::count_nans_(v);
+        if (nwrong == v.size()) nwrong = 0; // only NaNs, any will do
         impl::percentiles_(r, 0, v, nwrong, args...);
         return r;
     }
-- 
2.43.0


From f85a1e912ce9d004fceb6af00a834f5b506adb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:45 +0000
Subject: [PATCH 22/38] fix: cumul_reverse accumulates all the following
 elements, not just the next one

---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..222d137 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -379,7 +379,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From 981ab801bc6e44f016c063417a56a493e6f5958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 23/38] fix: replacing an empty pattern leaves the string
 unchanged instead of looping forever

---
 include/vif/utility/bits/string-find-replace.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..6eba884 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -13,6 +13,8 @@ namespace vif {
     }
 
     inline std::string replace(std::string s, const std::string& pattern, const std::string& rep) {
+        if (pattern.empty()) return s;
+
         auto p = s.find(pattern);
         while (p != s.npos) {
             s.replace(p, pattern.size(), rep);
-- 
2.43.0


From d583091094be382a35f39613e840f9f49c9274dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 24/38] fix: replace_blocks() looks for separators only up to
 the end of the block

---
 include/vif/utility/bits/string-find-replace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 6eba884..a71d5d1 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -180,7 +180,7 @@ namespace vif {
             vec1s b;
 
             p0 = os.find(sep, p);
-            while (p0 != npos) {
+            while (p0 != npos && p0 <= os.find(end, p)) {
                 b.push_back(os.substr(p, p0-p));
                 p0 += sep.size();
                 p = p0;
-- 
2.43.0


From b4d1b1b22eab2d6667277c7fa6dc980ca9e44a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 25/38] fix: splitting on an empty pattern returns the whole
 string instead of looping forever

---
 include/vif/utility/bits/string-split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..968d360 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -7,7 +7,7 @@ namespace vif {
     vec1s split(const std::string& ts, const T& pattern) {
         vec1s ret;
         std::size_t p = 0, op = 0;
-        while ((p = ts.find(pattern, op)) != ts.npos) {
+        while (length(pattern) != 0 && (p = ts.find(pattern, op)) != ts.npos) {
             ret.data.push_back(ts.substr(op, p - op));
             op = p + length(pattern);
         }
-- 
2.43.0


From c4c743ff7aa788f360780c8ab97cbbeb2ceb48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:17 +0000
Subject: [PATCH 26/38] fix: cut() keeps the last line when it is shorter than
 the others

---
 include/vif/utility/bits/string-split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 968d360..ba07218 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -38,7 +38,7 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        uint_t ncut = ts.size()/size + (ts.size()%size != 0 ? 1 : 0);
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From 6ca6081d90d359525a80547f27f92b5018caa15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:38 +0000
Subject: [PATCH 27/38] fix: get_word() of a text made of a single word at its
 start returned an empty string

---
 include/vif/utility/bits/string-find-replace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index a71d5d1..c6c7cae 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -131,8 +131,8 @@ namespace vif {
                 ++nw;
             }
 
-            p2 = (p2 == str.npos ? str.npos : p2-1);
-            return str.substr(p1, p2-p1+1);
+            p2 = (p2 == str.npos ? str.size() : p2);
+            return str.substr(p1, p2-p1);
         }
     }
 
-- 
2.43.0


From b504d9ee22020937644580576bed0f0a37807b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 28/38] fix: get_basename() of a directory without parent or
 with repeated separators returns its name

---
 include/vif/io/filesystem.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..ae49110 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -211,14 +211,15 @@ namespace file {
         } else {
             auto lpos = path.find_last_not_of(' ');
             if (pos == lpos) {
-                if (pos == 0) {
+                lpos = path.find_last_not_of('/', pos);
+                if (lpos == path.npos) {
                     return "/";
                 } else {
-                    pos = path.find_last_of('/', pos-1);
+                    pos = path.find_last_of('/', lpos);
                     if (pos == path.npos) {
-                        return path.substr(lpos);
+                        return path.substr(0, lpos+1);
                     } else {
-                        return path.substr(pos+1, lpos-pos-1);
+                        return path.substr(pos+1, lpos-pos);
                     }
                 }
             } else {
-- 
2.43.0


From b161d520883dee7449371b65416552fb052ef2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 29/38] fix: get_directory() of a directory given with repeated
 separators returns its parent

---
 include/vif/io/filesystem.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index ae49110..484823b 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -252,10 +252,11 @@ namespace file {
         if (pos == path.npos) {
             return "./";
         } else if (pos == path.find_last_not_of(' ')) {
-            if (pos == 0) {
+            pos = path.find_last_not_of('/', pos);
+            if (pos == path.npos) {
                 return "/";
             } else {
-                pos = path.find_last_of('/', pos-1);
+                pos = path.find_last_of('/', pos);
                 if (pos == path.npos) {
                     return "./";
                 } else {
-- 
2.43.0


From 95fc409263daca35eecc2120499c5820d8c8d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:30 +0000
Subject: [PATCH 30/38] fix: parallel_for ran indices past the end of its
 range, and lost indices when the range did not start at zero

---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..bcf9b48 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, iend, i0, i1, di;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -102,8 +102,9 @@ namespace thread {
 
                 // Setup chunks
                 di = n/nchunk + 1;
+                iend = ilast;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, iend);
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From 483e5f17d74c7e9dbfd31ecf321be812d3ca391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:54 +0000
Subject: [PATCH 31/38] fix: shifting an empty image divided by zero

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..4f1229e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -260,6 +260,8 @@ namespace astro {
 
     template<typename T>
     void inplace_shift(vec<2,T>& v, int_t tsx, int_t tsy) {
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
         if (tsx < 0) tsx = int_t(v.dims[0])+tsx;
-- 
2.43.0


From 16b39d16ef4f131fc855a785c3a699dadd53a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:54 +0000
Subject: [PATCH 32/38] fix: translating an image by its size or more wrapped
 the offset around instead of clearing it (and divided by zero on empty
 images)

---
 include/vif/astro/image.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 4f1229e..cca1dd5 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -292,8 +292,10 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        // Beyond the size of the image, all pixels fall out of bounds
+        const int_t nx = v.dims[0], ny = v.dims[1];
+        tsx = std::max(-nx, std::min(nx, -tsx));
+        tsy = std::max(-ny, std::min(ny, -tsy));
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From b5ed69233a0020fa9fc7aaedf2652a5dd2cc1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 33/38] fix: cubic spline on an irregular grid divided the
 previous slope by the wrong interval

---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..16c3a2c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -285,7 +285,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From 8a84e6ee1e22d8727872b0800805675963a277df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 34/38] fix: interpolate() with uncertainties read out of
 bounds when there were too few uncertainties

---
 include/vif/math/interpolate.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 16c3a2c..3601e0f 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -116,6 +116,8 @@ namespace vif {
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
+        vif_check(y.dims == e.dims, "incompatible dimensions between Y and E arrays (", y.dims,
+            " vs. ", e.dims, ")");
         vif_check(y.size() >= 2, "interpolated data must contain at least 2 elements");
 
         uint_t nmax = x.size();
-- 
2.43.0


From f518e2542c79c1efd9d277ec296616f25d0bb989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 35/38] fix: integrate() and integrate_hinted() read out of
 bounds when the range starts at the last point of the table

---
 include/vif/math/reduce.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 7698ba2..4c317fa 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -736,6 +736,10 @@ namespace vif {
 
         uint_t i0 = upper_bound(x, x0);
         uint_t i1 = lower_bound(x, x1);
+        if (i0 == npos) {
+            // Starts at the very end of the table
+            i0 = i1;
+        }
 
         if (i0 > i1) {
             double y0 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x0);
@@ -811,7 +815,7 @@ namespace vif {
             // No hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
-                i1 = x.size()-1;
+                i0 = i1 = x.size()-1;
             } else {
                 i1 = i0-1;
                 while (i1 < x.size()-1 && x.safe[i1+1] <= x1) {
-- 
2.43.0


From f8945f537f33676e4fbf629d5cc873e387722328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:37 +0000
Subject: [PATCH 36/38] fix: integrate() over a range of a binned function used
 the wrong bin below the lower limit

---
 include/vif/math/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 4c317fa..fd08d03 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -790,7 +790,7 @@ namespace vif {
                 r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
             }
 
-            r += y.safe[i0]*(x.safe[i0] - x0);
+            r += y.safe[i0-1]*(x.safe[i0] - x0);
             r += y.safe[i1]*(x1 - x.safe[i1]);
 
             return r;
-- 
2.43.0


From 40e8e616115d4e0fde0e62df499b859870f24dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:41 +0000
Subject: [PATCH 37/38] fix: integrate() and cumul() of empty arrays read out
 of bounds

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd08d03..4f3bc31 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -695,7 +695,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
         }
 
@@ -875,7 +875,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
             dr.safe[i] = r;
         }
-- 
2.43.0


From d29405c140c3bff64337c99e7c81a530c1f97d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:30 +0000
Subject: [PATCH 38/38] fix: bilinear and bicubic interpolation read out of
 bounds on maps smaller than 2x2

---
 include/vif/math/interpolate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 3601e0f..15e2678 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -161,6 +161,9 @@ namespace vif {
 
     template<typename Type>
     meta::rtype_t<Type> bilinear(const vec<2,Type>& map, double x, double y) {
+        vif_check(map.dims[0] >= 2 && map.dims[1] >= 2,
+            "bilinear: map must contain at least 2 elements along each dimension (got ", map.dims, ")");
+
         int_t tix = floor(x);
         int_t tiy = floor(y);
         double dx = x - tix;
@@ -234,7 +237,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix < 0 || uint_t(tix) >= map.dims[0]-1 || tiy < 0 || uint_t(tiy) >= map.dims[1]-1) {
+        if (tix < 0 || uint_t(tix)+1 >= map.dims[0] || tiy < 0 || uint_t(tiy)+1 >= map.dims[1]) {
             return def;
         }
 
@@ -470,7 +473,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix <= 0 || uint_t(tix) >= map.dims[0]-2 || tiy <= 0 || uint_t(tiy) >= map.dims[1]-2) {
+        if (tix <= 0 || uint_t(tix)+2 >= map.dims[0] || tiy <= 0 || uint_t(tiy)+2 >= map.dims[1]) {
             return def;
         }
 
-- 
2.43.0

