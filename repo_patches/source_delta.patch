From a20663df4f48cfec870c219068262ed8d4f02000 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 01/41] fix: sub-matrix of a sub-matrix view uses the leading
 dimension of its parent

---
 include/BlasBooster/Core/DenseMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..1ae3ea2 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -429,10 +429,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
 {}
 
 template <class T, class P>
-- 
2.43.0


From 88ab33fb485c9728ced87ea8b5000346596c2196 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 02/41] fix: copy of a storage with external memory owns the
 memory it allocates

---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..f0302d8 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
-- 
2.43.0


From 768851dd7095485dcb53c5ac0ea733ec401d3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 03/41] fix: copy assignment of fixed-size heap storage does
 not take ownership of external memory

---
 include/BlasBooster/Core/Storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f0302d8..ef0a63b 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
-- 
2.43.0


From 3f50eb598cc5f023e6c0aebc64a040701b8d5278 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 04/41] fix: copy assignment of fixed-size sparse storage
 copies

---
 include/BlasBooster/Core/SparseStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..71bf188 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -36,7 +36,7 @@ public:
     /// Copy assignment operator
     SparseStorage& operator = ( const self& rhs ) {
 
-         if ( &rhs == this ) {
+         if ( &rhs != this ) {
              std::copy_n(rhs.begin(),rhs.size(),this->begin());
          }
 
-- 
2.43.0


From 0ed6c13d6bfa5f73be5b2b839a22a98bf0e37453 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 05/41] fix: complex dot wrappers of OpenBLAS use its calling
 convention

---
 include/BlasBooster/BlasInterface/Blas.h      |  5 ----
 include/BlasBooster/BlasInterface/Blas.h.pre  |  7 -----
 .../BlasInterface/IntelMKL_SpBlas.h           |  8 +++++
 .../BlasInterface/IntelMKL_SpBlas.h.pre       | 10 +++++++
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp       | 28 +++++++++--------
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre   | 30 +++++++++++--------
 6 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/include/BlasBooster/BlasInterface/Blas.h b/include/BlasBooster/BlasInterface/Blas.h
index 11d41f5..43457a1 100644
--- a/include/BlasBooster/BlasInterface/Blas.h
+++ b/include/BlasBooster/BlasInterface/Blas.h
@@ -159,9 +159,4 @@ void zsyrk_(const char*, const char*, const int*, const int*, const std::complex
 void ztrmm_(const char*, const char*, const char*, const char*, const int*, const int*, const std::complex<double>*, const std::complex<double>*, const int*, std::complex<double>*, const int*);
 void ztrsm_(const char*, const char*, const char*, const char*, const int*, const int*, const std::complex<double>*, const std::complex<double>*, const int*, std::complex<double>*, const int*);
 
-void cdotc_(std::complex<float>*, const int*, const std::complex<float>*, const int*, const std::complex<float>*, const int*);
-void cdotu_(std::complex<float>*, const int*, const std::complex<float>*, const int*, const std::complex<float>*, const int*);
-void zdotc_(std::complex<double>*, const int*, const std::complex<double>*, const int*, const std::complex<double>*, const int*);
-void zdotu_(std::complex<double>*, const int*, const std::complex<double>*, const int*, const std::complex<double>*, const int*);
-
 } // extern "C"
\ No newline at end of file
diff --git a/include/BlasBooster/BlasInterface/Blas.h.pre b/include/BlasBooster/BlasInterface/Blas.h.pre
index eda3191..5116c68 100644
--- a/include/BlasBooster/BlasInterface/Blas.h.pre
+++ b/include/BlasBooster/BlasInterface/Blas.h.pre
@@ -11,11 +11,4 @@ extern "C" {
     {%- endfor %});
 {% endfor %}
 
-{% for function in functions_blas_zdot_no_return %}
-{{ function.return_value }} {{ function.name }}_(
-    {%- for argument in function.argument_list -%}
-    {{ argument }}*{{ ", " if not loop.last }}
-    {%- endfor %});
-{% endfor %}
-
 } // extern "C"
diff --git a/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h b/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h
index 3e970cf..325f53b 100644
--- a/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h
+++ b/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <complex>
+
 extern "C" {
 
 void mkl_dcsrmm(const char*, const int*, const int*, const int*, const double*, const char*, const double*, const int*, const int*, const int*, const double*, const int*, const double*, double*, const int*);
@@ -7,4 +9,10 @@ void mkl_dcsrmultcsr(const char*, const int*, const int*, const int*, const int*
 void mkl_scsrmm(const char*, const int*, const int*, const int*, const float*, const char*, const float*, const int*, const int*, const int*, const float*, const int*, const float*, float*, const int*);
 void mkl_scsrmultcsr(const char*, const int*, const int*, const int*, const int*, const int*, float*, int*, int*, float*, int*, int*, float*, int*, int*, const int*, int*);
 
+// The MKL returns complex values by a hidden first argument.
+void cdotc_(std::complex<float>*, const int*, const std::complex<float>*, const int*, const std::complex<float>*, const int*);
+void cdotu_(std::complex<float>*, const int*, const std::complex<float>*, const int*, const std::complex<float>*, const int*);
+void zdotc_(std::complex<double>*, const int*, const std::complex<double>*, const int*, const std::complex<double>*, const int*);
+void zdotu_(std::complex<double>*, const int*, const std::complex<double>*, const int*, const std::complex<double>*, const int*);
+
 } // extern "C"
\ No newline at end of file
diff --git a/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h.pre b/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h.pre
index 9139587..315e9bc 100644
--- a/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h.pre
+++ b/include/BlasBooster/BlasInterface/IntelMKL_SpBlas.h.pre
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <complex>
+
 extern "C" {
 
 {% for function in functions_spblas %}
@@ -9,4 +11,12 @@ extern "C" {
     {%- endfor %});
 {% endfor %}
 
+// The MKL returns complex values by a hidden first argument.
+{% for function in functions_blas_zdot_no_return %}
+{{ function.return_value }} {{ function.name }}_(
+    {%- for argument in function.argument_list -%}
+    {{ argument }}*{{ ", " if not loop.last }}
+    {%- endfor %});
+{% endfor %}
+
 } // extern "C"
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..ed4f8ca 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -1,7 +1,17 @@
 #include "BlasBooster/BlasInterface/Blas.h"
 #include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
 
-extern "C" void openblas_set_num_threads(int nbThreads);
+extern "C" {
+
+void openblas_set_num_threads(int nbThreads);
+
+// OpenBLAS returns complex values directly.
+std::complex<float> cdotc_(const int*, const std::complex<float>*, const int*, const std::complex<float>*, const int*);
+std::complex<float> cdotu_(const int*, const std::complex<float>*, const int*, const std::complex<float>*, const int*);
+std::complex<double> zdotc_(const int*, const std::complex<double>*, const int*, const std::complex<double>*, const int*);
+std::complex<double> zdotu_(const int*, const std::complex<double>*, const int*, const std::complex<double>*, const int*);
+
+} // extern "C"
 
 namespace BlasBooster {
 
@@ -937,33 +947,25 @@ void BlasInterface <OpenBLAS, ztrsm>::operator() (
 std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
-    std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::cdotc_(v1, v2, v3, v4, v5);
 }
 
 std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
-    std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::cdotu_(v1, v2, v3, v4, v5);
 }
 
 std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
-    std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::zdotc_(v1, v2, v3, v4, v5);
 }
 
 std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
-    std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::zdotu_(v1, v2, v3, v4, v5);
 }
 
 } // namespace BlasBooster
\ No newline at end of file
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..83edaf5 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -1,7 +1,19 @@
 #include "BlasBooster/BlasInterface/Blas.h"
 #include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
 
-extern "C" void openblas_set_num_threads(int nbThreads);
+extern "C" {
+
+void openblas_set_num_threads(int nbThreads);
+
+// OpenBLAS returns complex values directly.
+{% for function in functions_blas_zdot %}
+{{ function.return_value }} {{ function.name }}_(
+    {%- for argument in function.argument_list -%}
+    {{ argument }}*{{ ", " if not loop.last }}
+    {%- endfor %});
+{% endfor %}
+
+} // extern "C"
 
 namespace BlasBooster {
 
@@ -27,33 +39,25 @@ void OpenBLAS_set_num_threads(int nbThreads)
 std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
-    std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::cdotc_(v1, v2, v3, v4, v5);
 }
 
 std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
-    std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::cdotu_(v1, v2, v3, v4, v5);
 }
 
 std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
-    std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::zdotc_(v1, v2, v3, v4, v5);
 }
 
 std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
-    std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
-    return result;
+    return ::zdotu_(v1, v2, v3, v4, v5);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From b1f84f2427d63b485fd2c99a7b02841086f7bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 06/41] fix: single precision occupation limit of the zero
 matrix

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From 08a1e37744b93fca916bb6f7276d75eddf4b9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 07/41] fix: numerical equality of unsigned numbers

Comparing the keys of sparse matrices did not compile because std::abs is
ambiguous for unsigned numbers.
---
 .../Utilities/EqualWithinNumericalAccuracy.h   | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
index aaf7515..3c8fa0f 100644
--- a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
+++ b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <complex>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -14,10 +15,25 @@ template <> inline double numericalAccuracy< int >() { return 0.0; }
 template <> inline double numericalAccuracy< unsigned int >() { return 0.0; }
 template <> inline double numericalAccuracy< unsigned long >() { return 0.0; }
 
+template <class T1, class T2>
+typename std::enable_if<!(std::is_integral<T1>::value and std::is_integral<T2>::value), double>::type
+absoluteDifference(T1 const& v1, T2 const& v2)
+{
+    return std::abs(v1 - v2);
+}
+
+/// The difference of unsigned integers must not wrap around
+template <class T1, class T2>
+typename std::enable_if<std::is_integral<T1>::value and std::is_integral<T2>::value, double>::type
+absoluteDifference(T1 const& v1, T2 const& v2)
+{
+    return v1 < v2 ? v2 - v1 : v1 - v2;
+}
+
 template <class T1, class T2>
 bool equalWithinNumericalAccuracy(T1 const& v1, T2 const& v2)
 {
-    return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
+    return absoluteDifference(v1, v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From fddd74970c48c56d1d9c033375443fab7deecf9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 08/41] fix: sparse minus dense has the sign of the dense
 operand

---
 include/BlasBooster/Core/BinaryFunctors.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..6f92ffb 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -287,8 +287,19 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        assert(A.getNbRows() == B.getNbRows());
+        assert(A.getNbColumns() == B.getNbColumns());
+
+        C.resize(B.getNbRows(),B.getNbColumns());
+
+        typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
+        for (typename Matrix<Dense,T2,P2>::const_iterator iterBCur(B.begin()), iterBEnd(B.end());
+            iterBCur != iterBEnd; ++iterBCur, ++iterCCur)
+        {
+            UnaryOperation<Operation>()(*iterCCur,*iterBCur);
+        }
+
+        BinaryAssignmentOperationFunctor<Plus,Dense,T3,P3,Sparse,T1,P1>()(C,A);
     }
 };
 
-- 
2.43.0


From fb28c9e45bd215034385c3adf88e9a6919e64708 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 09/41] fix: dense plus sparse does not write into external
 memory of the dense operand

---
 include/BlasBooster/Core/BinaryFunctors.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 6f92ffb..099237a 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -263,7 +263,8 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyBCur, iterKeyBEnd;
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetBCur(B.beginOffset()), iterOffsetBEnd(B.endOffset() - 1);
 
-        C = A;
+        // C must have its own memory, also if A uses external memory
+        C = Matrix<Dense,T3,P3>(A);
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-- 
2.43.0


From 1115b3e1675eb051284aa7209c5b5995cd5dff3f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 10/41] fix: zero minus matrix is the negative matrix

---
 include/BlasBooster/Core/BinaryFunctors.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 099237a..4f30fd2 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -314,13 +314,19 @@ struct BinaryOperationFunctor<Operation,M,T,P,Zero,NullType,P,M,T,P>
     }
 };
 
-/// Template specialization for Matrix<Zero,NullType,P1> + Matrix<Dense,T2,P2>.
+/// Template specialization for Matrix<Zero,NullType,P1> <Operation> Matrix<Dense,T2,P2>.
 template <class Operation, class M, class T, class P>
 struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
 {
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
-        C = B;
+        // C must have its own memory, also if B uses external memory
+        C = Matrix<M,T,P>(B);
+
+        for (typename Matrix<M,T,P>::iterator iterCCur(C.begin()), iterCEnd(C.end()); iterCCur != iterCEnd; ++iterCCur)
+        {
+            UnaryOperation<Operation>()(*iterCCur,*iterCCur);
+        }
     }
 };
 
-- 
2.43.0


From 13e24a84116a12ae9bab6ee5da9efcf2bf8bf99b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 11/41] fix: difference of composite matrices subtracts both
 parts

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 4f30fd2..08df0c0 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -572,9 +572,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From 8fcdb6ddee988b83ad1dc20815c58affba3a0165 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 12/41] fix: assignment operators of composite matrices apply
 the operand once

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 08df0c0..2009709 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -538,7 +538,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -547,8 +546,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
-    A.getMatrix1() += B.getMatrix2();
     A.getMatrix2() += B.getMatrix2();
     return A;
 }
@@ -590,7 +587,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -599,8 +595,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
-    A.getMatrix1() -= B.getMatrix2();
     A.getMatrix2() -= B.getMatrix2();
     return A;
 }
-- 
2.43.0


From 4c26200129358d8850a40b375bc2597a1bdef569 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 13/41] fix: one-norm of composite matrices covers both parts

---
 include/BlasBooster/Core/Norm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..dd47614 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -72,8 +72,8 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
 {
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
-        //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix2());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
-- 
2.43.0


From 95c2a3e56c2a7eb7196689e69204f703100dff24 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 14/41] fix: max-norm of single precision matrices compiles

---
 include/BlasBooster/Core/Norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index dd47614..76ad4f0 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -133,7 +133,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));
         }
         return norm;
     }
-- 
2.43.0


From b0ad139829f98d022e92a80f1a1e7f9316c35315 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 15/41] fix: row-major sparse matrices have one offset per row

---
 include/BlasBooster/Core/SparseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..a052359 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -167,7 +167,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -266,7 +266,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 22e5e45d96b9ab1157eabf9e954ed4d11ce456f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 16/41] fix: dense to sparse walks along the storage order of
 the target and counts the current elements

---
 include/BlasBooster/Core/SparseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a052359..47d0248 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -185,7 +185,7 @@ template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(other.getNbOfSignificantElements(valueChecker), this->getMinorDimension() + 1)
+   storage(countDesiredElements(other, valueChecker), this->getMinorDimension() + 1)
 {
     iterator iterValueCur(this->begin());
     index_iterator iterKeyCur(this->beginKey());
@@ -194,7 +194,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From 070c8af44dc0ba962bf51787123ceebef693135a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 17/41] fix: sparse results hold their significant elements
 only

---
 include/BlasBooster/Core/BinaryFunctors.h        |  2 ++
 include/BlasBooster/Core/Multiplication_Native.h |  2 ++
 include/BlasBooster/Core/SparseStorage.h         | 11 +++++++++++
 include/BlasBooster/Core/Transposition.h         |  3 +++
 4 files changed, 18 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 2009709..44b1d92 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..f861691 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,8 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 71bf188..dabbed9 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,17 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Keep only the first nbOfValues values and keys
+    void shrink(IndexType nbOfValues) {
+        if (nbOfValues == nnz()) return;
+        Storage<ValueType,false,false,0> value(nbOfValues);
+        Storage<IndexType,false,false,0> key(nbOfValues);
+        std::copy(value_.begin(), value_.begin() + nbOfValues, value.begin());
+        std::copy(key_.begin(), key_.begin() + nbOfValues, key.begin());
+        swap(value_, value);
+        swap(key_, key);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..0b04a26 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -83,6 +83,9 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
         }
     }
 
+    // a matrix without significant elements has been constructed with full storage size
+    transposedMatrix.shrink(matrix.nnz());
+
     return transposedMatrix;
 }
 
-- 
2.43.0


From c029da64612233a824a9e56a7bf909aa39c35418 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 18/41] fix: transposition of sparse matrices without rows

---
 include/BlasBooster/Core/Transposition.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 0b04a26..1870004 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -2,6 +2,7 @@
 
 #include "DenseMatrix.h"
 #include "SparseMatrix.h"
+#include <numeric>
 
 namespace BlasBooster {
 
@@ -59,11 +60,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
-        iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
-    {
-        *iterOffsetTransCur += *(iterOffsetTransCur - 1);
-    }
+    std::partial_sum(transposedMatrix.beginOffset(), transposedMatrix.endOffset(), transposedMatrix.beginOffset());
 
     IndexType offset, key(0);
     std::vector<IndexType> currentOffset(transposedMatrix.sizeOffset() - 1);
-- 
2.43.0


From 629cc24646c44a11dc72465cdd199218e36e6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 19/41] fix: self move assignment of storage keeps the data

---
 include/BlasBooster/Core/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index ef0a63b..f8dc62d 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -389,6 +389,7 @@ public:
     /// Move assignment
     Storage& operator = ( self&& rhs ) BLASBOOSTER_NOEXCEPT {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move assignment is called.");
+        if (this == &rhs) return *this;
         // clear own resources
         if (ownMemory_) deallocate<T>(data_);
         // steal other resources
-- 
2.43.0


From b2122d001b811f28e7a69588bff51444a84d0748 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 20/41] fix: loading a storage releases its previous memory

---
 include/BlasBooster/Core/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f8dc62d..cbff24e 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -485,6 +485,7 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
+        if (ownMemory_ and data_) deallocate<T>(data_);
         ar >> size_;
         data_ = allocate<T>(size_);
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-- 
2.43.0


From 1ff9aabde2ced552e8bd026f0e3ac8344c16a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 21/41] fix: move construction keeps leading and unblocked
 dimensions

---
 include/BlasBooster/Core/DenseMatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 1ae3ea2..df1ba9a 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -198,7 +198,9 @@ public: // member functions
 
     /// Move constructor
     Matrix(self&& other)
-     : dimension(std::move(other)),
+     : dimension(std::forward<dimension>(other)),
+       leadingDimension(std::forward<leadingDimension>(other)),
+       unblockedDimension(std::forward<unblockedDimension>(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
-- 
2.43.0


From fe8253919bc89176f9249dc50090b75e2435b440 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 22/41] fix: move assignment and swap of dense matrices cover
 the complete matrix

---
 include/BlasBooster/Core/DenseMatrix.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index df1ba9a..e4a919a 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -57,6 +57,8 @@ public: // typedefs
     typedef typename P::leadingDimension leadingDimension;
     typedef typename P::unblockedDimension unblockedDimension;
     typedef typename P::IndexType IndexType;
+    typedef NormPolicy<self, typename P::NormType> normPolicy;
+    typedef OccupationPolicy<self> occupationPolicy;
     typedef Storage<T,P::onStack,P::isFixed,P::dimension::size,P::isSubMatrix> storage;
     typedef typename storage::iterator iterator;
     typedef typename storage::const_iterator const_iterator;
@@ -219,6 +221,8 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        normPolicy::operator=(std::forward<normPolicy>(rhs));
+        occupationPolicy::operator=(std::forward<occupationPolicy>(rhs));
         return *this;
     }
 
@@ -288,12 +292,12 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
-        //swap(a.storage,b.storage);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
+        swap(static_cast<storage&>(a), static_cast<storage&>(b));
+        swap(static_cast<normPolicy&>(a), static_cast<normPolicy&>(b));
+        swap(static_cast<occupationPolicy&>(a), static_cast<occupationPolicy&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
-- 
2.43.0


From c7f87114f6f2762058e3f57e132c2a41c18b90bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/41] fix: move assignment and swap of sparse matrices cover
 the complete matrix

---
 include/BlasBooster/Core/SparseMatrix.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 47d0248..5d7bf59 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -51,6 +51,8 @@ public: // typedefs
     typedef typename P::leadingDimension leadingDimension;
     typedef typename P::unblockedDimension unblockedDimension;
     typedef typename P::IndexType IndexType;
+    typedef NormPolicy<self, typename P::NormType> normPolicy;
+    typedef OccupationPolicy<self> occupationPolicy;
     typedef SparseStorage<T,typename P::IndexType,P::dimension::fixed,P::dimension::size> storage;
     typedef typename storage::iterator iterator;
     typedef typename storage::const_iterator const_iterator;
@@ -107,6 +109,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        normPolicy::operator=(std::forward<normPolicy>(rhs));
+        occupationPolicy::operator=(std::forward<occupationPolicy>(rhs));
         return *this;
     }
 
@@ -125,11 +129,12 @@ public:
 
     friend void swap(Matrix& a, Matrix& b) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<normPolicy&>(a), static_cast<normPolicy&>(b));
+        swap(static_cast<occupationPolicy&>(a), static_cast<occupationPolicy&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
-- 
2.43.0


From 1926f525bcec19d64e03e77ad1500c0ba0225630 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 24/41] fix: resizing a zero matrix updates its size

---
 include/BlasBooster/Core/ZeroMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..d104c2f 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    dimension::resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From 6bde6944f0d4cfe2ac619eb9df3906defa5326a1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 25/41] fix: resizing a blocked matrix updates its size

---
 include/BlasBooster/Core/DenseMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index e4a919a..31a6eca 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -708,8 +708,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
-- 
2.43.0


From c626eb62a1d5b2ad14b8faaed79a7a24405053ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 26/41] fix: empty strided storages end where they begin

---
 include/BlasBooster/Core/Storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index cbff24e..3c9d976 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -603,10 +603,12 @@ public:
     }
 
     iterator end() {
+        if (size_ == 0) return begin();
         return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
+        if (size_ == 0) return begin();
         return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
-- 
2.43.0


From b1646d05be5059fa7b2131fe9ca6e4da53ded566 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 27/41] fix: stepping back from the end of a strided storage

---
 include/BlasBooster/Core/Storage.h         | 8 ++++----
 include/BlasBooster/Core/StripedIterator.h | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 3c9d976..c4458e2 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -604,20 +604,20 @@ public:
 
     iterator end() {
         if (size_ == 0) return begin();
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
         if (size_ == 0) return begin();
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rend() const {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     size_t size() const {
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..ceae6fa 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -49,7 +49,8 @@ public:
     void increment()
     {
         if (position_ == continuousSizeMinus1_) {
-            if (static_cast<size_t>(++block_) == nbBlocks_) ++iter_;
+            ++block_;
+            if (block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) ++iter_;
             else iter_ += separatorSizePlus1_;
             position_ = 0;
         } else {
@@ -61,8 +62,9 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            if (block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
+            --block_;
             position_ = continuousSizeMinus1_;
         } else {
             --iter_;
-- 
2.43.0


From dd6d966e7f42ccf9374df18c3699c4778c29a021 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 28/41] fix: row-major sub-matrices look at their block of the
 parent

---
 include/BlasBooster/Core/DenseMatrix.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 31a6eca..fea40c8 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -451,11 +451,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
-   storage(
-       const_cast<T2*>(other.getDataPointer()) + beginRow * other.getNbColumns() + beginColumn,
-       other.getSize() - beginRow * other.getNbColumns() - beginColumn
-   )
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
+   // TODO: avoid const_cast
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow * other.getLdColumns() + beginColumn),
+       nbColumns, nbRows, other.getLdColumns() - nbColumns)
 {}
 
 // Conversion from DenseMatrix with same orientation
@@ -515,15 +514,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     storage(other.getSize())
 {
     typename storage::iterator iterCur(this->begin());
-    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin());
-
-    typename P2::IndexType leadingDifference(other.getLdColumns() - other.getNbColumns());
+    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin()), otherIterEnd(other.end());
 
-    for ( size_t rowCur(0), rowEnd(other.getNbRows()); rowCur != rowEnd; ++rowCur ) {
-        for ( size_t columnCur(0), columnEnd(other.getNbColumns()); columnCur != columnEnd; ++columnCur ) {
-            *iterCur++ = *otherIterCur++;
-        }
-        otherIterCur += leadingDifference;
+    for ( ; otherIterCur != otherIterEnd; ++otherIterCur, ++iterCur) {
+        *iterCur = valueChecker(*otherIterCur) ? *otherIterCur : 0.0;
     }
 }
 
-- 
2.43.0


From 9ab292bd9f3e66a3ba5a7375d943f198afb59e7b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 29/41] fix: dense plus sparse does not inherit the norm of the
 dense operand

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 44b1d92..0af8c59 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -11,6 +11,7 @@
 #include "BlasBooster/Utilities/exec_dyn_2dim.h"
 #include "BlasBooster/Utilities/TypeList.h"
 #include "BlasBooster/Utilities/wrong_t.h"
+#include <algorithm>
 #include <functional>
 #include <stdexcept>
 #include <string>
@@ -265,8 +266,9 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyBCur, iterKeyBEnd;
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetBCur(B.beginOffset()), iterOffsetBEnd(B.endOffset() - 1);
 
-        // C must have its own memory, also if A uses external memory
-        C = Matrix<Dense,T3,P3>(A);
+        // C must have its own memory, norm and occupation
+        C.resize(A.getNbRows(), A.getNbColumns());
+        std::copy(A.begin(), A.end(), C.begin());
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-- 
2.43.0


From b35231b9c0277f175410b2f798aa1c0539be33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 30/41] fix: one- and max-norm of the zero matrix compile

---
 include/BlasBooster/Core/Norm.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index 76ad4f0..e5711d2 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -26,6 +26,26 @@ struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
     }
 };
 
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
 /// norm function wrapper, forwarded to the NormFunctor for partial specialization
 template <class NormType, class MatrixType>
 inline double norm(MatrixType const& m)
-- 
2.43.0


From 2fe8505a296246922bc397eeb58f7363d233b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 31/41] fix: conversion of a MultipleMatrix to dense must not
 modify its first matrix

The copy assignment of a dense matrix using external memory shares that
memory, so adding the second matrix changed the first one.
---
 include/BlasBooster/Core/DenseMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index fea40c8..4c2d2af 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -655,7 +655,8 @@ template <class X1, class X2>
 Matrix<Dense,T,P>::Matrix(MultipleMatrix<X1,X2> const& other)
  : dimension(other.getNbRows(), other.getNbColumns()), storage(other.getSize())
 {
-    *this = other.getMatrix1();
+    // the result must have its own memory, also if the first matrix uses external memory
+    *this = Matrix(other.getMatrix1());
     *this += other.getMatrix2();
 }
 
-- 
2.43.0


From 6087511490e84daf71edeefea04699b9b3d5b06d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 32/41] fix: dense to dense conversion keeps the elements of
 the value checker only

---
 include/BlasBooster/Core/DenseMatrix.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 4c2d2af..a4ffadd 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -467,7 +467,13 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
     storage(other)
-{}
+{
+    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin());
+
+    for (iterator iterCur(this->begin()), iterEnd(this->end()); iterCur != iterEnd; ++iterCur, ++otherIterCur) {
+        if (*otherIterCur == *otherIterCur and !valueChecker(*otherIterCur)) *iterCur = 0.0;
+    }
+}
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
@@ -479,7 +485,13 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
     storage(transpose(other))
-{}
+{
+    for (IndexType j = 0; j != other.getNbColumns(); ++j) {
+        for (IndexType i = 0; i != other.getNbRows(); ++i) {
+            if (other(i,j) == other(i,j) and !valueChecker(other(i,j))) (*this)(i,j) = 0.0;
+        }
+    }
+}
 
 /// Conversion from SubDenseMatrix
 template <class T, class P>
-- 
2.43.0


From 21630d714387e61b5761f27a2342f3614e8046cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 33/41] fix: block size search ends if no index can divide its
 block

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..4c02ed4 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -180,6 +180,8 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            // none of the indices divides its block into large enough parts
+            if (largest_min == 0) break;
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From e51cea966559179a2925d8ac54ba2d42a6887159 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 34/41] fix: native product of row-major dense matrices

---
 include/BlasBooster/Core/Multiplication_Native.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index f861691..33274e4 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -101,7 +101,14 @@ template <class T1, class P1,
           class T2, class P2,
           class T3, class P3>
 struct MultiplicationFunctor<Dense,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
- : public GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>
+ // The general functor walks along the columns of all matrices
+ : public std::conditional<
+       std::is_same<typename P1::orientation, ColumnMajor>::value and
+       std::is_same<typename P2::orientation, ColumnMajor>::value and
+       std::is_same<typename P3::orientation, ColumnMajor>::value,
+       GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>,
+       GeneralDenseMultiplicationFunctorUsingCursor<T1,P1,T2,P2,T3,P3>
+   >::type
 {};
 
 /// Matrix multiplication specialized for DynamicMatrix Dense, Dense.
-- 
2.43.0


From d6453731384d745f59d0e3f8355b490a03d8aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 35/41] fix: sums and differences of row-major dense and sparse
 matrices

---
 include/BlasBooster/Core/BinaryFunctors.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 0af8c59..8959a30 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -272,7 +272,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
@@ -392,7 +392,10 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                if (std::is_same<typename P2::orientation, ColumnMajor>::value)
+                    OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                else
+                    OperationAssignment<Operation>()(A(col,*iterKeyCur),*iterValueCur);
             }
         }
     }
-- 
2.43.0


From 31d731dfb984fd0294f7511fd32f37e70e2037d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 36/41] fix: native products of row-major sparse matrices

---
 .../BlasBooster/Core/Multiplication_Native.h  | 63 +++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index 33274e4..3e057f8 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -165,6 +165,27 @@ template <class T1, class P1,
 struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Sparse,T3,P3>& C)
+    {
+        // Column-major copies of row-major matrices
+        if constexpr (!std::is_same<typename P1::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P1::IndexType, ColumnMajor> PC;
+            MultiplicationFunctor<Sparse,T1,PC,Sparse,T2,P2,Sparse,T3,P3,Native>()(Matrix<Sparse,T1,PC>(A), B, C);
+        } else if constexpr (!std::is_same<typename P2::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P2::IndexType, ColumnMajor> PC;
+            MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,PC,Sparse,T3,P3,Native>()(A, Matrix<Sparse,T2,PC>(B), C);
+        } else if constexpr (!std::is_same<typename P3::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P3::IndexType, ColumnMajor> PC;
+            Matrix<Sparse,T3,PC> D;
+            MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,PC,Native>()(A, B, D);
+            C = Matrix<Sparse,T3,P3>(D);
+        } else {
+            multiply(A, B, C);
+        }
+    }
+
+private:
+
+    void multiply(Matrix<Sparse,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Sparse,T3,P3>& C)
     {
         [[maybe_unused]] Tracker<TrackerID::Native_sparse> tracker;
 
@@ -220,6 +241,27 @@ template <class T1, class P1,
 struct MultiplicationFunctor<Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
+    {
+        // Column-major copies of row-major matrices
+        if constexpr (!std::is_same<typename P1::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P1::IndexType, ColumnMajor> PC;
+            MultiplicationFunctor<Sparse,T1,PC,Dense,T2,P2,Dense,T3,P3,Native>()(Matrix<Sparse,T1,PC>(A), B, C);
+        } else if constexpr (!std::is_same<typename P2::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P2::IndexType, ColumnMajor> PC;
+            MultiplicationFunctor<Sparse,T1,P1,Dense,T2,PC,Dense,T3,P3,Native>()(A, Matrix<Dense,T2,PC>(B), C);
+        } else if constexpr (!std::is_same<typename P3::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P3::IndexType, ColumnMajor> PC;
+            Matrix<Dense,T3,PC> D;
+            MultiplicationFunctor<Sparse,T1,P1,Dense,T2,P2,Dense,T3,PC,Native>()(A, B, D);
+            C = Matrix<Dense,T3,P3>(D);
+        } else {
+            multiply(A, B, C);
+        }
+    }
+
+private:
+
+    void multiply(Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
         [[maybe_unused]] Tracker<TrackerID::Native_sparse_dense> tracker;
 
@@ -254,6 +296,27 @@ template <class T1, class P1,
 struct MultiplicationFunctor<Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3,Native>
 {
     void operator () (Matrix<Dense,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
+    {
+        // Column-major copies of row-major matrices
+        if constexpr (!std::is_same<typename P1::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P1::IndexType, ColumnMajor> PC;
+            MultiplicationFunctor<Dense,T1,PC,Sparse,T2,P2,Dense,T3,P3,Native>()(Matrix<Dense,T1,PC>(A), B, C);
+        } else if constexpr (!std::is_same<typename P2::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P2::IndexType, ColumnMajor> PC;
+            MultiplicationFunctor<Dense,T1,P1,Sparse,T2,PC,Dense,T3,P3,Native>()(A, Matrix<Sparse,T2,PC>(B), C);
+        } else if constexpr (!std::is_same<typename P3::orientation, ColumnMajor>::value) {
+            typedef Parameter<typename P3::IndexType, ColumnMajor> PC;
+            Matrix<Dense,T3,PC> D;
+            MultiplicationFunctor<Dense,T1,P1,Sparse,T2,P2,Dense,T3,PC,Native>()(A, B, D);
+            C = Matrix<Dense,T3,P3>(D);
+        } else {
+            multiply(A, B, C);
+        }
+    }
+
+private:
+
+    void multiply(Matrix<Dense,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
         typedef Cursor<const Matrix<Dense,T1,P1>, Direction::Column> ColumnCursorA;
         typedef Cursor<ColumnCursorA, Direction::Row> RowCursorA;
-- 
2.43.0


From 4e34989ae6c9244fa3e941469cd4829d935ff221 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 37/41] fix: maximal deviation of single precision matrices
 compiles

---
 include/BlasBooster/Core/StatisticalErrorInformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 9dd55f8..1557ad5 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -10,7 +10,7 @@ double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
     typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
-        maximalDeviation = std::max(maximalDeviation, std::abs(*iterACur - *iterBCur));
+        maximalDeviation = std::max(maximalDeviation, static_cast<double>(std::abs(*iterACur - *iterBCur)));
     }
     return maximalDeviation;
 }
-- 
2.43.0


From 22ada8b0b938769709b21586bfb32ac1fe4f7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 38/41] fix: deviations of matrices with different storage
 orders

---
 .../Core/StatisticalErrorInformation.h           | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 1557ad5..75a6c6f 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -6,6 +6,14 @@ template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
     double maximalDeviation(0.0);
+    if constexpr (!std::is_same<typename P1::orientation, typename P2::orientation>::value)
+    {
+        // The iterators walk in different directions
+        for (size_t column = 0; column < A.getNbColumns(); ++column)
+            for (size_t row = 0; row < A.getNbRows(); ++row)
+                maximalDeviation = std::max(maximalDeviation, static_cast<double>(std::abs(A(row, column) - B(row, column))));
+        return maximalDeviation;
+    }
     typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
     typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
@@ -19,6 +27,14 @@ template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
     double meanSquare(0.0);
+    if constexpr (!std::is_same<typename P1::orientation, typename P2::orientation>::value)
+    {
+        // The iterators walk in different directions
+        for (size_t column = 0; column < A.getNbColumns(); ++column)
+            for (size_t row = 0; row < A.getNbRows(); ++row)
+                meanSquare += std::pow(A(row, column) - B(row, column), 2);
+        return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
+    }
     typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
     typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
-- 
2.43.0


From d161c761c4c94f44addbad3a1a185daeffbbeaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:19:33 +0000
Subject: [PATCH 39/41] fix: type counting starts at zero

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0


From be9662c84641cf21c4110fcc6c3e558c0f4531a2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 40/41] fix: reading a matrix from a file which is too short is
 an error

---
 include/BlasBooster/Core/MatrixFileIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..e7045a7 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -49,6 +49,7 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
             is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
         }
     }
+    if (!is2) throw BlasBoosterException("Can't read file " + settings.filename);
 
     return is;
 }
-- 
2.43.0


From e4025a7316f81d1745bb414a481bc5b4fb1755ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:30:03 +0000
Subject: [PATCH 41/41] fix: reading a row-major matrix from a file

---
 include/BlasBooster/Core/MatrixFileIO.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index e7045a7..8cfc816 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -5,6 +5,7 @@
 #include "BrainTwister/Record.h"
 #include <iostream>
 #include <fstream>
+#include <vector>
 // tmp
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -39,7 +40,16 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
 
     T* dataPointer = matrix.getDataPointer();
 
-    if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
+    if constexpr (!std::is_same<typename P::orientation, ColumnMajor>::value) {
+        // The file is column-major
+        std::vector<T> column(settings.nbRows);
+        is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
+        for (size_t col = 0; col < settings.nbColumns; ++col) {
+            is2.read(reinterpret_cast<char*>(column.data()), settings.nbRows * sizeof(T));
+            for (size_t row = 0; row < settings.nbRows; ++row) matrix(row, col) = column[row];
+            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
+        }
+    } else if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
         is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
     } else {
         is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
-- 
2.43.0

