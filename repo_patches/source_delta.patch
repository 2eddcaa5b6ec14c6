From 3a6778fbfd3c1778d05ede271dbb518cc0b484a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 01/89] fix: move constructor of dense matrix drops leading and
 unblocked dimension

---
 include/BlasBooster/Core/DenseMatrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..5b0a2df 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -199,6 +199,8 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
-- 
2.43.0


From ab81dc1dff79ed6bedd5d6b291c0866417d9d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 02/89] fix: submatrix of a submatrix must use the leading
 dimension of its parent

---
 include/BlasBooster/Core/DenseMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 5b0a2df..34c3170 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -431,10 +431,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
 {}
 
 template <class T, class P>
-- 
2.43.0


From 97e7d36c079cae6b672d0633095d715c6221e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 03/89] fix: iterating over an empty submatrix must not leave
 the matrix

---
 include/BlasBooster/Core/Storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..16c6579 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -602,10 +602,12 @@ public:
     }
 
     iterator end() {
+        if (size_ == 0) return begin();
         return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
+        if (size_ == 0) return begin();
         return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
-- 
2.43.0


From ab4002142290295df68120f2b3ca26b87a4d7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 04/89] fix: row-major sparse matrix needs one offset per row,
 not per column

---
 include/BlasBooster/Core/SparseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..a052359 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -167,7 +167,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -266,7 +266,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 0b833d57eb3ac1579c1928a24b1b39b5c5283366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 05/89] fix: conversion from dense to sparse with different
 orientation

---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a052359..2fe977d 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -194,7 +194,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From 97af9a6be1f48f9ff7dc1ee27120f3f3a614f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 06/89] fix: sum of sparse matrices has uninitialized elements
 behind its last element

---
 include/BlasBooster/Core/BinaryFunctors.h |  2 ++
 include/BlasBooster/Core/SparseStorage.h  | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..14777f4 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        C.truncate(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..35b9950 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,17 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Keep only the first nbOfValues elements
+    void truncate(IndexType nbOfValues) {
+        if (nbOfValues == nnz()) return;
+        Storage<ValueType,false,false,0> value(nbOfValues);
+        Storage<IndexType,false,false,0> key(nbOfValues);
+        std::copy_n(value_.begin(), nbOfValues, value.begin());
+        std::copy_n(key_.begin(), nbOfValues, key.begin());
+        swap(value_, value);
+        swap(key_, key);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
-- 
2.43.0


From 97c75f98dedf1aa64a45f0e28f02cb63c3d71536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 07/89] fix: transposing a sparse matrix without rows runs
 beyond the offsets

---
 include/BlasBooster/Core/Transposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..f87d152 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -59,7 +59,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
+    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 1),
         iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
     {
         *iterOffsetTransCur += *(iterOffsetTransCur - 1);
-- 
2.43.0


From c16c26b4f66deda4b94cdc8ff29f0620230c2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 08/89] fix: transposed sparse matrix without elements has
 uninitialized elements

---
 include/BlasBooster/Core/Transposition.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index f87d152..8a09fc5 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -35,6 +35,7 @@ template <class T, class P>
 Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
 {
     Matrix<Sparse,T,P> transposedMatrix(matrix.getNbColumns(), matrix.getNbRows(), matrix.nnz());
+    transposedMatrix.truncate(matrix.nnz());
 
     typedef typename Matrix<Sparse,T,P>::IndexType IndexType;
     typedef typename Matrix<Sparse,T,P>::iterator iterator;
-- 
2.43.0


From 8dd59349fadbd8ecd5063b44652ec67d8e1d467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 09/89] fix: product of sparse matrices has uninitialized
 elements behind its last element

---
 include/BlasBooster/Core/Multiplication_Native.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..9759213 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,8 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+
+        C.truncate(offset);
     }
 };
 
-- 
2.43.0


From f021a0acfed6cab2404262e6cc195fc7586f305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 10/89] fix: difference of a sparse and a dense matrix has the
 wrong sign

---
 include/BlasBooster/Core/BinaryFunctors.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 14777f4..ef3b032 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -289,8 +289,20 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        assert(A.getNbRows() == B.getNbRows());
+        assert(A.getNbColumns() == B.getNbColumns());
+
+        C.resize(B.getNbRows(),B.getNbColumns());
+
+        typename Matrix<Dense,T2,P2>::const_iterator iterBCur(B.begin()), iterBEnd(B.end());
+        typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
+        for ( ; iterBCur != iterBEnd; ++iterBCur, ++iterCCur)
+        {
+            UnaryOperation<Operation>()(*iterCCur, *iterBCur);
+        }
+
+        // C = <Operation> B, the addition of A is commutative
+        BinaryAssignmentOperationFunctor<Plus,Dense,T3,P3,Sparse,T1,P1>()(C,A);
     }
 };
 
-- 
2.43.0


From ab72da692ad30a2b0544a1047b3f0a31e2d96eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 11/89] fix: difference of a zero matrix and another matrix has
 the wrong sign

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index ef3b032..3c40ba2 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -323,6 +323,10 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (typename Matrix<M,T,P>::iterator iterCCur(C.begin()), iterCEnd(C.end()); iterCCur != iterCEnd; ++iterCCur)
+        {
+            UnaryOperation<Operation>()(*iterCCur, *iterCCur);
+        }
     }
 };
 
-- 
2.43.0


From c7db60d724ce8dc73c548b1f0b73fbd4090ae9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 12/89] fix: difference of multiple matrices adds the second
 part of the subtrahend

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 3c40ba2..7a3700e 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -572,9 +572,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From 2cc2a89243d4cc3f538e8c2340002bdc9eb632c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 13/89] fix: assignment operators of multiple matrix apply the
 operand to both parts

---
 include/BlasBooster/Core/BinaryFunctors.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 7a3700e..9352410 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -538,7 +538,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -546,10 +545,7 @@ inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T
 template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
-    A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
-    A.getMatrix1() += B.getMatrix2();
-    A.getMatrix2() += B.getMatrix2();
+    A.getMatrix1() += B.getMatrix1() + B.getMatrix2();
     return A;
 }
 
@@ -590,7 +586,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -598,10 +593,7 @@ inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T
 template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
-    A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
-    A.getMatrix1() -= B.getMatrix2();
-    A.getMatrix2() -= B.getMatrix2();
+    A.getMatrix1() -= B.getMatrix1() + B.getMatrix2();
     return A;
 }
 
-- 
2.43.0


From 81e0467163780dcb0b9557b42fe6b19a4535726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 14/89] fix: sum of dense and sparse matrix for row-major
 storage

---
 include/BlasBooster/Core/BinaryFunctors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 9352410..30f1dec 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -269,7 +269,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
-- 
2.43.0


From d53583453f1ddbb986c6b31764223e7337b46067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 15/89] fix: adding a sparse to a dense matrix for row-major
 storage

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 30f1dec..1e926de 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -380,15 +380,15 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
         assert(A.getNbRows() == B.getNbRows());
         assert(A.getNbColumns() == B.getNbColumns());
 
-        size_t col(0);
+        typename Matrix<Dense,T1,P1>::iterator iterACur(A.begin());
         for (typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetCur(B.beginOffset()),
-            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++col)
+            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, iterACur += A.getMajorDimension())
         {
             typename Matrix<Sparse,T2,P2>::const_iterator iterValueCur(B.begin() + *iterOffsetCur);
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                OperationAssignment<Operation>()(*(iterACur + *iterKeyCur),*iterValueCur);
             }
         }
     }
-- 
2.43.0


From c27e87fbce75f26a77e6c9ef37080ca89efed702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 16/89] fix: conversion between dense matrices ignores the
 value checker or drops NaN

---
 include/BlasBooster/Core/DenseMatrix.h | 56 ++++++++++++++++++--------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 34c3170..60e4ae1 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -115,8 +115,8 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with same orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             std::is_same<typename P::orientation, typename P2::orientation>::value and
             !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -124,8 +124,8 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with different orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             !std::is_same<typename P::orientation, typename P2::orientation>::value and
             !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -133,8 +133,8 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             std::is_same<typename P::orientation, ColumnMajor>::value and
             std::is_same<typename P2::orientation, ColumnMajor>::value and
@@ -143,8 +143,8 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
-    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
+    template <class T2, class P2>
+    Matrix(Matrix<Dense,T2,P2> const& other,
         typename std::enable_if<
             std::is_same<typename P::orientation, RowMajor>::value and
             std::is_same<typename P2::orientation, RowMajor>::value and
@@ -152,6 +152,12 @@ public: // member functions
         >::type* = 0
     );
 
+    /// Conversion from DenseMatrix, elements rejected by the valueChecker are set to zero
+    template <class T2, class P2, class ValueChecker>
+    Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+        typename std::enable_if<!P2::isBlockedMatrix>::type* = 0
+    );
+
     /// Conversion from blocked DenseMatrix
     template <class T2, class P2>
     Matrix(Matrix<Dense,T2,P2> const& other,
@@ -456,8 +462,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
 
 // Conversion from DenseMatrix with same orientation
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         std::is_same<typename P::orientation, typename P2::orientation>::value and
         !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -468,8 +474,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         !std::is_same<typename P::orientation, typename P2::orientation>::value and
         !P2::isSubMatrix and !P2::isBlockedMatrix
@@ -480,8 +486,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
 
 /// Conversion from SubDenseMatrix
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         std::is_same<typename P::orientation, ColumnMajor>::value and
         std::is_same<typename P2::orientation, ColumnMajor>::value and
@@ -494,14 +500,14 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin()), otherIterEnd(other.end());
 
     for ( ; otherIterCur != otherIterEnd; ++otherIterCur, ++iterCur) {
-        *iterCur = valueChecker(*otherIterCur) ? *otherIterCur : 0.0;
+        *iterCur = *otherIterCur;
     }
 }
 
 /// Conversion from SubDenseMatrix
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typename std::enable_if<
         std::is_same<typename P::orientation, RowMajor>::value and
         std::is_same<typename P2::orientation, RowMajor>::value and
@@ -523,6 +529,22 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     }
 }
 
+/// Conversion from DenseMatrix, elements rejected by the valueChecker are set to zero
+template <class T, class P>
+template <class T2, class P2, class ValueChecker>
+Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker,
+    typename std::enable_if<!P2::isBlockedMatrix>::type*)
+  : dimension(other.getNbRows(),other.getNbColumns()),
+    storage(other.getSize())
+{
+    for (size_t column(0); column != other.getNbColumns(); ++column) {
+        for (size_t row(0); row != other.getNbRows(); ++row) {
+            T2 const& value = other(row,column);
+            (*this)(row,column) = valueChecker(value) ? value : T2();
+        }
+    }
+}
+
 /// Conversion from blocked DenseMatrix
 template <class T, class P>
 template <class T2, class P2>
-- 
2.43.0


From 3ed5581934f24dcc86dd6ebf16a9de6ed69912e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 17/89] fix: conversion between sparse matrices ignores the
 value checker

---
 include/BlasBooster/Core/SparseMatrix.h | 40 ++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 2fe977d..c2fdded 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -68,8 +68,12 @@ public:
     Matrix(IndexType nbRows, IndexType nbColumns, IndexType nbSignificantElements = 0, Filler const& filler = Filler());
 
     /// Conversion from SparseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<T>>
-    Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker());
+    template <class T2, class P2>
+    Matrix(Matrix<Sparse,T2,P2> const& other);
+
+    /// Conversion from SparseMatrix, elements rejected by the valueChecker are dropped
+    template <class T2, class P2, class ValueChecker>
+    Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker);
 
     /// Conversion from DenseMatrix
     /// Elements with an absolute value in the range (lowerThreshold,upperThreshold] are significant.
@@ -174,12 +178,40 @@ Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType n
 
 // Conversion from SparseMatrix
 template <class T, class P>
-template <class T2, class P2, class ValueChecker>
-Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
+template <class T2, class P2>
+Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other)
  : dimension(other.getNbRows(), other.getNbColumns()),
    storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
 {}
 
+// Conversion from SparseMatrix, elements rejected by the valueChecker are dropped
+template <class T, class P>
+template <class T2, class P2, class ValueChecker>
+Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
+ : dimension(other.getNbRows(), other.getNbColumns()),
+   storage()
+{
+    Matrix<Sparse,T2,P2> significant(other);
+
+    typename P2::IndexType first(0), offset(0);
+    for (auto iterOffset(significant.beginOffset() + 1), iterOffsetEnd(significant.endOffset());
+        iterOffset != iterOffsetEnd; ++iterOffset)
+    {
+        for (typename P2::IndexType cur(first); cur != *iterOffset; ++cur)
+        {
+            if (!valueChecker(significant.begin()[cur])) continue;
+            significant.begin()[offset] = significant.begin()[cur];
+            significant.beginKey()[offset] = significant.beginKey()[cur];
+            ++offset;
+        }
+        first = *iterOffset;
+        *iterOffset = offset;
+    }
+    significant.truncate(offset);
+
+    storage::operator=(Matrix(significant));
+}
+
 // Conversion from DenseMatrix
 template <class T, class P>
 template <class T2, class P2, class ValueChecker>
-- 
2.43.0


From fa1e610e12d6dfcecf8afed2b531fbe92418be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 18/89] fix: matrix converter drops elements significant in
 double precision from sparse double matrices

---
 include/BlasBooster/Core/MatrixConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index cac376e..f779e90 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -72,7 +72,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,double,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,double,P2>(matrix,
-            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 452c06e0710758fb974da2ab82fc8efb63a60ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 19/89] fix: occupation of a matrix without elements is not a
 number

---
 include/BlasBooster/Core/OccupationPolicy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 0b4a084..e3266d3 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -32,8 +32,9 @@ public:
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
-        return static_cast<double>(getNbOfSignificantElements(valueChecker))
-            / static_cast<const Derived*>(this)->getSize();
+        size_t size = static_cast<const Derived*>(this)->getSize();
+        if (size == 0) return 0.0;
+        return static_cast<double>(getNbOfSignificantElements(valueChecker)) / size;
     }
 
     template <class ValueChecker>
-- 
2.43.0


From de5533ee146d704b82c0fd42652102328cd07ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 20/89] fix: single precision occupation threshold of zero
 matrix returns the double precision setting

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From b0d2ff4d67b643493c2b3d3582de9252791b0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 21/89] fix: swapping matrices must swap all dimensions

---
 include/BlasBooster/Core/DenseMatrix.h  | 10 ++++------
 include/BlasBooster/Core/SparseMatrix.h |  3 +--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 60e4ae1..ec7312f 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -294,12 +294,10 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
-        //swap(a.storage,b.storage);
+        swap(static_cast<storage&>(a), static_cast<storage&>(b));
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index c2fdded..4ddb0ba 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -132,8 +132,7 @@ public:
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
-- 
2.43.0


From 3564ee3368becc2f7fd8e81a7fbfe3b3dec4b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 22/89] fix: size of zero matrix is outdated after resize

---
 include/BlasBooster/Core/ZeroMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..fc70ed7 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From 6abb10fa5f0f77e781d4b7ce1b8095fc148c481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 23/89] fix: size of blocked matrix is outdated after resize

---
 include/BlasBooster/Core/DenseMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index ec7312f..376589d 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -724,8 +724,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
-- 
2.43.0


From fd7c822408c1570efed956676c9dee3b8abd0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 24/89] fix: norm and occupation are outdated after the matrix
 has been changed

---
 include/BlasBooster/Core/BinaryFunctors.h |  2 ++
 include/BlasBooster/Core/DenseMatrix.h    | 14 ++++++++++++++
 include/BlasBooster/Core/NormPolicy.h     |  2 ++
 include/BlasBooster/Core/SparseMatrix.h   | 12 ++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 1e926de..966b937 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -358,6 +358,7 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Dense,T2,P2>
         {
             OperationAssignment<Operation>()(*curIterA,*curIterB);
         }
+        A.resetCache();
     }
 };
 
@@ -391,6 +392,7 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
                 OperationAssignment<Operation>()(*(iterACur + *iterKeyCur),*iterValueCur);
             }
         }
+        A.resetCache();
     }
 };
 
diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 376589d..6ba5739 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -210,6 +210,7 @@ public: // member functions
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
+        other.resetCache();
     }
 
     /// Default destructor
@@ -225,6 +226,8 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        resetCache();
+        rhs.resetCache();
         return *this;
     }
 
@@ -298,6 +301,14 @@ public: // member functions
         swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
         swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
         swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
+        a.resetCache();
+        b.resetCache();
+    }
+
+    /// Norm and occupation must be recalculated after the elements have been changed
+    void resetCache() {
+        this->resetNorm();
+        OccupationPolicy<self>::reset();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -705,6 +716,7 @@ Matrix<Dense,T,P>& Matrix<Dense,T,P>::operator = (T value)
     {
         *iterCur = value;
     }
+    resetCache();
     return *this;
 }
 
@@ -716,6 +728,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
     filler(*this);
+    resetCache();
 }
 
 template <class T, class P>
@@ -728,6 +741,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
+    resetCache();
 }
 
 template <class T, class P>
diff --git a/include/BlasBooster/Core/NormPolicy.h b/include/BlasBooster/Core/NormPolicy.h
index 241304a..fc02596 100644
--- a/include/BlasBooster/Core/NormPolicy.h
+++ b/include/BlasBooster/Core/NormPolicy.h
@@ -37,6 +37,8 @@ public:
 
     bool isNormUpToDate() const { return isNormUpToDate_; };
 
+    void resetNorm() { isNormUpToDate_ = false; }
+
     void updateNorm() const
     {
         if (!isNormUpToDate_) {
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 4ddb0ba..879088e 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -97,6 +97,7 @@ public:
        storage(std::forward<storage>(rhs))
     {
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move constructor is called.");
+        rhs.resetCache();
     }
 
     /// Default destructor
@@ -111,6 +112,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        resetCache();
+        rhs.resetCache();
         return *this;
     }
 
@@ -133,6 +136,14 @@ public:
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
         swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        a.resetCache();
+        b.resetCache();
+    }
+
+    /// Norm and occupation must be recalculated after the elements have been changed
+    void resetCache() {
+        this->resetNorm();
+        OccupationPolicy<self>::reset();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -298,6 +309,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
+    resetCache();
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 162af91dc53ea0b7283fda360a1e94e6e293add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 25/89] fix: copy of a storage using external memory leaks its
 memory

---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 16c6579..c496753 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
-- 
2.43.0


From 041673b092921ee3fdeeadda908157dbcd484927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 26/89] fix: moved storage can not be resized anymore

---
 include/BlasBooster/Core/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index c496753..281abfb 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -341,7 +341,7 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move constructor is called.");
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
     }
 
     /// Conversion constructor
@@ -399,7 +399,7 @@ public:
         // clean other resources
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
         return *this;
     }
 
-- 
2.43.0


From b7f1aa204006da4ccf1f757116fc2a8dd29a08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 27/89] fix: self move assignment of storage frees its memory

---
 include/BlasBooster/Core/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 281abfb..f37745a 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -390,6 +390,7 @@ public:
     /// Move assignment
     Storage& operator = ( self&& rhs ) BLASBOOSTER_NOEXCEPT {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move assignment is called.");
+        if (this == &rhs) return *this;
         // clear own resources
         if (ownMemory_) deallocate<T>(data_);
         // steal other resources
-- 
2.43.0


From b797488f037b9f6fad3c04e092bd5235d528b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 28/89] fix: loading into a filled storage leaks its memory

---
 include/BlasBooster/Core/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f37745a..c609739 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -486,6 +486,7 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
+        if (ownMemory_ and data_) deallocate<T>(data_);
         ar >> size_;
         data_ = allocate<T>(size_);
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-- 
2.43.0


From f57627223220c75ed782281d2d2dc3cf53fb7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 29/89] fix: fixed size storage must not free external memory

---
 include/BlasBooster/Core/Storage.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index c609739..e8abc86 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
@@ -275,7 +274,6 @@ protected:
     void load(Archive & ar, const unsigned int version)
     {
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
     }
 
     T* data_;
-- 
2.43.0


From 34e2be16b0554afdcb9e7b07f11c59c16470a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 30/89] fix: moved fixed size storage refers to foreign memory

---
 include/BlasBooster/Core/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index e8abc86..ff850aa 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -161,10 +161,10 @@ public:
 
     /// Move constructor
     Storage( Storage&& rhs )
-     : data_(rhs.data_), ownMemory_(rhs.ownMemory_)
+     : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Move constructor is called.");
-        rhs.ownMemory_ = false;
+        std::copy(rhs.begin(),rhs.end(),begin());
     }
 
     /// Conversion constructor
-- 
2.43.0


From e7c795df47cbe067e4d5bce715fc9af15cba1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 31/89] fix: copy assignment of fixed size sparse storage does
 not copy

---
 include/BlasBooster/Core/SparseStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 35b9950..af6e8e6 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -36,7 +36,7 @@ public:
     /// Copy assignment operator
     SparseStorage& operator = ( const self& rhs ) {
 
-         if ( &rhs == this ) {
+         if ( &rhs != this ) {
              std::copy_n(rhs.begin(),rhs.size(),this->begin());
          }
 
-- 
2.43.0


From 433f9c99220788701257492cb9a581247161b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 32/89] fix: conversion to sparse allocates an outdated number
 of significant elements

---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 879088e..1366253 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -227,7 +227,7 @@ template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(other.getNbOfSignificantElements(valueChecker), this->getMinorDimension() + 1)
+   storage(countDesiredElements(other, valueChecker), this->getMinorDimension() + 1)
 {
     iterator iterValueCur(this->begin());
     index_iterator iterKeyCur(this->beginKey());
-- 
2.43.0


From a50a971207406ecc7fdc7077fb52b1c69089a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 33/89] fix: mixed precision multiplication by Eigen does not
 compile

---
 include/BlasBooster/Core/Multiplication_Eigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Eigen.h b/include/BlasBooster/Core/Multiplication_Eigen.h
index 80f9b45..d75be8f 100644
--- a/include/BlasBooster/Core/Multiplication_Eigen.h
+++ b/include/BlasBooster/Core/Multiplication_Eigen.h
@@ -63,7 +63,7 @@ struct MultiplicationFunctor<Dense,float,P,Dense,double,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXd> eB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA.template cast<double>() * eB;
     }
 };
 
@@ -83,7 +83,7 @@ struct MultiplicationFunctor<Dense,double,P,Dense,float,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXf> eB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA * eB.template cast<double>();
     }
 };
 
-- 
2.43.0


From e8399d148873e30a0940297eab2be9ffae6166c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 34/89] fix: multiplication by OpenBLAS of matrices without
 rows or columns leaves the result undefined

---
 include/BlasBooster/Core/Multiplication_OpenBLAS.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_OpenBLAS.h b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
index 58fe6cd..6536726 100644
--- a/include/BlasBooster/Core/Multiplication_OpenBLAS.h
+++ b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
@@ -4,6 +4,7 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/Multiplication.h"
 #include "BlasBooster/Utilities/Tracker.h"
+#include <algorithm>
 
 namespace BlasBooster {
 
@@ -25,9 +26,9 @@ struct MultiplicationFunctor<Dense,double,P,Dense,double,P,Dense,double,P,OpenBL
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max<int>(1, A.getNbRows());
+        int LDB = std::max<int>(1, A.getNbColumns());
+        int LDC = std::max<int>(1, A.getNbRows());
 
         double *pA = const_cast<double*>(A.getDataPointer());
         double *pB = const_cast<double*>(B.getDataPointer());
@@ -55,9 +56,9 @@ struct MultiplicationFunctor<Dense,float,P,Dense,float,P,Dense,float,P,OpenBLAS>
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max<int>(1, A.getNbRows());
+        int LDB = std::max<int>(1, A.getNbColumns());
+        int LDC = std::max<int>(1, A.getNbRows());
 
         float *pA = const_cast<float*>(A.getDataPointer());
         float *pB = const_cast<float*>(B.getDataPointer());
-- 
2.43.0


From b8b18b8b5c0736009af3c42dcd2fee5a97a3cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 35/89] fix: multiplication reads row-major operands as
 column-major

---
 include/BlasBooster/Core/MatrixMultExp.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixMultExp.h b/include/BlasBooster/Core/MatrixMultExp.h
index 33cca37..bb5879e 100644
--- a/include/BlasBooster/Core/MatrixMultExp.h
+++ b/include/BlasBooster/Core/MatrixMultExp.h
@@ -25,6 +25,13 @@ struct MatrixMultExp
     static_assert(wrong_t<TypeA>::value, "Primary template must not be instantiated.");
 };
 
+/// Operand of a multiplication, converted if its orientation is not that of the result
+template <class M, class T, class P, class P3>
+using MultiplicationOperand = typename std::conditional<
+    std::is_same<typename P::orientation, typename P3::orientation>::value,
+    Matrix<M,T,P>, Matrix<M,T,P3>
+>::type;
+
 /// Expression template for multiplication Matrix * Matrix
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 class MatrixMultExp<Matrix<M1,T1,P1>, Matrix<M2,T2,P2>>
@@ -38,8 +45,13 @@ public:
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())>
     {
+        typedef MultiplicationOperand<M1,T1,P1,decltype(P1() * P2())> OperandA;
+        typedef MultiplicationOperand<M2,T2,P2,decltype(P1() * P2())> OperandB;
+
         Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())> C;
-        MultiplicationFunctor<M1,T1,P1,M2,T2,P2, decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2()), Interface>()(A,B,C);
+        MultiplicationFunctor<M1,T1,typename OperandA::parameter,M2,T2,typename OperandB::parameter,
+            decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2()), Interface>()(
+            static_cast<OperandA const&>(A), static_cast<OperandB const&>(B), C);
         return C;
     }
 
-- 
2.43.0


From fb42e6ec17c84ef790a274bb76c25202ff2d659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 36/89] fix: block counts per type start from indeterminate
 values

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0


From 439fece38fe93b034dc10fa61be5dbb198657605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 37/89] fix: one-norm of multiple matrix counts the first part
 twice

---
 include/BlasBooster/Core/Norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..abaaac2 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -73,7 +73,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
         //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
-- 
2.43.0


From 6b549c2a2cdcff108b207fe55848352d8db1e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 38/89] fix: block size generator hangs if no border leaves
 blocks which are large enough

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..9aa58b3 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -180,6 +180,9 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            // None of the remaining indices leaves two blocks which are large enough
+            if (largest_min == 0) break;
+
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From 7b963978e055bd7b4bfe8fd0fb1542e9c0f9bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 39/89] fix: block size generator takes columns for rows

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 9aa58b3..4e6ac62 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -115,23 +115,22 @@ std::tuple<std::vector<T>, std::vector<T>> BlockSizeGenerator::get_detection_arr
     std::vector<T> row_detect(matrix.getNbRows() - 1, 0.0);
     std::vector<T> col_detect(matrix.getNbColumns() - 1, 0.0);
 
-    typename Matrix<Dense,T,P>::const_iterator iter1(matrix_log.begin()),
-        iter2(matrix_log.begin() + 1), iter3(matrix_log.begin() + matrix.getNbColumns());
+    // Memory is accessed consecutively
+    bool const is_column_major = std::is_same<typename P::orientation, ColumnMajor>::value;
+    std::vector<T>& minor_detect = is_column_major ? row_detect : col_detect;
+    std::vector<T>& major_detect = is_column_major ? col_detect : row_detect;
+    size_t const nb_minor = minor_detect.size() + 1;
+    size_t const nb_major = major_detect.size() + 1;
 
-    for (size_t i = 0; i != matrix.getNbRows() - 1; ++i)
+    typename Matrix<Dense,T,P>::const_iterator iter(matrix_log.begin());
+
+    for (size_t i = 0; i != nb_major; ++i)
     {
-        for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2, ++iter3)
+        for (size_t j = 0; j != nb_minor; ++j, ++iter)
         {
-            row_detect[i] += std::abs(*iter1 - *iter3);
-            col_detect[j] += std::abs(*iter1 - *iter2);
+            if (j + 1 != nb_minor) minor_detect[j] += std::abs(*iter - *(iter + 1));
+            if (i + 1 != nb_major) major_detect[i] += std::abs(*iter - *(iter + nb_minor));
         }
-        row_detect[i] += std::abs(*iter1 - *iter3);
-        ++iter1, ++iter2, ++iter3;
-    }
-
-    for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2)
-    {
-        col_detect[j] += std::abs(*iter1 - *iter2);
     }
 
     return std::make_tuple(row_detect, col_detect);
-- 
2.43.0


From 8b972e0747c934965ae696dbd8e527d8aacc3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 40/89] fix: value checkers of different type but same ID are
 compared as if they had the same type

---
 .../Core/AbsoluteValueRangeChecker.h          | 41 +++++++++++--------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..bcb6a35 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -4,6 +4,9 @@
 #include "BlasBooster/Core/CoreException.h"
 #include <cmath>
 #include <memory>
+#include <tuple>
+#include <typeindex>
+#include <typeinfo>
 
 namespace BlasBooster {
 
@@ -16,6 +19,17 @@ struct ValueCheckerBase
 	virtual ~ValueCheckerBase() = 0;
     virtual bool operator < (ValueCheckerBase const& other) const = 0;
     virtual size_t getID() const = 0;
+
+protected:
+
+    bool isSameType(ValueCheckerBase const& other) const { return typeid(*this) == typeid(other); }
+
+    /// Order of checkers with different types, which may have the same ID if the type is not listed
+    bool isTypeLess(ValueCheckerBase const& other) const
+    {
+        return std::make_tuple(getID(), std::type_index(typeid(*this)))
+            < std::make_tuple(other.getID(), std::type_index(typeid(other)));
+    }
 };
 
 inline ValueCheckerBase::~ValueCheckerBase()
@@ -65,10 +79,8 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,threshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).threshold_);
+        if (!isSameType(other)) return isTypeLess(other);
+        return threshold_ < static_cast<AbsoluteValueRangeChecker const&>(other).threshold_;
     }
 
     size_t getID() const { return id_; }
@@ -109,10 +121,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
+        if (!isSameType(other)) return isTypeLess(other);
+        return std::tie(lowerThreshold_,upperThreshold_)
+            < std::tie(static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
             static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
     }
 
@@ -155,10 +166,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
+        if (!isSameType(other)) return isTypeLess(other);
+        return std::tie(lowerThreshold_,upperThreshold_)
+            < std::tie(static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
             static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
     }
 
@@ -201,10 +211,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
+        if (!isSameType(other)) return isTypeLess(other);
+        return std::tie(lowerThreshold_,upperThreshold_)
+            < std::tie(static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
             static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
     }
 
-- 
2.43.0


From 88dbcb2206b941a2d2fc8b990295d553eddc2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 41/89] fix: value checkers accept thresholds which are not a
 number

---
 .../BlasBooster/Core/AbsoluteValueRangeChecker.h   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index bcb6a35..03371b1 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -68,7 +68,7 @@ public:
     AbsoluteValueRangeChecker(ThresholdType threshold = 0.0)
      : threshold_(threshold)
     {
-        if (threshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: threshold < 0.0");
+        if (!(threshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: threshold < 0.0");
     }
 
     template <class ValueType>
@@ -107,8 +107,8 @@ public:
     AbsoluteValueRangeChecker(ThresholdType lowerThreshold, ThresholdType upperThreshold)
      : lowerThreshold_(lowerThreshold), upperThreshold_(upperThreshold)
     {
-        if (lowerThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
-        if (upperThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
+        if (!(lowerThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
+        if (!(upperThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
         if (lowerThreshold >= upperThreshold) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold >= upperThreshold");
     }
 
@@ -152,8 +152,8 @@ public:
     AbsoluteValueRangeChecker(ThresholdType lowerThreshold, ThresholdType upperThreshold)
      : lowerThreshold_(lowerThreshold), upperThreshold_(upperThreshold)
     {
-        if (lowerThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
-        if (upperThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
+        if (!(lowerThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
+        if (!(upperThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
         if (lowerThreshold > upperThreshold) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold > upperThreshold");
     }
 
@@ -197,8 +197,8 @@ public:
     AbsoluteValueRangeChecker(ThresholdType lowerThreshold, ThresholdType upperThreshold)
      : lowerThreshold_(lowerThreshold), upperThreshold_(upperThreshold)
     {
-        if (lowerThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
-        if (upperThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
+        if (!(lowerThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
+        if (!(upperThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
         if (lowerThreshold >= upperThreshold) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold >= upperThreshold");
     }
 
-- 
2.43.0


From 5d4446a3fe84441c4645bf3eadca5e152bdf2d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 42/89] fix: maximum norm of single precision matrices does not
 compile

---
 include/BlasBooster/Core/Norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index abaaac2..4732cf5 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -133,7 +133,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));
         }
         return norm;
     }
-- 
2.43.0


From 7a6a2f365cd3dbcdc9d56b82efffb1ae0592f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 43/89] fix: one- and maximum norm of zero and dynamic matrices
 do not compile

---
 include/BlasBooster/Core/Norm.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index 4732cf5..d68c65a 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -16,7 +16,25 @@ struct NormFunctor
     }
 };
 
-/// Specialization for Matrix<Zero>
+/// Specializations for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
 template <class P>
 struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
 {
-- 
2.43.0


From 80ca40771d70e4e7feefb60d76bf0ff8ca884170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 44/89] fix: norm and occupation are stale after loading a
 matrix from an archive

---
 include/BlasBooster/Core/DenseMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 6ba5739..48b98cd 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -330,6 +330,7 @@ private:
     {
         ar & boost::serialization::base_object<dimension>(*this);
         ar & boost::serialization::base_object<storage>(*this);
+        if (Archive::is_loading::value) resetCache();
     }
 
     template <class U = P>
-- 
2.43.0


From f76a19f0d9bf35fd13c397705c34f9cfeeaa5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 45/89] fix: fixed size heap storage leaks when constructed
 from a wrong number of values

---
 include/BlasBooster/Core/Storage.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index ff850aa..150db52 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -142,10 +142,11 @@ public:
 #ifndef NO_INITIALIZER_LIST_SUPPORTED
     /// Initializer list constructor
     Storage( std::initializer_list<T> values )
-     : data_(new T[size_]), ownMemory_(true)
+     : data_(nullptr), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Initializer list constructor is called.");
         if ( values.size() != size_ ) throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
+        data_ = new T[size_];
         size_t i(0);
         for ( auto val : values ) data_[i++] = val;
     }
@@ -170,10 +171,11 @@ public:
     /// Conversion constructor
     template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
     Storage( const Storage<T2,onStack2,isFixed2,Size2,Strided2>& rhs )
-     : data_(new T[size_]), ownMemory_(true)
+     : data_(nullptr), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Conversion constructor is called.");
         if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
+        data_ = new T[size_];
         std::copy(rhs.begin(),rhs.end(),begin());
     }
 
-- 
2.43.0


From 8ad3a60ab9e0d5e6911b800af75b51972f52c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 46/89] fix: storage on stack is overrun by too long
 initializer lists

---
 include/BlasBooster/Core/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 150db52..2bcee2f 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -54,6 +54,7 @@ public:
      : data_()
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onStack): Initializer list constructor is called.");
+        if ( values.size() > size_ ) throw std::runtime_error("Storage (onStack): values.size() > size_");
         size_t i(0);
         for (auto val : values) data_[i++] = val;
     }
-- 
2.43.0


From bdab040e1a5dee2fc02df33b736c6a760fcf4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 47/89] fix: refused resize of external memory changes the
 dimension of the matrix

---
 include/BlasBooster/Core/DenseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 48b98cd..6f8f58e 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -726,8 +726,8 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     filler(*this);
     resetCache();
 }
@@ -738,10 +738,10 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     resetCache();
 }
 
-- 
2.43.0


From 751cd05b2f5f177f1165637fda69c45371180991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 48/89] fix: striped iterators go astray when stepping back
 from the end

---
 include/BlasBooster/Core/Storage.h         | 10 ++++++----
 include/BlasBooster/Core/StripedIterator.h |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 2bcee2f..58198ae 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -597,29 +597,31 @@ public:
     }
 
     iterator rbegin() {
+        if (size_ == 0) return rend();
         return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rbegin() const {
+        if (size_ == 0) return rend();
         return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator end() {
         if (size_ == 0) return begin();
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
         if (size_ == 0) return begin();
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rend() const {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     size_t size() const {
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..efd344d 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -49,7 +49,8 @@ public:
     void increment()
     {
         if (position_ == continuousSizeMinus1_) {
-            if (static_cast<size_t>(++block_) == nbBlocks_) ++iter_;
+            ++block_;
+            if (block_ == 0 || static_cast<size_t>(block_) == nbBlocks_) ++iter_;
             else iter_ += separatorSizePlus1_;
             position_ = 0;
         } else {
@@ -61,7 +62,8 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            --block_;
+            if (block_ == -1 || static_cast<size_t>(block_ + 1) == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
             position_ = continuousSizeMinus1_;
         } else {
-- 
2.43.0


From c0883bf19ce3c38f468ca7fa35a424453086512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 49/89] fix: complex dot products of OpenBLAS return garbage

---
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp           | 15 +++++++++++----
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre       | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..9c5434b 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -3,6 +3,13 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// The Fortran functions of OpenBLAS return complex numbers by value, whereas Blas.h
+// declares them with a hidden result argument.
+extern "C" void cblas_cdotc_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+extern "C" void cblas_cdotu_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+extern "C" void cblas_zdotc_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+extern "C" void cblas_zdotu_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -938,7 +945,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -946,7 +953,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -954,7 +961,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -962,7 +969,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..492c4fc 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -3,6 +3,13 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// The Fortran functions of OpenBLAS return complex numbers by value, whereas Blas.h
+// declares them with a hidden result argument.
+extern "C" void cblas_cdotc_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+extern "C" void cblas_cdotu_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+extern "C" void cblas_zdotc_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+extern "C" void cblas_zdotu_sub(int n, const void *x, int incx, const void *y, int incy, void *result);
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -28,7 +35,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -36,7 +43,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -44,7 +51,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
@@ -52,7 +59,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1, v2, *v3, v4, *v5, &result);
     return result;
 }
 
-- 
2.43.0


From b32e14f7fe60654683363199e34648a3eeb696ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 50/89] fix: count and time run together in the report of the
 trackers

---
 include/BlasBooster/Utilities/Tracker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index e2373a7..ee0795b 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -85,7 +85,7 @@ enum class TrackerID {
             os << "\n"
                << std::setw(20) << "tracker"
                << std::setw(10) << "count"
-               << "time\n"
+               << std::setw(20) << "time" << "\n"
                << std::string(60,'-')
                << std::endl;
 
@@ -93,7 +93,7 @@ enum class TrackerID {
                 if (count[i] == 0) continue;
                 os << std::setw(20) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
                    << std::setw(10) << count[i]
-                   << time[i].count() << " ns"
+                   << std::setw(20) << time[i].count() << " ns"
                    << std::endl;
             }
             return os;
-- 
2.43.0


From 6fe024adf7a33c3d5cbd5585b2f15d25910cf29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 51/89] fix: truncated matrix files are accepted

---
 include/BlasBooster/Core/MatrixFileIO.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..a34835e 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -50,6 +50,8 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
         }
     }
 
+    if (!is2) throw BlasBoosterException("Error reading file " + settings.filename);
+
     return is;
 }
 
-- 
2.43.0


From 1b09159c5db901ad3e16efc9bac097b3979f477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 52/89] fix: row-major matrices are read from files as if they
 were column-major

---
 include/BlasBooster/Core/MatrixFileIO.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index a34835e..0193b08 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -5,6 +5,8 @@
 #include "BrainTwister/Record.h"
 #include <iostream>
 #include <fstream>
+#include <type_traits>
+#include <vector>
 // tmp
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -37,15 +39,16 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
 
-    T* dataPointer = matrix.getDataPointer();
-
-    if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
-        is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
+    // The file is stored column-wise
+    if (std::is_same<typename P::orientation, ColumnMajor>::value and
+        settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
+        is2.read(reinterpret_cast<char*>(matrix.getDataPointer()), settings.nbRows * settings.nbColumns * sizeof(T));
     } else {
+        std::vector<T> column(settings.nbRows);
         is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
         for (size_t col = 0; col < settings.nbColumns; ++col) {
-            is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * sizeof(T));
-            dataPointer += settings.nbRows;
+            is2.read(reinterpret_cast<char*>(column.data()), settings.nbRows * sizeof(T));
+            for (size_t row = 0; row < settings.nbRows; ++row) matrix(row, col) = column[row];
             is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
         }
     }
-- 
2.43.0


From 88df476ede229fa88b1bbd9b671d490f7125e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 53/89] fix: dimensions which overflow are accepted when
 reading matrices from files

---
 include/BlasBooster/Core/MatrixFileIO.h  | 12 +++++++++---
 src/MatrixFactory/MatrixFileImporter.cpp |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 0193b08..5ad47d0 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -5,6 +5,7 @@
 #include "BrainTwister/Record.h"
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <type_traits>
 #include <vector>
 // tmp
@@ -30,11 +31,16 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     boost::property_tree::ptree tree;
     boost::property_tree::read_xml(is, tree);
     MatrixFileSettings settings(tree);
-    matrix.resize(settings.nbRows, settings.nbColumns);
 
     // Some dimension checks
-    if (settings.nbRows + settings.rowOffset > settings.rowLeadingDimension) throw BlasBoosterException("");
-    if (settings.nbColumns + settings.columnOffset > settings.columnLeadingDimension) throw BlasBoosterException("");
+    if (settings.rowOffset > settings.rowLeadingDimension or
+        settings.nbRows > settings.rowLeadingDimension - settings.rowOffset) throw BlasBoosterException("");
+    if (settings.columnOffset > settings.columnLeadingDimension or
+        settings.nbColumns > settings.columnLeadingDimension - settings.columnOffset) throw BlasBoosterException("");
+    if (settings.nbColumns != 0 and settings.nbRows > std::numeric_limits<std::streamsize>::max() / sizeof(T) / settings.nbColumns)
+        throw BlasBoosterException("Matrix is too large to be read from file " + settings.filename);
+
+    matrix.resize(settings.nbRows, settings.nbColumns);
 
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
diff --git a/src/MatrixFactory/MatrixFileImporter.cpp b/src/MatrixFactory/MatrixFileImporter.cpp
index 69f198a..246e77e 100644
--- a/src/MatrixFactory/MatrixFileImporter.cpp
+++ b/src/MatrixFactory/MatrixFileImporter.cpp
@@ -1,6 +1,7 @@
 #include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include <fstream>
+#include <limits>
 
 namespace BlasBooster {
 
@@ -12,6 +13,8 @@ MatrixFileImporter::MatrixFileImporter(filesystem::path const& file)
         throw BlasBoosterException("Can't open file " + file.string());
     if (!(is >> nbRows >> nbColumns >> dataFile))
         throw BlasBoosterException("Error reading file " + file.string());
+    if (nbColumns != 0 and nbRows > std::numeric_limits<std::streamsize>::max() / sizeof(double) / nbColumns)
+        throw BlasBoosterException("Matrix is too large to be read from file " + dataFile.string());
 }
 
 Matrix<Dense,double> MatrixFileImporter::operator()() const
-- 
2.43.0


From d159ece5ff993b4de0b4d3fdef79f81a052f7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 54/89] fix: storage is freed twice if loading it from an
 archive fails

---
 include/BlasBooster/Core/Storage.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 58198ae..56c5fdf 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -487,11 +487,11 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
-        if (ownMemory_ and data_) deallocate<T>(data_);
-        ar >> size_;
-        data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
+        size_t size;
+        ar >> size;
+        self other(size);
+        for ( size_t i(0); i != size; ++i ) ar >> other.data_[i];
+        swap(*this, other);
     }
 
     T* data_;
-- 
2.43.0


From 38185de37a75b5667fe9da6c88d12925d9c04946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 55/89] fix: dimension and storage of a matrix contradict each
 other if loading it from an archive fails

---
 include/BlasBooster/Core/DenseMatrix.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 6f8f58e..0febcff 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -328,9 +328,20 @@ private:
     template <class Archive>
     void serialize(Archive & ar, const unsigned int version)
     {
-        ar & boost::serialization::base_object<dimension>(*this);
-        ar & boost::serialization::base_object<storage>(*this);
-        if (Archive::is_loading::value) resetCache();
+        if constexpr (Archive::is_loading::value) {
+            // The matrix remains unchanged if loading fails.
+            using std::swap;
+            dimension newDimension;
+            storage newStorage;
+            ar & newDimension;
+            ar & newStorage;
+            static_cast<dimension&>(*this) = newDimension;
+            swap(static_cast<storage&>(*this), newStorage);
+            resetCache();
+        } else {
+            ar & boost::serialization::base_object<dimension>(*this);
+            ar & boost::serialization::base_object<storage>(*this);
+        }
     }
 
     template <class U = P>
-- 
2.43.0


From ff94569ef54fb327addf913ff09ae2c2a8e91c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 56/89] fix: truncated XML files terminate the program

---
 include/BlasBooster/Utilities/FileIO.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 3b32196..6378935 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -8,6 +8,7 @@
 #include <boost/filesystem.hpp>
 #include <boost/serialization/nvp.hpp>
 #include <fstream>
+#include <iterator>
 #include <string>
 
 namespace BlasBooster {
@@ -19,6 +20,14 @@ void readXML( T& settings, const std::string& name, const boost::filesystem::pat
     std::ifstream in(filename.string().c_str());
     boost::archive::xml_iarchive ia(in);
     ia >> boost::serialization::make_nvp(name.c_str(),settings);
+
+    // The archive terminates the program on its destruction if its end tag is missing.
+    const std::streampos pos = in.tellg();
+    const std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
+    if (rest.find('>', rest.find("</boost_serialization")) == std::string::npos)
+        throw BlasBoosterException("readXML: " + filename.string() + " is truncated");
+    in.clear();
+    in.seekg(pos);
 }
 
 template <class T>
-- 
2.43.0


From 77a504ef15f7aa07e7d6029543f1284612669873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 57/89] fix: maximal deviation of single precision matrices
 does not compile

---
 include/BlasBooster/Core/StatisticalErrorInformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 9dd55f8..bcfb078 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -10,7 +10,7 @@ double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
     typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
-        maximalDeviation = std::max(maximalDeviation, std::abs(*iterACur - *iterBCur));
+        maximalDeviation = std::max<double>(maximalDeviation, std::abs(*iterACur - *iterBCur));
     }
     return maximalDeviation;
 }
-- 
2.43.0


From b76094871ecfc15c41ae0e0d8289973827e5f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 58/89] fix: deviation of matrices of different orientation
 compares elements of different places

---
 .../Core/StatisticalErrorInformation.h         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index bcfb078..55d2136 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -6,6 +6,15 @@ template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
     double maximalDeviation(0.0);
+    if constexpr (!std::is_same<typename P1::orientation, typename P2::orientation>::value) {
+        // The elements are stored in different order
+        for (size_t row(0); row != A.getNbRows(); ++row) {
+            for (size_t column(0); column != A.getNbColumns(); ++column) {
+                maximalDeviation = std::max<double>(maximalDeviation, std::abs(A(row, column) - B(row, column)));
+            }
+        }
+        return maximalDeviation;
+    }
     typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
     typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
@@ -19,6 +28,15 @@ template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
     double meanSquare(0.0);
+    if constexpr (!std::is_same<typename P1::orientation, typename P2::orientation>::value) {
+        // The elements are stored in different order
+        for (size_t row(0); row != A.getNbRows(); ++row) {
+            for (size_t column(0); column != A.getNbColumns(); ++column) {
+                meanSquare += std::pow(A(row, column) - B(row, column), 2);
+            }
+        }
+        return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
+    }
     typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
     typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
-- 
2.43.0


From 7cc66afde8d7bc771f0382db8813569b14c91270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 59/89] fix: continuous number filler takes row-major sparse
 matrices for column-major

---
 include/BlasBooster/Core/MatrixFiller.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFiller.h b/include/BlasBooster/Core/MatrixFiller.h
index 8dd30f0..71362ad 100644
--- a/include/BlasBooster/Core/MatrixFiller.h
+++ b/include/BlasBooster/Core/MatrixFiller.h
@@ -56,10 +56,10 @@ struct ContinuousNumberFiller
         typename P::IndexType offset(0), key;
         typename Matrix<Sparse,T,P>::index_iterator iterKeyCur(matrix.beginKey());
         typename Matrix<Sparse,T,P>::index_iterator iterOffsetCur(matrix.beginOffset()), iterOffsetEnd(matrix.endOffset() - 1);
-        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getNbRows())
+        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getMajorDimension())
         {
             key = 0;
-            while (key != matrix.getNbRows())
+            while (key != matrix.getMajorDimension())
             {
                 *iterKeyCur = key;
                 ++iterKeyCur;
-- 
2.43.0


From 572caaa8e4317e87d8c59575e413a69bcde9ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 60/89] fix: matrix generator ignores the occupation

---
 src/MatrixFactory/MatrixGenerator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MatrixFactory/MatrixGenerator.cpp b/src/MatrixFactory/MatrixGenerator.cpp
index 0a5992f..6e0b706 100644
--- a/src/MatrixFactory/MatrixGenerator.cpp
+++ b/src/MatrixFactory/MatrixGenerator.cpp
@@ -10,11 +10,13 @@ Matrix<Dense,double> MatrixGenerator::operator()() const
     std::default_random_engine e(settings.seed);
     std::uniform_real_distribution<> d1(settings.minValue, settings.maxValue);
     std::uniform_int_distribution<> d2(0, 1);
+    std::bernoulli_distribution d3(settings.occupation);
 
     for (Matrix<Dense,double>::iterator iterCur(matrix.begin()),
         iterEnd(matrix.end()); iterCur != iterEnd; ++iterCur)
     {
-        *iterCur = (d2(e) ? -1 : 1) * pow(10,-d1(e));
+        if (settings.occupation < 1.0 and !d3(e)) *iterCur = 0.0;
+        else *iterCur = (d2(e) ? -1 : 1) * pow(10,-d1(e));
     }
 
     return matrix;
-- 
2.43.0


From 38b2cf95bb9388343c00b6ecb4293399f58bc07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 61/89] fix: dense matrices of different orientation are
 compared by their position in memory

---
 include/BlasBooster/Core/DenseMatrix.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0febcff..aa977b7 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -257,9 +257,13 @@ public: // member functions
 
     template <class T2, class P2>
     bool equal(Matrix<Dense,T2,P2> const& rhs) const {
-        return storage::equal(rhs)
-            and this->getNbRows() == rhs.getNbRows()
-            and this->getNbColumns() == rhs.getNbColumns();
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        for (IndexType row(0); row != this->getNbRows(); ++row) {
+            for (IndexType column(0); column != this->getNbColumns(); ++column) {
+                if (!equalWithinNumericalAccuracy((*this)(row, column), rhs(row, column))) return false;
+            }
+        }
+        return true;
     }
 
     template <class T2, class P2>
-- 
2.43.0


From 4f2a98af8bdbd8b206a98d5546ecb4934578fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 62/89] fix: equal infinities are compared as unequal and
 unsigned integers not at all

---
 .../BlasBooster/Utilities/EqualWithinNumericalAccuracy.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
index aaf7515..98c8588 100644
--- a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
+++ b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
@@ -1,7 +1,10 @@
 #pragma once
 
 #include <algorithm>
+#include <cmath>
 #include <complex>
+#include <cstdlib>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -17,7 +20,11 @@ template <> inline double numericalAccuracy< unsigned long >() { return 0.0; }
 template <class T1, class T2>
 bool equalWithinNumericalAccuracy(T1 const& v1, T2 const& v2)
 {
-    return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
+    // Equal infinities have no difference
+    if (v1 == v2) return true;
+    // The difference of integers can overflow, unsigned ones have no absolute value
+    if constexpr (std::is_integral<T1>::value and std::is_integral<T2>::value) return false;
+    else return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 7162ffb795c20acd10f0597a7f3291833e18376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 63/89] fix: comparison of sparse matrices ignores dimension
 and orientation

---
 include/BlasBooster/Core/SparseMatrix.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 1366253..253d6ac 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -126,6 +126,22 @@ public:
         return storage::operator==(rhs) and dimension::operator==(rhs);
     }
 
+    bool operator != (Matrix const& rhs) const {
+        return !operator==(rhs);
+    }
+
+    template <class T2, class P2>
+    bool equal(Matrix<Sparse,T2,P2> const& rhs) const {
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        if constexpr (std::is_same<typename P::orientation, typename P2::orientation>::value) return storage::equal(rhs);
+        else return storage::equal(transpose(rhs));
+    }
+
+    template <class T2, class P2>
+    bool notEqual(Matrix<Sparse,T2,P2> const& rhs) const {
+        return !equal(rhs);
+    }
+
     const std::type_info& getTypeInfo() const { return typeid(*this); }
 
     size_t getTypeIndex() const { return typeIndex_; }
-- 
2.43.0


From e4d81677179b46374fd7a46671def84c82f97e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 64/89] fix: unknown actions and matrix types of the benchmark
 settings are silently ignored

---
 src/Benchmark/ActionProvider.cpp | 2 +-
 src/Benchmark/MatrixProvider.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Benchmark/ActionProvider.cpp b/src/Benchmark/ActionProvider.cpp
index a278dcb..3db6967 100644
--- a/src/Benchmark/ActionProvider.cpp
+++ b/src/Benchmark/ActionProvider.cpp
@@ -101,7 +101,7 @@ ActionProvider::ActionProvider(ptree const& tree)
 //    	if (leaf.first == "blasbooster_sparse_float") {
 //    		action_list.push_back(std::make_shared<Action_blasbooster_sparse_float>(leaf.second));
         } else {
-            std::runtime_error(std::string("Unknown action: ") + leaf.first);
+            throw std::runtime_error(std::string("Unknown action: ") + leaf.first);
         }
     }
 }
diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 709bb84..898351b 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -41,7 +41,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 auto&& filename = type_leaf.second.get_value<std::string>();
                 matrix_set[name_leaf.first].push_back(Matrix<Dense, double>(filename));
             } else {
-                std::runtime_error("Unknown matrix_set type.");
+                throw std::runtime_error("Unknown matrix_set type.");
             }
         }
     }
-- 
2.43.0


From 411c59e1c00ef0b934bc5db45bd40a49c4293a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 65/89] fix: diagonal band which is wider than the matrix is
 written beyond it

---
 src/Benchmark/MatrixProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 898351b..9ef4f88 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -25,7 +25,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 for (auto&& dim : dim_list) {
                     for (auto&& band_width : band_width_list) {
                         Matrix<Dense, double> matrix(dim, dim, AllFiller<double>(0.0));
-                        for (size_t b = 0; b != band_width; ++b) {
+                        for (size_t b = 0; b < band_width && b < dim; ++b) {
                             for (size_t i = 0; i != dim-b; ++i) {
                                 matrix(i+b, i) = value;
                                 matrix(i, i+b) = value;
-- 
2.43.0


From 341026023a9f52ed2723038ca39f7855f357ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 66/89] fix: benchmark crashes if the settings define no
 matrices

---
 src/Benchmark/MatrixProvider.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Benchmark/MatrixProvider.h b/src/Benchmark/MatrixProvider.h
index 44f30ae..ed67a13 100644
--- a/src/Benchmark/MatrixProvider.h
+++ b/src/Benchmark/MatrixProvider.h
@@ -24,7 +24,7 @@ public:
 
     bool operator == (MatrixProvider const& other) const { return matrix_set == other.matrix_set; }
 
-    MatrixList get(std::string const& name) const { return matrix_set.find(name)->second; }
+    MatrixList get(std::string const& name) const { return matrix_set.at(name); }
 
 private:
 
-- 
2.43.0


From c926d47a39599f8aa0edfb08cacacee941e80dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 67/89] fix: generate_matrix writes a band only within the
 matrix

---
 src/Benchmark/generate_matrix.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 69d79e8..20aea8a 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -46,10 +46,8 @@ int main(int argc, char* argv[])
         if (type == "band") {
             matrix = Matrix<Dense, double>{rows, cols, AllFiller<double>{0.0}};
             for (size_t b = 0; b != band_width; ++b) {
-                for (size_t i = 0; i != rows-b; ++i) {
-                    matrix(i+b,i) = value;
-                    matrix(i,i+b) = value;
-                }
+                for (size_t i = 0; i+b < rows && i < cols; ++i) matrix(i+b,i) = value;
+                for (size_t i = 0; i < rows && i+b < cols; ++i) matrix(i,i+b) = value;
             }
         } else {
             DynamicMatrix D(new Matrix<Dense,double>(1000, 1000, DiagonalFiller<double>(0.1)));
-- 
2.43.0


From 3992ac92d503879a3acf921e0542755a5b9f4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 68/89] fix: generate_matrix reports a file which cannot be
 written

---
 src/Benchmark/generate_matrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 20aea8a..34996cd 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -59,6 +59,7 @@ int main(int argc, char* argv[])
         }
 
         std::ofstream os(matrix_file, std::ofstream::binary);
+        if (!os) throw BlasBoosterException("Can't open file " + matrix_file);
         os.write(reinterpret_cast<const char*>(matrix.getDataPointer()), matrix.getSize()*sizeof(double));
 
     } catch ( BlasBoosterException const& e ) {
-- 
2.43.0


From 637a00b881b4fa459a3ec56e2542adbf55dc7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 69/89] fix: show_pattern draws a border only within the block

---
 src/Benchmark/show_pattern.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark/show_pattern.cpp b/src/Benchmark/show_pattern.cpp
index 296292c..9a03b9e 100644
--- a/src/Benchmark/show_pattern.cpp
+++ b/src/Benchmark/show_pattern.cpp
@@ -111,10 +111,11 @@ int main(int argc, char* argv[])
 
                     AllFiller<double>(std::pow(10, -1.0 * (*type_column_cur)))(sub_matrix);
 
-                    for (int i = 0; i != border_width; ++i) {
-                        for (size_t j = 0; j != (*dim_column_cur).first; ++j) sub_matrix(j,i) = 0.0;
-                        for (size_t j = border_width; j != (*dim_column_cur).second; ++j) sub_matrix(i,j) = 0.0;
-                    }
+                    int const sub_rows = (*dim_column_cur).first, sub_cols = (*dim_column_cur).second;
+                    for (int i = 0; i < border_width && i < sub_cols; ++i)
+                        for (int j = 0; j != sub_rows; ++j) sub_matrix(j,i) = 0.0;
+                    for (int i = 0; i < border_width && i < sub_rows; ++i)
+                        for (int j = border_width; j < sub_cols; ++j) sub_matrix(i,j) = 0.0;
 
                     // TODO: rowOffset is ideally determined one time (all submatrices in a column have the same row size).
                     // But I don't know yet how to determine the offset in the outer loop.
-- 
2.43.0


From f4b3b32abad74fcc38d3c976661dc83f3dd90ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 70/89] fix: PatternGenerator reports a file which cannot be
 written

---
 include/BlasBooster/Core/PatternGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/PatternGenerator.h b/include/BlasBooster/Core/PatternGenerator.h
index 8c79a20..258e3b7 100644
--- a/include/BlasBooster/Core/PatternGenerator.h
+++ b/include/BlasBooster/Core/PatternGenerator.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BlasBooster/Utilities/FileIO.h"
 #include "BlasBooster/Utilities/Filesystem.h"
 #include "BrainTwister/Record.h"
@@ -45,6 +46,7 @@ template <class T, class P>
 void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::path const& file) const
 {
     std::ofstream outfile(file.string());
+    if (!outfile) throw BlasBoosterException("Can't open file " + file.string());
 
     // <width> <height> <colors> <char on pixel>
     outfile << "/* XPM */\nstatic char * matrix_xpm[] = {\n\""
-- 
2.43.0


From f731bdc0d7eaf80f057d1804a96bc3c503aaf782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 71/89] fix: IntelMKL dense product of matrices without rows or
 without columns

---
 include/BlasBooster/Core/Multiplication_IntelMKL.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index f162a06..9d010ee 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -32,6 +32,9 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         char n = 'N';
         T alpha = 1.0;
         T beta = 0.0;
+        int LDA = std::max<int>(1, A.getNbRows());
+        int LDB = std::max<int>(1, A.getNbColumns());
+        int LDC = std::max<int>(1, A.getNbRows());
 
         BlasInterface<IntelMKL, FuncType>()(
             &n,
@@ -41,12 +44,12 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
             reinterpret_cast<const int*>(&A.nbColumns_),
             &alpha,
             const_cast<T*>(A.data_),
-            reinterpret_cast<const int*>(&A.nbRows_),
+            &LDA,
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &LDB,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &LDC
         );
     }
 };
-- 
2.43.0


From df00889d177b6c95475b628e0fc35e8ee8f6142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 72/89] fix: IntelMKL product of sparse matrices

---
 .../Core/Multiplication_IntelMKL.h            | 132 ++++++++----------
 1 file changed, 58 insertions(+), 74 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index 9d010ee..4643741 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <iostream>
 #include <type_traits>
+#include <vector>
 
 #include "BlasBooster/BlasInterface/BlasInterface_IntelMKL.h"
 #include "BlasBooster/Core/DenseMatrix.h"
@@ -124,86 +125,69 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         >::type tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
-        C.resize(A.getNbRows(), B.getNbColumns());
+
+        // The arrays of a column-major matrix are those of its transposed in compressed
+        // row storage, therefore it is C^T = B^T * A^T which is calculated.
+        constexpr bool is_column_major = std::is_same<typename P::orientation, ColumnMajor>::value;
+        Matrix<Sparse,T,P> const& L = is_column_major ? B : A;
+        Matrix<Sparse,T,P> const& R = is_column_major ? A : B;
 
         char n = 'N';
         int request = 1;
         int sort = 8;
-        int info;
-
-        std::vector<int> A_key(A.key_.size());
-        std::transform(A.key_.begin(), A.key_.end(), A_key.begin(), [](size_t value){
-            return ++value;
-        });
-
-        std::vector<int> A_offset(A.offset_.size());
-        std::transform(A.offset_.begin(), A.offset_.end(), A_offset.begin(), [](size_t value){
-            return ++value;
-        });
-
-        std::vector<int> B_key(B.key_.size());
-        std::transform(B.key_.begin(), B.key_.end(), B_key.begin(), [](size_t value){
-            return ++value;
-        });
-
-        std::vector<int> B_offset(B.offset_.size());
-        std::transform(B.offset_.begin(), B.offset_.end(), B_offset.begin(), [](size_t value){
-            return ++value;
-        });
-
-        std::vector<int> C_key(C.key_.size());
-        std::vector<int> C_offset(C.offset_.size());
-
-        BlasInterface<IntelMKL, FuncType>()(
-            &n,
-            &request,
-            &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
-            &info
-        );
-        assert(info == 0);
-
+        int info = 0;
+        int M = L.offset_.size() - 1;
+        int N = R.offset_.size() - 1;
+        int K = is_column_major ? A.getNbRows() : B.getNbColumns();
+
+        auto one_based = [](auto const& indices){
+            std::vector<int> result(indices.size());
+            std::transform(indices.begin(), indices.end(), result.begin(), [](size_t value){ return value + 1; });
+            return result;
+        };
+
+        std::vector<int> L_key(one_based(L.key_)), L_offset(one_based(L.offset_));
+        std::vector<int> R_key(one_based(R.key_)), R_offset(one_based(R.offset_));
+        std::vector<int> C_key, C_offset(M + 1);
+        Matrix<Sparse,T,P> product;
+        int size = 0;
+
+        auto multiply = [&]{
+            BlasInterface<IntelMKL, FuncType>()(
+                &n,
+                &request,
+                &sort,
+                &M,
+                &N,
+                &K,
+                const_cast<T*>(L.value_.getDataPointer()),
+                L_key.data(),
+                L_offset.data(),
+                const_cast<T*>(R.value_.getDataPointer()),
+                R_key.data(),
+                R_offset.data(),
+                product.value_.getDataPointer(),
+                C_key.data(),
+                C_offset.data(),
+                &size,
+                &info
+            );
+            assert(info == 0);
+        };
+
+        // The first call counts the elements, the second one calculates them
+        multiply();
+        size = C_offset.back() - 1;
+        C_key.resize(size);
+        product.dimension::operator=(typename P::dimension(A.getNbRows(), B.getNbColumns()));
+        product.storage::resize(size, C_offset.size());
         request = 2;
-        BlasInterface<IntelMKL, FuncType>()(
-            &n,
-            &request,
-            &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
-            &info
-        );
-        assert(info == 0);
-
-        std::transform(C_key.begin(), C_key.end(), C.key_.begin(), [](int value){
-            return --value;
-        });
+        multiply();
 
-        std::transform(C_offset.begin(), C_offset.end(), C.offset_.begin(), [](int value){
-            return --value;
-        });
+        auto zero_based = [](int value){ return value - 1; };
+        std::transform(C_key.begin(), C_key.end(), product.key_.begin(), zero_based);
+        std::transform(C_offset.begin(), C_offset.end(), product.offset_.begin(), zero_based);
+        swap(C, product);
     }
 };
 
-- 
2.43.0


From 31d10131ddd143ffe9b09f05eeadf4f9dd180bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 73/89] fix: occupation of dynamic matrices cannot be called

---
 include/BlasBooster/Core/DynamicMatrixFunctions.h |  2 +-
 include/BlasBooster/Core/MultipleMatrix.h         | 15 +++++++++++++++
 include/BlasBooster/Core/ZeroMatrix.h             | 10 ++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DynamicMatrixFunctions.h b/include/BlasBooster/Core/DynamicMatrixFunctions.h
index 838e91d..83824f8 100644
--- a/include/BlasBooster/Core/DynamicMatrixFunctions.h
+++ b/include/BlasBooster/Core/DynamicMatrixFunctions.h
@@ -147,7 +147,7 @@ struct DynamicIsOccupationLargerThan
     template <class T>
     result_type operator () (T* = 0) const
     {
-        return std::static_pointer_cast<T>(dynMatrix_)->isOccupationLargerThan(valueChecker_);
+        return std::static_pointer_cast<T>(dynMatrix_)->isOccupationLargerThan(value_, valueChecker_);
     }
 
     DynamicMatrix dynMatrix_;
diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index f3bce09..caf1105 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
 #include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/DynamicMatrixTypeList.h"
 #include "BlasBooster/Core/MatrixBase.h"
@@ -75,6 +76,13 @@ struct MultipleMatrix
         return 0.0;
     }
 
+    double getOccupation(ValueCheckerBase const&) const
+    {
+        // TODO
+        BLASBOOSTER_CORE_FAILURE("not implemented yet");
+        return 0.0;
+    }
+
     bool isOccupationLargerThan(double value, double threshold = 0.0) const
     {
         // TODO
@@ -82,6 +90,13 @@ struct MultipleMatrix
         return false;
     }
 
+    bool isOccupationLargerThan(double value, ValueCheckerBase const&) const
+    {
+        // TODO
+        BLASBOOSTER_CORE_FAILURE("not implemented yet");
+        return false;
+    }
+
     double getNorm() const
     {
         // TODO
diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index fc70ed7..b5d9092 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -138,11 +138,21 @@ public:
         return 0.0;
     }
 
+    double getOccupation(ValueCheckerBase const&) const
+    {
+        return 0.0;
+    }
+
     bool isOccupationLargerThan(double value, double threshold = 0.0) const
     {
         return 0.0 > value;
     }
 
+    bool isOccupationLargerThan(double value, ValueCheckerBase const&) const
+    {
+        return 0.0 > value;
+    }
+
     bool isOccupationSmallerThan(double value, double threshold = 0.0) const
     {
         return 0.0 < value;
-- 
2.43.0


From e2e5c48e958b4515fd1dede535cc03fb148497b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:32 +0000
Subject: [PATCH 74/89] fix: storage is freed twice if memory runs out

---
 include/BlasBooster/Core/Storage.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 56c5fdf..d825974 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -366,8 +366,9 @@ public:
     void resize(size_t size) {
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
+        T* data = allocate<T>(size);
         if (data_) deallocate<T>(data_);
-        data_ = allocate<T>(size);
+        data_ = data;
         size_ = size;
     }
 
@@ -375,13 +376,13 @@ public:
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
-            if (ownMemory_) deallocate<T>(data_);
+            T* data = rhs.data_;
             if (rhs.ownMemory_) {
-                data_ = allocate<T>(rhs.size_);
-                std::copy(rhs.begin(),rhs.end(),begin());
-            } else {
-                data_ = rhs.data_;
+                data = allocate<T>(rhs.size_);
+                std::copy(rhs.begin(),rhs.end(),data);
             }
+            if (ownMemory_) deallocate<T>(data_);
+            data_ = data;
             size_ = rhs.size_;
             ownMemory_ = rhs.ownMemory_;
         }
-- 
2.43.0


From 1f3b9443ed1abde34e7990b4925a847dad3d576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:32 +0000
Subject: [PATCH 75/89] fix: matrix is inconsistent if memory runs out in
 assignment or resize

---
 include/BlasBooster/Core/DenseMatrix.h   | 14 ++++++++++++--
 include/BlasBooster/Core/SparseMatrix.h  | 21 +++++++++++++++------
 include/BlasBooster/Core/SparseStorage.h | 10 +++++++---
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index aa977b7..0fbd0d6 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -216,8 +216,18 @@ public: // member functions
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (self const& other) = default;
+    /// Copy assignment operator
+    /// The matrix remains unchanged if memory for the elements runs out.
+    Matrix& operator = (self const& other)
+    {
+        storage::operator=(other);
+        dimension::operator=(other);
+        leadingDimension::operator=(other);
+        unblockedDimension::operator=(other);
+        NormPolicy<self, typename P::NormType>::operator=(other);
+        OccupationPolicy<self>::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (self&& rhs) BLASBOOSTER_NOEXCEPT {
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 253d6ac..f5f1d50 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -103,8 +103,18 @@ public:
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (Matrix const& other) = default;
+    /// Copy assignment operator
+    /// The matrix remains unchanged if memory runs out.
+    Matrix& operator = (Matrix const& other)
+    {
+        dimension newDimension(other);
+        storage newStorage(other);
+        dimension::operator=(newDimension);
+        storage::operator=(std::move(newStorage));
+        NormPolicy<self, typename P::NormType>::operator=(other);
+        OccupationPolicy<self>::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (Matrix&& rhs)
@@ -321,10 +331,9 @@ template <class T, class P>
 void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
-    this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
+    dimension newDimension(nbRows, nbColumns);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, newDimension.getMinorDimension() + 1);
+    dimension::operator=(newDimension);
     resetCache();
 }
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index af6e8e6..07aeda9 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -113,9 +113,13 @@ public:
     {}
 
     void resize(IndexType nbOfValues, IndexType nbOfOffsets) {
-        value_.resize(nbOfValues);
-        key_.resize(nbOfValues);
-        offset_.resize(nbOfOffsets);
+        if (nbOfValues == nnz() and nbOfOffsets == sizeOffset()) return;
+        Storage<ValueType,false,false,0> value(nbOfValues);
+        Storage<IndexType,false,false,0> key(nbOfValues);
+        Storage<IndexType,false,false,0> offset(nbOfOffsets);
+        swap(value_, value);
+        swap(key_, key);
+        swap(offset_, offset);
     }
 
     /// Keep only the first nbOfValues elements
-- 
2.43.0


From a92a2a28f8b6b529e755dd5da9ac30f6728ed8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 76/89] fix: rejected reset leaves parts of different
 dimensions

---
 include/BlasBooster/Core/MultipleMatrix.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index caf1105..ecbea90 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -48,14 +48,15 @@ struct MultipleMatrix
     void reset(std::shared_ptr<T1> const& ptrT1 = std::shared_ptr<T1>(),
         std::shared_ptr<T2> const& ptrT2 = std::shared_ptr<T2>()
     ){
-        ptrT1_ = ptrT1;
-        ptrT2_ = ptrT2;
-
-        if (ptrT1_ and ptrT2_)
+        // check before anything is replaced, rejected matrices must not be kept
+        if (ptrT1 and ptrT2)
         {
-            if (ptrT1_->getNbRows() != ptrT2_->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
-            if (ptrT1_->getNbColumns() != ptrT2_->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbRows() != ptrT2->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbColumns() != ptrT2->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
         }
+
+        ptrT1_ = ptrT1;
+        ptrT2_ = ptrT2;
     }
 
     typename T1::IndexType getNbRows() const { return ptrT1_->getNbRows(); }
-- 
2.43.0


From 3d6eaa31348f83227fcc6000ea51363f9edeb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 77/89] fix: ragged matrix literals are read and written out of
 bounds

---
 include/BlasBooster/Core/DenseMatrix.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0fbd0d6..0c5ea72 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -413,8 +413,8 @@ template <class T, class P>
 template <class U>
 Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > values,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
- : dimension(values.size(),values.begin()->size()),
-   storage(values.size() * values.begin()->size())
+ : dimension(values.size(), values.size() ? values.begin()->size() : 0),
+   storage(this->getSize())
 {
     typedef Cursor<Matrix<Dense,T,P>, Direction::Row> RowCursor;
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
@@ -422,6 +422,7 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
     auto val1 = values.begin();
     for (RowCursor rowCur(*this,0), rowEnd(*this,this->getNbRows()); rowCur != rowEnd; ++rowCur, ++val1 )
     {
+        if (val1->size() != this->getNbColumns()) throw std::runtime_error("wrong number of elements in row");
         auto val2 = val1->begin();
         for ( ColumnCursor columnCur(*this,rowCur.begin()),
             columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2 )
@@ -435,8 +436,8 @@ template <class T, class P>
 template <class U>
 Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > values,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
- : dimension(values.size(),values.begin()->size()),
-   storage(values.size() * values.begin()->size())
+ : dimension(values.size(), values.size() ? values.begin()->size() : 0),
+   storage(this->getSize())
 {
     typedef Cursor<Matrix<Dense,T,P>, Direction::Row> RowCursor;
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
@@ -445,15 +446,19 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
     typename P::IndexType ubRowsTmp, ubColumnsTmp;
     for (RowCursor rowCur(*this,0), rowEnd(*this,this->getNbRows()); rowCur != rowEnd; ++rowCur, ++val1)
     {
+        if (val1->size() != this->getNbColumns()) throw std::runtime_error("wrong number of blocks in row");
+        if (val1->size() == 0) continue;
         auto val2 = val1->begin();
+        auto first = values.begin()->begin();
         ubRowsTmp = getNbRows(*val2);
         this->ubRows_ += ubRowsTmp;
         ubColumnsTmp = 0;
         for (ColumnCursor columnCur(*this,rowCur.begin()),
-            columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2)
+            columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2, ++first)
         {
             *columnCur = *val2;
             if (ubRowsTmp != getNbRows(*val2)) throw std::runtime_error("wrong sub-dimension");
+            if (getNbColumns(*first) != getNbColumns(*val2)) throw std::runtime_error("wrong sub-dimension");
             ubColumnsTmp += getNbColumns(*val2);
         }
         this->ubColumns_ = ubColumnsTmp;
-- 
2.43.0


From 67e14bd4aa2658cd0a02b9bdfa28fc27361d362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 78/89] fix: dimensions whose product overflows give a matrix
 without memory

---
 include/BlasBooster/Core/DenseMatrix.h | 10 ++++++----
 include/BlasBooster/Core/Dimension.h   | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0c5ea72..cfac21b 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -756,8 +756,9 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<storage*>(this)->resize(nbRows * nbColumns);
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
+    dimension newDimension(nbRows, nbColumns);
+    static_cast<storage*>(this)->resize(newDimension.getSize());
+    dimension::operator=(newDimension);
     filler(*this);
     resetCache();
 }
@@ -768,8 +769,9 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
+    dimension newDimension(nbRows, nbColumns);
+    static_cast<storage*>(this)->resize(newDimension.getSize());
+    dimension::operator=(newDimension);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     resetCache();
diff --git a/include/BlasBooster/Core/Dimension.h b/include/BlasBooster/Core/Dimension.h
index e9a61cd..14cd214 100644
--- a/include/BlasBooster/Core/Dimension.h
+++ b/include/BlasBooster/Core/Dimension.h
@@ -3,6 +3,8 @@
 #include "BlasBooster/Utilities/Noexcept.h"
 #include <boost/serialization/access.hpp>
 #include <cstddef>
+#include <limits>
+#include <stdexcept>
 #include <utility>
 
 namespace BlasBooster {
@@ -46,7 +48,7 @@ struct Dimension<VariableSize, OrientationArg>
     static const size_t size = 0;
 
     Dimension(size_t nbRows = 0, size_t nbColumns = 0)
-     : nbRows_(nbRows), nbColumns_(nbColumns), full_size_(nbRows * nbColumns)
+     : nbRows_(nbRows), nbColumns_(nbColumns), full_size_(multiply(nbRows, nbColumns))
     {}
 
     /// Default copy constructor
@@ -80,9 +82,9 @@ struct Dimension<VariableSize, OrientationArg>
 
     void resize(size_t new_nb_rows, size_t new_nb_columns)
     {
+        full_size_ = multiply(new_nb_rows, new_nb_columns);
         nbRows_ = new_nb_rows;
         nbColumns_ = new_nb_columns;
-        full_size_ = new_nb_rows * new_nb_columns;
     }
 
     size_t getNbRows() const { return nbRows_; }
@@ -117,6 +119,14 @@ protected:
 
 private:
 
+    /// Number of elements, throws if it can not be represented
+    static size_t multiply(size_t nbRows, size_t nbColumns)
+    {
+        if (nbColumns != 0 and nbRows > std::numeric_limits<size_t>::max() / nbColumns)
+            throw std::length_error("Dimension: matrix is too large.");
+        return nbRows * nbColumns;
+    }
+
     friend class boost::serialization::access;
 
     template <class Archive>
-- 
2.43.0


From 8f4c1f968a56473b03535d02b3c31b9b77cc8632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 79/89] fix: block sizes beyond the matrix are read out of
 bounds

---
 .../BlasBooster/Core/BlockedMatrixGenerator.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BlockedMatrixGenerator.h b/include/BlasBooster/Core/BlockedMatrixGenerator.h
index b62a531..ac5c952 100644
--- a/include/BlasBooster/Core/BlockedMatrixGenerator.h
+++ b/include/BlasBooster/Core/BlockedMatrixGenerator.h
@@ -4,8 +4,10 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/MatrixConverter.h"
 #include "BlasBooster/Core/SparseMatrix.h"
+#include "BlasBooster/Utilities/BlasBoosterException.h"
 #include <set>
 #include <stdexcept>
+#include <vector>
 
 namespace BlasBooster {
 
@@ -18,7 +20,10 @@ struct BlockedMatrixGenerator
         typedef Cursor<BlockedDenseMatrix, Direction::Row> RowCursor;
         typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
         typedef Parameter<typename P::IndexType, typename P::orientation, typename P::SizeType, LeadingDimension> ParameterType;
-    
+
+        if (!fits(rowBlockSizeList, matrix.getNbRows()) or !fits(columnBlockSizeList, matrix.getNbColumns()))
+            throw BlasBoosterException("BlockedMatrixGenerator: block sizes do not sum up to the dimension of the matrix.");
+
         BlockedDenseMatrix blockedMatrix(rowBlockSizeList.size(),columnBlockSizeList.size(),
             matrix.getNbRows(),matrix.getNbColumns());
     
@@ -48,6 +53,18 @@ struct BlockedMatrixGenerator
         }
         return blockedMatrix;
     }
+
+private:
+
+    /// Return true if the blocks cover the dimension exactly
+    static bool fits(std::vector<size_t> const& blockSizeList, size_t dimension)
+    {
+        for (size_t blockSize : blockSizeList) {
+            if (blockSize > dimension) return false;
+            dimension -= blockSize;
+        }
+        return dimension == 0;
+    }
 };
 
 } // namespace BlasBooster
-- 
2.43.0


From d1306e97f50124e32b946048c5ebfe7b4c9e6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 80/89] fix: window beyond the matrix is read and written out
 of bounds

---
 include/BlasBooster/Core/DenseMatrix.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index cfac21b..f780c13 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -481,7 +481,11 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
    // TODO: avoid const_cast
    storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
        nbRows, nbColumns, other.getLdRows() - nbRows)
-{}
+{
+    if (beginRow > other.getNbRows() or nbRows > other.getNbRows() - beginRow or
+        beginColumn > other.getNbColumns() or nbColumns > other.getNbColumns() - beginColumn)
+        throw std::runtime_error("Submatrix exceeds the matrix.");
+}
 
 template <class T, class P>
 template <class T2, class P2, class U>
-- 
2.43.0


From cf2642afd1f001145e9d43e92257589e2e088e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 81/89] fix: filling a sparse matrix without room for all
 elements writes out of bounds

---
 include/BlasBooster/Core/MatrixFiller.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BlasBooster/Core/MatrixFiller.h b/include/BlasBooster/Core/MatrixFiller.h
index 71362ad..4c4474f 100644
--- a/include/BlasBooster/Core/MatrixFiller.h
+++ b/include/BlasBooster/Core/MatrixFiller.h
@@ -46,6 +46,9 @@ struct ContinuousNumberFiller
     template <class T, class P>
     void operator () (Matrix<Sparse,T,P>& matrix) const
     {
+        if (matrix.nnz() != matrix.getNbRows() * matrix.getNbColumns())
+            throw CoreException("ContinuousNumberFiller: Sparse matrix has not room for exactly all elements.");
+
         T value(1.0);
         for (typename Matrix<Sparse,T,P>::iterator iterCur(matrix.begin()), iterEnd(matrix.end());
             iterCur != iterEnd; ++iterCur, value += 1.0)
-- 
2.43.0


From a6da6877f910f464c9283c34afe7d882871e3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 82/89] fix: copying between matrices of different dimensions
 accesses memory out of bounds

---
 include/BlasBooster/Core/Copy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/Copy.h b/include/BlasBooster/Core/Copy.h
index d89d740..95fbfa4 100644
--- a/include/BlasBooster/Core/Copy.h
+++ b/include/BlasBooster/Core/Copy.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Core/CoreException.h"
 #include "Cursor.h"
 #include "Matrix.h"
 
@@ -10,6 +11,9 @@ namespace BlasBooster {
 template <class T1, class P1, class T2, class P2>
 void copy(Matrix<Dense,T1,P1> const& source, Matrix<Dense,T2,P2>& dest)
 {
+    if (source.getNbRows() != dest.getNbRows() or source.getNbColumns() != dest.getNbColumns())
+        throw CoreException("copy: Matrices have different dimensions.");
+
     typedef Cursor<const Matrix<Dense,T1,P1>, Direction::Row> SourceRowCursor;
     typedef Cursor<SourceRowCursor, Direction::Column> SourceColumnCursor;
     typedef Cursor<Matrix<Dense,T2,P2>, Direction::Row> DestRowCursor;
-- 
2.43.0


From 1d266faab2cf30ae7b9871e1f7a169f41dc6d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 83/89] fix: blocks which do not cover the unblocked matrix
 leave elements uninitialized

---
 include/BlasBooster/Core/DenseMatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index f780c13..6bd9abe 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -608,9 +608,13 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
     for (RowCursor rowCur(other,0), rowEnd(other,other.getNbRows()); rowCur != rowEnd; ++rowCur)
     {
+        bool isFirst(true);
         for (ColumnCursor columnCur(other,rowCur.begin()),
             columnEnd(other,rowCur.end()); columnCur != columnEnd; ++columnCur)
         {
+            if (!isFirst and getNbRows(*columnCur) != subRowOffsetTmp) throw std::runtime_error("wrong sub-dimension");
+            isFirst = false;
+
             typedef Matrix<Dense, T, Parameter<typename P::IndexType, typename P::orientation, typename P::SizeType, LeadingDimension>> SubMatrix;
 
             SubMatrix subMatrixOut(*this,getNbRows(*columnCur),getNbColumns(*columnCur),subRowOffset,subColumnOffset);
@@ -623,9 +627,11 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other,
             subRowOffsetTmp = getNbRows(*columnCur);
             subColumnOffset += getNbColumns(*columnCur);
         }
+        if (subRowOffsetTmp != 0 and subColumnOffset != this->getNbColumns()) throw std::runtime_error("wrong sub-dimension");
         subRowOffset += subRowOffsetTmp;
         subColumnOffset = 0;
     }
+    if (this->getSize() != 0 and subRowOffset != this->getNbRows()) throw std::runtime_error("wrong sub-dimension");
 }
 
 template <class M>
-- 
2.43.0


From 93e56112d1c40b790fb120b78b4722c0e426b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 84/89] fix: archive with wrong dimensions is loaded as a
 matrix without enough memory

---
 include/BlasBooster/Core/DenseMatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 6bd9abe..001b4f0 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -349,6 +349,9 @@ private:
             storage newStorage;
             ar & newDimension;
             ar & newStorage;
+            if (newDimension.getSize() != dimension(newDimension.getNbRows(), newDimension.getNbColumns()).getSize() or
+                newDimension.getSize() != newStorage.size())
+                throw std::runtime_error("Archive does not contain a valid matrix.");
             static_cast<dimension&>(*this) = newDimension;
             swap(static_cast<storage&>(*this), newStorage);
             resetCache();
-- 
2.43.0


From d67eb6f8d8ca987d70b466af88840edb697293d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:11 +0000
Subject: [PATCH 85/89] fix: operands whose dimensions do not fit are accessed
 out of bounds

---
 include/BlasBooster/Core/BinaryFunctors.h | 12 ++++++++++++
 include/BlasBooster/Core/MatrixMultExp.h  | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 966b937..ceb03d1 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -467,10 +467,19 @@ template <class T> T operator - (NullType, T);
 NullType operator + (NullType, NullType);
 NullType operator - (NullType, NullType);
 
+/// Operands of additions and subtractions must have the same dimensions
+template <class MatrixA, class MatrixB>
+inline void checkSameDimensions(MatrixA const& A, MatrixB const& B)
+{
+    if (A.getNbRows() != B.getNbRows() or A.getNbColumns() != B.getNbColumns())
+        throw CoreException("Matrices of different dimensions can't be added or subtracted.");
+}
+
 template <class M1, class T1, class M2, class T2, class P>
 inline auto operator + (Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B)
     -> Matrix<decltype(M1() + M2()),decltype(T1() + T2()),P>
 {
+    checkSameDimensions(A, B);
     Matrix<decltype(M1() + M2()),decltype(T1() + T2()),P> C;
     BinaryOperationFunctor<Plus,M1,T1,P,M2,T2,P,
         decltype(M1() + M2()),decltype(T1() + T2()),P>()(A,B,C);
@@ -481,6 +490,7 @@ template <class M1, class T1,
           class M2, class T2, class P>
 inline Matrix<M1,T1,P>& operator += (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
+    checkSameDimensions(A, B);
     BinaryAssignmentOperationFunctor<Plus,M1,T1,P,M2,T2,P>()(A,B);
     return A;
 }
@@ -490,6 +500,7 @@ template <class M1, class T1,
 inline auto operator - (Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B)
     -> Matrix<decltype(M1() - M2()),decltype(T1() - T2()),P>
 {
+    checkSameDimensions(A, B);
     Matrix<decltype(M1() - M2()),decltype(T1() - T2()),P> C;
     BinaryOperationFunctor<Minus,M1,T1,P,M2,T2,P,
         decltype(M1() - M2()),decltype(T1() - T2()),P>()(A,B,C);
@@ -500,6 +511,7 @@ template <class M1, class T1,
           class M2, class T2, class P>
 inline Matrix<M1,T1,P>& operator -= (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
+    checkSameDimensions(A, B);
     BinaryAssignmentOperationFunctor<Minus,M1,T1,P,M2,T2,P>()(A,B);
     return A;
 }
diff --git a/include/BlasBooster/Core/MatrixMultExp.h b/include/BlasBooster/Core/MatrixMultExp.h
index bb5879e..70d8015 100644
--- a/include/BlasBooster/Core/MatrixMultExp.h
+++ b/include/BlasBooster/Core/MatrixMultExp.h
@@ -25,6 +25,14 @@ struct MatrixMultExp
     static_assert(wrong_t<TypeA>::value, "Primary template must not be instantiated.");
 };
 
+/// Inner dimensions of the factors must be the same
+template <class MatrixA, class MatrixB>
+inline void checkInnerDimension(MatrixA const& A, MatrixB const& B)
+{
+    if (A.getNbColumns() != B.getNbRows())
+        throw CoreException("Matrices of different inner dimensions can't be multiplied.");
+}
+
 /// Operand of a multiplication, converted if its orientation is not that of the result
 template <class M, class T, class P, class P3>
 using MultiplicationOperand = typename std::conditional<
@@ -45,6 +53,8 @@ public:
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())>
     {
+        checkInnerDimension(A, B);
+
         typedef MultiplicationOperand<M1,T1,P1,decltype(P1() * P2())> OperandA;
         typedef MultiplicationOperand<M2,T2,P2,decltype(P1() * P2())> OperandB;
 
@@ -75,6 +85,7 @@ public:
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), DynamicMatrix, P>
     {
+        checkInnerDimension(A, B);
         Matrix<decltype(M1() * M2()), DynamicMatrix, P> C;
         MultiplicationFunctor<M1,DynamicMatrix,P,M2,DynamicMatrix,P, decltype(M1() * M2()), DynamicMatrix, P, Interface>()(A,B,C);
         return C;
-- 
2.43.0


From 64e08572c602e2a7d894658c5e51ceb38679d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:11 +0000
Subject: [PATCH 86/89] fix: deviations ignore elements which are not stored
 and different dimensions

---
 .../Core/StatisticalErrorInformation.h        | 60 ++++++++++++++++---
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 55d2136..378dec7 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -1,10 +1,38 @@
 #pragma once
 
+#include "BlasBooster/Core/CoreException.h"
+#include "BlasBooster/Core/DenseMatrix.h"
+#include <algorithm>
+#include <cmath>
+#include <type_traits>
+
 namespace BlasBooster {
 
-template <class M1, class T1, class P1, class M2, class T2, class P2>
-double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
+/// Matrix which stores all elements
+template <class T, class P>
+Matrix<Dense,T,P> const& withAllElements(Matrix<Dense,T,P> const& A)
 {
+    return A;
+}
+
+template <class T, class P>
+Matrix<Dense,T,P> withAllElements(Matrix<Sparse,T,P> const& A)
+{
+    return Matrix<Dense,T,P>(A);
+}
+
+template <class P>
+Matrix<Dense,double,P> withAllElements(Matrix<Zero,NullType,P> const& A)
+{
+    return Matrix<Dense,double,P>(A.getNbRows(), A.getNbColumns(), AllFiller<double>(0.0));
+}
+
+template <class T1, class P1, class T2, class P2>
+double getMaximalDeviation(Matrix<Dense,T1,P1> const& A, Matrix<Dense,T2,P2> const& B)
+{
+    if (A.getNbRows() != B.getNbRows() or A.getNbColumns() != B.getNbColumns())
+        throw CoreException("Deviation of matrices with different dimensions.");
+
     double maximalDeviation(0.0);
     if constexpr (!std::is_same<typename P1::orientation, typename P2::orientation>::value) {
         // The elements are stored in different order
@@ -15,8 +43,8 @@ double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
         }
         return maximalDeviation;
     }
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
+    typename Matrix<Dense,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
+    typename Matrix<Dense,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
         maximalDeviation = std::max<double>(maximalDeviation, std::abs(*iterACur - *iterBCur));
@@ -24,9 +52,12 @@ double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
     return maximalDeviation;
 }
 
-template <class M1, class T1, class P1, class M2, class T2, class P2>
-double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
+template <class T1, class P1, class T2, class P2>
+double getRootMeanSquareDeviation(Matrix<Dense,T1,P1> const& A, Matrix<Dense,T2,P2> const& B)
 {
+    if (A.getNbRows() != B.getNbRows() or A.getNbColumns() != B.getNbColumns())
+        throw CoreException("Deviation of matrices with different dimensions.");
+
     double meanSquare(0.0);
     if constexpr (!std::is_same<typename P1::orientation, typename P2::orientation>::value) {
         // The elements are stored in different order
@@ -37,8 +68,8 @@ double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> co
         }
         return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
     }
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
+    typename Matrix<Dense,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
+    typename Matrix<Dense,T2,P2>::const_iterator iterBCur(B.begin());
     for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
         meanSquare += std::pow(*iterACur - *iterBCur, 2);
@@ -46,4 +77,17 @@ double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> co
     return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
 }
 
+/// Elements which are not stored are compared, too
+template <class M1, class T1, class P1, class M2, class T2, class P2>
+double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
+{
+    return getMaximalDeviation(withAllElements(A), withAllElements(B));
+}
+
+template <class M1, class T1, class P1, class M2, class T2, class P2>
+double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
+{
+    return getRootMeanSquareDeviation(withAllElements(A), withAllElements(B));
+}
+
 } // namespace BlasBooster
-- 
2.43.0


From 0c659bd80eb15bbfe9392a74a9b2bb7b5a4ebb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:44 +0000
Subject: [PATCH 87/89] fix: the smallest integer has an absolute value

std::abs of the smallest int is undefined: the element was dropped by the
conversion from dense to sparse and distorted the norms.
---
 .../Core/AbsoluteValueRangeChecker.h            |  9 +++++----
 include/BlasBooster/Core/Norm.h                 |  5 +++--
 include/BlasBooster/Utilities/AbsoluteValue.h   | 17 +++++++++++++++++
 3 files changed, 25 insertions(+), 6 deletions(-)
 create mode 100644 include/BlasBooster/Utilities/AbsoluteValue.h

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index 03371b1..c62ec0a 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Utilities/AbsoluteValue.h"
 #include "BlasBooster/Utilities/TypeList.h"
 #include "BlasBooster/Core/CoreException.h"
 #include <cmath>
@@ -74,7 +75,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        return std::abs(value) > threshold_;
+        return absoluteValue(value) > threshold_;
     }
 
     bool operator < (ValueCheckerBase const& other) const
@@ -115,7 +116,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        double absValue = std::abs(value);
+        double absValue = absoluteValue(value);
         return absValue > lowerThreshold_ and absValue <= upperThreshold_;
     }
 
@@ -160,7 +161,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        double absValue = std::abs(value);
+        double absValue = absoluteValue(value);
         return absValue >= lowerThreshold_ and absValue <= upperThreshold_;
     }
 
@@ -205,7 +206,7 @@ public:
     template <class ValueType>
     bool operator () (ValueType value) const
     {
-        double absValue = std::abs(value);
+        double absValue = absoluteValue(value);
         return absValue > lowerThreshold_ and absValue < upperThreshold_;
     }
 
diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index d68c65a..875fd7b 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Utilities/AbsoluteValue.h"
 #include "BlasBooster/Utilities/exec_dyn.h"
 #include "BlasBooster/Utilities/TypeList.h"
 
@@ -62,7 +63,7 @@ struct NormFunctor<NormOne, Matrix<M,T,P> >
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            sum += std::abs(*iterCur);
+            sum += absoluteValue(*iterCur);
         }
         return sum;
     }
@@ -151,7 +152,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));
+            norm = std::max(norm, static_cast<double>(absoluteValue(*iterCur)));
         }
         return norm;
     }
diff --git a/include/BlasBooster/Utilities/AbsoluteValue.h b/include/BlasBooster/Utilities/AbsoluteValue.h
new file mode 100644
index 0000000..052f6a5
--- /dev/null
+++ b/include/BlasBooster/Utilities/AbsoluteValue.h
@@ -0,0 +1,17 @@
+#pragma once
+
+#include <cmath>
+#include <complex>
+#include <type_traits>
+
+namespace BlasBooster {
+
+/// Absolute value, which is not limited by the range of an integer type
+template <class T>
+inline auto absoluteValue(T const& value)
+{
+    if constexpr (std::is_integral<T>::value) return std::abs(static_cast<double>(value));
+    else return std::abs(value);
+}
+
+} // namespace BlasBooster
-- 
2.43.0


From 6c37a4045daf448f6d5a0ff2c4b1bb5537fcc82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:44 +0000
Subject: [PATCH 88/89] fix: report files which could not be written completely

On a full disk generate_matrix, show_pattern and benchmark finished
successfully with an empty or truncated file, and so did the
PatternGenerator.
---
 include/BlasBooster/Core/PatternGenerator.h | 3 +++
 src/Benchmark/benchmark.cpp                 | 5 ++++-
 src/Benchmark/generate_matrix.cpp           | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/PatternGenerator.h b/include/BlasBooster/Core/PatternGenerator.h
index 258e3b7..e5b474d 100644
--- a/include/BlasBooster/Core/PatternGenerator.h
+++ b/include/BlasBooster/Core/PatternGenerator.h
@@ -104,6 +104,9 @@ void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::p
         else outfile << "\"," << std::endl;
     }
     outfile << "};" << std::endl;
+
+    outfile.close();
+    if (!outfile) throw BlasBoosterException("Can't write file " + file.string());
 }
 
 } // namespace BlasBooster
diff --git a/src/Benchmark/benchmark.cpp b/src/Benchmark/benchmark.cpp
index 5c615b5..f40cfbf 100644
--- a/src/Benchmark/benchmark.cpp
+++ b/src/Benchmark/benchmark.cpp
@@ -109,8 +109,11 @@ int main(int argc, char* argv[])
                           << std::endl;
 
                 if (write_diff) {
-                    std::ofstream os(std::string("diff_") + std::to_string(i) + ".dat", std::ofstream::binary);
+                    const std::string file = std::string("diff_") + std::to_string(i) + ".dat";
+                    std::ofstream os(file, std::ofstream::binary);
                     os.write(reinterpret_cast<const char*>(diff.getDataPointer()), diff.getSize()*sizeof(double));
+                    os.close();
+                    if (!os) throw BlasBoosterException("Can't write file " + file);
                 }
             }
         }
diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 34996cd..af7796c 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -61,6 +61,8 @@ int main(int argc, char* argv[])
         std::ofstream os(matrix_file, std::ofstream::binary);
         if (!os) throw BlasBoosterException("Can't open file " + matrix_file);
         os.write(reinterpret_cast<const char*>(matrix.getDataPointer()), matrix.getSize()*sizeof(double));
+        os.close();
+        if (!os) throw BlasBoosterException("Can't write file " + matrix_file);
 
     } catch ( BlasBoosterException const& e ) {
         std::cout << "BlasBooster exception: " << e.what() << std::endl;
-- 
2.43.0


From d43544f89626260e4808cb171c62bea9e468ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:44 +0000
Subject: [PATCH 89/89] fix: writeXML and writeBinary report a file which could
 not be written completely

The error of a full disk was noticed when the stream was destroyed and
therefore ignored.
---
 include/BlasBooster/Utilities/FileIO.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 6378935..c91cd16 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -36,8 +36,16 @@ void writeXML( T& settings, const std::string& name, const boost::filesystem::pa
 {
     if (!overwrite and exists(filename)) throw BlasBoosterException("writeXML: " + filename.string() + " exist");
     std::ofstream out(filename.string().c_str());
-    boost::archive::xml_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    {
+        boost::archive::xml_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+
+        // The end of the archive must not fail, it is written by a destructor.
+        out.flush();
+        if (!out) throw BlasBoosterException("writeXML: Can't write " + filename.string());
+    }
+    out.close();
+    if (!out) throw BlasBoosterException("writeXML: Can't write " + filename.string());
 }
 
 template <class T>
@@ -55,8 +63,16 @@ void writeBinary( T& settings, const std::string& name, const boost::filesystem:
 {
     if (!overwrite and exists(filename)) throw BlasBoosterException("writeBinary: " + filename.string() + " exist");
     std::ofstream out(filename.string().c_str());
-    boost::archive::binary_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    {
+        boost::archive::binary_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+
+        // The end of the archive must not fail, it is written by a destructor.
+        out.flush();
+        if (!out) throw BlasBoosterException("writeBinary: Can't write " + filename.string());
+    }
+    out.close();
+    if (!out) throw BlasBoosterException("writeBinary: Can't write " + filename.string());
 }
 
 } // namespace BlasBooster
-- 
2.43.0

