From 0364f993def2f2a49920ca3e7c7978856f7403b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 01/17] fix: TokenList::popFront returns the token itself, not
 a list wrapping it

Brace-initialising the result picked the initializer_list constructor for
tokens that are TokenLists or std::vector<std::any>.
---
 include/NeoFOAM/core/tokenList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/tokenList.hpp b/include/NeoFOAM/core/tokenList.hpp
index 6eea10f..32cd071 100644
--- a/include/NeoFOAM/core/tokenList.hpp
+++ b/include/NeoFOAM/core/tokenList.hpp
@@ -70,7 +70,7 @@ public:
     template<typename ReturnType>
     ReturnType popFront()
     {
-        ReturnType ret {get<ReturnType>(0)};
+        ReturnType ret(get<ReturnType>(0));
         data_.erase(data_.begin());
         return ret;
     }
-- 
2.43.0


From 1122f7aafd5c9efdedd6e64ba89ef2cd54b32d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 02/17] fix: CollectionMixin::find returns the identifiers
 documents are stored under

A document whose "id" entry was changed in place was reported under a name
that doc() cannot look up.
---
 include/NeoFOAM/core/database/collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/database/collection.hpp b/include/NeoFOAM/core/database/collection.hpp
index ecc32a5..8bb7e45 100644
--- a/include/NeoFOAM/core/database/collection.hpp
+++ b/include/NeoFOAM/core/database/collection.hpp
@@ -273,7 +273,7 @@ public:
         {
             if (predicate(doc.doc()))
             {
-                result.push_back(doc.id());
+                result.push_back(key);
             }
         }
         return result;
-- 
2.43.0


From 862827b2ac59f6ff4a71e92244c9b8bdc673be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 03/17] fix: const Collection queries use the wrapped
 collection's const interface

---
 src/core/database/collection.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/database/collection.cpp b/src/core/database/collection.cpp
index c4e1d30..9685776 100644
--- a/src/core/database/collection.cpp
+++ b/src/core/database/collection.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: MIT
 // SPDX-FileCopyrightText: 2024 NeoFOAM authors
 
+#include <utility> // for std::as_const
+
 #include "NeoFOAM/core/database/collection.hpp"
 
 
@@ -9,7 +11,10 @@ namespace NeoFOAM
 
 Document& Collection::doc(const std::string& id) { return impl_->doc(id); }
 
-const Document& Collection::doc(const std::string& id) const { return impl_->doc(id); }
+const Document& Collection::doc(const std::string& id) const
+{
+    return std::as_const(*impl_).doc(id);
+}
 
 std::vector<std::string> Collection::find(const std::function<bool(const Document&)>& predicate
 ) const
@@ -25,6 +30,6 @@ std::string Collection::name() const { return impl_->name(); }
 
 Database& Collection::db() { return impl_->db(); }
 
-const Database& Collection::db() const { return impl_->db(); }
+const Database& Collection::db() const { return std::as_const(*impl_).db(); }
 
 } // namespace NeoFOAM
-- 
2.43.0


From 9192b4633145684561f81a3bf81df31520a5c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 04/17] fix: an empty index range restricts fill, map and
 setField to no element

---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index bf14c75..cf3b37d 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <limits>
 #include <tuple>
 
 #include <Kokkos_Core.hpp>
@@ -17,6 +18,15 @@ namespace NeoFOAM
 template<typename ValueType>
 class Field;
 
+namespace detail
+{
+/**
+ * @brief End of a range that has not been provided, ie. the range covers the whole field.
+ *
+ * @note This differs from an empty range, eg. {0, 0}.
+ */
+constexpr size_t wholeField = std::numeric_limits<size_t>::max();
+}
 
 /**
  * @brief Map a field using a specific executor.
@@ -26,10 +36,10 @@ class Field;
  * @param range The range to map the field in. If not provided, the whole field is mapped.
  */
 template<typename T, typename Inner>
-void map(Field<T>& a, const Inner inner, std::pair<size_t, size_t> range = {0, 0})
+void map(Field<T>& a, const Inner inner, std::pair<size_t, size_t> range = {0, detail::wholeField})
 {
     auto [start, end] = range;
-    if (end == 0)
+    if (end == detail::wholeField)
     {
         end = a.size();
     }
@@ -50,11 +60,11 @@ template<typename ValueType>
 void fill(
     Field<ValueType>& a,
     const std::type_identity_t<ValueType> value,
-    std::pair<size_t, size_t> range = {0, 0}
+    std::pair<size_t, size_t> range = {0, detail::wholeField}
 )
 {
     auto [start, end] = range;
-    if (end == 0)
+    if (end == detail::wholeField)
     {
         end = a.size();
     }
@@ -76,11 +86,11 @@ template<typename ValueType>
 void setField(
     Field<ValueType>& a,
     const View<const std::type_identity_t<ValueType>> b,
-    std::pair<size_t, size_t> range = {0, 0}
+    std::pair<size_t, size_t> range = {0, detail::wholeField}
 )
 {
     auto [start, end] = range;
-    if (end == 0)
+    if (end == detail::wholeField)
     {
         end = a.size();
     }
-- 
2.43.0


From 05b26361f21cc23cfa352eedf6d6ccde29de51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 05/17] fix: resizing an empty field releases the storage it
 still holds

---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..d2f0d20 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -308,7 +308,7 @@ public:
     void resize(const size_t size)
     {
         void* ptr = nullptr;
-        if (!empty())
+        if (data_ != nullptr) // an empty field can still hold storage
         {
             std::visit(
                 [this, &ptr, size](const auto& exec)
-- 
2.43.0


From 304a9f130e7f4554951a245a7a8a3328980943c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 06/17] fix: serial parallelReduce starts from the identity
 like the other executors

---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 23 +++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..9ad2d1e 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -104,6 +104,27 @@ void parallelFor(Field<ValueType>& field, Kernel kernel, std::string name = "par
     std::visit([&](const auto& e) { parallelFor(e, field, kernel, name); }, field.exec());
 }
 
+namespace detail
+{
+/**
+ * @brief Sets the result of a reduction to the identity, as Kokkos::parallel_reduce does.
+ *
+ * @param value The reducer or the variable to reduce (sum) into.
+ */
+template<typename T>
+void initReduction(T& value)
+{
+    if constexpr (Kokkos::is_reducer<T>::value)
+    {
+        value.init(value.reference());
+    }
+    else
+    {
+        value = T {};
+    }
+}
+}
+
 template<typename Executor, typename Kernel, typename T>
 void parallelReduce(
     [[maybe_unused]] const Executor& exec, std::pair<size_t, size_t> range, Kernel kernel, T& value
@@ -112,6 +133,7 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        detail::initReduction(value);
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +171,7 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        detail::initReduction(value);
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From c800f0bdf06b07b03e8b43f37165c3d891ce3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 07/17] fix: scaling a vector by one of its own components

---
 include/NeoFOAM/core/primitives/vector.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/core/primitives/vector.hpp b/include/NeoFOAM/core/primitives/vector.hpp
index f366a7e..a38493c 100644
--- a/include/NeoFOAM/core/primitives/vector.hpp
+++ b/include/NeoFOAM/core/primitives/vector.hpp
@@ -133,9 +133,11 @@ public:
     KOKKOS_INLINE_FUNCTION
     Vector& operator*=(const scalar& rhs)
     {
-        cmpts_[0] *= rhs;
-        cmpts_[1] *= rhs;
-        cmpts_[2] *= rhs;
+        // rhs may be one of the components
+        const scalar factor = rhs;
+        cmpts_[0] *= factor;
+        cmpts_[1] *= factor;
+        cmpts_[2] *= factor;
         return *this;
     }
 
-- 
2.43.0


From 21cd8df0a2d27dbb835590c8e11bdcfa399a4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 08/17] fix: explicit Laplacian multiplies the face fluxes by
 gamma like the implicit one

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..2db0aa7 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,8 +32,13 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -43,7 +48,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -54,7 +59,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From 40b8efb140057eaf48c54c266d0fd2225e3ae1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 09/17] fix: GaussGreenDiv::div returning a field starts from
 zero instead of uninitialised storage

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
index 26756c4..5c0984d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
@@ -90,6 +90,7 @@ public:
             this->mesh_,
             createCalculatedBCs<VolumeBoundary<ValueType>>(this->mesh_)
         );
+        fill(divPhi.internalField(), zero<ValueType>());
         computeDivExp<ValueType>(
             faceFlux, phi, surfaceInterpolation_, divPhi.internalField(), operatorScaling
         );
-- 
2.43.0


From 8f1e7e9330bf4f42f772273ebe452204ecfbc08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:09 +0000
Subject: [PATCH 10/17] fix: BoundaryPatchMixin::patchEnd returns the end of
 the patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From a8f553ccb190d744a98570cd035d49636535dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 11/17] fix: CSRMatrix::copyToExecutor copies to the requested
 executor

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..f9df837 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -180,7 +180,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From 90eb232f8c599d311bac24548c4048640cd7f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 12/17] fix: convert does not read the matrix values as if they
 were in host memory

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f9df837..c16169a 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -231,7 +231,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(
         colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
-- 
2.43.0


From 780995f842bf380e73a52940fc2cb87e6c3a32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 13/17] fix: boundary faces sharing a cell update the implicit
 operators' system atomically

---
 .../cellCentred/operators/gaussGreenDiv.cpp   | 11 ++++++++---
 .../operators/gaussGreenLaplacian.cpp         | 19 ++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..a7b9d53 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -219,10 +219,15 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
-                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
+            // boundary faces can share a cell
+            Kokkos::atomic_add(
+                &matrix.values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
+            );
             // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
+            Kokkos::atomic_sub(
+                &rhs[own], flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei])
+            );
             // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
         }
     );
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 2db0aa7..367daf7 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -168,13 +168,18 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            // boundary faces can share a cell
+            Kokkos::atomic_sub(
+                &values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * valueFraction[bcfacei] * deltaCoeffs[facei]
+                    * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei])
+            );
         }
     );
 }
-- 
2.43.0


From 7cec2722f8829c29676a51c02dda5306c7734fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:08 +0000
Subject: [PATCH 14/17] fix: adding an expression to itself adds its initial
 terms once

---
 include/NeoFOAM/dsl/expression.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/expression.hpp b/include/NeoFOAM/dsl/expression.hpp
index b654e1b..efec405 100644
--- a/include/NeoFOAM/dsl/expression.hpp
+++ b/include/NeoFOAM/dsl/expression.hpp
@@ -109,13 +109,16 @@ public:
 
     void addExpression(const Expression& equation)
     {
-        for (auto& oper : equation.temporalOperators_)
+        // equation may be this expression: only its initial terms are added
+        const auto nTemporal = equation.temporalOperators_.size();
+        for (size_t i = 0; i < nTemporal; i++)
         {
-            temporalOperators_.push_back(oper);
+            temporalOperators_.push_back(equation.temporalOperators_[i]);
         }
-        for (auto& oper : equation.spatialOperators_)
+        const auto nSpatial = equation.spatialOperators_.size();
+        for (size_t i = 0; i < nSpatial; i++)
         {
-            spatialOperators_.push_back(oper);
+            spatialOperators_.push_back(equation.spatialOperators_[i]);
         }
     }
 
-- 
2.43.0


From bd79544277d12e78ea5c9ec479b7e8eef2919cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:08 +0000
Subject: [PATCH 15/17] fix: explicit time derivative is scaled by the
 operator's coefficient like the implicit one

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..3651da4 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            const auto commonCoef = operatorScaling[celli] * vol[celli] * dtInver;
+            sourceSpan[celli] += commonCoef * (field[celli] - oldField[celli]);
         }
     );
 }
-- 
2.43.0


From 84ff53f9311726cf568cdf6b8eea003f525ff53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:27 +0000
Subject: [PATCH 16/17] fix: sparsity pattern offsets address rows with more
 than 256 entries

---
 .../cellCentred/linearAlgebra/sparsityPattern.hpp    | 12 ++++++------
 .../cellCentred/linearAlgebra/sparsityPattern.cpp    | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp b/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp
index d62dac9..7b018ae 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp
@@ -26,12 +26,12 @@ public:
     void update();
 
     // TODO: rename upperOffset
-    const Field<uint8_t>& ownerOffset() const;
+    const Field<localIdx>& ownerOffset() const;
 
     // TODO: rename lowerOffset
-    const Field<uint8_t>& neighbourOffset() const;
+    const Field<localIdx>& neighbourOffset() const;
 
-    const Field<uint8_t>& diagOffset() const;
+    const Field<localIdx>& diagOffset() const;
 
     const UnstructuredMesh& mesh() const { return mesh_; };
 
@@ -54,11 +54,11 @@ private:
 
     Field<localIdx> colIdxs_; //!
 
-    Field<uint8_t> ownerOffset_; //! mapping from faceId to lower index in a row
+    Field<localIdx> ownerOffset_; //! mapping from faceId to lower index in a row
 
-    Field<uint8_t> neighbourOffset_; //! mapping from faceId to upper index in a row
+    Field<localIdx> neighbourOffset_; //! mapping from faceId to upper index in a row
 
-    Field<uint8_t> diagOffset_; //! mapping from faceId to column index in a row
+    Field<localIdx> diagOffset_; //! mapping from faceId to column index in a row
 };
 
 } // namespace NeoFOAM::finiteVolume::cellCentred
diff --git a/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp b/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp
index 413cee7..cd2d270 100644
--- a/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp
+++ b/src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp
@@ -74,7 +74,7 @@ void SparsityPattern::update()
             // return the oldValues
             // hit on performance on serial
             size_t segIdxNei = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[neighbour], 1);
-            neighbourOffsetSpan[facei] = static_cast<uint8_t>(segIdxNei);
+            neighbourOffsetSpan[facei] = static_cast<localIdx>(segIdxNei);
 
             size_t startSegNei = rowPtrs[neighbour];
             // neighbour --> current cell
@@ -87,7 +87,7 @@ void SparsityPattern::update()
         nFacesPerCell,
         KOKKOS_LAMBDA(const size_t celli) {
             size_t nFaces = nFacesPerCellSpan[static_cast<size_t>(celli)];
-            diagOffsetSpan[celli] = static_cast<uint8_t>(nFaces);
+            diagOffsetSpan[celli] = static_cast<localIdx>(nFaces);
             sColIdx[rowPtrs[celli] + nFaces] = celli;
             return nFaces + 1;
         }
@@ -104,7 +104,7 @@ void SparsityPattern::update()
             // return the oldValues
             // hit on performance on serial
             size_t segIdxOwn = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[owner], 1);
-            ownerOffsetSpan[facei] = uint8_t(segIdxOwn);
+            ownerOffsetSpan[facei] = static_cast<localIdx>(segIdxOwn);
 
             size_t startSegOwn = rowPtrs[owner];
             // owner --> current cell
@@ -115,10 +115,10 @@ void SparsityPattern::update()
 }
 
 
-const NeoFOAM::Field<uint8_t>& SparsityPattern::ownerOffset() const { return ownerOffset_; }
+const NeoFOAM::Field<localIdx>& SparsityPattern::ownerOffset() const { return ownerOffset_; }
 
-const NeoFOAM::Field<uint8_t>& SparsityPattern::neighbourOffset() const { return neighbourOffset_; }
+const NeoFOAM::Field<localIdx>& SparsityPattern::neighbourOffset() const { return neighbourOffset_; }
 
-const NeoFOAM::Field<uint8_t>& SparsityPattern::diagOffset() const { return diagOffset_; }
+const NeoFOAM::Field<localIdx>& SparsityPattern::diagOffset() const { return diagOffset_; }
 
 } // namespace NeoFOAM::finiteVolume::cellCentred
-- 
2.43.0


From 2165a1053323dd9d4091483bb29b1aff19d8026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:41 +0000
Subject: [PATCH 17/17] fix: source terms take effect when wrapped in an
 operator or expression

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..6e7bbd0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,8 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0

