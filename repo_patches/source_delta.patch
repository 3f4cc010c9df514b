From bf6d8cc20931fa244f1a849f3698ebc084b44a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:39 +0000
Subject: [PATCH 01/30] fix: ReservedDeque::push_back and initializer_list
 construction ignore the position of the first element

push_back() stored relative to slot zero instead of the current first
element, so it overwrote entries after a push_front()/pop_front().
The initializer_list constructor left the first element's position uninitialized.
---
 dune/functions/common/reserveddeque.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..bb11d94 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -78,7 +78,8 @@ namespace Functions {
       first_(0)
     {}
 
-    ReservedDeque(std::initializer_list<T> const &l)
+    ReservedDeque(std::initializer_list<T> const &l) :
+      first_(0)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
       size_ = l.size();
@@ -107,7 +108,8 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_) % n] = t;
+      ++size_;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From a1d11a75e9b2239e8537198e23d28f2cc84267d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:39 +0000
Subject: [PATCH 02/30] fix: OverflowArray::push_front neither grows the array
 nor shifts the entries

The loop copied entry 0 over all others and the size was never increased,
so the last entry was accessed out of range.
---
 dune/functions/common/overflowarray.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..0316a40 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -125,8 +125,9 @@ public:
    */
   void push_front(const value_type& t) {
     assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
+    ++size_;
+    for (size_type i=size()-1; i>0; --i)
+      (*this)[i] = (*this)[i-1];
     (*this)[0] = t;
   }
 
-- 
2.43.0


From 0a21dc8eb961813289694b47beb75254e6b07a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:22 +0000
Subject: [PATCH 03/30] fix: MorleyPreBasis::update() keeps the element mapper
 of the old grid view

---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..ea1628c 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(this->gridView());
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From 25e8ac814b46fce353d397113e8d74ed1b6471b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:23 +0000
Subject: [PATCH 04/30] fix: Brezzi-Douglas-Marini basis of order 2 reserves
 too many element degrees of freedom

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..95a6e41 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -173,7 +173,7 @@ class BrezziDouglasMariniPreBasis :
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isCube() ? k*(k-1) : (k-1)*(k+1);
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From 5f451350276f0fd2f6a643a5489885543d9391fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:00 +0000
Subject: [PATCH 05/30] fix: TaylorHoodPreBasis::update() keeps the old grid
 view

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..4a0d1f1 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From fcd14c260c9a3e68df7090304ef629788ee79b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:00 +0000
Subject: [PATCH 06/30] fix: hybrid Taylor-Hood indices use the velocity
 component as last digit

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 4a0d1f1..54891cf 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -263,7 +263,7 @@ protected:
       for (std::size_t i = 0; i<subTreeSize; ++i)
       {
         multiIndexPushFront(multiIndices[i], 0);
-        multiIndices[i].push_back(i);
+        multiIndices[i].push_back(child);
       }
       multiIndices += subTreeSize;
     }
-- 
2.43.0


From b7fe955a58ab6c9133796e4fdb1a112284dcafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 07/30] fix: flat power descriptors of statically sized arrays
 append to std::array

---
 .../functionspacebases/containerdescriptors.hh   | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..1049515 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -404,11 +402,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
-- 
2.43.0


From bf06cf027130b6cdb36d1e7ccdd39396cb1451b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 08/30] fix: makeISTLVector drops the block level of
 descriptors with a single child

---
 dune/functions/backends/istlvectorfactory.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/backends/istlvectorfactory.hh b/dune/functions/backends/istlvectorfactory.hh
index 5df1bb2..fec14c4 100644
--- a/dune/functions/backends/istlvectorfactory.hh
+++ b/dune/functions/backends/istlvectorfactory.hh
@@ -39,8 +39,9 @@ struct ISTLVectorFactory
   template<class V, std::size_t n>
   auto operator() (const Array<V,n>& tree) const
   {
+    using W = decltype((*this)(tree[0]));
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{(*this)(tree[ii])...};
+      return Dune::BlockVector<W>{(*this)(tree[ii])...};
     }, std::make_index_sequence<n>());
   }
 
@@ -59,7 +60,7 @@ struct ISTLVectorFactory
   {
     auto node = (*this)(tree[0]);
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{((void)(ii),node)...};
+      return Dune::BlockVector<decltype(node)>{((void)(ii),node)...};
     }, std::make_index_sequence<n>());
   }
 
-- 
2.43.0


From 33f61e33355f3311f1df313b1c0c5961fd43c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 09/30] fix: assignment of DefaultLocalView shares the element
 of the assigned view

---
 .../functionspacebases/defaultlocalview.hh         | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..4cc8cab 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -87,6 +87,20 @@ public:
       bind(other.element());
   }
 
+  /** \brief Deep copy of the local view */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+  {
+    if (this == &other)
+      return *this;
+    globalBasis_ = other.globalBasis_;
+    element_.reset();
+    tree_ = globalBasis_->preBasis().makeNode();
+    initializeTree(tree_);
+    if (other.bound())
+      bind(other.element());
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From 54a41b61910aa15f058266a20cf7611334e187d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:44 +0000
Subject: [PATCH 10/30] fix: assigned transformed finite elements refer to the
 finite element they were assigned from

---
 .../functionspacebases/transformedfiniteelementmixin.hh    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..3de5dcd 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,13 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    /** Assignment. The local basis always refers to its own finite element.
+     */
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const&)
+    {
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From c2b48acbe37ce230e2a4aa268f9229ed1712cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 11/30] fix: copies of an empty PolymorphicSmallObject are
 empty

Copying and copy-assigning from a default constructed or moved-from object
dereferenced a null pointer.
---
 dune/functions/common/polymorphicsmallobject.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..4347cc6 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -179,7 +179,9 @@ private:
 
   void copyToWrappedObject(const PolymorphicSmallObject& other)
   {
-    if (other.bufferUsed())
+    if (not other)
+      p_ = nullptr;
+    else if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
     else
       p_ = other.p_->clone();
-- 
2.43.0


From 38f4009eede56a69f53585992759b1911002206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 12/30] fix: self move assignment of PolymorphicSmallObject

Self move assignment destroyed the stored object and kept using it,
this happens e.g. in std::swap(x,x).
---
 dune/functions/common/polymorphicsmallobject.hh | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 4347cc6..c0e381e 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -116,8 +116,11 @@ public:
   //! Move assignment from other PolymorphicSmallObject
   PolymorphicSmallObject& operator=(PolymorphicSmallObject&& other) noexcept
   {
-    destroyWrappedObject();
-    moveToWrappedObject(std::move(other));
+    if (&other!=this)
+    {
+      destroyWrappedObject();
+      moveToWrappedObject(std::move(other));
+    }
     return *this;
   }
 
@@ -164,11 +167,6 @@ private:
       p_ = other.p_->move(&buffer_);
     else
     {
-      // We don't need to check for &other_!=this, because you can't
-      // have an rvalue to *this and call it's assignment/constructor
-      // at the same time. (Despite trying to shoot yourself in the foot
-      // with std::move explicitly.)
-
       // Take ownership of allocated object
       p_ = other.p_;
 
-- 
2.43.0


From e7d3d07628c364bfaa0903c059d7eb266215a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:12 +0000
Subject: [PATCH 13/30] fix: PolymorphicSmallObject for types with Base at a
 nonzero offset

bufferUsed() compared the address of the Base subobject with the address of
the buffer. If Base is not the first base class, then the buffered object
was released with delete.
---
 dune/functions/common/polymorphicsmallobject.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index c0e381e..8966221 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -8,6 +8,7 @@
 #define DUNE_FUNCTIONS_COMMON_POLYMORPHICSMALLOBJECT_HH
 
 #include <cstddef>
+#include <functional>
 #include <utility>
 #include <type_traits>
 #include <algorithm>
@@ -133,7 +134,10 @@ public:
   //! Check if object is stored in internal stack buffer
   bool bufferUsed() const
   {
-    return ((void*) (p_) == (void*)(&buffer_));
+    // The Base subobject may have an offset within the stored object
+    const void* p = p_;
+    return std::less_equal<>()(static_cast<const void*>(buffer_), p)
+       and std::less<>()(p, static_cast<const void*>(buffer_ + actualBufferSize));
   }
 
   //! Obtain reference to stored object
-- 
2.43.0


From 6ce0c1dcd0628c0c026b009b3ba3d5a1a79701a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:12 +0000
Subject: [PATCH 14/30] fix: PolymorphicSmallObject is empty if copying throws
 in copy assignment

The destroyed object was destroyed again by the destructor.
---
 dune/functions/common/polymorphicsmallobject.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 8966221..2835ef4 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -162,6 +162,7 @@ private:
         p_->~Base();
       else
         delete p_;
+      p_ = nullptr;
     }
   }
 
-- 
2.43.0


From e82d37982e39f03374acddef95c6c65e6a877e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:13 +0000
Subject: [PATCH 15/30] fix: makeDifferentiableFunctionFromCallables copies the
 given callables

Callables passed as lvalues were stored as references, so the returned
function dangled once the callables went out of scope, followed later changes
of them and could not be assigned.
---
 .../common/differentiablefunctionfromcallables.hh      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/differentiablefunctionfromcallables.hh b/dune/functions/common/differentiablefunctionfromcallables.hh
index b0d9447..2239ae5 100644
--- a/dune/functions/common/differentiablefunctionfromcallables.hh
+++ b/dune/functions/common/differentiablefunctionfromcallables.hh
@@ -8,6 +8,9 @@
 #define DUNE_FUNCTIONS_COMMON_DIFFEREENTIONABEFUNCTIONFROMCALLABLES_HH
 
 
+#include <type_traits>
+#include <utility>
+
 #include <dune/common/typeutilities.hh>
 #include <dune/common/hybridutilities.hh>
 
@@ -61,7 +64,8 @@ public:
   using Derivative = DifferentiableFunction<DerivativeSignature, DerivativeTraits>;
 
   //! Constructor copying the given function
-  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0>
+  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0,
+    std::enable_if_t<std::is_constructible_v<F, FF&&>, int> = 0>
   DifferentiableFunctionFromCallables(FF&& f) :
     f_(std::forward<FF>(f))
   {}
@@ -164,10 +168,10 @@ private:
  * \returns Object modelling DifferentiableFunction interface
  */
 template<class Signature, template<class> class DerivativeTraits, class... F>
-DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>
+DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>
   makeDifferentiableFunctionFromCallables(const SignatureTag<Signature, DerivativeTraits>& signatureTag, F&&... f)
 {
-  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>(f...);
+  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>(std::forward<F>(f)...);
 }
 
 
-- 
2.43.0


From 794494ebb3980bd3570af1e507c59ede079da431 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:05:04 +0000
Subject: [PATCH 16/30] fix: makePolynomial accepts an initializer list with
 entries of another type than the scalar type

The helper is documented to create a Polynomial<K,std::vector<C>>, but
created a Polynomial<K,std::vector<K>>, which cannot be constructed from
a std::initializer_list<C> if C differs from K.
---
 dune/functions/analyticfunctions/polynomial.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/analyticfunctions/polynomial.hh b/dune/functions/analyticfunctions/polynomial.hh
index 8d03608..951c4c2 100644
--- a/dune/functions/analyticfunctions/polynomial.hh
+++ b/dune/functions/analyticfunctions/polynomial.hh
@@ -280,7 +280,7 @@ auto makePolynomial(Coefficients coefficients)
 template<class K, class C>
 auto makePolynomial(std::initializer_list<C> coefficients)
 {
-  return Polynomial<K>(std::move(coefficients));
+  return Polynomial<K, std::vector<C>>(std::move(coefficients));
 }
 
 
-- 
2.43.0


From ffd9b198e496530343aef339eb9c0f3dde38e2f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:05:34 +0000
Subject: [PATCH 17/30] fix: bSpline() stores the knot vector instead of a
 reference to it

The pre-basis factory may be used after the knot vector passed to bSpline() is gone.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9fba082..9be69fc 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -1290,7 +1290,7 @@ inline auto bSpline(const std::vector<double>& knotVector,
                     unsigned int order,
                     bool makeOpen = true)
 {
-  return [&knotVector, order, makeOpen](const auto& gridView) {
+  return [knotVector, order, makeOpen](const auto& gridView) {
     return BSplinePreBasis<std::decay_t<decltype(gridView)>>(gridView, knotVector, order, makeOpen);
   };
 }
-- 
2.43.0


From 537de4c059d58f5dd1273f8abb3845ed4b0acd5f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:05:34 +0000
Subject: [PATCH 18/30] fix: BSplinePreBasis counts only non-empty knot spans
 as elements

For knot vectors with multiple knots the number of elements per direction was too
large, such that elements were bound to wrong knot spans.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9be69fc..df6094c 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -600,8 +600,12 @@ public:
                      bool makeOpen = true)
   : gridView_(gridView)
   {
-    // \todo Detection of duplicate knots
-    std::fill(elements_.begin(), elements_.end(), knotVector.size()-1);
+    // The elements are the non-empty knot spans (up to the tolerance used when binding to elements)
+    unsigned int nonEmptySpans = 0;
+    for (std::size_t i=0; i+1<knotVector.size(); i++)
+      if (not (knotVector[i+1] < knotVector[i]+1e-8))
+        nonEmptySpans++;
+    std::fill(elements_.begin(), elements_.end(), nonEmptySpans);
 
     // Mediocre sanity check: we don't know the number of grid elements in each direction.
     // but at least we know the total number of elements.
-- 
2.43.0


From ca63afcf9cc8e465d39d8234fbc47abd8164cf16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:05:59 +0000
Subject: [PATCH 19/30] fix: copies of a bound BSplineLocalFiniteElement are
 bound to the same knot span

The copy constructor left the knot span, the transformation to the knot span and
the local keys uninitialized, such that copies of bound local views were unusable.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index df6094c..2478a3f 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -389,8 +389,13 @@ public:
    */
   BSplineLocalFiniteElement(const BSplineLocalFiniteElement& other)
   : preBasis_(other.preBasis_),
-    localBasis_(preBasis_,*this)
-  {}
+    localBasis_(preBasis_,*this),
+    localCoefficients_(other.localCoefficients_),
+    currentKnotSpan_(other.currentKnotSpan_)
+  {
+    localBasis_.offset_ = other.localBasis_.offset_;
+    localBasis_.scaling_ = other.localBasis_.scaling_;
+  }
 
   /** \brief Bind LocalFiniteElement to a specific knot span of the spline patch
    *
-- 
2.43.0


From 0f08fca8806bf5ca93ec2c3b7cff2dba4dc7025e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:05:59 +0000
Subject: [PATCH 20/30] fix: local keys of B-splines in the element interior
 are consecutive

There are sizes[j]-2 inner degrees of freedom in direction j.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 2478a3f..18cbfbd 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -295,7 +295,7 @@ public:
 
       for (int j=dim-1; j>=0; j--)
         if (mIdx[j]>0 and mIdx[j]<sizes[j]-1)
-          index[i] = (sizes[j]-1)*index[i] + (mIdx[j]-1);
+          index[i] = (sizes[j]-2)*index[i] + (mIdx[j]-1);
     }
 
     // Set up entity and dof numbers for each (supported) dimension separately
-- 
2.43.0


From adb8eb6da45e39f0eb7ff6da8d5f2f657824c650 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:24:59 +0000
Subject: [PATCH 21/30] fix: container descriptor of a periodic basis has the
 size of the periodic basis

The descriptor of the raw basis was returned, which still has an entry for
every index of the raw basis.
---
 dune/functions/functionspacebases/periodicbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..07bbc62 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -125,7 +125,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return ContainerDescriptors::FlatVector{numIndices_};
   }
 
 private:
-- 
2.43.0


From 9a59205f1d10568b4c712fe4dc3b703c9f572672 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 22/30] fix: periodic bases identify indices related through
 chains of pairs

If the larger index of a pair was already identified with another one, the
former identification was lost, e.g. for the pairs (0,2), (1,2).
---
 .../functionspacebases/periodicbasis.hh       | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index 07bbc62..e793e84 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -7,9 +7,9 @@
 #ifndef DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 #define DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 
+#include <algorithm>
 #include <utility>
 #include <type_traits>
-#include <limits>
 #include <set>
 #include <vector>
 
@@ -85,20 +85,27 @@ public:
   PeriodicIndexingTransformation(const RawPreBasis& rawPreBasis, const IndexPairSet& indexPairSet)
   {
     static_assert(RawPreBasis::maxMultiIndexSize==1, "PeriodicIndexingTransformation is only implemented for flat multi-indices");
-    std::size_t invalid = {std::numeric_limits<std::size_t>::max()};
-    mappedIdx_.resize(rawPreBasis.size(), invalid);
-    numIndices_ = 0;
-    std::size_t i = 0;
+    // Merge the classes of all identified pairs. Each class is represented by its smallest index.
+    // Until all pairs are merged, mappedIdx_[i] is some index from the class of i not larger than i.
+    mappedIdx_.resize(rawPreBasis.size());
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = i;
+    auto representative = [&](std::size_t i) {
+      while (mappedIdx_[i] != i)
+        i = mappedIdx_[i];
+      return i;
+    };
     for(const auto& [a, b] : indexPairSet)
     {
-      for(; i<=a; ++i)
-        if (mappedIdx_[i] == invalid)
-          mappedIdx_[i] = numIndices_++;
-      mappedIdx_[b] = mappedIdx_[a];
+      auto repA = representative(a);
+      auto repB = representative(b);
+      mappedIdx_[std::max(repA, repB)] = std::min(repA, repB);
     }
-    for(; i<rawPreBasis.size(); ++i)
-      if (mappedIdx_[i] == invalid)
-        mappedIdx_[i] = numIndices_++;
+    // Number the classes consecutively. Since entries refer to smaller
+    // indices only, those are already replaced by the new index.
+    numIndices_ = 0;
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = (mappedIdx_[i] == i) ? numIndices_++ : mappedIdx_[mappedIdx_[i]];
   }
 
   template<class MultiIndex, class PreBasis>
-- 
2.43.0


From b37eafc9bd36ae32be505bc87847e44a3e1fe0ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 23/30] fix: makeDiscreteGlobalBasisFunction stores nested
 vectors passed as r-values

istlVectorBackend() only references the vector, such that the returned
function referred to a destroyed object.
---
 .../discreteglobalbasisfunction.hh            | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/dune/functions/gridfunctions/discreteglobalbasisfunction.hh b/dune/functions/gridfunctions/discreteglobalbasisfunction.hh
index e739041..f2ea59c 100644
--- a/dune/functions/gridfunctions/discreteglobalbasisfunction.hh
+++ b/dune/functions/gridfunctions/discreteglobalbasisfunction.hh
@@ -430,6 +430,34 @@ public:
 };
 
 
+namespace Impl {
+
+// A const vector backend that owns the wrapped vector.
+// This is needed for vectors passed as r-values because
+// istlVectorBackend() only stores a reference.
+template<class V>
+class OwningISTLVectorBackend
+{
+public:
+
+  OwningISTLVectorBackend(V&& vector) :
+    vector_(std::move(vector))
+  {}
+
+  template<class MultiIndex>
+  decltype(auto) operator[](const MultiIndex& index) const
+  {
+    return istlVectorBackend(vector_)[index];
+  }
+
+private:
+  V vector_;
+};
+
+} // namespace Impl
+
+
+
 /**
  * \brief Generate a DiscreteGlobalBasisFunction.
  *
@@ -465,6 +493,8 @@ auto makeDiscreteGlobalBasisFunction(B&& basis, V&& vector)
   auto toConstVectorBackend = [&](auto&& v) -> decltype(auto) {
     if constexpr (models<Concept::ConstVectorBackend<Basis>, decltype(v)>()) {
       return std::forward<decltype(v)>(v);
+    } else if constexpr (std::is_rvalue_reference_v<decltype(v)> and not std::is_const_v<std::remove_reference_t<decltype(v)>>) {
+      return Impl::OwningISTLVectorBackend<std::decay_t<decltype(v)>>(std::forward<decltype(v)>(v));
     } else {
       return istlVectorBackend(v);
     }
-- 
2.43.0


From e6ec7544a24321b46cd22992cd93d8ec27fa6ad9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:19:53 +0000
Subject: [PATCH 24/30] fix: return the coarse element when binding
 GeometryInAncestor to an r-value

---
 dune/functions/common/geometryinancestor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..5c78334 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From 287b6686a1687dea1f91be490197dd43ab10c0a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 25/30] fix: copied GeometryInAncestor refers to its own coarse
 element

---
 dune/functions/common/geometryinancestor.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 5c78334..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
-- 
2.43.0


From ef1cbf186d27c46b76d8c513f656263322bbe742 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 26/30] fix: cubic Hermite interpolation of functions with
 scalar derivative in 1d

---
 dune/functions/functionspacebases/cubichermitebasis.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 79e5da6..acc3f34 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -476,8 +476,12 @@ namespace Dune::Functions
           auto x = refElement.position(i, dim);
           auto&& derivativeValue = df(x);
           out[i * (dim +1)] = f(x);
-          for (int d = 0; d < dim; ++d)
-            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+          if constexpr (dim == 1)
+            // Squeezing a derivative with a single entry may result in a plain scalar
+            out[i * (dim+1) + 1] = squeezeTensor(derivativeValue) * (*averageVertexMeshSize_)[i];
+          else
+            for (int d = 0; d < dim; ++d)
+              out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
         }
 
         if constexpr (not reduced)
-- 
2.43.0


From 0b2268d8c0029ff397b659f6b2478e2fd718f67d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 27/30] fix: SubDomainGridView iterators do not return
 references to temporaries

---
 dune/functions/common/subdomain.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/subdomain.hh b/dune/functions/common/subdomain.hh
index 0104252..2865c66 100644
--- a/dune/functions/common/subdomain.hh
+++ b/dune/functions/common/subdomain.hh
@@ -402,7 +402,8 @@ namespace Dune::Functions::Experimental {
         return *this;
       }
 
-      const Element& operator*() const
+      // The host iterator may return a reference or a temporary entity
+      decltype(auto) operator*() const
       {
         return *hostIt_;
       }
-- 
2.43.0


From ae55fdd360f5b8db46e15e0393d8a6362b9f7056 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 28/30] fix: make nodes and local views of restricted bases
 assignable

---
 .../functions/functionspacebases/restrictedbasis.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dune/functions/functionspacebases/restrictedbasis.hh b/dune/functions/functionspacebases/restrictedbasis.hh
index b783247..ef74454 100644
--- a/dune/functions/functionspacebases/restrictedbasis.hh
+++ b/dune/functions/functionspacebases/restrictedbasis.hh
@@ -67,13 +67,13 @@ public:
 
     Node(Base&& base, const SubDomainGridView& subDomainGridView, const SubDomain& subDomain)
       : Base(base)
-      , subDomainGridView_(subDomainGridView)
-      , subDomain_(subDomain)
+      , subDomainGridView_(&subDomainGridView)
+      , subDomain_(&subDomain)
     {}
 
     void bind(const Element& element)
     {
-      if (subDomainGridView_.contains(element))
+      if (subDomainGridView_->contains(element))
         Base::bind(element);
       else
       {
@@ -86,12 +86,13 @@ public:
 
     const SubDomain& subDomain() const
     {
-      return subDomain_;
+      return *subDomain_;
     }
 
   private:
-    const SubDomainGridView& subDomainGridView_;
-    const SubDomain& subDomain_;
+    // Use pointers such that nodes and thus local views can be assigned
+    const SubDomainGridView* subDomainGridView_;
+    const SubDomain* subDomain_;
   };
 
   static constexpr size_type maxMultiIndexSize = SubDomainPreBasis::maxMultiIndexSize;
-- 
2.43.0


From fff8a2f603833012d6e27ab802dbe3ce7046ff79 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 29/30] fix: functional descriptors of derivatives (1d Hermite,
 isPartialDerivative)

---
 dune/functions/functionspacebases/cubichermitebasis.hh    | 4 ++--
 dune/functions/functionspacebases/functionaldescriptor.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index acc3f34..996437d 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -405,9 +405,9 @@ namespace Dune::Functions
         if constexpr (dim==1)
         {
           descriptors_[0] = FunctionalDescriptor();
-          descriptors_[1] = FunctionalDescriptor({1});
+          descriptors_[1] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
           descriptors_[2] = FunctionalDescriptor();
-          descriptors_[3] = FunctionalDescriptor({1});
+          descriptors_[3] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
         }
         if constexpr (dim==2)
         {
diff --git a/dune/functions/functionspacebases/functionaldescriptor.hh b/dune/functions/functionspacebases/functionaldescriptor.hh
index 5e67609..d150427 100644
--- a/dune/functions/functionspacebases/functionaldescriptor.hh
+++ b/dune/functions/functionspacebases/functionaldescriptor.hh
@@ -63,7 +63,7 @@ public:
   {
     for(auto i: Dune::range(dim))
     {
-      if (partialDerivativeOrder(i)>0)
+      if (partialDerivativeOrder_[i]>0)
         return true;
     }
     return false;
-- 
2.43.0


From adf2838516fe4a040e7dba114212a505ac3e1327 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:43:04 +0000
Subject: [PATCH 30/30] fix: partial derivatives of Piola-transformed bases in
 3d

---
 .../functionspacebases/globalvaluedlocalfiniteelement.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
index b9c62c3..683338d 100644
--- a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
+++ b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
@@ -298,7 +298,7 @@ namespace Dune::Functions::Impl
      * \param in Position where to evaluate the derivatives
      * \param[out] out The desired partial derivatives
      */
-    void partial(const std::array<unsigned int,2>& order,
+    void partial(const std::array<unsigned int,Traits::dimDomain>& order,
                  const typename Traits::DomainType& x,
                  std::vector<typename Traits::RangeType>& out) const
     {
-- 
2.43.0

