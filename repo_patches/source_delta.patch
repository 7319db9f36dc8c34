From fbb0565ae71b0acc18e04825e57ab6546b3862e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 01/20] fix: reduce an expression containing a stencil

reduce_init of stencils and sum stencils called a function that does not
exist, so any reduction over a stencil expression failed to compile.
---
 spatialops/NeboStencils.h     | 18 +++++++++---------
 spatialops/NeboStencils.h.fmr |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 10a8907..b88601a 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -761,11 +761,11 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
-                                                                     plus,
-                                                                     shift,
-                                                                     arg_,
-                                                                     coefs_));
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
+                                                                         plus,
+                                                                         shift,
+                                                                         arg_,
+                                                                         coefs_));
           }
 
          private:
@@ -976,10 +976,10 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
-                                                                     plus,
-                                                                     shift,
-                                                                     arg_));
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
+                                                                         plus,
+                                                                         shift,
+                                                                         arg_));
           }
 
          private:
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index bb9416f..f0ff9ee 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -443,7 +443,7 @@
                                       'coefs_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_
@@ -542,7 +542,7 @@
                                       'arg_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_)
-- 
2.43.0


From af624c8ff02971d2fdbd1b5e01b59ffb50317e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 02/20] fix: reject coefficient index one in a one-point
 stencil

A collection of a single coefficient accepted index 1 and returned
coefficient 0 instead of reporting the out-of-range index.
---
 spatialops/NeboStencils.h     | 2 +-
 spatialops/NeboStencils.h.fmr | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index b88601a..65ff4a3 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -100,7 +100,7 @@
                 throw(std::runtime_error(msg.str()));;
              };
 
-             if(index > 1) {
+             if(index >= 1) {
                 std::ostringstream msg;
                 msg << "Nebo error in " << "Nebo Stencil Coefficient Collection"
                 << ":\n";
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index f0ff9ee..a00b339 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -237,7 +237,7 @@
                                      (list (nif (n< 'index "0")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(given negative value for coefficient index)))
-                                           (nif (n> 'index "1")
+                                           (nif (n>= 'index "1")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(trying to access a coefficient that does not exist))))
                                      (fc 'coef)))
-- 
2.43.0


From 430a00161dbecc8f71b625183dc13f8c39cf4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 03/20] fix: SpatFldPtr::detach() dissociates when the field is
 shared

detach() on one of several pointers decremented the count but kept the
pointer and count, so destruction decremented a second time and released
the field while another pointer was still using it.
---
 spatialops/structured/SpatialFieldStore.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..18be274 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -146,7 +146,7 @@ public:
   }
 
   int count() const {
-    return *count_;
+    return count_ == NULL ? 0 : *count_;
   }
 
   bool built_from_store() const {
@@ -419,9 +419,12 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    // dissociate from the field even when others still share it
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From 9a2e3ff70e33cc97d328f7e27fb9195d3bac5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 04/20] fix: copying a null SpatFldPtr and assigning one to
 itself

Copying from or assigning from a default-constructed SpatFldPtr incremented
through a null count; assigning a sole owner to itself released the field
and then used it.
---
 spatialops/structured/SpatialFieldStore.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 18be274..e87f48f 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,6 +349,8 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
+  // count the new reference first so that assigning a pointer to itself is safe.
+  if (p.count_ != NULL) ++(*p.count_);
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -370,8 +372,6 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   builtFromStore_ = p.builtFromStore_;
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
-  // increment copy count
-  ++(*count_);
 
   return *this;
 }
-- 
2.43.0


From 6c116ae1f502f5d34cebbd6ada84fa283a59e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 05/20] fix: derivative of GaussianFunction

dx() squared the distance to the center, dropped the amplitude and kept the
constant offset.
---
 spatialops/FieldFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index cd4ae08..436bd89 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -647,7 +647,7 @@ dx( FieldT& f ) const
 {
   this->set_fields();
   const FieldT& x = this->get_x();
-  f <<= -2/b_ * (x-xo_)*(x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) + yo_;
+  f <<= -2/b_ * a_ * (x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) );
 }
 //------------------------------------------------------------------
 template<typename FieldT, typename PatchT>
-- 
2.43.0


From de68e3a7e0ae931f5043707ead48b4f0a25e1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 06/20] fix: assignments and reductions when a direction has a
 single cell

---
 spatialops/NeboBasic.h               | 8 +++++---
 spatialops/NeboBasic.h.fmr           | 5 +++--
 spatialops/structured/MemoryWindow.h | 9 +++++++++
 spatialops/structured/SpatialField.h | 6 ++++--
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/spatialops/NeboBasic.h b/spatialops/NeboBasic.h
index ba9e1be..1659a07 100644
--- a/spatialops/NeboBasic.h
+++ b/spatialops/NeboBasic.h
@@ -124,10 +124,12 @@
 
           const structured::IntVec oldPlus = field.get_valid_ghost_data().get_plus();
 
-          const structured::IntVec offsetChange = oldMinus - minus;
+          const structured::IntVec ghostDims = field.window_with_ghost().ghost_dims();
 
-          const structured::IntVec extentChange = minus + plus - oldMinus -
-          oldPlus;
+          const structured::IntVec offsetChange = (oldMinus - minus) * ghostDims;
+
+          const structured::IntVec extentChange = (minus + plus - oldMinus -
+                                                   oldPlus) * ghostDims;
 
           return field.reshape(extentChange, offsetChange);
        };
diff --git a/spatialops/NeboBasic.h.fmr b/spatialops/NeboBasic.h.fmr
index 48efb4c..1f45548 100644
--- a/spatialops/NeboBasic.h.fmr
+++ b/spatialops/NeboBasic.h.fmr
@@ -92,8 +92,9 @@
                               resize-pmtr)
                      (list (nt=c IntVec 'oldMinus (mfc (mfc 'field 'get_valid_ghost_data) 'get_minus))
                            (nt=c IntVec 'oldPlus (mfc (mfc 'field 'get_valid_ghost_data) 'get_plus))
-                           (nt=c IntVec 'offsetChange (n- 'oldMinus 'minus))
-                           (nt=c IntVec 'extentChange (n+ 'minus (n- 'plus (n- 'oldMinus 'oldPlus)))))
+                           (nt=c IntVec 'ghostDims (mfc (mfc 'field 'window_with_ghost) 'ghost_dims))
+                           (nt=c IntVec 'offsetChange (n* (p (n- 'oldMinus 'minus)) 'ghostDims))
+                           (nt=c IntVec 'extentChange (n* (p (n+ 'minus (n- 'plus (n- 'oldMinus 'oldPlus)))) 'ghostDims)))
                      (mfc 'field 'reshape 'extentChange 'offsetChange)))
 
  (tpl-def (tpl-pmtr FT-chunk)
diff --git a/spatialops/structured/MemoryWindow.h b/spatialops/structured/MemoryWindow.h
index 988cc71..8514e98 100644
--- a/spatialops/structured/MemoryWindow.h
+++ b/spatialops/structured/MemoryWindow.h
@@ -186,6 +186,15 @@ namespace structured{
     inline const IntVec& offset  () const{ return offset_;   }
     inline const IntVec& glob_dim() const{ return nptsGlob_; }
 
+    /**
+     *  \brief Obtain one for each direction that can carry ghost cells and zero
+     *  for each direction with a single point, which never does
+     *  (see get_dim_with_ghost).
+     */
+    inline IntVec ghost_dims() const{
+      return IntVec( nptsGlob_[0]>1 ? 1 : 0, nptsGlob_[1]>1 ? 1 : 0, nptsGlob_[2]>1 ? 1 : 0 );
+    }
+
     /**
      * \brief compare two MemoryWindows for equality
      */
diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..dab8c09 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -459,10 +459,12 @@ namespace structured{
      * This method should be used when a field assignment can only occur on a subset of the field due to invalidation of some of the ghost cells.
      */
     inline void reset_valid_ghosts( const GhostData& ghosts ){
-      const IntVec diff = validGhosts_.get_minus() - ghosts.get_minus();
+      // directions with a single point carry no ghost cells
+      const IntVec ghostDims = fieldWindow_.ghost_dims();
+      const IntVec diff = ( validGhosts_.get_minus() - ghosts.get_minus() ) * ghostDims;
       fieldWindow_ = MemoryWindow( fieldWindow_.glob_dim(),
                                    fieldWindow_.offset() + diff,
-                                   fieldWindow_.extent() - diff - validGhosts_.get_plus() + ghosts.get_plus() );
+                                   fieldWindow_.extent() - diff - ( validGhosts_.get_plus() - ghosts.get_plus() ) * ghostDims );
       validGhosts_ = ghosts;
     }
 
-- 
2.43.0


From c37b70699969bb51d2f252b02576c00b2e84fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 07/20] fix: a failed add_consumer() leaves the field writable

---
 spatialops/structured/SpatialField.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index dab8c09..53fdecc 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -916,8 +916,6 @@ add_consumer( MemoryType consumerMemoryType,
     return;
   }
 
-  readOnly_ = true;  // once a consumer is added, we only allow read-only access
-
 # ifdef ENABLE_THREADS
   //Make sure adding consumers is per-field atomic
   ExecMutex lock;
@@ -1025,6 +1023,8 @@ add_consumer( MemoryType consumerMemoryType,
     throw(std::runtime_error(msg.str()));
   }
   }
+
+  readOnly_ = true;  // once a consumer is added, we only allow read-only access
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From f9d33b22f2f15ce8ea99bd81bb15b1a85fc50fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 08/20] fix: NO_SIDE means the same for one boundary point and
 for a list of them

---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..92914ab 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -201,13 +201,13 @@ namespace structured{
     //   phi_a = (phi_bc - b*phi_b) / a
     //
     const OpT* const op = soDatabase.retrieve_operator<OpT>();
-    ca_ = (side==MINUS_SIDE ? op->coefs().get_coef(0) : op->coefs().get_coef(1) );
-    cb_ = (side==MINUS_SIDE ? op->coefs().get_coef(1) : op->coefs().get_coef(0) );
+    ca_ = (side==MINUS_SIDE || side==NO_SIDE ? op->coefs().get_coef(0) : op->coefs().get_coef(1) );
+    cb_ = (side==MINUS_SIDE || side==NO_SIDE ? op->coefs().get_coef(1) : op->coefs().get_coef(0) );
     //
     std::vector<IntVec>::const_iterator destPointsIter = destIJKPoints.begin();
     for( ; destPointsIter != destIJKPoints.end(); ++destPointsIter ) {
-      flatGhostPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE) ? S1Shift::int_vec() : S2Shift::int_vec() )));    // a_point
-      flatInteriorPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE) ? S2Shift::int_vec() : S1Shift::int_vec() ))); // b_point
+      flatGhostPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE || side==NO_SIDE) ? S1Shift::int_vec() : S2Shift::int_vec() )));    // a_point
+      flatInteriorPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE || side==NO_SIDE) ? S2Shift::int_vec() : S1Shift::int_vec() ))); // b_point
     }
   }
 
-- 
2.43.0


From 79df15167707b9f24f3d42348e0969f8096e2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 09/20] fix: boundary condition on a list of points sets the
 points asked for

---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index 92914ab..03f7f31 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From b2a479f9d5b1f7c2c91e3f60f43eeab3afbd913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 10/20] fix: concurrent field creation and destruction race in
 the memory pool

---
 spatialops/structured/MemoryPool.cpp |  5 +++++
 spatialops/structured/MemoryPool.h   | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index af87468..ec76ef8 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -116,6 +116,8 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
+  ScopedLock lock(mutex_);
+
   if( pad_==0 ) pad_ = _n/10;
   size_t n = _n+pad_;
 
@@ -211,6 +213,8 @@ Pool<T>::put( const MemoryType mtype, T* t )
   // leak memory on shut-down in those cases.
   if( destroyed_ ) return;
 
+  ScopedLock lock(mutex_);
+
   switch(mtype) {
   case LOCAL_RAM: {
     const size_t n = fsm_[t];
@@ -242,6 +246,7 @@ Pool<T>::put( const MemoryType mtype, T* t )
 template<typename T>
 size_t
 Pool<T>::active() const{
+  ScopedLock lock(mutex_);
   size_t n=0;
   for( typename FQSizeMap::const_iterator ifq=cpufqm_.begin(); ifq!=cpufqm_.end(); ++ifq ){
     n += ifq->second.size();
diff --git a/spatialops/structured/MemoryPool.h b/spatialops/structured/MemoryPool.h
index 3a4e0f1..00b0c52 100644
--- a/spatialops/structured/MemoryPool.h
+++ b/spatialops/structured/MemoryPool.h
@@ -26,8 +26,13 @@
 #include <stack>
 #include <map>
 
+#include <spatialops/SpatialOpsConfigure.h>
 #include <spatialops/structured/MemoryTypes.h>
 
+#ifdef ENABLE_THREADS
+#include <boost/thread/mutex.hpp>
+#endif
+
 namespace SpatialOps {
 namespace structured {
 
@@ -44,6 +49,15 @@ class Pool{
   FieldSizeMap fsm_;
   size_t pad_;
   size_t cpuhighWater_, gpuhighWater_;
+
+# ifdef ENABLE_THREADS
+  mutable boost::mutex mutex_;  ///< fields may be created and destroyed on several threads
+  typedef boost::mutex::scoped_lock ScopedLock;
+# else
+  struct ScopedLock{ explicit ScopedLock(int){} };
+  static const int mutex_ = 0;
+# endif
+
   Pool();
   ~Pool();
   Pool(const Pool&);
@@ -55,7 +69,7 @@ class Pool{
   T* get( const MemoryType mtype, const size_t n );
   void put( const MemoryType mtype, T* );
   size_t active() const;
-  size_t total() const{ return cpuhighWater_; }
+  size_t total() const{ ScopedLock lock(mutex_); return cpuhighWater_; }
   const unsigned short int deviceIndex_;
 };
 
-- 
2.43.0


From be5ab63d22ceee485e65e7438c7a01c3af51a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 11/20] fix: assigning a null raw pointer to a SpatFldPtr

---
 spatialops/structured/SpatialFieldStore.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index e87f48f..5d9b23d 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -400,8 +400,8 @@ SpatFldPtr<FieldT>::operator=(FieldT* const f) {
   count_ = new int;
   *count_ = 1;
   builtFromStore_ = false;
-  memType_ = f->memory_device_type();
-  deviceIndex_ = f->device_index();
+  memType_ = ( f != NULL ? f->memory_device_type() : LOCAL_RAM );
+  deviceIndex_ = ( f != NULL ? f->device_index() : 0 );
 
   return *this;
 }
-- 
2.43.0


From be9c304a74fee282e6b9fbb3ca06ecb21d477ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 12/20] fix: scratch fields from a field whose valid ghosts
 were reduced

---
 spatialops/structured/SpatialFieldStore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 5d9b23d..4b1ca55 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -250,7 +250,8 @@ public:
     if( mtype == UNKNOWN ) mtype = f.memory_device_type();
 
     const MemoryWindow& ws = f.window_with_ghost();
-    GhostData gs = f.get_ghost_data();
+    // the window of a field covers its valid ghost cells only
+    const GhostData gs = f.get_valid_ghost_data();
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-- 
2.43.0


From d2cfb39d82265622775b49561824e30096194313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 13/20] fix: scratch fields when a direction has a single cell

---
 spatialops/structured/SpatialFieldStore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 4b1ca55..2d41d31 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -255,7 +255,8 @@ public:
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-    const IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    // directions with a single point carry no extra boundary cells
+    const IntVec inc = bc.has_bc() * ws.ghost_dims() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
     const MemoryWindow w( ws.glob_dim() + inc,
                           ws.offset(),
                           ws.extent()   + inc );
-- 
2.43.0


From 37eb45acd4ee758eb2f6da7b6cd951a2d055b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 14/20] fix: grid coordinates on a field whose window does not
 start at its memory

---
 spatialops/structured/Grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/Grid.cpp b/spatialops/structured/Grid.cpp
index 0612150..afe6671 100644
--- a/spatialops/structured/Grid.cpp
+++ b/spatialops/structured/Grid.cpp
@@ -77,7 +77,8 @@ namespace structured{
     const IntVec lo(0,0,0);
     const IntVec hi( mw.extent() );
 
-    const int ixOffset = mwInterior.offset(dir);
+    // first interior point relative to the first point of the active window
+    const int ixOffset = int(mwInterior.offset(dir)) - int(mw.offset(dir));
     IntVec ix;
     for( ix[2]=lo[2]; ix[2]<hi[2]; ++ix[2] ){
       for( ix[1]=lo[1]; ix[1]<hi[1]; ++ix[1] ){
-- 
2.43.0


From f349e19055ef428a48657eae8424f004f93b16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 15/20] fix: default absolute tolerance of field comparisons
 follows the magnitude of the tolerance

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index ad1745b..7b2b0ad 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -78,7 +78,7 @@ namespace structured{
  */
 template<typename FieldT>
 bool field_not_equal(const FieldT& f1, const FieldT& f2, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(f1, f2, error, error_abs);
 }
 
@@ -123,7 +123,7 @@ bool field_not_equal(const FieldT& f1, const FieldT& f2, double error, const dou
 template<typename FieldT>
 bool field_equal(const FieldT& f1, const FieldT& f2, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(f1, f2, error, error_abs);
 }
 
@@ -412,7 +412,7 @@ bool field_equal_ulp(const FieldT& f1, const FieldT& f2, const unsigned int ulps
  */
 template<typename FieldT>
 bool field_not_equal(const double d, const FieldT& f1, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(d, f1, error, error_abs);
 }
 
@@ -457,7 +457,7 @@ bool field_not_equal(const double d, const FieldT& f1, double error, const doubl
 template<typename FieldT>
 bool field_equal(const double d, const FieldT& f1, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(d, f1, error, error_abs);
 }
 
-- 
2.43.0


From 8714fddf87cbb682b32cd8e1f914baf8cdb11bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 16/20] fix: count a memory pool block only once its allocation
 has succeeded

---
 spatialops/structured/MemoryPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index ec76ef8..2a83533 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -133,7 +133,6 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
     }
     FieldQueue& fq = ifq->second;
     if( fq.empty() ){
-      ++cpuhighWater_;
       try{
 #ifdef ENABLE_CUDA
         /* Pinned Memory Mode
@@ -162,6 +161,7 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
                   << __FILE__ << " : " << __LINE__ << std::endl;
       }
       fsm_[field] = n;
+      ++cpuhighWater_;  // only once the allocation has succeeded
     }
     else{
       field = fq.top(); fq.pop();
-- 
2.43.0


From c3385435e3cc3ce9847e52edcfb3eb34609c1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 17/20] fix: a change of the number of active workers takes
 effect under the pool's lock and wakes waiting workers

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..15c89cf 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -347,7 +347,10 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
+    	locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+
     	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+    	lockedThis->m_task_or_terminate_workers_event.notify_all();   // workers held back by the previous limit may proceed
     	return true;
     }
 
-- 
2.43.0


From a4dd6c7e968f5181b018b677b0b8256292b11c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 18/20] fix: reducing the number of pool workers ends only as
 many workers as asked for

---
 .../threadpool/threadpool/detail/pool_core.hpp   | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 15c89cf..c6726b2 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -110,6 +110,7 @@ namespace boost { namespace threadpool { namespace detail
     volatile size_t m_target_worker_count;
     volatile size_t m_active_worker_count;
     volatile size_t m_target_active_worker_count;
+    volatile size_t m_terminating_worker_count;	// Workers which decided to terminate but are still part of m_worker_count.
 
   private: // The following members are accessed only by _one_ thread at the same time:
     scheduler_type  m_scheduler;
@@ -130,6 +131,7 @@ namespace boost { namespace threadpool { namespace detail
       , m_target_worker_count(0)
       , m_active_worker_count(0)
       , m_target_active_worker_count(0)
+      , m_terminating_worker_count(0)
       , m_terminate_all_workers(false)
     {
       pool_type volatile & self_ref = *this;
@@ -320,10 +322,10 @@ namespace boost { namespace threadpool { namespace detail
         return false;
       }
 
-      if(m_worker_count <= m_target_worker_count){
+      if(m_worker_count <= m_target_worker_count + m_terminating_worker_count){
 
     	// increase worker count
-        while(m_worker_count < m_target_worker_count)
+        while(m_worker_count < m_target_worker_count + m_terminating_worker_count)
         {
           try {
             worker_thread<pool_type>::create_and_attach(lockedThis->shared_from_this());
@@ -369,7 +371,7 @@ namespace boost { namespace threadpool { namespace detail
       }
       else
       {
-        lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count);
+        lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count - m_terminating_worker_count);
       }
     }
 
@@ -377,8 +379,10 @@ namespace boost { namespace threadpool { namespace detail
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       m_worker_count--;
+      m_terminating_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
+      lockedThis->m_task_or_terminate_workers_event.notify_all();   // a worker held back by the limit of active workers may proceed
 
       if(m_terminate_all_workers)
       {
@@ -395,8 +399,9 @@ namespace boost { namespace threadpool { namespace detail
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
         // decrease number of threads if necessary
-        if(m_worker_count > m_target_worker_count)
+        if(m_worker_count > m_target_worker_count + m_terminating_worker_count)
         {
+          m_terminating_worker_count++;
           return false;	// terminate worker
         }
 
@@ -405,8 +410,9 @@ namespace boost { namespace threadpool { namespace detail
         while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
         {
           // decrease number of workers if necessary
-          if(m_worker_count > m_target_worker_count)
+          if(m_worker_count > m_target_worker_count + m_terminating_worker_count)
           {
+            m_terminating_worker_count++;
             return false;	// terminate worker
           }
           else
-- 
2.43.0


From aaba9e69eb546b4601cb0de3d4065560e1b29134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:13 +0000
Subject: [PATCH 19/20] fix: particle operators locate the first cell from the
 mesh origin

---
 spatialops/particles/ParticleOperators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..fb5f3a4 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -158,7 +158,7 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc-xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
         throw std::runtime_error( "Particle is outside of the domain!" );
@@ -219,7 +219,7 @@ namespace Particle{
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc-xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( leftcellIx1 >= nmax || leftcellIx1<0 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
-- 
2.43.0


From dfff85a1ecb9cd962ba6fbf29f19a281a1c1fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:13 +0000
Subject: [PATCH 20/20] fix: resizing the active workers reports the number
 that was set

---
 spatialops/ThreadPool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index cb96dc4..5c60fdd 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -108,8 +108,9 @@ namespace SpatialOps {
      }
      //Connect the right resource interface
      VoidType* resource = (VoidType*)rit->first;
-     resource->size_controller().resize_active(std::max(1,threads));
-     return threads;
+     const int active = std::max(1,threads);
+     resource->size_controller().resize_active(active);
+     return active;
    }
 
    template<class VoidType>
-- 
2.43.0

