From 8c54f3d87ecda667dd8a5790e0cabba29b2be47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:33 +0000
Subject: [PATCH 01/13] Add raw part constructors behind
 `expose_internal_utils`

These let external verification harnesses start from arbitrary internal
states. They only exist when the feature is enabled.
---
 triple_arena/src/arena/base_arena.rs         | 21 +++++++++++++++
 triple_arena/src/chain/chain_arena.rs        | 10 ++++++++
 triple_arena/src/chain/chain_no_gen_arena.rs | 10 ++++++++
 triple_arena/src/lib.rs                      |  3 +++
 triple_arena/src/ord/ord_arena.rs            | 27 ++++++++++++++++++++
 triple_arena/src/surject.rs                  |  3 +--
 triple_arena/src/surject/surject_arena.rs    | 26 ++++++++++++++-----
 7 files changed, 92 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 38cd671..8550bfb 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -926,6 +926,27 @@ impl<P: Ptr, T> Arena<P, T> {
     }
 }
 
+/// Only intended for verification harnesses
+#[cfg(feature = "expose_internal_utils")]
+impl<P: Ptr, T> Arena<P, T> {
+    /// Assembles an arena from its internal parts without checking any
+    /// invariants
+    #[doc(hidden)]
+    pub fn _from_raw_parts(
+        m: NonZeroInxVec<InternalEntry<P, T>>,
+        len: usize,
+        freelist_root: Option<P::Inx>,
+        generation: P::Gen,
+    ) -> Self {
+        Self {
+            m,
+            len,
+            freelist_root,
+            generation,
+        }
+    }
+}
+
 impl<T, P: Ptr> Default for Arena<P, T> {
     fn default() -> Self {
         Self::new()
diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index af2b308..817e0d7 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -147,6 +147,16 @@ pub struct ChainArena<P: Ptr, T> {
     pub(crate) a: Arena<P, Link<P, T>>,
 }
 
+/// Only intended for verification harnesses
+#[cfg(feature = "expose_internal_utils")]
+impl<P: Ptr, T> ChainArena<P, T> {
+    /// The same as [ChainArena::from_arena] but without checking interlinks
+    #[doc(hidden)]
+    pub fn _from_raw_parts(arena: Arena<P, Link<P, T>>) -> Self {
+        Self { a: arena }
+    }
+}
+
 /// # Note
 ///
 /// `P` `Ptr`s to links in a `ChainArena` follow the same validity rules as
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c8ce34c..0dd8b64 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -62,6 +62,16 @@ pub struct ChainNoGenArena<P: Ptr, T> {
     pub(crate) a: Arena<P, LinkNoGen<P, T>>,
 }
 
+/// Only intended for verification harnesses
+#[cfg(feature = "expose_internal_utils")]
+impl<P: Ptr, T> ChainNoGenArena<P, T> {
+    /// The same as [ChainNoGenArena::from_arena] but without checking interlinks
+    #[doc(hidden)]
+    pub fn _from_raw_parts(arena: Arena<P, LinkNoGen<P, T>>) -> Self {
+        Self { a: arena }
+    }
+}
+
 /// # Note
 ///
 /// `P` `Ptr`s to links in a `ChainNoGenArena` follow the same validity rules as
diff --git a/triple_arena/src/lib.rs b/triple_arena/src/lib.rs
index 833e635..c7b3395 100644
--- a/triple_arena/src/lib.rs
+++ b/triple_arena/src/lib.rs
@@ -32,6 +32,9 @@ pub mod utils {
     // only intended for size_of tests and such
     #[cfg(feature = "expose_internal_utils")]
     pub use crate::ord::Node;
+    // only intended for verification harnesses
+    #[cfg(feature = "expose_internal_utils")]
+    pub use crate::surject::{Key, Val};
     pub(crate) use crate::{arena::nzusize_unchecked, traits::ptrinx_unchecked};
     pub use crate::{
         chain::{chain_no_gen_iterators, ChainNoGenArena, LinkNoGen},
diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index bf7f28d..4a23281 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -147,6 +147,33 @@ pub struct OrdArena<P: Ptr, K, V> {
     pub(crate) a: ChainNoGenArena<P, Node<P, K, V>>,
 }
 
+/// Only intended for verification harnesses
+#[cfg(feature = "expose_internal_utils")]
+impl<P: Ptr, K, V> OrdArena<P, K, V> {
+    /// Assembles an arena from its internal parts without checking any
+    /// invariants
+    #[doc(hidden)]
+    pub fn _from_raw_parts(
+        a: ChainNoGenArena<P, Node<P, K, V>>,
+        root: P::Inx,
+        first: P::Inx,
+        last: P::Inx,
+    ) -> Self {
+        Self {
+            root,
+            first,
+            last,
+            a,
+        }
+    }
+
+    /// Returns the internal nodes and the index of the root
+    #[doc(hidden)]
+    pub fn _raw_parts(&self) -> (&ChainNoGenArena<P, Node<P, K, V>>, P::Inx) {
+        (&self.a, self.root)
+    }
+}
+
 impl<P: Ptr, K, V> OrdArena<P, K, V> {
     pub fn new() -> Self {
         Self {
diff --git a/triple_arena/src/surject.rs b/triple_arena/src/surject.rs
index 24fa0a0..076c80e 100644
--- a/triple_arena/src/surject.rs
+++ b/triple_arena/src/surject.rs
@@ -1,5 +1,4 @@
 mod surject_arena;
 pub mod surject_iterators;
 
-pub use surject_arena::SurjectArena;
-pub(crate) use surject_arena::{Key, Val};
+pub use surject_arena::{Key, SurjectArena, Val};
diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f7c0679..c30df6d 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -10,19 +10,19 @@ use crate::{
 };
 
 #[derive(Clone)]
-pub(crate) struct Key<P: Ptr, K> {
-    pub(crate) k: K,
+pub struct Key<P: Ptr, K> {
+    pub k: K,
     // we want to have the size of `P::Inx` since we do not need the generation counter on the
     // internal indirection
-    pub(crate) p_val: PtrNoGen<P>,
+    pub p_val: PtrNoGen<P>,
 }
 
 #[derive(Clone)]
-pub(crate) struct Val<V> {
-    pub(crate) v: V,
+pub struct Val<V> {
+    pub v: V,
     // we ultimately need a reference count for efficient unions, and it
     // has the bonus of being able to easily query key chain lengths
-    pub(crate) key_count: NonZeroUsize,
+    pub key_count: NonZeroUsize,
 }
 
 /// A generalization of an `Arena` with three parameters: a `P: Ptr` type, a `K`
@@ -153,6 +153,20 @@ pub struct SurjectArena<P: Ptr, K, V> {
     pub(crate) vals: Arena<PtrNoGen<P>, Val<V>>,
 }
 
+/// Only intended for verification harnesses
+#[cfg(feature = "expose_internal_utils")]
+impl<P: Ptr, K, V> SurjectArena<P, K, V> {
+    /// Assembles an arena from its internal parts without checking any
+    /// invariants
+    #[doc(hidden)]
+    pub fn _from_raw_parts(
+        keys: ChainNoGenArena<P, Key<P, K>>,
+        vals: Arena<PtrNoGen<P>, Val<V>>,
+    ) -> Self {
+        Self { keys, vals }
+    }
+}
+
 /// # Note
 ///
 /// `Ptr`s in a `SurjectArena` follow the same validity rules as `Ptr`s in a
-- 
2.43.0


From dab23f778272d17fef5656bc3cc88b749263f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:50 +0000
Subject: [PATCH 02/13] fix: keep the value association of each key in
 `SurjectArena::clone_from_with`

The clone pointed each key at the value entry with the index of the key,
instead of at the value entry that the source key was associated with.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index c30df6d..5f56e0d 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -768,7 +768,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             let k = map_key(p, &link.t.k);
             Key {
                 k,
-                p_val: Ptr::_from_raw(p.inx(), ()),
+                p_val: link.t.p_val,
             }
         });
         self.vals.clone_from_with(&source.vals, |_, val| {
-- 
2.43.0


From bad32d8c92009aedd03b46de9a521bba841c398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 03/13] fix: copy the tree root and ends in
 `OrdArena::clone_from_with`

Without them finds and iterations on the clone started from whatever `self`
had before the call.
---
 triple_arena/src/ord/ord_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index 4a23281..02e897b 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -518,6 +518,9 @@ impl<P: Ptr, K: Clone, V0> OrdArena<P, K, V0> {
         source: &OrdArena<P, K, V1>,
         mut map: F,
     ) {
+        self.root = source.root;
+        self.first = source.first;
+        self.last = source.last;
         self.a.clone_from_with(&source.a, |p, link| Node {
             k: link.t.k.clone(),
             v: map(p, &link.t.v),
-- 
2.43.0


From 40258adb562204cb85a0e7cd3f74291e90e16f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 04/13] fix: compare against the keys of `other` in
 `SurjectArena` equality

Both of the compared keys were taken from `self`, so differing keys and key
sets compared as equal, and the value lookup in `other` could panic.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 5f56e0d..cb55da5 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -864,7 +864,7 @@ impl<P: Ptr, K: PartialEq, V: PartialEq> PartialEq<SurjectArena<P, K, V>>
                     return false
                 }
                 let key0 = self.keys.get_inx_unwrap(p0.inx());
-                let key1 = self.keys.get_inx_unwrap(p1.inx());
+                let key1 = other.keys.get_inx_unwrap(p1.inx());
                 // make sure not to depend on `p_val`
                 if key0.prev_next() != key1.prev_next() {
                     return false
-- 
2.43.0


From b3327a5e39c844e5955ea6925be4d8c4a74354f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 05/13] fix: check the generation in
 `OrdArena::advancer_starting_from`

An invalid `p_start` whose entry had been reused advanced over the new
contents, instead of returning only `None`s as documented.
---
 triple_arena/src/ord/ord_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 4575dcd..3025b0f 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -213,7 +213,11 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// the next greater entry is _not_ supported during each advancement.
     pub fn advancer_starting_from(&self, p_start: P) -> PtrAdvancer<P, K, V> {
         PtrAdvancer {
-            ptr: Some(p_start.inx()),
+            ptr: if self.a.contains(p_start) {
+                Some(p_start.inx())
+            } else {
+                None
+            },
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From fda81e1f37318e112e1c95b2d4c6d6bd3664fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 06/13] fix: return `false` from `are_neighbors` when `p_next`
 is invalid

The generation of `p_next` was ignored. Besides the wrong answer,
`ChainArena::insert` relies on this check, and with an invalid `p_next` it
stored an invalid interlink.
---
 triple_arena/src/chain/chain_arena.rs        | 2 +-
 triple_arena/src/chain/chain_no_gen_arena.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index 817e0d7..5ae3e19 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -481,7 +481,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p.inx() == p_next.inx() {
+                if p == p_next {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 0dd8b64..3ac1404 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -404,7 +404,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p == p_next.inx() {
+                if (p == p_next.inx()) && self.a.contains(p_next) {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
-- 
2.43.0


From 57404e870fd89f7f50beb910648697f8f8f40827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 07/13] fix: limit the growth in `Arena::insert_with` to the
 maximum index

`insert` already does this. Without it `insert_with` panicked with more than
half of the indexes of `P::Inx` unused, when doubling would exceed the maximum.
---
 triple_arena/src/arena/base_arena.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 8550bfb..dcf1594 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -477,6 +477,12 @@ impl<P: Ptr, T> Arena<P, T> {
                 // need at least one
                 additional = 1;
             }
+            // make sure to not make `reserve` panic
+            let new_len = self
+                .len()
+                .saturating_add(additional)
+                .clamp(0, <P::Inx as PtrInx>::max().get());
+            additional = new_len.wrapping_sub(self.len());
             self.reserve(additional);
             self.freelist_root.unwrap()
         };
-- 
2.43.0


From 6b1be9d8855890fdba1e27f59f9ccfb588fec8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 08/13] fix: do not overflow the index type when clearing an
 arena at maximum capacity

The index after the last entry was converted to a `P::Inx`, which panicked if
the last entry had the maximum index.
---
 triple_arena/src/arena/base_arena.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index dcf1594..caf3cc2 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -760,10 +760,11 @@ impl<P: Ptr, T> Arena<P, T> {
     pub fn clear(&mut self) {
         // drop all `T` and recreate the freelist
         for i in self.m.nziter() {
+            // the last entry could have the maximum index and is handled separately
+            let next = i.get().wrapping_add(1).min(self.m.len());
             // Safety: `isize::MAX` guarantee
             unsafe {
-                let next = ptrinx_unchecked(i.get().wrapping_add(1));
-                *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
+                *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(ptrinx_unchecked(next));
             }
         }
         if !self.m.is_empty() {
-- 
2.43.0


From 634593000994695d0845e77fbcd7d7bc400806df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 09/13] fix: do not panic when deserializing an empty
 `OrdArena`

---
 triple_arena/src/traits/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 18fe964..9608b35 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -472,7 +472,9 @@ where
             first: tmp,
             last: tmp,
         };
-        res.raw_rebalance_assuming_compressed();
+        if !res.is_empty() {
+            res.raw_rebalance_assuming_compressed();
+        }
         Ok(res)
     }
 }
-- 
2.43.0


From 079a863785585e1292acb67922357645f001ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 10/13] fix: increment the generation only once when
 compressing chain arenas

Moving the entries out of the old storage incremented its generation for every
entry, which panicked with a generation overflow for small `PtrGen`s even
though the resulting arena only has its generation incremented once.
---
 triple_arena/src/chain/chain_arena.rs        |  6 +++---
 triple_arena/src/chain/chain_no_gen_arena.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index 5ae3e19..71a18ce 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -778,7 +778,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next().map(|p| p.inx());
@@ -802,7 +802,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next().map(|p| p.inx());
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -829,7 +829,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev().map(|p| p.inx());
                     let t = link.t;
                     let q = new.insert(Link::new((None, Some(q_next)), t));
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 3ac1404..9531a88 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -734,7 +734,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next();
@@ -759,7 +759,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next();
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -787,7 +787,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev();
                     let t = link.t;
                     let q = new.insert(LinkNoGen::new((None, Some(q_next.inx())), t));
@@ -815,7 +815,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut new = Arena::<P, LinkNoGen<P, T>>::with_capacity(self.len());
         new.set_gen(generation);
         let p_init = first_link;
-        let link = self.a.remove(p_init).unwrap();
+        let link = self.a.remove_internal(p_init, false).unwrap();
         let mut p_next = link.next();
         let mut q_prev = new.insert(LinkNoGen::new((None, None), link.t));
         map(p_init, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q_prev);
@@ -823,7 +823,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             p_next = if let Some(p_next) = p_next {
                 let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                 let p = Ptr::_from_raw(p_next, p_gen);
-                let link = self.a.remove(p).unwrap();
+                let link = self.a.remove_internal(p, false).unwrap();
                 let tmp_next = link.next();
                 let t = link.t;
                 let q = new.insert(LinkNoGen::new((Some(q_prev.inx()), None), t));
-- 
2.43.0


From ecc55a112d1fa590b085ce683ac24a47b59c3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 11/13] fix: do not increment the generation for every entry in
 `Arena::capacity_drain`

Consuming an arena panicked with a generation overflow when it had more entries
than generations left.
---
 triple_arena/src/arena/arena_iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/arena_iterators.rs b/triple_arena/src/arena/arena_iterators.rs
index 6a550fd..9623d85 100644
--- a/triple_arena/src/arena/arena_iterators.rs
+++ b/triple_arena/src/arena/arena_iterators.rs
@@ -166,7 +166,7 @@ impl<P: Ptr, T> Iterator for CapacityDrain<P, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.adv
             .advance(&self.arena)
-            .map(|p| (p, self.arena.remove(p).unwrap()))
+            .map(|p| (p, self.arena.remove_internal_inx_unwrap(p.inx(), false)))
     }
 }
 
-- 
2.43.0


From 0b9fb833a904cb0e32d80760fb9103a1151aede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 12/13] fix: do not advance from an invalid `p_init` in
 `SurjectArena::advancer_surject`

If the entry had been reused, `advancer_surject` returned pointers of a
different surject and `iter_surject` panicked.
---
 triple_arena/src/surject/surject_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index cfb3cd4..a16a2d7 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -205,7 +205,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
     pub fn advancer_surject(&self, p_init: P) -> SurjectPtrAdvancer<P, K, V> {
         SurjectPtrAdvancer {
             init: p_init.inx(),
-            ptr: Some(p_init.inx()),
+            ptr: if self.contains(p_init) {
+                Some(p_init.inx())
+            } else {
+                None
+            },
             max_advances: self.len_keys(),
             _boo: PhantomData,
         }
-- 
2.43.0


From 3c9dda9f153a9bc2aca1b3c32ddbf4cf844dde25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:29 +0000
Subject: [PATCH 13/13] fix: reject key chains with mixed values in
 `SurjectArena::_check_surjects`

The check is used when deserializing. Two chains that each had keys of both of
two values were accepted if the counts happened to match.
---
 triple_arena/src/surject/surject_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index cb55da5..e77ee96 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -216,6 +216,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                     }
                     c = c.checked_sub(1).unwrap();
                     let (_, link) = this.keys.get_no_gen(tmp).unwrap();
+                    if link.t.p_val != this.keys.get(p).unwrap().p_val {
+                        return Err("key chain has keys associated with different values")
+                    }
                     if let Some(next) = link.next() {
                         tmp = next;
                     } else {
-- 
2.43.0

