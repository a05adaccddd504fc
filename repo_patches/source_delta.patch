From d70bdce6f3ba93fc98349fbd6df273814d63a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:14 +0000
Subject: [PATCH 1/9] sim hook: public identifier constructors under
 cfg(iota_mam_sim)

---
 src/app/core/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/app/core/mod.rs b/src/app/core/mod.rs
index 60f47bf..c456b80 100644
--- a/src/app/core/mod.rs
+++ b/src/app/core/mod.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use std::hash::{Hash, Hasher};
 
 use crate::pb3::{Absorb, Result};
@@ -11,6 +13,15 @@ pub struct AppInst {
     pub(crate) id: Trits,
 }
 
+/// Simulation hooks: build with `--cfg iota_mam_sim` only.
+#[cfg(iota_mam_sim)]
+impl AppInst {
+    /// Create application instance identifier from trits.
+    pub fn sim_from_trits(id: Trits) -> Self {
+        AppInst { id }
+    }
+}
+
 pub const MSGID_SIZE: usize = 81;
 
 #[derive(PartialEq, Eq, Clone)]
@@ -18,6 +29,15 @@ pub struct MsgId {
     pub(crate) id: Trits,
 }
 
+/// Simulation hooks: build with `--cfg iota_mam_sim` only.
+#[cfg(iota_mam_sim)]
+impl MsgId {
+    /// Create message identifier from trits.
+    pub fn sim_from_trits(id: Trits) -> Self {
+        MsgId { id }
+    }
+}
+
 impl Absorb for MsgId {
     fn wrap_absorb(&self, s: &mut Spongos, b: &mut TritSliceMut) {
         assert_eq!(MSGID_SIZE, self.id.size());
-- 
2.43.0


From 679907a1cf342179c354d3706facb7b3120f1607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:14 +0000
Subject: [PATCH 2/9] fix: carry to the next trit when incrementing a trit
 counter

---
 src/trits/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..aa07f3b 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,14 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From 7eb255157660223ab098f90fe186bce07f27b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:14 +0000
Subject: [PATCH 3/9] fix: compare both slice offsets when testing for the same
 position

---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index aa07f3b..5154717 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -670,7 +670,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From c5c116650d478d8a4f382cfb65f612187f37a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:14 +0000
Subject: [PATCH 4/9] fix: report end of input when unmasking a truncated
 integer

---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0


From 67dbda6de91ec90b0580428cd91944d13de88aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:14 +0000
Subject: [PATCH 5/9] fix: check the size of trytes against the input before
 allocating

---
 src/pb3/typ/trytes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..4e54c05 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,6 +87,7 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
@@ -100,6 +101,7 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
-- 
2.43.0


From e2f2cab94e2d5c916b689a0fc70c6cf7edf30fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:14 +0000
Subject: [PATCH 6/9] fix: check keyload entries against the input before
 skipping them

---
 src/app/channel/msg/keyload.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..72fb479 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -176,11 +176,13 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::sizeof_ntrytes(81) <= b.size(), Err::Eof)?;
                 b.advance(pb3::sizeof_ntrytes(81));
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
+        guard(psks_count.0 - n <= b.size() / sizeof_keyloadpsk, Err::Eof)?;
         b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
     }
 
@@ -201,11 +203,13 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
+                guard(pb3::ntrukem::sizeof_ntrukem() <= b.size(), Err::Eof)?;
                 b.advance(pb3::ntrukem::sizeof_ntrukem());
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
+        guard(ntrus_count.0 - n <= b.size() / sizeof_keyloadntru, Err::Eof)?;
         b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
     }
 
-- 
2.43.0


From 8dc2bd8ff4f63ec3ba15873fb3e94690c2efbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:34 +0000
Subject: [PATCH 7/9] fix: keep the Merkle tree root when all keys are used

---
 src/mss/mtcomplete.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..603ec8d 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -79,15 +79,17 @@ where
             self.skn += 1;
         }
 
-        if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
+        if self.skn == max_skn(self.height) && 1 < self.nodes.len() {
+            // Exhausted, only the root (the last node) is still needed.
+            self.nodes = self.nodes.split_off(self.nodes.len() - 1);
         }
 
         self.skn != max_skn(self.height)
     }
 
     fn root(&self) -> &H {
-        self.node(0, 0)
+        // Root is always the last node.
+        &self.nodes[self.nodes.len() - 1]
     }
 
     /// MT height.
@@ -117,7 +119,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
+        if skn == max_skn(height) && 1 == nodes.len() {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
             return None;
-- 
2.43.0


From becf09502533c01ea3fb18d70128b588cdf047b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 8/9] fix: refuse stored trees of impossible height

---
 src/mss/mt.rs          | 3 +++
 src/mss/mtcomplete.rs  | 4 ++++
 src/mss/mttraversal.rs | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/mss/mt.rs b/src/mss/mt.rs
index b827b5f..28f0e7c 100644
--- a/src/mss/mt.rs
+++ b/src/mss/mt.rs
@@ -9,6 +9,9 @@ pub type Height = usize;
 /// Type of leaf/node indices within a tree level `d`: `0..max_skn(d)`.
 pub type Idx = usize;
 
+/// Trees of this height or more can't be indexed with `Idx`.
+pub(crate) const MAX_HEIGHT: Height = 8 * std::mem::size_of::<Idx>() - 1;
+
 /// Secret key (leaf) count in a full binary tree of height `d`.
 pub fn max_skn(d: Height) -> Idx {
     1 << d
diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 603ec8d..885b339 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -119,6 +119,10 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
+        if height >= MAX_HEIGHT {
+            return None;
+        }
+
         if skn == max_skn(height) && 1 == nodes.len() {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
diff --git a/src/mss/mttraversal.rs b/src/mss/mttraversal.rs
index 85654c4..24139b8 100644
--- a/src/mss/mttraversal.rs
+++ b/src/mss/mttraversal.rs
@@ -313,6 +313,10 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
+        if height >= MAX_HEIGHT {
+            return None;
+        }
+
         if skn == max_skn(height) {
             if 1 != nodes.len() {
                 return None;
-- 
2.43.0


From 7d6ec4ae658a5f122a353b654c0f81034a04812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 9/9] fix: load a stored traversal tree without replaying its
 history

A record with a damaged height made the replay run practically forever
instead of being refused.
---
 src/mss/mttraversal.rs | 74 ++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/mss/mttraversal.rs b/src/mss/mttraversal.rs
index 24139b8..4bc2877 100644
--- a/src/mss/mttraversal.rs
+++ b/src/mss/mttraversal.rs
@@ -205,6 +205,43 @@ where
     }
 }
 
+/// Next leaf index of the stack `d` and the positions (level, index) of its nodes, bottom
+/// to top, when `skn` is the current leaf of a tree of the given `height`.
+fn stack_shape(d: Height, skn: Idx, height: Height) -> (Idx, Vec<(Height, Idx)>) {
+    let dd = 1 << d;
+    if skn < dd {
+        // Not refreshed yet, still as generated.
+        return (0, vec![(d, 0)]);
+    }
+
+    // The stack was refreshed last when its left-most leaf was current and updated twice
+    // for this and each later leaf.
+    let start = skn - skn % dd;
+    let mut next_leaf = (start + dd) ^ dd;
+    let mut updates = 2 * (skn - start + 1);
+    let mut positions = Vec::new();
+    if next_leaf >= max_skn(height) {
+        return (next_leaf, positions);
+    }
+
+    // It takes as many updates as there are nodes to finish a sub-tree.
+    let mut k = d;
+    while updates < tree_size(k) {
+        k -= 1;
+        if tree_size(k) <= updates {
+            positions.push((k, next_leaf >> k));
+            next_leaf += 1 << k;
+            updates -= tree_size(k);
+            if updates == 0 {
+                return (next_leaf, positions);
+            }
+        }
+    }
+    positions.push((k, next_leaf >> k));
+    next_leaf += 1 << k;
+    (next_leaf, positions)
+}
+
 impl<H> MT<H> {
     fn refresh(&mut self) {
         let skn = self.apath.skn;
@@ -342,17 +379,10 @@ where
             return None;
         }
 
-        let g = |_idx: Idx| ();
-        let m = |_h0: &(), _h1: &()| ();
-        let mut dummy_mt = MT::gen(&g, &m, height);
-        for _ in 0..skn {
-            dummy_mt.next(&g, &m);
-        }
-
-        let mut stacks_len = 0;
-        for dummy_stack in dummy_mt.stacks.iter() {
-            stacks_len += dummy_stack.len();
-        }
+        let shapes: Vec<_> = (0..height)
+            .map(|d| stack_shape(d, skn, height))
+            .collect();
+        let stacks_len: usize = shapes.iter().map(|shape| shape.1.len()).sum();
         if nodes.len() != height + 1 + stacks_len {
             return None;
         }
@@ -372,28 +402,22 @@ where
         if let Some(root) = inode.next() {
             // Build stacks next.
             let mut stacks = Vec::with_capacity(height);
-            for dummy_stack in dummy_mt.stacks.iter() {
-                let mut s = Vec::new();
+            for (d, (next_leaf, positions)) in shapes.into_iter().enumerate() {
+                let mut s = Vec::with_capacity(positions.len());
 
-                for dummy_node in dummy_stack.s.iter() {
+                for (node_d, node_i) in positions {
                     if let Some(h) = inode.next() {
-                        let n = Node {
-                            d: dummy_node.d,
-                            i: dummy_node.i,
+                        s.push(Node {
+                            d: node_d,
+                            i: node_i,
                             h,
-                        };
-                        s.push(n);
+                        });
                     } else {
                         return None;
                     }
                 }
 
-                let stack = Stack {
-                    d: dummy_stack.d,
-                    i: dummy_stack.i,
-                    s,
-                };
-                stacks.push(stack);
+                stacks.push(Stack { d, i: next_leaf, s });
             }
 
             Some(Self {
-- 
2.43.0

