From 7249612d64a4cb36506746ee9ef5d09e4366a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 1/8] fix: search of an empty node must not index its first
 item

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From a8e06275fe142bff37105138b6826159234bbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 2/8] fix: pop_right must report the offset of the popped item

---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..8c1302b 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,7 +441,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
+			let offset = self.other_children.len() - 1;
 			let last = self.other_children.pop().unwrap();
 			Ok(RightBranch {
 				offset: offset.into(),
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..a246012 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,7 +200,7 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
+			let offset = self.items.len() - 1;
 			let item = self.items.pop().unwrap();
 			Ok((offset.into(), item))
 		}
-- 
2.43.0


From 5521e4c7da570e8099dc05250ca9a88bef86ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 3/8] fix: no item is found or removed at the offset before the
 first item

---
 src/node/internal.rs | 4 ++--
 src/node/mod.rs      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 8c1302b..3bb7704 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,7 +276,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
+		match self.other_children.get(offset.value()?) {
 			Some(b) => Some(&b.item),
 			None => None,
 		}
@@ -284,7 +284,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
+		match self.other_children.get_mut(offset.value()?) {
 			Some(b) => Some(&mut b.item),
 			None => None,
 		}
diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..7c0fbd3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -418,7 +418,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
 			Node::Internal(node) => {
-				if offset < node.item_count() {
+				if !offset.is_before() && offset < node.item_count() {
 					let left_child_index = offset.unwrap();
 					Some(Err(node.child_id(left_child_index)))
 				} else {
@@ -426,7 +426,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 				}
 			}
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if !offset.is_before() && offset < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From 80046b776cda6d6a29585a6ba4df1fc278e080ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 4/8] fix: the item before the offset preceding a node is the
 parent's separator

---
 src/storage.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..d6dbeec 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -132,8 +132,13 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			// No item precedes the offset `before` in its node.
+			let child_id = match addr.offset.value() {
+				Some(offset) => node.child_id_opt(offset),
+				None => None,
+			};
+
+			match child_id {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From 673d6f4542c3ea77adf0fb422174de7e832792e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 5/8] fix: stepping forward from the back address of an inner
 node must not go back into its last child

---
 src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d6dbeec..106b27b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -226,7 +226,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// Past the last child: the next item is not under this node.
+			_ => return self.normalize(addr),
 		}
 
 		// let original_addr_shifted = addr;
@@ -327,7 +328,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// Past the last child: the next item is not under this node.
+			_ => return Some(self.normalize(addr).unwrap_or(addr)),
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 0457abbd7d08c967788dc13861f9a01709f6ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 6/8] fix: the validator must not accept an overfull root

---
 src/node/internal.rs | 2 ++
 src/node/leaf.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 3bb7704..02defc2 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -501,6 +501,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 			}
 		} else if self.item_count() == 0 {
 			panic!("root node is empty")
+		} else if self.is_overflowing() {
+			panic!("internal node is overflowing")
 		}
 
 		if !self
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index a246012..930b4b9 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -286,6 +286,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 				Balance::Underflow(_) => panic!("leaf is underflowing"),
 				_ => (),
 			}
+		} else if self.is_overflowing() {
+			panic!("leaf is overflowing")
 		}
 
 		if !self.items.windows(2).all(|w| cmp(&w[0], &w[1]).is_lt()) {
-- 
2.43.0


From b4a749734025df09f3a5786fc97eb1d64c72a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 7/8] fix: empty the tree before its items are destroyed in
 RawBTree::clear

A panic in the destructor of an item left the tree with nodes already
released, which dropping or using the tree then released again.
---
 src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..25993a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,13 +467,20 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// The tree is emptied first: if the destructor of an item panics, it must not be left with
+		// nodes that are already released.
+		let nodes = std::mem::replace(&mut self.nodes, S::default());
+		let root = self.root.take();
 		self.len = 0;
-		self.nodes = S::default();
+
+		if let Some(mut dropper) = nodes.start_dropping() {
+			if let Some(id) = root {
+				let node = unsafe { nodes.get(id) };
+				node.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
+				unsafe { dropper.drop_node(id) }
+			}
+		}
 	}
 
 	#[cfg(debug_assertions)]
-- 
2.43.0


From 6f2351c1f8856af4171aeed8cd3e33c9aedb3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 8/8] fix: do not destroy handed-out items when the destructor
 of an item panics in IntoIter

When the destructor of an item panicked while IntoIter was dropped, its
tree was dropped as well, items already handed out included.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 25993a2..3470de3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ pub(crate) mod utils;
 
 pub mod node;
 pub use node::{Address, Node, Offset};
-use std::{cmp::Ordering, iter::FusedIterator, marker::PhantomData};
+use std::{cmp::Ordering, iter::FusedIterator, marker::PhantomData, mem::ManuallyDrop};
 
 mod balancing;
 mod item;
@@ -811,7 +811,9 @@ impl<'a, T, S: Storage<T>> IntoIterator for &'a mut RawBTree<T, S> {
 
 pub struct IntoIter<T, S: Storage<T> = BoxStorage> {
 	/// The tree.
-	btree: RawBTree<T, S>,
+	///
+	/// It is never dropped with items in it: some of them may have been handed out.
+	btree: ManuallyDrop<RawBTree<T, S>>,
 
 	/// Address of the next item.
 	addr: Option<Address<S::Node>>,
@@ -829,7 +831,7 @@ impl<T, S: Storage<T>> IntoIter<T, S> {
 		let addr = btree.first_item_address();
 		let len = btree.len();
 		Self {
-			btree,
+			btree: ManuallyDrop::new(btree),
 			addr,
 			end: None,
 			len,
@@ -899,5 +901,6 @@ impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
 		let _ = self.last();
 		self.btree.forget();
+		unsafe { ManuallyDrop::drop(&mut self.btree) }
 	}
 }
-- 
2.43.0

