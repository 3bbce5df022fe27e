From 4ed0a991d022670da8447d6109f04cb4e6dd5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 01/12] fix: do not drop nodes twice when an item's destructor
 panics in clear

---
 src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..9af62ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,12 +467,20 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// Detach the root first: if an item's destructor panics, the nodes
+		// already dropped must not be reachable anymore.
+		let root = self.root.take();
 		self.len = 0;
+
+		if let (Some(root_id), Some(mut dropper)) = (root, self.nodes.start_dropping()) {
+			unsafe {
+				let root_node = self.nodes.get(root_id);
+				root_node.visit_from_leaves(&self.nodes, |id| dropper.drop_node(id));
+				dropper.drop_node(root_id)
+			}
+		}
+
 		self.nodes = S::default();
 	}
 
-- 
2.43.0


From b852fb4c8f3f3dd2a9bb19707cdbca28729e06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 02/12] fix: do not drop items twice when a destructor panics
 in IntoIter::drop

---
 src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9af62ef..7bb7704 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -898,7 +898,18 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Forgets the nodes, even if the destructor of a remaining item panics.
+		struct Guard<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<'a, T, S: Storage<T>> Drop for Guard<'a, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget();
+			}
+		}
+
+		let guard = Guard(self);
+		for item in &mut *guard.0 {
+			drop(item)
+		}
 	}
 }
-- 
2.43.0


From f150e262e4e84b1b964a5fc72d211701bdd23ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 03/12] fix: do not free nodes in forget while they are still
 borrowed by the visit

---
 src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7bb7704..e111f58 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -451,15 +451,21 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn forget(&mut self) {
 		use storage::Dropper;
-		let mut dropper = self.nodes.start_dropping();
+		let dropper = self.nodes.start_dropping();
 
-		self.visit_from_leaves_mut(|id, node| unsafe {
+		// The nodes are dropped after the visit, since it borrows them.
+		let mut ids = Vec::new();
+		self.visit_from_leaves_mut(|id, node| {
 			node.forget();
-			if let Some(dropper) = &mut dropper {
-				dropper.drop_node(id);
-			}
+			ids.push(id)
 		});
 
+		if let Some(mut dropper) = dropper {
+			for id in ids {
+				unsafe { dropper.drop_node(id) }
+			}
+		}
+
 		self.root = None;
 		self.len = 0;
 		self.nodes = S::default();
-- 
2.43.0


From 9f2448071ca11b49c9046c3bb82b151baa5f7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 04/12] fix: no item is located before the first item of an
 internal node

---
 src/node/internal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..448f0bd 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,7 +276,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
+		match self.other_children.get(offset.value()?) {
 			Some(b) => Some(&b.item),
 			None => None,
 		}
@@ -284,7 +284,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
+		match self.other_children.get_mut(offset.value()?) {
 			Some(b) => Some(&mut b.item),
 			None => None,
 		}
-- 
2.43.0


From 5406371ce1973731d70ceb386620036c69465eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 05/12] fix: removing before the first item of a node removes
 nothing

---
 src/node/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..7c0fbd3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -418,7 +418,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
 			Node::Internal(node) => {
-				if offset < node.item_count() {
+				if !offset.is_before() && offset < node.item_count() {
 					let left_child_index = offset.unwrap();
 					Some(Err(node.child_id(left_child_index)))
 				} else {
@@ -426,7 +426,7 @@ impl<T, S: Storage<T>> Node<T, S> {
 				}
 			}
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if !offset.is_before() && offset < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From 403c556de6be57f5af401b8f0d2b4eef2d8942b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 06/12] fix: find the item preceding an address located before
 its node

---
 src/storage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..2032ff6 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -132,8 +132,7 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match addr.offset.value().and_then(|i| node.child_id_opt(i)) {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From 957d8d8eaaae869b283a41981237aae2a6219357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 07/12] fix: find the item following an address located after
 its node

---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2032ff6..2d6e101 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -220,7 +220,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// The address is located after the last child of the node.
+			_ => return self.normalize(addr),
 		}
 
 		// let original_addr_shifted = addr;
-- 
2.43.0


From cbba92cb602009adf495e127a95e30451f63f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 08/12] fix: search in an empty leaf

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From 7d0ca4cb95252c6dbf8e4101a0989dcf6750b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 09/12] fix: return the offset of the popped item from
 pop_right

---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 448f0bd..c774175 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,8 +441,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
 			let last = self.other_children.pop().unwrap();
+			let offset = self.other_children.len();
 			Ok(RightBranch {
 				offset: offset.into(),
 				item: last.item,
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..89c084e 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,8 +200,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
 			let item = self.items.pop().unwrap();
+			let offset = self.items.len();
 			Ok((offset.into(), item))
 		}
 	}
-- 
2.43.0


From fc782093b69d22c56e87380bcfdc04741ddf6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 10/12] fix: do not drop drained items twice when a drain is
 leaked, unwound or out of bounds

---
 src/utils/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5df799a..a2f330d 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -131,9 +131,12 @@ impl<T, const N: usize> Array<T, N> {
 		};
 
 		let len = self.len;
+		assert!(end <= len, "cannot drain out of bounds");
 
 		if start < end {
-			self.len -= end - start;
+			// The items are given back by `Drain::shift`, once those in the
+			// range are dropped. If this never happens, they leak.
+			self.len = start;
 		}
 
 		Drain {
@@ -141,6 +144,7 @@ impl<T, const N: usize> Array<T, N> {
 			end,
 			front: start,
 			back: end,
+			array_len: &mut self.len,
 			buffer: &mut self.buffer,
 			len,
 		}
@@ -234,6 +238,7 @@ pub struct Drain<'a, T, const N: usize> {
 	end: usize,
 	front: usize,
 	back: usize,
+	array_len: &'a mut usize,
 	buffer: &'a mut [MaybeUninit<T>; N],
 	len: usize,
 }
@@ -246,7 +251,8 @@ impl<'a, T, const N: usize> Drain<'a, T, N> {
 				self.start += 1;
 			}
 
-			self.end = self.start
+			self.end = self.start;
+			*self.array_len = self.start;
 		}
 	}
 }
-- 
2.43.0


From efdbad555fd68a2d76e5cc104b1e768e875a2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 11/12] fix: do not drop items twice when a destructor panics
 in Array::clear

---
 src/utils/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index a2f330d..56c422e 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -151,10 +151,10 @@ impl<T, const N: usize> Array<T, N> {
 	}
 
 	pub fn clear(&mut self) {
-		for i in 0..self.len {
+		let len = std::mem::replace(&mut self.len, 0);
+		for i in 0..len {
 			unsafe { self.buffer[i].assume_init_drop() };
 		}
-		self.len = 0;
 	}
 }
 
-- 
2.43.0


From 3638acd3836ae117bd2211b1f9b7679944b2a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 12/12] fix: normalize an address located before its node's
 first item to the next item

---
 src/storage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2d6e101..77296aa 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -83,7 +83,12 @@ pub unsafe trait Storage<T>: Default {
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
 		loop {
 			let node = self.get(addr.node);
-			if addr.offset >= node.item_count() {
+			if addr.offset.is_before() {
+				match node.child_id_opt(0) {
+					Some(child_id) => addr.node = child_id,
+					None => addr.offset = 0.into(),
+				}
+			} else if addr.offset >= node.item_count() {
 				match node.parent() {
 					Some(parent_id) => {
 						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
-- 
2.43.0

