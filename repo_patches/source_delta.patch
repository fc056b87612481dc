From 94502ad61cb7cf07ec46284445970376cd5713fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:29 +0000
Subject: [PATCH 01/12] fix: look up each resource after inserting the previous
 one

A resource new to the container and repeated within the inserted quad (or
triple) was stored several times.
---
 src/dataset/graph/impl/btree_graph.rs         | 15 ++++--------
 src/dataset/graph/impl/indexed_btree_graph.rs | 15 ++++--------
 src/dataset/impl/btree_dataset.rs             | 23 +++++++------------
 src/dataset/impl/indexed_btree_dataset.rs     | 23 ++++++++-----------
 4 files changed, 26 insertions(+), 50 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..3db3d61 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -142,14 +142,7 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
-
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -162,7 +155,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -175,7 +168,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -188,7 +181,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			let i = self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..0aef050 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -220,14 +220,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -240,7 +235,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -253,7 +248,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -270,7 +265,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..719323e 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -140,18 +140,7 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -164,7 +153,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -177,7 +166,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -190,6 +179,10 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
@@ -204,7 +197,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			let i = self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..853e679 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -249,18 +249,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -273,7 +264,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -286,7 +277,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -299,6 +290,10 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
@@ -323,7 +318,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From 9d83c5dceaec1fbffc3b5360c5db2f35bbb12719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 02/12] fix: keep role indexes in sync when removing from
 indexed containers

Removing a quad dropped its subject, predicate and object from the role
indexes even when other quads still used them in that role, and left the
graph name indexed when the resource was still used in another role.
---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 0aef050..1c6e69b 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -286,12 +286,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -300,6 +299,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -308,6 +310,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 853e679..b48d10f 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -379,12 +379,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -393,6 +392,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -401,6 +403,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -411,11 +416,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From 7bf5ee243f7ac9aee1a89660b33054eb1d942d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:31 +0000
Subject: [PATCH 03/12] fix: skip vacant slots when matching patterns

With an unconstrained subject, pattern matching stopped at the first slot
vacated by a removal instead of skipping it.
---
 src/dataset/graph/impl/indexed_btree_graph.rs |  5 ++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 1c6e69b..8523ee0 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -620,7 +620,10 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let Some(&triple) = self.triples.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index b48d10f..921b0ab 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -819,7 +819,10 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -856,7 +859,10 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let Some(&quad) = self.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -892,7 +898,10 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let Some(&quad) = self.dataset.quads.get(i) else {
+				self.i = i + 1;
+				continue;
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From 9f80c79e56d58e4b4407070e48a22b8f3e8bae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:38 +0000
Subject: [PATCH 04/12] fix: never match distinct named resources when looking
 for a bijection

---
 src/dataset/isomorphism.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..9128e59 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -289,6 +289,10 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			}
 		}
 
+		if !interpretation.is_anonymous(a) || !interpretation.is_anonymous(b) {
+			return false;
+		}
+
 		match self.forward.get(a) {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
-- 
2.43.0


From f02b6f9728f4b52136d1b8c934c3d037f9f81a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 05/12] fix: compare the ground quads of datasets when checking
 for isomorphism

---
 src/dataset/isomorphism.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 9128e59..c6aedc6 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,13 @@ where
 		return None;
 	}
 
+	// Quads without blank nodes must be the same on both sides.
+	if !collect_ground(interpretation, a)
+		.matches(interpretation, &collect_ground(interpretation, b))
+	{
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -187,6 +194,23 @@ where
 	r
 }
 
+/// Collects the quads of `ds` in which no blank node occurs.
+fn collect_ground<'d, I, D>(interpretation: &I, ds: &'d D) -> BlankSignature<'d, I::Resource>
+where
+	I: ReverseInterpretation,
+	D: TraversableDataset<Resource = I::Resource>,
+{
+	let mut ground = BlankSignature::default();
+
+	for quad in ds.quads() {
+		if blank_count(interpretation, quad) == 0 {
+			ground.insert(quad);
+		}
+	}
+
+	ground
+}
+
 fn collect_signatures<'d, I, D>(
 	interpretation: &I,
 	map: &mut BTreeMap<&'d I::Resource, BlankSignature<'d, I::Resource>>,
-- 
2.43.0


From 1181c9372c8e7ebaa3f389b4f4be51330f186d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:13 +0000
Subject: [PATCH 06/12] fix: keep the object constraint when setting the
 predicate of a pattern

---
 src/pattern/triple/canonical.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..088f1fa 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -568,7 +568,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
-- 
2.43.0


From ea9e47d7585286a533e64015d89558b50282bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 07/12] fix: return the previous object when setting the object
 of a pattern

---
 src/pattern/triple/canonical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 088f1fa..a2a5288 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -603,7 +603,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -856,7 +856,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From 0f1b8a3a56fa59d49ba2b45acaac3ff750d12879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:21 +0000
Subject: [PATCH 08/12] fix: keep the subject constraint when setting the
 object of a pattern

---
 src/pattern/triple/canonical.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index a2a5288..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
-- 
2.43.0


From 0e18e94b78a924d08aead2e7da23b34b3a03d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:05 +0000
Subject: [PATCH 09/12] fix: merge the entries shared by two pattern maps in
 their union

---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..0a0a04a 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values)
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().union_with(values)
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, values) in other.given {
+			self.given.entry(id).or_default().extend(values)
+		}
 	}
 }
 
-- 
2.43.0


From 067c7e26ff2a8082c158cb7280e96647e05d94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:13 +0000
Subject: [PATCH 10/12] fix: accept dots inside blank node labels

---
 src/blankid.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blankid.rs b/src/blankid.rs
index eddde0e..46c7268 100644
--- a/src/blankid.rs
+++ b/src/blankid.rs
@@ -304,13 +304,17 @@ fn check<C: Iterator<Item = char>>(mut chars: C) -> bool {
 		Some('_') => match chars.next() {
 			Some(':') => match chars.next() {
 				Some(c) if c.is_ascii_digit() || is_pn_char_u(c) => {
+					// A dot may occur inside the label, but not at its end.
+					let mut last = c;
 					for c in chars {
-						if !is_pn_char(c) {
+						if c != '.' && !is_pn_char(c) {
 							return false;
 						}
+
+						last = c
 					}
 
-					true
+					last != '.'
 				}
 				_ => false,
 			},
-- 
2.43.0


From 169865e86116e5673101eae1c39e8061fdbbe646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:13 +0000
Subject: [PATCH 11/12] fix: display blank node identifiers without quotes in
 RDF syntax

---
 src/display.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..68732cb 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,8 @@ use std::fmt;
 
 use langtag::{LangTag, LangTagBuf};
 
+use crate::{BlankId, BlankIdBuf};
+
 /// Display method for RDF syntax elements.
 pub trait RdfDisplay {
 	/// Formats the value using the given formatter.
@@ -99,6 +101,18 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self, f)
+	}
+}
+
+impl RdfDisplay for BlankIdBuf {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		fmt::Display::fmt(self, f)
+	}
+}
+
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
 		use fmt::Display;
-- 
2.43.0


From 71af59aad858dffdf2453ab4d2f6bf51f4b82bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:15 +0000
Subject: [PATCH 12/12] fix: panic when a blank node generator overflows, as
 documented

---
 src/term/generator/blank.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..9d54328 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -60,7 +60,10 @@ impl Blank {
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("blank node identifiers exhausted");
 		id
 	}
 }
-- 
2.43.0

