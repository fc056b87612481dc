//! The four containers behind one harness-side interface. Only the public API
//! of the crate is used.
use crate::engine::*;
use crate::spec::*;
use rdf_types::dataset::*;
use rdf_types::{Quad, Triple};

/// Observed enumerations of resources: (name, roles, sorted, items, count).
pub struct RoleView {
	pub name: &'static str,
	pub roles: &'static [usize],
	pub sorted: bool,
	pub items: Vec<Atom>,
	pub count: usize,
}

pub trait Store<R: Val>:
	Clone + Default + Eq + Ord + std::hash::Hash + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned
{
	const GRAPHS: bool;
	fn new() -> Self;
	fn ins(&mut self, q: SQ) -> bool;
	fn rem(&mut self, q: SQ) -> bool;
	/// Through the mutation trait.
	fn t_ins(&mut self, q: SQ);
	fn t_try_ins(&mut self, q: SQ);
	fn t_rem(&mut self, q: SQ);
	fn ext(&mut self, q: &[SQ]);
	fn collect(q: &[SQ]) -> Self;
	fn has(&self, q: SQ) -> bool;
	fn has_res(&self, r: Atom) -> bool;
	fn len(&self) -> usize;
	fn empty(&self) -> bool;
	fn items(&self) -> Vec<SQ>;
	fn ref_items(&self) -> Vec<SQ>;
	fn into_items(self) -> Vec<SQ>;
	/// Through the traversal traits: items and declared count.
	fn t_items(&self) -> (Vec<SQ>, usize);
	fn try_items(&self) -> Vec<SQ>;
	/// Resources through the inherent API.
	fn views(&self) -> Vec<RoleView>;
	/// Resources through the traversal traits.
	fn t_views(&self) -> Vec<RoleView>;
	fn display(&self) -> String;
}

fn at<'a, R: Val>(i: impl Iterator<Item = &'a R>) -> Vec<Atom> {
	i.map(|r| r.atom()).collect()
}

macro_rules! view {
	($n:literal, $r:expr, $s:expr, $i:expr, $c:expr) => {{
		let items = at($i);
		let count = $c.unwrap_or(items.len());
		RoleView { name: $n, roles: $r, sorted: $s, items, count }
	}};
}

macro_rules! common {
	($item:ident, $from:ident, $conv:ident, $convr:ident) => {
		fn new() -> Self {
			Self::new()
		}
		fn ins(&mut self, q: SQ) -> bool {
			self.insert(q.$from())
		}
		fn rem(&mut self, q: SQ) -> bool {
			let q: $item<R> = q.$from();
			self.remove(q.as_ref())
		}
		fn ext(&mut self, q: &[SQ]) {
			self.extend(q.iter().map(|q| q.$from::<R>()).filter(|_| true))
		}
		fn collect(q: &[SQ]) -> Self {
			q.iter().map(|q| q.$from::<R>()).filter(|_| true).collect()
		}
		fn has(&self, q: SQ) -> bool {
			let q: $item<R> = q.$from();
			self.contains(q.as_ref())
		}
		fn has_res(&self, r: Atom) -> bool {
			self.contains_resource(&R::from_atom(r))
		}
		fn len(&self) -> usize {
			self.len()
		}
		fn empty(&self) -> bool {
			self.is_empty()
		}
		fn items(&self) -> Vec<SQ> {
			self.iter().map($convr).collect()
		}
		fn ref_items(&self) -> Vec<SQ> {
			let mut r = Vec::new();
			for q in self {
				r.push($convr(q))
			}
			r
		}
		fn into_items(self) -> Vec<SQ> {
			self.into_iter().map(|q| $conv(&q)).collect()
		}
		fn display(&self) -> String {
			use rdf_types::RdfDisplay;
			self.rdf_display().to_string()
		}
	};
}

macro_rules! dataset_traits {
	() => {
		fn t_ins(&mut self, q: SQ) {
			DatasetMut::insert(self, q.quad())
		}
		fn t_try_ins(&mut self, q: SQ) {
			let Ok(()) = fallible::FallibleDatasetMut::try_insert(self, q.quad());
		}
		fn t_rem(&mut self, q: SQ) {
			let q: Quad<R> = q.quad();
			DatasetMut::remove(self, q.as_ref())
		}
		fn t_items(&self) -> (Vec<SQ>, usize) {
			(
				TraversableDataset::quads(self).map(sqr).collect(),
				TraversableDataset::quads_count(self),
			)
		}
		fn try_items(&self) -> Vec<SQ> {
			fallible::FallibleTraversableDataset::try_quads(self)
				.map(|q| {
					let Ok(q) = q;
					sqr(q)
				})
				.collect()
		}
	};
}
macro_rules! graph_traits {
	() => {
		fn t_ins(&mut self, q: SQ) {
			GraphMut::insert(self, q.triple())
		}
		fn t_try_ins(&mut self, q: SQ) {
			let Ok(()) = fallible_graph::FallibleGraphMut::try_insert(self, q.triple());
		}
		fn t_rem(&mut self, q: SQ) {
			let q: Triple<R> = q.triple();
			GraphMut::remove(self, q.as_ref())
		}
		fn t_items(&self) -> (Vec<SQ>, usize) {
			(
				TraversableGraph::triples(self).map(str_).collect(),
				TraversableGraph::triples_count(self),
			)
		}
		fn try_items(&self) -> Vec<SQ> {
			fallible_graph::FallibleTraversableGraph::try_triples(self)
				.map(|q| {
					let Ok(q) = q;
					str_(q)
				})
				.collect()
		}
	};
}

impl<R: Val> Store<R> for BTreeDataset<R> {
	const GRAPHS: bool = true;
	common!(Quad, quad, sq, sqr);
	dataset_traits!();
	fn views(&self) -> Vec<RoleView> {
		vec![view!("resources", &[0, 1, 2, 3], true, self.resources(), None)]
	}
	fn t_views(&self) -> Vec<RoleView> {
		vec![view!(
			"ResourceTraversableDataset::resources",
			&[0, 1, 2, 3],
			true,
			ResourceTraversableDataset::resources(self),
			Some(self.resource_count())
		)]
	}
}

impl<R: Val> Store<R> for IndexedBTreeDataset<R> {
	const GRAPHS: bool = true;
	common!(Quad, quad, sq, sqr);
	dataset_traits!();
	fn views(&self) -> Vec<RoleView> {
		vec![
			view!("resources", &[0, 1, 2, 3], true, self.resources(), None),
			view!("subjects", &[0], false, self.subjects(), None),
			view!("predicates", &[1], false, self.predicates(), None),
			view!("objects", &[2], false, self.objects(), None),
			view!("named_graphs", &[3], false, self.named_graphs(), None),
		]
	}
	fn t_views(&self) -> Vec<RoleView> {
		vec![
			view!(
				"ResourceTraversableDataset",
				&[0, 1, 2, 3],
				true,
				ResourceTraversableDataset::resources(self),
				Some(self.resource_count())
			),
			view!(
				"SubjectTraversableDataset",
				&[0],
				false,
				SubjectTraversableDataset::subjects(self),
				Some(self.subject_count())
			),
			view!(
				"PredicateTraversableDataset",
				&[1],
				false,
				PredicateTraversableDataset::predicates(self),
				Some(self.predicate_count())
			),
			view!(
				"ObjectTraversableDataset",
				&[2],
				false,
				ObjectTraversableDataset::objects(self),
				Some(self.object_count())
			),
			view!(
				"NamedGraphTraversableDataset",
				&[3],
				false,
				NamedGraphTraversableDataset::named_graphs(self),
				Some(self.named_graph_count())
			),
		]
	}
}

impl<R: Val> Store<R> for BTreeGraph<R> {
	const GRAPHS: bool = false;
	common!(Triple, triple, st, str_);
	graph_traits!();
	fn views(&self) -> Vec<RoleView> {
		vec![view!("resources", &[0, 1, 2], true, BTreeGraph::resources(self), None)]
	}
	fn t_views(&self) -> Vec<RoleView> {
		vec![view!(
			"ResourceTraversableGraph",
			&[0, 1, 2],
			true,
			self.graph_resources(),
			Some(self.graph_resource_count())
		)]
	}
}

impl<R: Val> Store<R> for IndexedBTreeGraph<R> {
	const GRAPHS: bool = false;
	common!(Triple, triple, st, str_);
	graph_traits!();
	fn views(&self) -> Vec<RoleView> {
		vec![
			view!("resources", &[0, 1, 2], true, IndexedBTreeGraph::resources(self), None),
			view!("subjects", &[0], false, IndexedBTreeGraph::subjects(self), None),
			view!("predicates", &[1], false, IndexedBTreeGraph::predicates(self), None),
			view!("objects", &[2], false, IndexedBTreeGraph::objects(self), None),
		]
	}
	fn t_views(&self) -> Vec<RoleView> {
		vec![
			view!(
				"ResourceTraversableGraph",
				&[0, 1, 2],
				true,
				self.graph_resources(),
				Some(self.graph_resource_count())
			),
			view!(
				"SubjectTraversableGraph",
				&[0],
				false,
				self.graph_subjects(),
				Some(self.graph_subject_count())
			),
			view!(
				"PredicateTraversableGraph",
				&[1],
				false,
				self.graph_predicates(),
				Some(self.graph_predicate_count())
			),
			view!(
				"ObjectTraversableGraph",
				&[2],
				false,
				self.graph_objects(),
				Some(self.graph_object_count())
			),
		]
	}
}

/// A store together with the history that produced it.
pub struct Tracked<R: Val, S: Store<R>> {
	pub s: S,
	pub h: Hist,
	_r: std::marker::PhantomData<R>,
}

impl<R: Val, S: Store<R>> Tracked<R, S> {
	pub fn new() -> Self {
		Self {
			s: S::new(),
			h: Hist::default(),
			_r: std::marker::PhantomData,
		}
	}
	pub fn with(s: S, h: Hist) -> Self {
		Self {
			s,
			h,
			_r: std::marker::PhantomData,
		}
	}
	pub fn ins(&mut self, q: SQ) {
		let m = self.h.member(&q);
		let r = self.s.ins(q);
		check("insert returns whether the element is new", iff(b(r), not(m)));
		self.h.ins(q);
	}
	pub fn rem(&mut self, q: SQ) {
		let m = self.h.member(&q);
		let r = self.s.rem(q);
		check("remove returns whether the element was present", iff(b(r), m));
		self.h.rem(q);
	}
	/// Checks everything observable without branching on new inputs.
	pub fn observe(&self) {
		observe_items(&self.s, &self.h);
		for v in self.s.views() {
			check(v.name, enumerates_roles(&v.items, &self.h, v.sorted, v.roles));
		}
	}
}

pub fn observe_items<R: Val, S: Store<R>>(s: &S, h: &Hist) {
	let items = s.items();
	check("iter enumerates the set in order", enumerates(&items, h, true, &|_| t()));
	check_b("len equals the number of elements", s.len() == items.len());
	check_b("is_empty iff no element", s.empty() == items.is_empty());
}

/// A symbolic quad whose components range over `lo..hi`.
pub fn sym_quad<R: Val, S: Store<R>>(lo: i64, hi: i64) -> SQ {
	let s = sym::<R>(lo, hi).atom();
	let p = sym::<R>(lo, hi).atom();
	let o = sym::<R>(lo, hi).atom();
	let g = if S::GRAPHS && flip() {
		Some(sym::<R>(lo, hi).atom())
	} else {
		None
	};
	SQ(s, p, o, g)
}
