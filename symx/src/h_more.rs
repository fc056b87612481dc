//! Containers that provide only what the traits require: everything else is
//! the crate's default methods and blanket implementations.
use crate::engine::*;
use crate::h_containers::load;
use crate::h_pattern::ops;
use crate::spec::*;
use crate::store::*;
use rdf_types::dataset::fallible::*;
use rdf_types::dataset::fallible_graph::*;
use rdf_types::dataset::*;
use rdf_types::pattern::{CanonicalQuadPattern, CanonicalTriplePattern};
use rdf_types::{Quad, Triple};

/// Requires: the required methods only. Its iterators give an exact size hint
/// or, as iterator adaptors do, only bounds.
struct Min<S>(S, bool);

impl<S> Min<S> {
	fn new(s: S) -> Self {
		Self(s, flip())
	}
}

/// An iterator with correct bounds on its length, exact or not.
struct Hint<I: Iterator>(std::vec::IntoIter<I::Item>, bool);
impl<I: Iterator> Hint<I> {
	fn new(i: I, exact: bool) -> Self {
		Self(i.collect::<Vec<_>>().into_iter(), exact)
	}
}
impl<I: Iterator> Iterator for Hint<I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> {
		self.0.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		let n = self.0.len();
		if self.1 {
			(n, Some(n))
		} else {
			(n / 2, Some(n + 1))
		}
	}
}

type D<R> = IndexedBTreeDataset<R>;
type G<R> = IndexedBTreeGraph<R>;

macro_rules! forward {
	($tr:ident, $ty:ident, $s:ident, $f:ident) => {
		impl<R: Val> $tr for Min<$s<R>> {
			type $ty<'a> = Hint<<$s<R> as $tr>::$ty<'a>> where Self: 'a;
			fn $f(&self) -> Self::$ty<'_> {
				Hint::new($tr::$f(&self.0), self.1)
			}
		}
	};
}

impl<R: Val> Dataset for Min<D<R>> {
	type Resource = R;
}
forward!(TraversableDataset, Quads, D, quads);
forward!(ResourceTraversableDataset, Resources, D, resources);
forward!(SubjectTraversableDataset, Subjects, D, subjects);
forward!(PredicateTraversableDataset, Predicates, D, predicates);
forward!(ObjectTraversableDataset, Objects, D, objects);
forward!(NamedGraphTraversableDataset, NamedGraphs, D, named_graphs);
impl<R: Val> PatternMatchingDataset for Min<D<R>> {
	type QuadPatternMatching<'a, 'p> = Hint<<D<R> as PatternMatchingDataset>::QuadPatternMatching<'a, 'p>>;
	fn quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p R>) -> Self::QuadPatternMatching<'_, 'p> {
		Hint::new(self.0.quad_pattern_matching(pattern), self.1)
	}
}
impl<R: Val> DatasetMut for Min<D<R>> {
	fn insert(&mut self, quad: Quad<R>) {
		self.0.insert(quad);
	}
	fn remove(&mut self, quad: Quad<&R>) {
		self.0.remove(quad);
	}
}

impl<R: Val> Graph for Min<G<R>> {
	type Resource = R;
}
forward!(TraversableGraph, Triples, G, triples);
forward!(ResourceTraversableGraph, GraphResources, G, graph_resources);
forward!(SubjectTraversableGraph, GraphSubjects, G, graph_subjects);
forward!(PredicateTraversableGraph, GraphPredicates, G, graph_predicates);
forward!(ObjectTraversableGraph, GraphObjects, G, graph_objects);
impl<R: Val> PatternMatchingGraph for Min<G<R>> {
	type TriplePatternMatching<'a, 'p> = Hint<<G<R> as PatternMatchingGraph>::TriplePatternMatching<'a, 'p>>;
	fn triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p R>) -> Self::TriplePatternMatching<'_, 'p> {
		Hint::new(self.0.triple_pattern_matching(p), self.1)
	}
}
impl<R: Val> GraphMut for Min<G<R>> {
	fn insert(&mut self, triple: Triple<R>) {
		self.0.insert(triple);
	}
	fn remove(&mut self, triple: Triple<&R>) {
		self.0.remove(triple);
	}
}

macro_rules! counted {
	($t:expr, $h:expr, $f:path, $c:path, $roles:expr) => {{
		let items: Vec<Atom> = $f($t).map(|r| r.atom()).collect();
		check(stringify!($f), enumerates_roles(&items, $h, false, $roles));
		check_b(stringify!($c), $c($t) == items.len());
	}};
}

/// The default counts of a dataset are the lengths of its enumerations.
pub fn dataset_counts<R: Val>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, D<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let (d, h) = (Min::new(t.s), t.h);
	let q: Vec<SQ> = d.quads().map(sqr).collect();
	check("quads", enumerates(&q, &h, true, &|_| crate::engine::t()));
	check_b("quads_count", d.quads_count() == q.len());
	counted!(&d, &h, ResourceTraversableDataset::resources, ResourceTraversableDataset::resource_count, &[0, 1, 2, 3]);
	counted!(&d, &h, SubjectTraversableDataset::subjects, SubjectTraversableDataset::subject_count, &[0]);
	counted!(&d, &h, PredicateTraversableDataset::predicates, PredicateTraversableDataset::predicate_count, &[1]);
	counted!(&d, &h, ObjectTraversableDataset::objects, ObjectTraversableDataset::object_count, &[2]);
	counted!(&d, &h, NamedGraphTraversableDataset::named_graphs, NamedGraphTraversableDataset::named_graph_count, &[3]);
}

/// The same for graphs, by themselves and seen as datasets.
pub fn graph_counts<R: Val>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, G<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let (g, h) = (Min::new(t.s), t.h);
	let q: Vec<SQ> = g.triples().map(str_).collect();
	check("triples", enumerates(&q, &h, true, &|_| crate::engine::t()));
	check_b("triples_count", g.triples_count() == q.len());
	counted!(&g, &h, ResourceTraversableGraph::graph_resources, ResourceTraversableGraph::graph_resource_count, &[0, 1, 2]);
	counted!(&g, &h, SubjectTraversableGraph::graph_subjects, SubjectTraversableGraph::graph_subject_count, &[0]);
	counted!(&g, &h, PredicateTraversableGraph::graph_predicates, PredicateTraversableGraph::graph_predicate_count, &[1]);
	counted!(&g, &h, ObjectTraversableGraph::graph_objects, ObjectTraversableGraph::graph_object_count, &[2]);
	let q: Vec<SQ> = g.quads().map(sqr).collect();
	check("quads of a graph", enumerates(&q, &h, true, &|_| crate::engine::t()));
	check_b("quads_count of a graph", g.quads_count() == q.len());
	counted!(&g, &h, ResourceTraversableDataset::resources, ResourceTraversableDataset::resource_count, &[0, 1, 2]);
	counted!(&g, &h, SubjectTraversableDataset::subjects, SubjectTraversableDataset::subject_count, &[0]);
	counted!(&g, &h, PredicateTraversableDataset::predicates, PredicateTraversableDataset::predicate_count, &[1]);
	counted!(&g, &h, ObjectTraversableDataset::objects, ObjectTraversableDataset::object_count, &[2]);
	counted!(&g, &h, NamedGraphTraversableDataset::named_graphs, NamedGraphTraversableDataset::named_graph_count, &[3]);
}

/// The default queries of a pattern-matching dataset.
pub fn dataset_defaults<R: Val>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, D<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let (d, h) = (Min::new(t.s), t.h);
	crate::h_pattern::dataset_query(&d, &h, lo, hi);
}
pub fn graph_defaults<R: Val>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, G<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let (d, h) = (Min::new(t.s), t.h);
	crate::h_pattern::graph_query(&d, &h, lo, hi);
}

/// Insertion through the mutation traits of such containers.
pub fn minimal_mut<R: Val>(k: usize, lo: i64, hi: i64) {
	if flip() {
		let t = load::<R, D<R>>(k);
		let (mut d, mut h) = (Min::new(t.s), t.h);
		let q = sym_quad::<R, D<R>>(lo, hi);
		let r = d.try_insert(q.quad());
		check_b("inserting in an infallible dataset succeeds", r.is_ok());
		h.ins(q);
		observe_items(&d.0, &h);
	} else {
		let t = load::<R, G<R>>(k);
		let (mut d, mut h) = (Min::new(t.s), t.h);
		let q = sym_quad::<R, G<R>>(lo, hi);
		let r = FallibleGraphMut::try_insert(&mut d, q.triple());
		check_b("inserting in an infallible graph succeeds", r.is_ok());
		h.ins(q);
		observe_items(&d.0, &h);
	}
}

/// A store whose matching may fail at some point.
struct Failing<S> {
	inner: S,
	/// Number of items before the failure.
	after: usize,
}
#[derive(Debug, PartialEq)]
struct Failure(i64);

struct Fails<I>(I, usize);
impl<T, I: Iterator<Item = T>> Iterator for Fails<I> {
	type Item = Result<T, Failure>;
	fn next(&mut self) -> Option<Self::Item> {
		if self.1 == 0 {
			self.1 = usize::MAX;
			return Some(Err(Failure(7)));
		}
		self.1 -= 1;
		self.0.next().map(Ok)
	}
}
impl<R: Val> FallibleDataset for Failing<D<R>> {
	type Resource = R;
	type Error = Failure;
}
impl<R: Val> FalliblePatternMatchingDataset for Failing<D<R>> {
	type TryQuadPatternMatching<'a, 'p> = Fails<<D<R> as PatternMatchingDataset>::QuadPatternMatching<'a, 'p>>;
	fn try_quad_pattern_matching<'p>(&self, p: CanonicalQuadPattern<&'p R>) -> Self::TryQuadPatternMatching<'_, 'p> {
		Fails(self.inner.quad_pattern_matching(p), self.after)
	}
}
impl<R: Val> FallibleGraph for Failing<G<R>> {
	type Resource = R;
	type Error = Failure;
}
impl<R: Val> FalliblePatternMatchingGraph for Failing<G<R>> {
	type TryTriplePatternMatching<'a, 'p> = Fails<<G<R> as PatternMatchingGraph>::TriplePatternMatching<'a, 'p>>;
	fn try_triple_pattern_matching<'p>(&self, p: CanonicalTriplePattern<&'p R>) -> Self::TryTriplePatternMatching<'_, 'p> {
		Fails(self.inner.triple_pattern_matching(p), self.after)
	}
}

/// Membership over a store that fails: the failure is reported when nothing
/// was found before it, never mistaken for an answer.
pub fn failing_dataset<R: Val>(k: usize, lo: i64, hi: i64) {
	let t = load::<R, D<R>>(k);
	let after = choice(3);
	let d = Failing { inner: t.s, after };
	let x = sym_quad::<R, BTreeGraph<R>>(lo, hi);
	let tr: Triple<R> = x.triple();
	let any = || {
		or(t.h
			.candidates()
			.into_iter()
			.map(|(y, m)| and(vec![m, aeq(y.0, x.0), aeq(y.1, x.1), aeq(y.2, x.2)]))
			.collect())
	};
	failing(after, d.try_contains_triple(tr.as_ref()), &any)
}
pub fn failing_graph<R: Val>(k: usize, lo: i64, hi: i64) {
	let t = load::<R, G<R>>(k);
	let after = choice(3);
	let d = Failing { inner: t.s, after };
	let x = sym_quad::<R, BTreeGraph<R>>(lo, hi);
	let tr: Triple<R> = x.triple();
	let h = &t.h;
	failing(after, d.try_contains_triple(tr.as_ref()), &|| h.member(&x))
}
fn failing(after: usize, r: Result<bool, Failure>, present: &dyn Fn() -> Expr) {
	match r {
		Err(e) => {
			check_b("the failure reported is the one that happened", e == Failure(7));
			check_b("a failure is reported only if it comes first", after == 0);
		}
		Ok(_) if after == 0 => check_b("a failure is not an answer", false),
		Ok(x) => {
			cover("membership answered");
			check("membership over a store that fails later", iff(b(x), present()))
		}
	}
}

/// Equality between containers over different resource types.
pub fn across<R: Val>(n: usize, m: usize, lo: i64, hi: i64) {
	type B<R> = BTreeDataset<R>;
	if flip() {
		let (x, y) = (sym_quad::<R, B<R>>(0, 50), sym_quad::<R, B<R>>(0, 50));
		let (q, r): (Quad<R>, Quad<R>) = (x.quad(), y.quad());
		let r = r.map(Other);
		check("equality of quads across resource types", iff(b(q == r), x.eq(&y)));
		let e = and(vec![aeq(x.0, y.0), aeq(x.1, y.1), aeq(x.2, y.2)]);
		check("equality of triples across resource types", iff(b(q.into_triple().0 == r.into_triple().0), e));
		return;
	}
	let mut t = load::<R, B<R>>(0);
	ops(&mut t, n, lo, hi, false);
	let mut u = load::<R, B<R>>(0);
	ops(&mut u, m, lo, hi, false);
	if flip() {
		// equal but for one removal
		let q = sym_quad::<R, B<R>>(lo, hi);
		u.rem(q);
	}
	let o: BTreeDataset<Other<R>> = u.s.iter().map(|q| q.map(|r| Other(*r))).collect();
	check("equality across resource types", iff(b(t.s == o), t.h.same(&u.h)));
}
