//! Pattern matching agrees with filtering by the pattern.
use crate::engine::*;
use crate::h_containers::load;
use crate::spec::*;
use crate::store::*;
use rdf_types::dataset::fallible::FalliblePatternMatchingDataset;
use rdf_types::dataset::fallible_graph::FalliblePatternMatchingGraph;
use rdf_types::dataset::*;
use rdf_types::{Quad, Triple};

pub fn ops<R: Val, S: Store<R>>(t: &mut Tracked<R, S>, n: usize, lo: i64, hi: i64, mix: bool) {
	for _ in 0..n {
		let q = sym_quad::<R, S>(lo, hi);
		if !mix || flip() {
			t.ins(q)
		} else {
			t.rem(q)
		}
	}
}

/// Every canonical pattern shape with symbolic resources, over prefix `k`
/// followed by `n` symbolic operations.
pub fn dataset<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	let p: Pat<R> = any_pat(true, || sym(lo, hi));
	let c = quad_pattern(p.map(|r| r));
	let items: Vec<SQ> = match choice(3) {
		0 => t.s.pattern_matching(c.as_ref()).map(sqr).collect(),
		1 => t.s.quad_pattern_matching(c.as_ref()).map(sqr).collect(),
		_ => t
			.s
			.try_quad_pattern_matching(c.as_ref())
			.map(|q| {
				let Ok(q) = q;
				sqr(q)
			})
			.collect(),
	};
	if !items.is_empty() {
		cover("pattern with matches");
	}
	check(
		"pattern matching yields exactly the matching quads, once each",
		enumerates(&items, &t.h, false, &|q| pat_accepts(&p, q)),
	);
}

/// Derived queries of `PatternMatchingDataset`.
pub fn dataset_queries<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	dataset_query(&t.s, &t.h, lo, hi)
}

pub fn dataset_query<R: Val, D>(d: &D, h: &Hist, lo: i64, hi: i64)
where
	D: PatternMatchingDataset<Resource = R> + PredicateTraversableDataset,
{
	let in_role = |x: &R, i: usize| h.in_role(x.atom(), i);
	match choice(9) {
		0 => {
			let x = sym_quad::<R, IndexedBTreeDataset<R>>(lo, hi);
			let q: Quad<R> = x.quad();
			let r = d.contains_quad(q.as_ref());
			check("contains_quad", iff(b(r), h.member(&x)));
		}
		1 => {
			let x: R = sym(lo, hi);
			check("contains_quad_subject", iff(b(d.contains_quad_subject(&x)), in_role(&x, 0)));
		}
		2 => {
			let x: R = sym(lo, hi);
			check("contains_quad_predicate", iff(b(d.contains_quad_predicate(&x)), in_role(&x, 1)));
		}
		3 => {
			let x: R = sym(lo, hi);
			check("contains_quad_object", iff(b(d.contains_quad_object(&x)), in_role(&x, 2)));
		}
		4 => {
			let x: R = sym(lo, hi);
			check("contains_named_graph", iff(b(d.contains_named_graph(&x)), in_role(&x, 3)));
		}
		5 => {
			let (s, p): (R, R) = (sym(lo, hi), sym(lo, hi));
			let g: Option<R> = if flip() { Some(sym(lo, hi)) } else { None };
			let o: Vec<SQ> = d.quad_objects(g.as_ref(), &s, &p)
				.map(|o| SQ(s.atom(), p.atom(), o.atom(), g.map(|g| g.atom())))
				.collect();
			check("quad_objects", enumerates(&o, h, false, &|q| {
				and(vec![aeq(q.0, s.atom()), aeq(q.1, p.atom()), geq(q.3, g.map(|g| g.atom()))])
			}));
		}
		6 => {
			let s: R = sym(lo, hi);
			let g: Option<R> = if flip() { Some(sym(lo, hi)) } else { None };
			let mut o: Vec<SQ> = Vec::new();
			let mut ps: Vec<Atom> = Vec::new();
			let mut nonempty = true;
			for (p, l) in d.quad_predicates_objects(g.as_ref(), &s) {
				ps.push(p.atom());
				let n = o.len();
				o.extend(l.map(|o| SQ(s.atom(), p.atom(), o.atom(), g.map(|g| g.atom()))));
				nonempty &= o.len() > n;
			}
			check_b("quad_predicates_objects yields no empty group", nonempty);
			let mut distinct = Vec::new();
			for i in 0..ps.len() {
				for j in 0..i {
					distinct.push(not(aeq(ps[i], ps[j])));
				}
			}
			check("quad_predicates_objects yields each predicate once", and(distinct));
			check("quad_predicates_objects", enumerates(&o, h, false, &|q| {
				and(vec![aeq(q.0, s.atom()), geq(q.3, g.map(|g| g.atom()))])
			}));
		}
		7 => {
			let q = sym_quad::<R, BTreeGraph<R>>(lo, hi);
			let tr: Triple<R> = q.triple();
			let Ok(r) = FalliblePatternMatchingDataset::try_contains_triple(d, tr.as_ref());
			let any = or(h
				.candidates()
				.into_iter()
				.map(|(x, m)| and(vec![m, aeq(x.0, q.0), aeq(x.1, q.1), aeq(x.2, q.2)]))
				.collect());
			check("try_contains_triple: in some graph", iff(b(r), any));
		}
		_ => {
			// An iterator can be abandoned after its first item.
			let p: Pat<R> = any_pat(true, || sym(lo, hi));
			let c = quad_pattern(p.map(|r| r));
			let first = d.quad_pattern_matching(c.as_ref()).next().map(sqr);
			let some = or(h
				.candidates()
				.into_iter()
				.map(|(x, m)| and(vec![m, pat_accepts(&p, &x)]))
				.collect());
			check("some match iff next() is some", iff(b(first.is_some()), some));
			if let Some(f) = first {
				check("first match is a matching member", and(vec![h.member(&f), pat_accepts(&p, &f)]));
			}
		}
	}
}

pub fn graph<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeGraph<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	let p: Pat<R> = any_pat(false, || sym(lo, hi));
	let c = triple_pattern(p.map(|r| r));
	let pr = || triple_pattern(Pat { s: refs(&p.s), p: refs(&p.p), o: refs(&p.o), g: Slot::Any });
	let _ = c;
	let items: Vec<SQ> = match choice(3) {
		0 => t.s.pattern_matching(pr()).map(str_).collect(),
		1 => t.s.triple_pattern_matching(pr()).map(str_).collect(),
		_ => t
			.s
			.try_triple_pattern_matching(pr())
			.map(|q| {
				let Ok(q) = q;
				str_(q)
			})
			.collect(),
	};
	if !items.is_empty() {
		cover("pattern with matches");
	}
	check(
		"pattern matching yields exactly the matching triples, once each",
		enumerates(&items, &t.h, false, &|q| pat_accepts(&p, q)),
	);
}

pub fn refs<T>(s: &Slot<T>) -> Slot<&T> {
	match s {
		Slot::Any => Slot::Any,
		Slot::Same(i) => Slot::Same(*i),
		Slot::Given(x) => Slot::Given(x),
	}
}

pub fn graph_queries<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeGraph<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	graph_query(&t.s, &t.h, lo, hi)
}

pub fn graph_query<R: Val, D>(d: &D, h: &Hist, lo: i64, hi: i64)
where
	D: PatternMatchingGraph<Resource = R> + PredicateTraversableGraph,
{
	let in_role = |x: &R, i: usize| h.in_role(x.atom(), i);
	match choice(7) {
		0 => {
			let x = sym_quad::<R, IndexedBTreeGraph<R>>(lo, hi);
			let q: Triple<R> = x.triple();
			let r = d.contains_triple(q.as_ref());
			check("contains_triple", iff(b(r), h.member(&x)));
		}
		1 => {
			let x: R = sym(lo, hi);
			check("contains_triple_subject", iff(b(d.contains_triple_subject(&x)), in_role(&x, 0)));
		}
		2 => {
			let x: R = sym(lo, hi);
			check("contains_triple_predicate", iff(b(d.contains_triple_predicate(&x)), in_role(&x, 1)));
		}
		3 => {
			let x: R = sym(lo, hi);
			check("contains_triple_object", iff(b(d.contains_triple_object(&x)), in_role(&x, 2)));
		}
		4 => {
			let (s, p): (R, R) = (sym(lo, hi), sym(lo, hi));
			let o: Vec<SQ> = d.triple_objects(&s, &p)
				.map(|o| SQ(s.atom(), p.atom(), o.atom(), None))
				.collect();
			check("triple_objects", enumerates(&o, h, false, &|q| {
				and(vec![aeq(q.0, s.atom()), aeq(q.1, p.atom())])
			}));
		}
		5 => {
			let s: R = sym(lo, hi);
			let mut o: Vec<SQ> = Vec::new();
			let mut nonempty = true;
			let mut ps: Vec<Atom> = Vec::new();
			for (p, l) in d.triple_predicates_objects(&s) {
				ps.push(p.atom());
				let n = o.len();
				o.extend(l.map(|o| SQ(s.atom(), p.atom(), o.atom(), None)));
				nonempty &= o.len() > n;
			}
			check_b("triple_predicates_objects yields no empty group", nonempty);
			let mut distinct = Vec::new();
			for i in 0..ps.len() {
				for j in 0..i {
					distinct.push(not(aeq(ps[i], ps[j])));
				}
			}
			check("triple_predicates_objects yields each predicate once", and(distinct));
			check("triple_predicates_objects", enumerates(&o, h, false, &|q| aeq(q.0, s.atom())));
		}
		_ => {
			let q = sym_quad::<R, BTreeGraph<R>>(lo, hi);
			let tr: Triple<R> = q.triple();
			let Ok(r) = FalliblePatternMatchingGraph::try_contains_triple(d, tr.as_ref());
			check("try_contains_triple", iff(b(r), h.member(&q)));
		}
	}
}

/// A graph seen as a dataset: all its triples are in the default graph.
pub fn graph_as_dataset<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeGraph<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	let h = &t.h;
	match choice(5) {
		0 => {
			let p: Pat<R> = any_pat(true, || sym(lo, hi));
			let c = quad_pattern(p.map(|r| r));
			let items: Vec<SQ> = if flip() {
				PatternMatchingDataset::quad_pattern_matching(&t.s, c.as_ref()).map(sqr).collect()
			} else {
				t.s.try_quad_pattern_matching(c.as_ref())
					.map(|q| {
						let Ok(q) = q;
						sqr(q)
					})
					.collect()
			};
			check(
				"quad pattern matching on a graph",
				enumerates(&items, h, false, &|q| pat_accepts(&p, q)),
			);
		}
		1 => {
			let x = sym_quad::<R, IndexedBTreeDataset<R>>(lo, hi);
			let q: Quad<R> = x.quad();
			let r = PatternMatchingDataset::contains_quad(&t.s, q.as_ref());
			check("contains_quad on a graph", iff(b(r), h.member(&x)));
			let x: R = sym(lo, hi);
			check_b("a graph has no named graph", !t.s.contains_named_graph(&x));
		}
		2 => {
			let x: R = sym(lo, hi);
			match choice(3) {
				0 => check("contains_quad_subject", iff(b(t.s.contains_quad_subject(&x)), h.in_role(x.atom(), 0))),
				1 => check("contains_quad_predicate", iff(b(t.s.contains_quad_predicate(&x)), h.in_role(x.atom(), 1))),
				_ => check("contains_quad_object", iff(b(t.s.contains_quad_object(&x)), h.in_role(x.atom(), 2))),
			}
		}
		3 => {
			let (s, p): (R, R) = (sym(lo, hi), sym(lo, hi));
			let g: Option<R> = if flip() { Some(sym(lo, hi)) } else { None };
			let ga = g.map(|g| g.atom());
			let o: Vec<SQ> = t
				.s
				.quad_objects(g.as_ref(), &s, &p)
				.map(|o| SQ(s.atom(), p.atom(), o.atom(), ga))
				.collect();
			check("quad_objects on a graph", enumerates(&o, h, false, &|q| {
				and(vec![aeq(q.0, s.atom()), aeq(q.1, p.atom()), geq(q.3, ga)])
			}));
		}
		_ => {
			let s: R = sym(lo, hi);
			let g: Option<R> = if flip() { Some(sym(lo, hi)) } else { None };
			let ga = g.map(|g| g.atom());
			let mut o: Vec<SQ> = Vec::new();
			for (p, l) in t.s.quad_predicates_objects(g.as_ref(), &s) {
				o.extend(l.map(|o| SQ(s.atom(), p.atom(), o.atom(), ga)));
			}
			check("quad_predicates_objects on a graph", enumerates(&o, h, false, &|q| {
				and(vec![aeq(q.0, s.atom()), geq(q.3, ga)])
			}));
		}
	}
}

/// Traversal of a graph through the dataset traits.
pub fn graph_as_dataset_traversal<R: Val>(k: usize, n: usize, lo: i64, hi: i64) {
	use rdf_types::dataset::fallible::FallibleTraversableDataset;
	macro_rules! common {
		($t:expr) => {{
			let t = &$t;
			let q: Vec<SQ> = TraversableDataset::quads(&t.s).map(sqr).collect();
			check("quads() of a graph", enumerates(&q, &t.h, true, &|_| crate::engine::t()));
			check_b("quads_count()", TraversableDataset::quads_count(&t.s) == q.len());
			let q: Vec<SQ> = t
				.s
				.try_quads()
				.map(|q| {
					let Ok(q) = q;
					sqr(q)
				})
				.collect();
			check("try_quads() of a graph", enumerates(&q, &t.h, true, &|_| crate::engine::t()));
			let r: Vec<Atom> = ResourceTraversableDataset::resources(&t.s).map(|r| r.atom()).collect();
			check("resources() of a graph", enumerates_roles(&r, &t.h, true, &[0, 1, 2]));
			check_b("resource_count()", ResourceTraversableDataset::resource_count(&t.s) == r.len());
			check_b("named_graphs()", NamedGraphTraversableDataset::named_graphs(&t.s).next().is_none());
			check_b("named_graph_count()", t.s.named_graph_count() == 0);
		}};
	}
	if flip() {
		let mut t = load::<R, BTreeGraph<R>>(k);
		ops(&mut t, n, lo, hi, true);
		common!(t);
	} else {
		let mut t = load::<R, IndexedBTreeGraph<R>>(k);
		ops(&mut t, n, lo, hi, true);
		common!(t);
		macro_rules! role {
			($tr:ident, $f:ident, $c:ident, $i:expr) => {
				let r: Vec<Atom> = $tr::$f(&t.s).map(|r| r.atom()).collect();
				check(stringify!($f), enumerates_roles(&r, &t.h, false, &[$i]));
				check_b(stringify!($c), $tr::$c(&t.s) == r.len());
			};
		}
		role!(SubjectTraversableDataset, subjects, subject_count, 0);
		role!(PredicateTraversableDataset, predicates, predicate_count, 1);
		role!(ObjectTraversableDataset, objects, object_count, 2);
	}
}

/// Patterns whose given components are lists of up to `m` resources.
pub fn multi<R: Val>(k: usize, n: usize, mix: bool, m: usize, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	// One component carries a list of arbitrary length, the others one
	// resource each, to keep the number of shapes down.
	let wide = choice(4);
	let mut i = 0;
	let p: Pat<Vec<R>> = any_pat(true, || {
		let len = if i == wide { choice(m + 1) } else { 1 };
		i += 1;
		(0..len).map(|_| sym(lo, hi)).collect()
	});
	if i <= wide && wide > 0 {
		// no such component
		return;
	}
	let p2 = Pat {
		s: refs(&p.s),
		p: refs(&p.p),
		o: refs(&p.o),
		g: match &p.g {
			Slot::Any => Slot::Any,
			Slot::Same(i) => Slot::Same(*i),
			Slot::Given(g) => Slot::Given(g.as_ref()),
		},
	};
	let items: Vec<SQ> = if flip() {
		t.s.multi_pattern_matching(quad_pattern(p2)).map(sqr).collect()
	} else {
		t.s.quad_multi_pattern_matching(quad_pattern(p2)).map(sqr).collect()
	};
	if !items.is_empty() {
		cover("multi pattern with matches");
	}
	check(
		"multi-pattern matching yields exactly the matching quads, once each",
		enumerates(&items, &t.h, false, &|q| {
			pat_matches(&p, q, &|l: &Vec<R>, a| or(l.iter().map(|r| aeq(r.atom(), a)).collect()))
		}),
	);
}

/// Two components carry lists of `m` alternatives each (of any number when
/// `m` is 0).
pub fn multi2<R: Val>(k: usize, n: usize, m: usize, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let (a, z) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][choice(6)];
	let mut i = 0;
	let p: Pat<Vec<R>> = any_pat(true, || {
		let len = if i != a && i != z {
			1
		} else if m == 0 {
			choice(3)
		} else {
			m
		};
		i += 1;
		(0..len).map(|_| sym(lo, hi)).collect()
	});
	if i <= z {
		return;
	}
	let p2 = Pat {
		s: refs(&p.s),
		p: refs(&p.p),
		o: refs(&p.o),
		g: match &p.g {
			Slot::Any => Slot::Any,
			Slot::Same(i) => Slot::Same(*i),
			Slot::Given(g) => Slot::Given(g.as_ref()),
		},
	};
	let items: Vec<SQ> = t.s.multi_pattern_matching(quad_pattern(p2)).map(sqr).collect();
	if !items.is_empty() {
		cover("multi pattern with matches");
	}
	check(
		"multi-pattern matching yields exactly the matching quads, once each",
		enumerates(&items, &t.h, false, &|q| {
			pat_matches(&p, q, &|l: &Vec<R>, a| or(l.iter().map(|r| aeq(r.atom(), a)).collect()))
		}),
	);
}

/// Extraction removes what it yields and nothing else.
pub fn extract<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	let p: Pat<R> = any_pat(true, || sym(lo, hi));
	let c = quad_pattern(p.map(|r| r));
	let p2 = p;
	if flip() {
		let items: Vec<SQ> = t.s.extract_pattern_matching(c.as_ref()).map(|q| sq(&q)).collect();
		if !items.is_empty() {
			cover("extraction with matches");
		}
		check(
			"extraction yields exactly the matching quads, once each",
			enumerates(&items, &t.h, false, &|q| pat_accepts(&p, q)),
		);
		t.h.rem_if(move |q| pat_accepts(&p2, q));
	} else {
		// Abandoned after one or two items: only those are gone.
		let wanted = 1 + choice(2);
		let items: Vec<SQ> = t.s.extract_pattern_matching(c.as_ref()).take(wanted).map(|q| sq(&q)).collect();
		for f in &items {
			cover("partial extraction");
			check("extracted quad is a matching member", and(vec![t.h.member(f), pat_accepts(&p, f)]));
			t.h.rem(*f);
		}
		if items.len() < wanted {
			t.h.rem_if(move |q| pat_accepts(&p2, q));
		}
	}
	observe_after(&t.s, &t.h);
}

fn observe_after<R: Val, S: Store<R>>(s: &S, h: &Hist) {
	observe_items(s, h);
	for v in s.views() {
		check(v.name, enumerates_roles(&v.items, h, v.sorted, v.roles));
	}
}

pub fn remove_graph<R: Val>(k: usize, n: usize, mix: bool, lo: i64, hi: i64) {
	let mut t = load::<R, IndexedBTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, mix);
	let g: Option<R> = if flip() { Some(sym(lo, hi)) } else { None };
	let ga = g.map(|g| g.atom());
	let present = match ga {
		Some(a) => t.h.in_role(a, 3),
		None => crate::engine::t(),
	};
	let r = t.s.remove_graph(g.as_ref());
	check("remove_graph returns a graph iff it exists", iff(b(r.is_some()), present));
	let mut items: Vec<SQ> = Vec::new();
	if let Some(r) = r {
		cover("graph removed");
		items = r.iter().map(str_).collect();
		for i in &mut items {
			i.3 = ga;
		}
		check_b("len of the removed graph", r.len() == items.len());
	}
	check(
		"remove_graph returns exactly the triples of that graph",
		enumerates(&items, &t.h, true, &|q| geq(q.3, ga)),
	);
	t.h.rem_if(move |q| geq(q.3, ga));
	observe_after(&t.s, &t.h);
	// The store is still usable.
	let q = sym_quad::<R, IndexedBTreeDataset<R>>(lo, hi);
	t.ins(q);
	observe_items(&t.s, &t.h);
}
