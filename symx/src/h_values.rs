//! Triples, quads and patterns as values.
use crate::engine::*;
use crate::h_pattern::refs;
use crate::spec::*;
use rdf_types::pattern::{
	CanonicalQuadPattern, CanonicalTriplePattern, QuadPattern, ResourceOrVar, TriplePattern, TriplePatternMap,
};
use rdf_types::{Quad, Triple};
use std::cmp::Ordering;

const LO: i64 = 0;
const HI: i64 = 64;

fn any_quad<R: Val>(graphs: bool) -> SQ {
	let v = || sym::<R>(LO, HI).atom();
	SQ(v(), v(), v(), if graphs && flip() { Some(v()) } else { None })
}

// --- triples and quads -------------------------------------------------------

pub fn quad_relations<R: Val>() {
	let (x, y) = (any_quad::<R>(true), any_quad::<R>(true));
	let (p, q): (Quad<R>, Quad<R>) = (x.quad(), y.quad());
	match choice(6) {
		0 => {
			check("quads are equal iff all components are", iff(b(p == q), x.eq(&y)));
		}
		1 => order("quad cmp", Some(p.cmp(&q)), &x, &y),
		2 => order("quad partial_cmp", p.partial_cmp(&q), &x, &y),
		3 => {
			let (s, u) = (hash_stream(&p), hash_stream(&q));
			check("equal quads hash alike", implies(x.eq(&y), streams_eq(&s, &u)));
		}
		4 => {
			// references compare like the values they point to
			check("borrowed quads are equal iff the quads are", iff(b(p.as_ref() == q.as_ref()), x.eq(&y)));
		}
		_ => order("borrowed quad cmp", Some(p.as_ref().cmp(&q.as_ref())), &x, &y),
	}
}

fn order(label: &'static str, o: Option<Ordering>, x: &SQ, y: &SQ) {
	check(label, match o {
		Some(Ordering::Less) => x.lt(y),
		Some(Ordering::Equal) => x.eq(y),
		Some(Ordering::Greater) => y.lt(x),
		None => f(),
	});
}

pub fn triple_relations<R: Val>() {
	let (x, y) = (any_quad::<R>(false), any_quad::<R>(false));
	let (p, q): (Triple<R>, Triple<R>) = (x.triple(), y.triple());
	match choice(6) {
		0 => check("triples are equal iff all components are", iff(b(p == q), x.eq(&y))),
		1 => order("triple cmp", Some(p.cmp(&q)), &x, &y),
		2 => order("triple partial_cmp", p.partial_cmp(&q), &x, &y),
		3 => {
			let (s, u) = (hash_stream(&p), hash_stream(&q));
			check("equal triples hash alike", implies(x.eq(&y), streams_eq(&s, &u)));
		}
		4 => check("borrowed triples are equal iff the triples are", iff(b(p.as_ref() == q.as_ref()), x.eq(&y))),
		_ => order("borrowed triple cmp", Some(p.as_ref().cmp(&q.as_ref())), &x, &y),
	}
}

/// A component type whose order is only partial.
#[derive(Clone, Copy, PartialEq)]
struct Part<R>(Option<R>);
impl<R: PartialOrd> PartialOrd for Part<R> {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		match (&self.0, &o.0) {
			(Some(a), Some(c)) => a.partial_cmp(c),
			_ => None,
		}
	}
}
/// `partial_cmp` propagates the first component that is not equal, including
/// incomparability.
pub fn partial_order<R: Val>() {
	let comp = || if flip() { Some(sym::<R>(LO, HI)) } else { None };
	let (a, c): (Vec<Option<R>>, Vec<Option<R>>) = ((0..4).map(|_| comp()).collect(), (0..4).map(|_| comp()).collect());
	let at = |x: &Option<R>| x.as_ref().map(|x| x.atom());
	// Expected outcome formulas: less / equal / greater; otherwise incomparable.
	let rel = |i: usize, o: Ordering| -> Expr {
		match (at(&a[i]), at(&c[i])) {
			(Some(x), Some(y)) => match o {
				Ordering::Less => alt(x, y),
				Ordering::Equal => aeq(x, y),
				Ordering::Greater => alt(y, x),
			},
			_ => f(),
		}
	};
	let with_graph = flip();
	let n = if with_graph { 4 } else { 3 };
	let lexi = |o: Ordering| -> Expr {
		let mut e = if o == Ordering::Equal { rel(n - 1, o) } else { rel(n - 1, o) };
		for i in (0..n - 1).rev() {
			e = if o == Ordering::Equal {
				and(vec![rel(i, o), e])
			} else {
				or(vec![rel(i, o), and(vec![rel(i, Ordering::Equal), e])])
			};
		}
		e
	};
	let r = if with_graph {
		Quad(Part(a[0]), Part(a[1]), Part(a[2]), Some(Part(a[3])))
			.partial_cmp(&Quad(Part(c[0]), Part(c[1]), Part(c[2]), Some(Part(c[3]))))
	} else {
		Triple(Part(a[0]), Part(a[1]), Part(a[2])).partial_cmp(&Triple(Part(c[0]), Part(c[1]), Part(c[2])))
	};
	let (l, e, g) = (lexi(Ordering::Less), lexi(Ordering::Equal), lexi(Ordering::Greater));
	check("partial_cmp is lexicographic", match r {
		Some(Ordering::Less) => l,
		Some(Ordering::Equal) => e,
		Some(Ordering::Greater) => g,
		None => not(or(vec![l, e, g])),
	});
}

fn is<R: Val>(r: &R, a: Atom) -> bool {
	// Components are moved around, never compared: identity is syntactic.
	r.atom() == a
}
fn isg<R: Val>(r: &Option<R>, a: Option<Atom>) -> bool {
	r.map(|r| r.atom()) == a
}
/// Distinct tags instead of values, so that no two components can be mixed up.
fn tagged(graph: bool) -> SQ {
	let t = |i| Atom::Const(i);
	SQ(t(1), t(2), t(3), if graph { Some(t(4)) } else { None })
}

/// Accessors, projections and maps of quads and triples act on the component
/// they name and preserve the others.
pub fn quad_structure<R: Val>() {
	let x = any_quad::<R>(true);
	// additionally, with pairwise distinguishable components
	for x in [x, tagged(true), tagged(false)] {
		let q: Quad<R> = x.quad();
		let same = |q: &Quad<R>| check("component-wise identity", sq(q).eq(&x));
		same(&Quad::new(q.0, q.1, q.2, q.3));
		same(&Quad(*q.subject(), *q.predicate(), *q.object(), q.graph().copied()));
		same(&Quad(q.into_subject(), q.into_predicate(), q.into_object(), q.into_graph()));
		same(&q.as_ref().cloned());
		same(&q.as_ref().into_cloned());
		same(&q.as_ref().copied());
		same(&q.as_ref().into_copied());
		#[allow(deprecated)]
		same(&q.borrow_components().copied());
		let (s, p, o, g) = q.into_parts();
		same(&Quad(s, p, o, g));
		let (t, g) = q.into_triple();
		same(&t.into_quad(g));
		check("into_triple", and(vec![st(&t).eq(&SQ(x.0, x.1, x.2, None)), geq(g.map(|g| g.atom()), x.3)]));
		let z: R = con(9);
		check("map_subject", sq(&q.map_subject(|_| z)).eq(&SQ(z.atom(), x.1, x.2, x.3)));
		check("map_predicate", sq(&q.map_predicate(|_| z)).eq(&SQ(x.0, z.atom(), x.2, x.3)));
		check("map_object", sq(&q.map_object(|_| z)).eq(&SQ(x.0, x.1, z.atom(), x.3)));
		check("map_graph", sq(&q.map_graph(|_| Some(z))).eq(&SQ(x.0, x.1, x.2, Some(z.atom()))));
		check("with_graph", sq(&q.with_graph(Some(z))).eq(&SQ(x.0, x.1, x.2, Some(z.atom()))));
		check("with_graph None", sq(&q.with_graph(None)).eq(&SQ(x.0, x.1, x.2, None)));
		let mut seen = Vec::new();
		let m: Quad<(usize, R)> = q.map(|c| {
			seen.push(c);
			(seen.len(), c)
		});
		check_b(
			"map visits each component once",
			is(&m.0 .1, x.0) && is(&m.1 .1, x.1) && is(&m.2 .1, x.2) && isg(&m.3.map(|g| g.1), x.3)
				&& seen.len() == if x.3.is_some() { 4 } else { 3 },
		);
		let m = q.map_all(|s| (0, s), |p| (1, p), |o| (2, o), |g| g.map(|g| (3, g)));
		check_b(
			"map_all maps each component with its own function",
			m.0 .0 == 0 && m.1 .0 == 1 && m.2 .0 == 2 && m.3.map(|g| g.0 == 3).unwrap_or(true)
				&& is(&m.0 .1, x.0) && is(&m.1 .1, x.1) && is(&m.2 .1, x.2) && isg(&m.3.map(|g| g.1), x.3),
		);
		let mut n = q;
		*n.subject_mut() = z;
		check("subject_mut", sq(&n).eq(&SQ(z.atom(), x.1, x.2, x.3)));
		let mut n = q;
		*n.predicate_mut() = z;
		check("predicate_mut", sq(&n).eq(&SQ(x.0, z.atom(), x.2, x.3)));
		let mut n = q;
		*n.object_mut() = z;
		check("object_mut", sq(&n).eq(&SQ(x.0, x.1, z.atom(), x.3)));
		let mut n = q;
		check_b("graph_mut is some iff named", n.graph_mut().is_some() == x.3.is_some());
		if let Some(g) = n.graph_mut() {
			*g = z;
			check("graph_mut", sq(&n).eq(&SQ(x.0, x.1, x.2, Some(z.atom()))));
		}
		let e = |a: Atom| format!("<{}>", encode_atom(a));
		let mut d = format!("{} {} {}", e(x.0), e(x.1), e(x.2));
		if let Some(g) = x.3 {
			d += &format!(" {}", e(g));
		}
		use rdf_types::RdfDisplay;
		check_b("quad display", q.to_string() == d && q.rdf_display().to_string() == d);
		// serde
		let v = serde_json::to_value(q).unwrap();
		let back: Result<Quad<R>, _> = serde_json::from_value(v);
		match back {
			Ok(k) => same(&k),
			Err(_) => check_b("quad serde round trip", false),
		}
	}
}

pub fn triple_structure<R: Val>() {
	let x = any_quad::<R>(false);
	for x in [x, tagged(false)] {
		let q: Triple<R> = x.triple();
		let same = |q: &Triple<R>| check("component-wise identity", st(q).eq(&x));
		same(&Triple::new(q.0, q.1, q.2));
		same(&Triple(*q.subject(), *q.predicate(), *q.object()));
		same(&Triple(q.into_subject(), q.into_predicate(), q.into_object()));
		same(&q.as_ref().cloned());
		same(&q.as_ref().into_cloned());
		same(&q.as_ref().copied());
		same(&q.as_ref().into_copied());
		let (s, p, o) = q.into_parts();
		same(&Triple(s, p, o));
		let z: R = con(9);
		check("into_quad", sq(&q.into_quad(Some(z))).eq(&SQ(x.0, x.1, x.2, Some(z.atom()))));
		check("into_quad None", sq(&q.into_quad(None::<R>)).eq(&SQ(x.0, x.1, x.2, None)));
		check("map_subject", st(&q.map_subject(|_| z)).eq(&SQ(z.atom(), x.1, x.2, None)));
		check("map_predicate", st(&q.map_predicate(|_| z)).eq(&SQ(x.0, z.atom(), x.2, None)));
		check("map_object", st(&q.map_object(|_| z)).eq(&SQ(x.0, x.1, z.atom(), None)));
		let mut seen = 0;
		let m = q.map(|c| {
			seen += 1;
			(c, 0)
		});
		check_b("map visits each component once", seen == 3 && is(&m.0 .0, x.0) && is(&m.1 .0, x.1) && is(&m.2 .0, x.2));
		let mut n = q;
		*n.subject_mut() = z;
		check("subject_mut", st(&n).eq(&SQ(z.atom(), x.1, x.2, None)));
		let mut n = q;
		*n.predicate_mut() = z;
		check("predicate_mut", st(&n).eq(&SQ(x.0, z.atom(), x.2, None)));
		let mut n = q;
		*n.object_mut() = z;
		check("object_mut", st(&n).eq(&SQ(x.0, x.1, z.atom(), None)));
		let e = |a: Atom| format!("<{}>", encode_atom(a));
		let d = format!("{} {} {}", e(x.0), e(x.1), e(x.2));
		use rdf_types::RdfDisplay;
		check_b("triple display", q.to_string() == d && q.rdf_display().to_string() == d);
		let v = serde_json::to_value(q).unwrap();
		let back: Result<Triple<R>, _> = serde_json::from_value(v);
		match back {
			Ok(k) => same(&k),
			Err(_) => check_b("triple serde round trip", false),
		}
	}
}

/// `ResourceOrVar` as a value.
pub fn resource_or_var<R: Val>() {
	let x: R = sym(LO, HI);
	let v: ResourceOrVar<R, u8> = if flip() { ResourceOrVar::Resource(x) } else { ResourceOrVar::Var(7) };
	let is_res = matches!(v, ResourceOrVar::Resource(_));
	let txt = serde_json::to_string(&v).unwrap();
	match serde_json::from_str::<ResourceOrVar<R, u8>>(&txt) {
		Ok(ResourceOrVar::Resource(r)) => check_b("serde round trip", is_res && r.atom() == x.atom()),
		Ok(ResourceOrVar::Var(n)) => check_b("serde round trip", !is_res && n == 7),
		Err(_) => check_b("serde round trip", false),
	}
	match v.as_ref() {
		ResourceOrVar::Resource(r) => check_b("as_ref", is_res && r.atom() == x.atom()),
		ResourceOrVar::Var(n) => check_b("as_ref", !is_res && *n == 7),
	}
	match v.map(|r| (r, 1)) {
		ResourceOrVar::Resource((r, 1)) => check_b("map", is_res && r.atom() == x.atom()),
		ResourceOrVar::Var(n) => check_b("map", !is_res && n == 7),
		_ => check_b("map", false),
	}
	check_b("is_id_or true", v.is_id_or(|n| *n == 7));
	check_b("is_id_or false", v.is_id_or(|n| *n != 7) == is_res);
	let f: ResourceOrVar<R, u8> = x.into();
	check_b("From<T> is a resource", matches!(f, ResourceOrVar::Resource(r) if r.atom() == x.atom()));
}

// --- patterns ----------------------------------------------------------------

/// A component of a pattern with variables: a resource or a variable, both
/// symbolic (which variables coincide is decided by the solver).
fn comp<R: Val>() -> ResourceOrVar<R, R> {
	if flip() {
		ResourceOrVar::Resource(sym(LO, HI))
	} else {
		ResourceOrVar::Var(sym(LO, HI))
	}
}

/// The pattern accepts `q` under some assignment of its variables.
fn accepts<R: Val>(p: &[ResourceOrVar<R, R>; 3], g: &Option<Option<ResourceOrVar<R, R>>>, q: &SQ) -> Expr {
	let mut v = Vec::new();
	let mut vars: Vec<(Atom, Option<Atom>)> = Vec::new();
	for (c, a) in p.iter().zip([q.0, q.1, q.2]) {
		match c {
			ResourceOrVar::Resource(r) => v.push(aeq(r.atom(), a)),
			ResourceOrVar::Var(x) => vars.push((x.atom(), Some(a))),
		}
	}
	match g {
		None => {}
		Some(None) => v.push(b(q.3.is_none())),
		Some(Some(ResourceOrVar::Resource(r))) => v.push(geq(Some(r.atom()), q.3)),
		Some(Some(ResourceOrVar::Var(x))) => vars.push((x.atom(), q.3)),
	}
	for i in 0..vars.len() {
		for j in 0..i {
			v.push(implies(aeq(vars[i].0, vars[j].0), match (vars[i].1, vars[j].1) {
				(Some(a), Some(c)) => aeq(a, c),
				_ => f(),
			}));
		}
	}
	and(v)
}

pub fn convert_triple<R: Val>() {
	let q = any_quad::<R>(false);
	match choice(4) {
		0 => {
			let x = any_quad::<R>(false);
			let c = if flip() { CanonicalTriplePattern::from_triple(x.triple::<R>()) } else { x.triple::<R>().into() };
			check("pattern of a triple accepts that triple only", iff(pat_accepts(&of_triple_pattern(c), &q), x.eq(&q)));
		}
		1 => {
			let o = || if flip() { Some(sym::<R>(LO, HI)) } else { None };
			let x = Triple(o(), o(), o());
			let c = if flip() { CanonicalTriplePattern::from_option_triple(x) } else { x.into() };
			let e = |o: Option<R>, a: Atom| o.map(|r| aeq(r.atom(), a)).unwrap_or(t());
			check(
				"pattern of an optional triple constrains the given components",
				iff(pat_accepts(&of_triple_pattern(c), &q), and(vec![e(x.0, q.0), e(x.1, q.1), e(x.2, q.2)])),
			);
		}
		_ => {
			let p: TriplePattern<R, R> = Triple(comp(), comp(), comp());
			let e = accepts(&[p.0, p.1, p.2], &None, &q);
			let c = if flip() { CanonicalTriplePattern::from_pattern(p) } else { p.into() };
			check("canonical triple pattern is equivalent to the pattern", iff(pat_accepts(&of_triple_pattern(c), &q), e));
		}
	}
}

pub fn convert_quad<R: Val>() {
	let q = any_quad::<R>(true);
	match choice(6) {
		0 => {
			let x = any_quad::<R>(true);
			let c = if flip() { CanonicalQuadPattern::from_quad(x.quad::<R>()) } else { x.quad::<R>().into() };
			check("pattern of a quad accepts that quad only", iff(pat_accepts(&of_quad_pattern(c), &q), x.eq(&q)));
		}
		1 => {
			let x = any_quad::<R>(false);
			let c = if flip() { CanonicalQuadPattern::from_triple(x.triple::<R>()) } else { x.triple::<R>().into() };
			check(
				"pattern of a triple accepts it in any graph",
				iff(pat_accepts(&of_quad_pattern(c), &q), and(vec![aeq(x.0, q.0), aeq(x.1, q.1), aeq(x.2, q.2)])),
			);
		}
		2 => {
			let o = || if flip() { Some(sym::<R>(LO, HI)) } else { None };
			let x = Triple(o(), o(), o());
			let c = if flip() { CanonicalQuadPattern::from_option_triple(x) } else { x.into() };
			let e = |o: Option<R>, a: Atom| o.map(|r| aeq(r.atom(), a)).unwrap_or(t());
			check(
				"pattern of an optional triple, any graph",
				iff(pat_accepts(&of_quad_pattern(c), &q), and(vec![e(x.0, q.0), e(x.1, q.1), e(x.2, q.2)])),
			);
		}
		3 => {
			let o = || if flip() { Some(sym::<R>(LO, HI)) } else { None };
			let g = match choice(3) {
				0 => None,
				1 => Some(None),
				_ => Some(Some(sym::<R>(LO, HI))),
			};
			let x = Quad(o(), o(), o(), g);
			let c = if flip() { CanonicalQuadPattern::from_option_quad(x) } else { x.into() };
			let e = |o: Option<R>, a: Atom| o.map(|r| aeq(r.atom(), a)).unwrap_or(t());
			let ge = g.map(|g| geq(g.map(|r| r.atom()), q.3)).unwrap_or(t());
			check(
				"pattern of an optional quad constrains the given components",
				iff(pat_accepts(&of_quad_pattern(c), &q), and(vec![e(x.0, q.0), e(x.1, q.1), e(x.2, q.2), ge])),
			);
		}
		4 => {
			let p: TriplePattern<R, R> = Triple(comp(), comp(), comp());
			// A triple pattern addresses the default graph.
			let e = accepts(&[p.0, p.1, p.2], &Some(None), &q);
			let c = if flip() { CanonicalQuadPattern::from_triple_pattern(p) } else { p.into() };
			check("quad pattern of a triple pattern", iff(pat_accepts(&of_quad_pattern(c), &q), e));
		}
		_ => {
			let g = if flip() { Some(comp()) } else { None };
			let p: QuadPattern<R, R> = Quad(comp(), comp(), comp(), g);
			let mut e = accepts(&[p.0, p.1, p.2], &Some(g), &q);
			// A graph variable of its own also ranges over the default graph.
			if let (None, Some(ResourceOrVar::Var(_))) = (q.3, g) {
				e = e;
			}
			let c = if flip() { CanonicalQuadPattern::from_pattern(p) } else { p.into() };
			check("canonical quad pattern is equivalent to the pattern", iff(pat_accepts(&of_quad_pattern(c), &q), e));
		}
	}
}

fn slot_is<R: Val>(s: &Slot<R>, t: &Slot<R>) -> bool {
	match (s, t) {
		(Slot::Any, Slot::Any) => true,
		(Slot::Same(i), Slot::Same(j)) => i == j,
		(Slot::Given(a), Slot::Given(c)) => a.atom() == c.atom(),
		_ => false,
	}
}
fn gslot_is<R: Val>(s: &Slot<Option<R>>, t: &Slot<Option<R>>) -> bool {
	match (s, t) {
		(Slot::Any, Slot::Any) => true,
		(Slot::Same(i), Slot::Same(j)) => i == j,
		(Slot::Given(a), Slot::Given(c)) => a.map(|a| a.atom()) == c.map(|c| c.atom()),
		_ => false,
	}
}
fn pat_is<R: Val>(p: &Pat<R>, q: &Pat<R>) -> bool {
	slot_is(&p.s, &q.s) && slot_is(&p.p, &q.p) && slot_is(&p.o, &q.o) && gslot_is(&p.g, &q.g)
}

mod parts {
	use super::*;
	macro_rules! slots {
		($m:ident, $path:path) => {
			pub mod $m {
				use super::*;
				use $path::*;
				pub fn s<T>(p: PatternSubject<T>) -> Slot<T> {
					match p {
						PatternSubject::Any => Slot::Any,
						PatternSubject::Given(t) => Slot::Given(t),
					}
				}
				pub fn p<T>(p: PatternPredicate<T>) -> Slot<T> {
					match p {
						PatternPredicate::Any => Slot::Any,
						PatternPredicate::SameAsSubject => Slot::Same(0),
						PatternPredicate::Given(t) => Slot::Given(t),
					}
				}
				pub fn o<T>(p: PatternObject<T>) -> Slot<T> {
					match p {
						PatternObject::Any => Slot::Any,
						PatternObject::SameAsSubject => Slot::Same(0),
						PatternObject::SameAsPredicate => Slot::Same(1),
						PatternObject::Given(t) => Slot::Given(t),
					}
				}
			}
		};
	}
	slots!(triple, rdf_types::pattern::triple::canonical);
	slots!(quad, rdf_types::pattern::quad::canonical);
	pub fn g<T>(p: rdf_types::pattern::quad::canonical::PatternGraph<T>) -> Slot<Option<T>> {
		use rdf_types::pattern::quad::canonical::PatternGraph::*;
		match p {
			Any => Slot::Any,
			SameAsSubject => Slot::Same(0),
			SameAsPredicate => Slot::Same(1),
			SameAsObject => Slot::Same(2),
			Given(g) => Slot::Given(g),
		}
	}
	pub fn gr<T: Copy>(p: rdf_types::pattern::quad::canonical::PatternGraph<&T>) -> Slot<Option<T>> {
		match g(p) {
			Slot::Any => Slot::Any,
			Slot::Same(i) => Slot::Same(i),
			Slot::Given(g) => Slot::Given(g.copied()),
		}
	}
	pub fn c<T: Copy>(s: Slot<&T>) -> Slot<T> {
		match s {
			Slot::Any => Slot::Any,
			Slot::Same(i) => Slot::Same(i),
			Slot::Given(x) => Slot::Given(*x),
		}
	}
}

/// Accessors, projections and maps of canonical patterns preserve meaning.
pub fn quad_pattern_access<R: Val>() {
	let p: Pat<R> = any_pat(true, || sym(LO, HI));
	let c = quad_pattern(p);
	let full = |s, o, q, g| Pat { s, p: o, o: q, g };
	check_b(
		"accessors",
		pat_is(&p, &full(
			parts::c(parts::quad::s(c.subject())),
			parts::c(parts::quad::p(c.predicate())),
			parts::c(parts::quad::o(c.object())),
			parts::gr(c.graph()),
		)),
	);
	check_b(
		"into_* accessors",
		pat_is(&p, &full(
			parts::quad::s(c.into_subject()),
			parts::quad::p(c.into_predicate()),
			parts::quad::o(c.into_object()),
			parts::g(c.into_graph()),
		)),
	);
	let (s, o, q, g) = c.into_parts();
	check_b("into_parts", pat_is(&p, &full(parts::quad::s(s), parts::quad::p(o), parts::quad::o(q), parts::g(g))));
	let (tp, g) = c.into_triple();
	let u = of_triple_pattern(tp);
	check_b("into_triple", pat_is(&p, &full(u.s, u.p, u.o, parts::g(g))));
	check_b("as_ref", pat_is(&p, &of_quad_pattern(c.as_ref()).map(|r| *r)));
	check_b("map", pat_is(&p, &of_quad_pattern(c.map(|r| (r, 0))).map(|r| r.0)));
	let (x, y) = c.map2(|r| ((r, 0), (r, 'y')));
	check_b("map2", pat_is(&p, &of_quad_pattern(x).map(|r| r.0)) && pat_is(&p, &of_quad_pattern(y).map(|r| r.0)));
	// `cloned` and `id` of the parts
	let ids = |s: &Slot<R>| match s {
		Slot::Given(r) => Some(r.atom()),
		_ => None,
	};
	check_b(
		"ids of the parts",
		c.subject().id().map(|r| r.atom()) == ids(&p.s)
			&& c.predicate().id().map(|r| r.atom()) == ids(&p.p)
			&& c.object().id().map(|r| r.atom()) == ids(&p.o)
			&& c.into_subject().into_id().map(|r| r.atom()) == ids(&p.s)
			&& c.into_predicate().into_id().map(|r| r.atom()) == ids(&p.p)
			&& c.into_object().into_id().map(|r| r.atom()) == ids(&p.o)
			&& slot_is(&parts::quad::s(c.subject().cloned()), &p.s)
			&& slot_is(&parts::quad::p(c.predicate().cloned()), &p.p)
			&& slot_is(&parts::quad::o(c.object().cloned()), &p.o),
	);
	let q = any_quad::<R>(false);
	let r = c.into_object().filter_triple(q.triple());
	let e = pat_accepts(&Pat { s: Slot::Any, p: Slot::Any, o: p.o, g: Slot::Any }, &q);
	check("filter_triple", iff(b(r), e));
}

pub fn triple_pattern_access<R: Val>() {
	let p: Pat<R> = any_pat(false, || sym(LO, HI));
	let c = triple_pattern(p);
	let full = |s, o, q| Pat { s, p: o, o: q, g: Slot::Any };
	check_b(
		"accessors",
		pat_is(&p, &full(
			parts::c(parts::triple::s(c.subject())),
			parts::c(parts::triple::p(c.predicate())),
			parts::c(parts::triple::o(c.object())),
		)),
	);
	check_b(
		"into_* accessors",
		pat_is(&p, &full(
			parts::triple::s(c.into_subject()),
			parts::triple::p(c.into_predicate()),
			parts::triple::o(c.into_object()),
		)),
	);
	check_b("with_any_graph", pat_is(&p, &of_quad_pattern(c.with_any_graph())));
	let ids = |s: &Slot<R>| match s {
		Slot::Given(r) => Some(r.atom()),
		_ => None,
	};
	check_b(
		"ids of the parts",
		c.subject().id().map(|r| r.atom()) == ids(&p.s)
			&& c.predicate().id().map(|r| r.atom()) == ids(&p.p)
			&& c.object().id().map(|r| r.atom()) == ids(&p.o)
			&& c.into_subject().into_id().map(|r| r.atom()) == ids(&p.s)
			&& c.into_predicate().into_id().map(|r| r.atom()) == ids(&p.p)
			&& c.into_object().into_id().map(|r| r.atom()) == ids(&p.o)
			&& slot_is(&parts::triple::s(c.subject().cloned()), &p.s)
			&& slot_is(&parts::triple::p(c.predicate().cloned()), &p.p)
			&& slot_is(&parts::triple::o(c.object().cloned()), &p.o),
	);
	let q = any_quad::<R>(false);
	let r = c.into_object().filter_triple(q.triple());
	let e = pat_accepts(&Pat { s: Slot::Any, p: Slot::Any, o: p.o, g: Slot::Any }, &q);
	check("filter_triple", iff(b(r), e));
}

/// Setting a component adds exactly the constraint `component = value` (or
/// replaces the given value) and reports the previous component.
pub fn setters<R: Val>() {
	let p: Pat<R> = any_pat(false, || sym(LO, HI));
	let v: R = sym(LO, HI);
	let i = choice(3);
	let mut c = triple_pattern(p);
	let with = flip();
	let old = if with {
		c = match i {
			0 => c.with_subject(v),
			1 => c.with_predicate(v),
			_ => c.with_object(v),
		};
		None
	} else {
		Some(match i {
			0 => parts::triple::s(c.set_subject(v)),
			1 => parts::triple::p(c.set_predicate(v)),
			_ => parts::triple::o(c.set_object(v)),
		})
	};
	let cur = [&p.s, &p.p, &p.o][i];
	if let Some(old) = old {
		check_b("the setter returns the previous component", slot_is(&old, cur));
	}
	let mut base = p;
	if matches!(cur, Slot::Given(_)) {
		match i {
			0 => base.s = Slot::Any,
			1 => base.p = Slot::Any,
			_ => base.o = Slot::Any,
		}
	}
	let q = any_quad::<R>(false);
	let n = of_triple_pattern(c);
	check(
		"the new pattern accepts what the old one did, with that component equal to the value",
		iff(pat_accepts(&n, &q), and(vec![pat_accepts(&base, &q), aeq(q.comp(i).unwrap(), v.atom())])),
	);
}

/// Equality and order of canonical patterns are those of a total order, and
/// hashing agrees with equality.
pub fn pattern_relations<R: Val>() {
	let (x, y): (Pat<R>, Pat<R>) = (any_pat(false, || sym(LO, HI)), any_pat(false, || sym(LO, HI)));
	let (c, d) = (triple_pattern(x), triple_pattern(y));
	let eq = |a: &Slot<R>, b_: &Slot<R>| match (a, b_) {
		(Slot::Any, Slot::Any) => t(),
		(Slot::Same(i), Slot::Same(j)) => b(i == j),
		(Slot::Given(r), Slot::Given(s)) => aeq(r.atom(), s.atom()),
		_ => f(),
	};
	let same = and(vec![eq(&x.s, &y.s), eq(&x.p, &y.p), eq(&x.o, &y.o)]);
	match choice(3) {
		0 => check("patterns are equal iff all components are", iff(b(c == d), same)),
		1 => check("cmp is Equal iff equal", iff(b(c.cmp(&d) == Ordering::Equal), same)),
		_ => check("equal patterns hash alike", implies(same, streams_eq(&hash_stream(&c), &hash_stream(&d)))),
	}
}

/// `TriplePatternMap`: the values returned for a triple are exactly those
/// inserted with a pattern accepting it.
pub fn pattern_map<R: Val>(n: usize, nv: usize) {
	let mut m: TriplePatternMap<u8, R> = TriplePatternMap::default();
	let mut l: Vec<(Pat<R>, u8)> = Vec::new();
	for i in 0..n {
		let p: Pat<R> = any_pat(false, || sym(LO, HI));
		// a repeated value only makes sense from the second insertion on
		let v = if i > 0 { choice(nv) as u8 } else { 0 };
		let known = or(l
			.iter()
			.filter(|(_, w)| *w == v)
			.map(|(q, _)| {
				let eq = |a: &Slot<R>, c: &Slot<R>| match (a, c) {
					(Slot::Any, Slot::Any) => t(),
					(Slot::Same(i), Slot::Same(j)) => b(i == j),
					(Slot::Given(r), Slot::Given(s)) => aeq(r.atom(), s.atom()),
					_ => f(),
				};
				and(vec![eq(&p.s, &q.s), eq(&p.p, &q.p), eq(&p.o, &q.o)])
			})
			.collect());
		let r = m.insert(triple_pattern(p), v);
		check("insert reports whether the association is new", iff(b(r), not(known)));
		l.push((p, v));
	}
	let q = any_quad::<R>(false);
	let tr: Triple<R> = q.triple();
	let mut got: Vec<u8> = m.get(tr.as_ref()).copied().collect();
	got.sort();
	got.dedup();
	for v in 0..nv as u8 {
		let e = or(l.iter().filter(|(_, w)| *w == v).map(|(p, _)| pat_accepts(p, &q)).collect());
		check("get returns exactly the values of the accepting patterns", iff(b(got.contains(&v)), e));
	}
}

/// Merging two sub-maps keeps the associations of both.
pub fn pattern_map_union<R: Val>(n: usize, m: usize) {
	use rdf_types::pattern::triple::map::*;
	let side = choice(2);
	let k = if side == 0 { choice(3) } else { choice(3) };
	let mut l: Vec<(Pat<R>, u8)> = Vec::new();
	let mut v = 0u8;
	let mut pat = |subject: bool, shape: usize| -> Pat<R> {
		// patterns of the sub-map's family
		let s = if subject { Slot::Given(con(1)) } else { Slot::Any };
		let given = || sym::<R>(LO, HI);
		let p = match shape {
			0 => {
				if subject {
					match choice(2) {
						0 => Slot::Any,
						_ => Slot::Given(given()),
					}
				} else {
					match choice(3) {
						0 => Slot::Any,
						1 => Slot::Same(0),
						_ => Slot::Given(given()),
					}
				}
			}
			1 => Slot::Any,
			_ => Slot::Given(con(2)),
		};
		let mut free = Vec::new();
		if !subject {
			free.push(0);
		}
		if matches!(p, Slot::Any) {
			free.push(1);
		}
		let o = match choice(2 + free.len()) {
			0 => Slot::Any,
			1 => Slot::Given(given()),
			j => Slot::Same(free[j - 2]),
		};
		Pat { s, p, o, g: Slot::Any }
	};
	macro_rules! run {
		($ty:ident, $proj:expr) => {{
			let mut a: $ty<u8, R> = $ty::default();
			let mut c: $ty<u8, R> = $ty::default();
			for i in 0..n + m {
				let p = pat(side == 1, k);
				let target = if i < n { &mut a } else { &mut c };
				target.insert($proj(triple_pattern(p)), v);
				l.push((p, v));
				v += 1;
			}
			a.union_with(c);
			let (x, y, z) = (
				if side == 1 { con::<R>(1) } else { sym::<R>(LO, HI) },
				if k == 2 { con::<R>(2) } else { sym::<R>(LO, HI) },
				sym::<R>(LO, HI),
			);
			let q = SQ(x.atom(), y.atom(), z.atom(), None);
			let got: Vec<u8> = a.get(Triple(&x, &y, &z)).copied().collect();
			for (p, v) in &l {
				check("a union answers like both maps", iff(b(got.contains(v)), pat_accepts(p, &q)));
			}
		}};
	}
	use rdf_types::pattern::triple::canonical::*;
	use CanonicalTriplePattern as C;
	match (side, k) {
		(0, 0) => run!(AnySubjectMap, |c| match c {
			C::AnySubject(x) => x,
			_ => unreachable!(),
		}),
		(0, 1) => run!(AnySubjectAnyPredicateMap, |c| match c {
			C::AnySubject(AnySubject::AnyPredicate(x)) => x,
			_ => unreachable!(),
		}),
		(0, _) => run!(AnySubjectGivenPredicateMap, |c| match c {
			C::AnySubject(AnySubject::GivenPredicate(_, x)) => x,
			_ => unreachable!(),
		}),
		(_, 0) => run!(GivenSubjectMap, |c| match c {
			C::GivenSubject(_, x) => x,
			_ => unreachable!(),
		}),
		(_, 1) => run!(GivenSubjectAnyPredicateMap, |c| match c {
			C::GivenSubject(_, GivenSubject::AnyPredicate(x)) => x,
			_ => unreachable!(),
		}),
		(_, _) => run!(GivenSubjectGivenPredicateMap, |c| match c {
			C::GivenSubject(_, GivenSubject::GivenPredicate(_, x)) => x,
			_ => unreachable!(),
		}),
	}
	let _ = refs::<R>;
}
