//! Dataset isomorphism.
use crate::engine::*;
use crate::spec::*;
use iref::Iri;
use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::*;
use rdf_types::interpretation::{Interpretation, ReverseInterpretation};
use rdf_types::{CowLiteral, CowLiteralType, LiteralRef, Quad};
use std::borrow::Cow;
use std::marker::PhantomData;

/// Resources `0..NAMED` have a name (see `NAMES`); the others are anonymous.
pub struct Named<R>(PhantomData<R>);
pub const NAMED: i64 = 6;
/// The two names (an IRI and a literal) used by most harnesses start here.
const FEW: i64 = 4;

impl<R: Val> Interpretation for Named<R> {
	type Resource = R;
	fn iri(&self, _: &Iri) -> Option<R> {
		unreachable!()
	}
	fn literal<'a>(&self, _: impl Into<LiteralRef<'a>>) -> Option<R> {
		unreachable!()
	}
}

impl<R: Val> Named<R> {
	fn name(&self, r: &R) -> Option<i64> {
		(0..NAMED).find(|k| *r == con::<R>(*k))
	}
}

impl<R: Val> ReverseInterpretation for Named<R> {
	type Iris<'a> = std::option::IntoIter<Cow<'a, Iri>>;
	type Literals<'a> = std::option::IntoIter<CowLiteral<'a>>;
	fn iris_of<'a>(&'a self, r: &'a R) -> Self::Iris<'a> {
		match self.name(r) {
			Some(3) => Some(Cow::Owned(Iri::new("x:0").unwrap().to_owned())),
			Some(4) => Some(Cow::Owned(Iri::new("x:2").unwrap().to_owned())),
			_ => None,
		}
		.into_iter()
	}
	fn literals_of<'a>(&'a self, r: &'a R) -> Self::Literals<'a> {
		let any = |v: &str, t: &'static str| {
			CowLiteral::new(Cow::Owned(v.to_owned()), CowLiteralType::Any(Cow::Borrowed(Iri::new(t).unwrap())))
		};
		match self.name(r) {
			Some(0) => Some(any("1", "x:t")),
			Some(1) => Some(any("1", "x:0")),
			Some(2) => Some(any("x:0", "x:t")),
			Some(5) => Some(CowLiteral::new(
				Cow::Owned("1".to_owned()),
				CowLiteralType::LangString(Cow::Owned(langtag())),
			)),
			_ => None,
		}
		.into_iter()
	}
}

fn langtag() -> langtag::LangTagBuf {
	langtag::LangTagBuf::new("en".to_owned()).unwrap()
}

type Ds<R> = BTreeDataset<R>;

fn is_blank(a: Atom) -> Expr {
	not(alt(a, Atom::Const(NAMED)))
}

/// Symbolic component over `m` blank nodes (and the named resources).
fn comp<R: Val>(m: i64) -> Atom {
	sym::<R>(FEW, NAMED + m).atom()
}

fn quad<R: Val>(m: i64, shape: Shape) -> SQ {
	match shape {
		// subject and object free, predicate fixed
		Shape::Edge => SQ(comp::<R>(m), Atom::Const(FEW), comp::<R>(m), None),
		Shape::Triple => SQ(comp::<R>(m), comp::<R>(m), comp::<R>(m), None),
		Shape::Quad => SQ(
			comp::<R>(m),
			Atom::Const(FEW),
			comp::<R>(m),
			if flip() { Some(comp::<R>(m)) } else { None },
		),
		// one quad over all the names
		Shape::Names => {
			let v = || sym::<R>(0, NAMED + m).atom();
			SQ(Atom::Const(NAMED), v(), v(), Some(v()))
		}
		// edges between blank nodes only
		Shape::Blank => {
			let v = || sym::<R>(NAMED, NAMED + m).atom();
			SQ(v(), Atom::Const(FEW), v(), None)
		}
	}
}

#[derive(Clone, Copy)]
pub enum Shape {
	Edge,
	Triple,
	Quad,
	Blank,
	Names,
}

fn build<R: Val>(l: &[SQ]) -> Ds<R> {
	l.iter().map(|q| q.quad::<R>()).collect()
}

fn image(q: &SQ, f: &dyn Fn(Atom) -> Atom) -> SQ {
	SQ(f(q.0), f(q.1), f(q.2), q.3.map(f))
}

/// Which blank node (index below `m`) an atom denotes, if any (forks).
fn resolve<R: Val>(a: Atom, m: i64) -> Option<i64> {
	if let Atom::Const(c) = a {
		return if c >= NAMED { Some(c - NAMED) } else { None };
	}
	(0..m).find(|i| R::from_atom(a) == con::<R>(NAMED + i))
}

/// A found bijection really maps one dataset onto the other.
fn sound<R: Val>(a: &[SQ], c: &[SQ], sigma: &[(Atom, Atom)]) {
	let blanks = |l: &[SQ]| -> Vec<Atom> { l.iter().flat_map(|q| q.atoms()).collect() };
	let (ba, bc) = (blanks(a), blanks(c));
	let mut v = Vec::new();
	for (x, y) in sigma {
		v.push(is_blank(*x));
		v.push(is_blank(*y));
		v.push(or(ba.iter().map(|b_| aeq(*b_, *x)).collect()));
		v.push(or(bc.iter().map(|b_| aeq(*b_, *y)).collect()));
	}
	for i in 0..sigma.len() {
		for j in 0..i {
			v.push(not(aeq(sigma[i].0, sigma[j].0)));
			v.push(not(aeq(sigma[i].1, sigma[j].1)));
		}
	}
	check("the mapping is injective, from blank nodes to blank nodes", and(v));
	let mapped = |l: &[Atom], k: fn(&(Atom, Atom)) -> Atom| {
		and(l
			.iter()
			.map(|x| implies(is_blank(*x), or(sigma.iter().map(|s| aeq(k(s), *x)).collect())))
			.collect())
	};
	check("every blank node is mapped", and(vec![mapped(&ba, |s| s.0), mapped(&bc, |s| s.1)]));
	// x maps to y
	let maps = |x: Atom, y: Atom| {
		or(vec![
			and(vec![not(is_blank(x)), aeq(x, y)]),
			or(sigma.iter().map(|s| and(vec![aeq(s.0, x), aeq(s.1, y)])).collect()),
		])
	};
	let qmaps = |x: &SQ, y: &SQ| {
		and(vec![
			maps(x.0, y.0),
			maps(x.1, y.1),
			maps(x.2, y.2),
			match (x.3, y.3) {
				(None, None) => t(),
				(Some(g), Some(h)) => maps(g, h),
				_ => f(),
			},
		])
	};
	check(
		"the image of the first dataset is the second one",
		and(vec![
			and(a.iter().map(|x| or(c.iter().map(|y| qmaps(x, y)).collect())).collect()),
			and(c.iter().map(|y| or(a.iter().map(|x| qmaps(x, y)).collect())).collect()),
		]),
	);
}

fn perms(n: usize) -> Vec<Vec<usize>> {
	if n == 0 {
		return vec![vec![]];
	}
	let mut r = Vec::new();
	for p in perms(n - 1) {
		for i in 0..n {
			let mut q = p.clone();
			q.insert(i, n - 1);
			r.push(q);
		}
	}
	r
}

/// No blank node permutation maps `a` onto `c` (over `m` blank nodes).
fn distinct<R: Val>(a: &[SQ], c: &[SQ], m: i64) -> Expr {
	// x denotes blank i, permuted to p[i], i.e. y.
	and(perms(m as usize)
		.into_iter()
		.map(|p| {
			let maps = |x: Atom, y: Atom| {
				or(vec![
					and(vec![not(is_blank(x)), aeq(x, y)]),
					or((0..m as usize)
						.map(|i| {
							and(vec![
								aeq(x, Atom::Const(NAMED + i as i64)),
								aeq(y, Atom::Const(NAMED + p[i] as i64)),
							])
						})
						.collect()),
				])
			};
			let qmaps = |x: &SQ, y: &SQ| {
				and(vec![
					maps(x.0, y.0),
					maps(x.1, y.1),
					maps(x.2, y.2),
					match (x.3, y.3) {
						(None, None) => t(),
						(Some(g), Some(h)) => maps(g, h),
						_ => f(),
					},
				])
			};
			not(and(vec![
				and(a.iter().map(|x| or(c.iter().map(|y| qmaps(x, y)).collect())).collect()),
				and(c.iter().map(|y| or(a.iter().map(|x| qmaps(x, y)).collect())).collect()),
			]))
		})
		.collect())
}

fn run<R: Val>(a: &Ds<R>, c: &Ds<R>) -> Option<Vec<(Atom, Atom)>> {
	let i = Named::<R>(PhantomData);
	find_bijection_with(&i, a, c).map(|s| s.forward.iter().map(|(x, y)| (x.atom(), y.atom())).collect())
}

/// Arbitrary datasets of `n` and `n2` quads over `m` blank nodes: a bijection
/// is found exactly when one exists.
pub fn decide<R: Val>(n: usize, n2: usize, m: i64, shape: Shape) {
	let a: Vec<SQ> = (0..n).map(|_| quad::<R>(m, shape)).collect();
	let c: Vec<SQ> = (0..n2).map(|_| quad::<R>(m, shape)).collect();
	let (da, dc) = (build::<R>(&a), build::<R>(&c));
	match run(&da, &dc) {
		Some(s) => {
			cover("isomorphic");
			sound::<R>(&a, &c, &s);
		}
		None => {
			cover("not isomorphic");
			check("no bijection is found only if there is none", distinct::<R>(&a, &c, m));
		}
	}
}

/// A dataset and its image under an arbitrary injective renaming of its blank
/// nodes are isomorphic, whatever the insertion order and container.
pub fn complete<R: Val>(n: usize, m: i64, shape: Shape) {
	let a: Vec<SQ> = (0..n).map(|_| quad::<R>(m, shape)).collect();
	// One of the permutations of the m blank nodes, chosen symbolically.
	let ps = perms(m as usize);
	let p = &ps[choice(ps.len())];
	let rename = |x: Atom| match resolve::<R>(x, m) {
		Some(i) => Atom::Const(NAMED + p[i as usize] as i64),
		None => x,
	};
	let mut c: Vec<SQ> = a.iter().map(|q| image(q, &rename)).collect();
	c.reverse();
	let (da, dc) = (build::<R>(&a), build::<R>(&c));
	match run(&da, &dc) {
		Some(s) => {
			cover("isomorphic");
			sound::<R>(&a, &c, &s);
		}
		None => check_b("a renamed copy is isomorphic", false),
	}
	check_b(
		"are_isomorphic_with agrees",
		are_isomorphic_with(&Named::<R>(PhantomData), &da, &dc),
	);
}

/// The answer does not depend on the order of the arguments, nor on the
/// container kinds.
pub fn symmetric<R: Val>(n: usize, m: i64, shape: Shape) {
	let a: Vec<SQ> = (0..n).map(|_| quad::<R>(m, shape)).collect();
	let c: Vec<SQ> = (0..n).map(|_| quad::<R>(m, shape)).collect();
	let i = Named::<R>(PhantomData);
	let (da, dc) = (build::<R>(&a), build::<R>(&c));
	let r = are_isomorphic_with(&i, &da, &dc);
	let r2 = are_isomorphic_with(&i, &dc, &da);
	check_b("symmetric", r == r2);
	let ic: IndexedBTreeDataset<R> = c.iter().map(|q| q.quad::<R>()).collect();
	check_b("independent of the container", are_isomorphic_with(&i, &da, &ic) == r);
	check_b("reflexive", are_isomorphic_with(&i, &da, &da) && are_isomorphic_with(&i, &ic, &ic));
	let _: Option<Quad<R>> = None;
}

/// A concrete dataset: non-negative components are blank nodes, `-1` and `-2`
/// names, `NO` the default graph.
type Net = Vec<[i64; 4]>;
const NO: i64 = -9;

/// Blank node structures where local signatures do not settle the matching.
pub fn net(k: usize) -> (usize, Net) {
	let e = |m: usize, l: &[(i64, i64)]| (m, l.iter().map(|&(x, y)| [x, -1, y, NO]).collect());
	match k {
		// two paths of length two
		0 => e(6, &[(0, 1), (1, 2), (3, 4), (4, 5)]),
		// one cycle of length six, two of length three
		1 => e(6, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)]),
		2 => e(6, &[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)]),
		// one of length four, two of length two
		3 => e(4, &[(0, 1), (1, 2), (2, 3), (3, 0)]),
		4 => e(4, &[(0, 1), (1, 0), (2, 3), (3, 2)]),
		// one of length five with a chord, and the reversed chord
		5 => e(5, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2)]),
		6 => e(5, &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (2, 0)]),
		// 10 + placement: two nodes tied in two roles through a common third
		k if k >= 10 => {
			let ij = [(0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (1, 3), (2, 0), (2, 1), (2, 3), (3, 0), (3, 1), (3, 2)][k - 10];
			let q = |x: i64, y: i64| {
				let mut c = [4, 4, 4, 4];
				c[ij.0] = x;
				c[ij.1] = y;
				c
			};
			(6, vec![q(0, 2), q(1, 3), q(0, 5), q(4, 2)])
		}
		_ => unreachable!(),
	}
}

fn realise(l: &Net, node: &dyn Fn(usize) -> Atom) -> Vec<SQ> {
	let a = |x: i64| if x >= 0 { node(x as usize) } else { Atom::Const(FEW - 1 - x) };
	l.iter().map(|c| SQ(a(c[0]), a(c[1]), a(c[2]), if c[3] == NO { None } else { Some(a(c[3])) })).collect()
}

/// Orders in which the nodes of the first dataset may be met.
fn order(m: usize, o: usize) -> Vec<usize> {
	match o {
		0 => (0..m).collect(),
		1 => (0..m).rev().collect(),
		2 => (0..m).map(|i| (i * 2) % m + (i * 2 / m) * (1 - m % 2)).collect(),
		_ => (0..m).map(|i| (i + m / 2) % m).collect(),
	}
}

fn distinct_nodes<R: Val>(m: usize) -> Vec<Atom> {
	let v: Vec<Atom> = (0..m).map(|_| sym::<R>(NAMED, NAMED + m as i64).atom()).collect();
	for i in 0..m {
		for j in 0..i {
			assume(not(aeq(v[i], v[j])));
		}
	}
	v
}

/// Whatever the names (hence the order) of its blank nodes, a copy of a
/// structure is recognised.
pub fn relabel<R: Val>(k: usize, o: usize) {
	let (m, l) = net(k);
	let ord = order(m, o);
	let a = realise(&l, &|i| Atom::Const(NAMED + ord[i] as i64));
	let v = distinct_nodes::<R>(m);
	let c = realise(&l, &|i| v[i]);
	match run(&build::<R>(&a), &build::<R>(&c)) {
		Some(s) => {
			cover("isomorphic");
			sound::<R>(&a, &c, &s)
		}
		None => check_b("a renamed copy is isomorphic", false),
	}
}

/// Whatever the names of the blank nodes, different structures are told
/// apart.
pub fn apart<R: Val>(k: usize, k2: usize, o: usize) {
	let ((m, l), (m2, l2)) = (net(k), net(k2));
	assert_eq!(m, m2);
	let ord = order(m, o);
	let a = realise(&l, &|i| Atom::Const(NAMED + ord[i] as i64));
	let v = distinct_nodes::<R>(m);
	let c = realise(&l2, &|i| v[i]);
	let (da, dc) = (build::<R>(&a), build::<R>(&c));
	cover("compared");
	let r = if flip() { run(&da, &dc) } else { run(&dc, &da) };
	check_b("different structures are not isomorphic", r.is_none());
}

/// A structure against the same with `d` components replaced by arbitrary
/// resources: a bijection is found exactly when there is one.
pub fn perturb<R: Val>(k: usize, d: usize, o: usize) {
	let (m, l) = net(k);
	let ord = order(m, o);
	let a = realise(&l, &|i| Atom::Const(NAMED + ord[i] as i64));
	let mut c = realise(&l, &|i| Atom::Const(NAMED + i as i64));
	for _ in 0..d {
		let i = choice(c.len());
		let x = sym::<R>(FEW, NAMED + m as i64).atom();
		match choice(if c[i].3.is_some() { 4 } else { 3 }) {
			0 => c[i].0 = x,
			1 => c[i].1 = x,
			2 => c[i].2 = x,
			_ => c[i].3 = Some(x),
		}
	}
	match run(&build::<R>(&a), &build::<R>(&c)) {
		Some(s) => {
			cover("isomorphic");
			sound::<R>(&a, &c, &s);
		}
		None => {
			cover("not isomorphic");
			check("no bijection is found only if there is none", distinct::<R>(&a, &c, m as i64));
		}
	}
}
