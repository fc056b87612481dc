//! Specification-level quads, histories and patterns, as formulas over atoms.
use crate::engine::*;
use rdf_types::{Quad, Triple};

#[derive(Clone, Copy, Debug)]
pub struct SQ(pub Atom, pub Atom, pub Atom, pub Option<Atom>);

pub fn sq<R: Val>(q: &Quad<R>) -> SQ {
	SQ(q.0.atom(), q.1.atom(), q.2.atom(), q.3.as_ref().map(|g| g.atom()))
}
pub fn sqr<R: Val>(q: Quad<&R>) -> SQ {
	SQ(q.0.atom(), q.1.atom(), q.2.atom(), q.3.map(|g| g.atom()))
}
pub fn st<R: Val>(t: &Triple<R>) -> SQ {
	SQ(t.0.atom(), t.1.atom(), t.2.atom(), None)
}
pub fn str_<R: Val>(t: Triple<&R>) -> SQ {
	SQ(t.0.atom(), t.1.atom(), t.2.atom(), None)
}

pub fn geq(a: Option<Atom>, c: Option<Atom>) -> Expr {
	match (a, c) {
		(None, None) => t(),
		(Some(a), Some(c)) => aeq(a, c),
		_ => f(),
	}
}
fn glt(a: Option<Atom>, c: Option<Atom>) -> Expr {
	match (a, c) {
		(None, Some(_)) => t(),
		(Some(a), Some(c)) => alt(a, c),
		_ => f(),
	}
}

impl SQ {
	pub fn eq(&self, o: &SQ) -> Expr {
		and(vec![
			aeq(self.0, o.0),
			aeq(self.1, o.1),
			aeq(self.2, o.2),
			geq(self.3, o.3),
		])
	}
	/// Lexicographic order, the default graph first.
	pub fn lt(&self, o: &SQ) -> Expr {
		lex(&[
			(alt(self.0, o.0), aeq(self.0, o.0)),
			(alt(self.1, o.1), aeq(self.1, o.1)),
			(alt(self.2, o.2), aeq(self.2, o.2)),
			(glt(self.3, o.3), f()),
		])
	}
	pub fn atoms(&self) -> Vec<Atom> {
		let mut r = vec![self.0, self.1, self.2];
		r.extend(self.3);
		r
	}
	pub fn quad<R: Val>(&self) -> Quad<R> {
		Quad(
			R::from_atom(self.0),
			R::from_atom(self.1),
			R::from_atom(self.2),
			self.3.map(R::from_atom),
		)
	}
	pub fn triple<R: Val>(&self) -> Triple<R> {
		Triple(R::from_atom(self.0), R::from_atom(self.1), R::from_atom(self.2))
	}
	pub fn comp(&self, i: usize) -> Option<Atom> {
		[Some(self.0), Some(self.1), Some(self.2), self.3][i]
	}
}

pub fn lex(v: &[(Expr, Expr)]) -> Expr {
	match v {
		[] => f(),
		[(l, e), rest @ ..] => or(vec![l.clone(), and(vec![e.clone(), lex(rest)])]),
	}
}

#[derive(Clone)]
pub enum HOp {
	Ins(SQ),
	Rem(SQ),
	/// Removal of every element satisfying a predicate.
	RemIf(std::rc::Rc<dyn Fn(&SQ) -> Expr>),
}

/// A sequence of insertions and removals.
#[derive(Clone, Default)]
pub struct Hist(pub Vec<HOp>);

impl Hist {
	pub fn ins(&mut self, q: SQ) {
		self.0.push(HOp::Ins(q))
	}
	pub fn rem(&mut self, q: SQ) {
		self.0.push(HOp::Rem(q))
	}
	pub fn rem_if(&mut self, f: impl Fn(&SQ) -> Expr + 'static) {
		self.0.push(HOp::RemIf(std::rc::Rc::new(f)))
	}
	/// The set-semantics membership of `x` after the history.
	pub fn member(&self, x: &SQ) -> Expr {
		let mut m = f();
		for op in &self.0 {
			m = match op {
				HOp::Ins(q) => or(vec![q.eq(x), m]),
				HOp::Rem(q) => and(vec![not(q.eq(x)), m]),
				HOp::RemIf(p) => and(vec![not(p(x)), m]),
			};
		}
		m
	}
	/// Every quad that was ever inserted, with its current membership.
	pub fn candidates(&self) -> Vec<(SQ, Expr)> {
		let mut seen: Vec<SQ> = Vec::new();
		let mut r = Vec::new();
		for op in &self.0 {
			if let HOp::Ins(q) = op {
				if !seen.iter().any(|s| s.eq(q) == t()) {
					seen.push(*q);
					let m = self.member(q);
					if m != f() {
						r.push((*q, m));
					}
				}
			}
		}
		r
	}
	/// `x` appears in component `i` of some member.
	pub fn in_role(&self, x: Atom, i: usize) -> Expr {
		or(self
			.candidates()
			.into_iter()
			.map(|(q, m)| match q.comp(i) {
				Some(a) => and(vec![aeq(a, x), m]),
				None => f(),
			})
			.collect())
	}
	pub fn used(&self, x: Atom) -> Expr {
		or((0..4).map(|i| self.in_role(x, i)).collect())
	}
	/// Both histories lead to the same set.
	pub fn same(&self, o: &Hist) -> Expr {
		let mut v = Vec::new();
		for (q, m) in self.candidates() {
			v.push(implies(m, o.member(&q)));
		}
		for (q, m) in o.candidates() {
			v.push(implies(m, self.member(&q)));
		}
		and(v)
	}
}

/// The sequence `a` is lexicographically smaller than `c`.
pub fn seq_lt(a: &[SQ], c: &[SQ]) -> Expr {
	match (a, c) {
		(_, []) => f(),
		([], _) => t(),
		([x, xs @ ..], [y, ys @ ..]) => or(vec![x.lt(y), and(vec![x.eq(y), seq_lt(xs, ys)])]),
	}
}
pub fn seq_eq(a: &[SQ], c: &[SQ]) -> Expr {
	if a.len() != c.len() {
		return f();
	}
	and(a.iter().zip(c).map(|(x, y)| x.eq(y)).collect())
}

/// `items` enumerates exactly the members satisfying `filter`, without
/// duplicates (and in increasing order if `sorted`).
pub fn enumerates(
	items: &[SQ],
	h: &Hist,
	sorted: bool,
	filter: &dyn Fn(&SQ) -> Expr,
) -> Expr {
	let mut v = Vec::new();
	if sorted {
		for w in items.windows(2) {
			v.push(w[0].lt(&w[1]));
		}
	} else {
		for i in 0..items.len() {
			for j in 0..i {
				v.push(not(items[i].eq(&items[j])));
			}
		}
	}
	for i in items {
		v.push(h.member(i));
		v.push(filter(i));
	}
	for (q, m) in h.candidates() {
		v.push(implies(
			and(vec![m, filter(&q)]),
			or(items.iter().map(|i| i.eq(&q)).collect()),
		));
	}
	and(v)
}

/// `items` enumerates exactly the resources playing one of `roles` in some
/// member, without duplicates (and in increasing order if `sorted`).
pub fn enumerates_roles(items: &[Atom], h: &Hist, sorted: bool, roles: &[usize]) -> Expr {
	let mut v = Vec::new();
	if sorted {
		for w in items.windows(2) {
			v.push(alt(w[0], w[1]));
		}
	} else {
		for i in 0..items.len() {
			for j in 0..i {
				v.push(not(aeq(items[i], items[j])));
			}
		}
	}
	let cands = h.candidates();
	for i in items {
		v.push(or(cands
			.iter()
			.flat_map(|(q, m)| {
				roles.iter().filter_map(move |&r| {
					q.comp(r).map(|a| and(vec![aeq(a, *i), m.clone()]))
				})
			})
			.collect()));
	}
	for (q, m) in &cands {
		for &r in roles {
			if let Some(a) = q.comp(r) {
				v.push(implies(
					m.clone(),
					or(items.iter().map(|i| aeq(*i, a)).collect()),
				));
			}
		}
	}
	and(v)
}

// --- patterns ---------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Slot<T> {
	Any,
	/// Equal to component `i` of the same quad.
	Same(usize),
	Given(T),
}

#[derive(Clone, Copy, Debug)]
pub struct Pat<T> {
	pub s: Slot<T>,
	pub p: Slot<T>,
	pub o: Slot<T>,
	pub g: Slot<Option<T>>,
}

impl<T> Pat<T> {
	pub fn map<U>(self, mut f: impl FnMut(T) -> U) -> Pat<U> {
		fn m<T, U>(s: Slot<T>, f: &mut impl FnMut(T) -> U) -> Slot<U> {
			match s {
				Slot::Any => Slot::Any,
				Slot::Same(i) => Slot::Same(i),
				Slot::Given(t) => Slot::Given(f(t)),
			}
		}
		Pat {
			s: m(self.s, &mut f),
			p: m(self.p, &mut f),
			o: m(self.o, &mut f),
			g: match self.g {
				Slot::Any => Slot::Any,
				Slot::Same(i) => Slot::Same(i),
				Slot::Given(g) => Slot::Given(g.map(f)),
			},
		}
	}
}

/// Whether the pattern accepts the quad, given the meaning of a `Given` slot.
pub fn pat_matches<T>(p: &Pat<T>, q: &SQ, given: &dyn Fn(&T, Atom) -> Expr) -> Expr {
	let slot = |s: &Slot<T>, a: Atom| match s {
		Slot::Any => t(),
		Slot::Same(i) => match q.comp(*i) {
			Some(x) => aeq(x, a),
			None => f(),
		},
		Slot::Given(x) => given(x, a),
	};
	and(vec![
		slot(&p.s, q.0),
		slot(&p.p, q.1),
		slot(&p.o, q.2),
		match &p.g {
			Slot::Any => t(),
			Slot::Same(i) => geq(q.3, q.comp(*i)),
			Slot::Given(None) => b(q.3.is_none()),
			Slot::Given(Some(x)) => match q.3 {
				Some(g) => given(x, g),
				None => f(),
			},
		},
	])
}

/// Forks over every canonical shape; `given` supplies the given resources.
pub fn any_pat<T>(with_graph: bool, mut given: impl FnMut() -> T) -> Pat<T> {
	let s = match choice(2) {
		0 => Slot::Any,
		_ => Slot::Given(()),
	};
	let p = match choice(if s == Slot::Any { 3 } else { 2 }) {
		0 => Slot::Any,
		1 => Slot::Given(()),
		_ => Slot::Same(0),
	};
	// Free components a later one may be tied to.
	let mut free = Vec::new();
	if s == Slot::Any {
		free.push(0)
	}
	if p == Slot::Any {
		free.push(1)
	}
	let o = match choice(2 + free.len()) {
		0 => Slot::Any,
		1 => Slot::Given(()),
		k => Slot::Same(free[k - 2]),
	};
	if o == Slot::Any {
		free.push(2)
	}
	let g = if with_graph {
		match choice(3 + free.len()) {
			0 => Slot::Any,
			1 => Slot::Given(None),
			2 => Slot::Given(Some(())),
			k => Slot::Same(free[k - 3]),
		}
	} else {
		Slot::Any
	};
	Pat { s, p, o, g }.map(|()| given())
}

/// Builds the canonical quad pattern constructor by constructor.
pub fn quad_pattern<T>(p: Pat<T>) -> rdf_types::pattern::CanonicalQuadPattern<T> {
	use rdf_types::pattern::quad::canonical::*;
	use rdf_types::pattern::CanonicalQuadPattern as C;
	use Slot::*;
	macro_rules! g {
		($ty:ident : $($k:literal => $v:ident),*) => {
			match p.g {
				Any => $ty::AnyGraph,
				Given(g) => $ty::GivenGraph(g),
				$(Same($k) => $ty::$v,)*
				Same(_) => unreachable!(),
			}
		};
	}
	match (p.s, p.p, p.o) {
		(Any, Any, Any) => C::AnySubject(AnySubject::AnyPredicate(AnySubjectAnyPredicate::AnyObject(
			g!(AnySubjectAnyPredicateAnyObject: 0 => SameAsSubject, 1 => SameAsPredicate, 2 => SameAsObject),
		))),
		(Any, Any, Same(0)) => C::AnySubject(AnySubject::AnyPredicate(
			AnySubjectAnyPredicate::SameAsSubject(
				g!(AnySubjectAnyPredicateGivenObject: 0 => SameAsSubject, 1 => SameAsPredicate),
			),
		)),
		(Any, Any, Same(_)) => C::AnySubject(AnySubject::AnyPredicate(
			AnySubjectAnyPredicate::SameAsPredicate(
				g!(AnySubjectAnyPredicateGivenObject: 0 => SameAsSubject, 1 => SameAsPredicate),
			),
		)),
		(Any, Any, Given(o)) => C::AnySubject(AnySubject::AnyPredicate(
			AnySubjectAnyPredicate::GivenObject(
				o,
				g!(AnySubjectAnyPredicateGivenObject: 0 => SameAsSubject, 1 => SameAsPredicate),
			),
		)),
		(Any, Same(_), Any) => C::AnySubject(AnySubject::SameAsSubject(
			AnySubjectGivenPredicate::AnyObject(
				g!(AnySubjectGivenPredicateAnyObject: 0 => SameAsSubject, 2 => SameAsObject),
			),
		)),
		(Any, Same(_), Same(_)) => C::AnySubject(AnySubject::SameAsSubject(
			AnySubjectGivenPredicate::SameAsSubject(
				g!(AnySubjectGivenPredicateGivenObject: 0 => SameAsSubject),
			),
		)),
		(Any, Same(_), Given(o)) => C::AnySubject(AnySubject::SameAsSubject(
			AnySubjectGivenPredicate::GivenObject(
				o,
				g!(AnySubjectGivenPredicateGivenObject: 0 => SameAsSubject),
			),
		)),
		(Any, Given(x), Any) => C::AnySubject(AnySubject::GivenPredicate(
			x,
			AnySubjectGivenPredicate::AnyObject(
				g!(AnySubjectGivenPredicateAnyObject: 0 => SameAsSubject, 2 => SameAsObject),
			),
		)),
		(Any, Given(x), Same(_)) => C::AnySubject(AnySubject::GivenPredicate(
			x,
			AnySubjectGivenPredicate::SameAsSubject(
				g!(AnySubjectGivenPredicateGivenObject: 0 => SameAsSubject),
			),
		)),
		(Any, Given(x), Given(o)) => C::AnySubject(AnySubject::GivenPredicate(
			x,
			AnySubjectGivenPredicate::GivenObject(
				o,
				g!(AnySubjectGivenPredicateGivenObject: 0 => SameAsSubject),
			),
		)),
		(Given(s), Any, Any) => C::GivenSubject(
			s,
			GivenSubject::AnyPredicate(GivenSubjectAnyPredicate::AnyObject(
				g!(GivenSubjectAnyPredicateAnyObject: 1 => SameAsPredicate, 2 => SameAsObject),
			)),
		),
		(Given(s), Any, Same(_)) => C::GivenSubject(
			s,
			GivenSubject::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate(
				g!(GivenSubjectAnyPredicateGivenObject: 1 => SameAsPredicate),
			)),
		),
		(Given(s), Any, Given(o)) => C::GivenSubject(
			s,
			GivenSubject::AnyPredicate(GivenSubjectAnyPredicate::GivenObject(
				o,
				g!(GivenSubjectAnyPredicateGivenObject: 1 => SameAsPredicate),
			)),
		),
		(Given(s), Given(x), Any) => C::GivenSubject(
			s,
			GivenSubject::GivenPredicate(
				x,
				GivenSubjectGivenPredicate::AnyObject(
					g!(GivenSubjectGivenPredicateAnyObject: 2 => SameAsObject),
				),
			),
		),
		(Given(s), Given(x), Given(o)) => C::GivenSubject(
			s,
			GivenSubject::GivenPredicate(
				x,
				GivenSubjectGivenPredicate::GivenObject(
					o,
					g!(GivenSubjectGivenPredicateGivenObject:),
				),
			),
		),
		_ => unreachable!("not a canonical shape"),
	}
}

pub fn triple_pattern<T>(p: Pat<T>) -> rdf_types::pattern::CanonicalTriplePattern<T> {
	use rdf_types::pattern::triple::canonical::*;
	use rdf_types::pattern::CanonicalTriplePattern as C;
	use Slot::*;
	match (p.s, p.p, p.o) {
		(Any, Any, o) => C::AnySubject(AnySubject::AnyPredicate(match o {
			Any => AnySubjectAnyPredicate::AnyObject,
			Same(0) => AnySubjectAnyPredicate::SameAsSubject,
			Same(_) => AnySubjectAnyPredicate::SameAsPredicate,
			Given(o) => AnySubjectAnyPredicate::GivenObject(o),
		})),
		(Any, x, o) => {
			let o = match o {
				Any => AnySubjectGivenPredicate::AnyObject,
				Same(_) => AnySubjectGivenPredicate::SameAsSubject,
				Given(o) => AnySubjectGivenPredicate::GivenObject(o),
			};
			C::AnySubject(match x {
				Given(x) => AnySubject::GivenPredicate(x, o),
				_ => AnySubject::SameAsSubject(o),
			})
		}
		(Given(s), Any, o) => C::GivenSubject(
			s,
			GivenSubject::AnyPredicate(match o {
				Any => GivenSubjectAnyPredicate::AnyObject,
				Same(_) => GivenSubjectAnyPredicate::SameAsPredicate,
				Given(o) => GivenSubjectAnyPredicate::GivenObject(o),
			}),
		),
		(Given(s), Given(x), o) => C::GivenSubject(
			s,
			GivenSubject::GivenPredicate(
				x,
				match o {
					Any => GivenSubjectGivenPredicate::AnyObject,
					Given(o) => GivenSubjectGivenPredicate::GivenObject(o),
					Same(_) => unreachable!(),
				},
			),
		),
		_ => unreachable!("not a canonical shape"),
	}
}

/// Reads a canonical quad pattern back, constructor by constructor.
pub fn of_quad_pattern<T>(c: rdf_types::pattern::CanonicalQuadPattern<T>) -> Pat<T> {
	use rdf_types::pattern::quad::canonical::*;
	use rdf_types::pattern::CanonicalQuadPattern as C;
	use Slot::*;
	macro_rules! g {
		($ty:ident, $e:expr; $($k:literal => $v:ident),*) => {
			match $e {
				$ty::AnyGraph => Any,
				$ty::GivenGraph(g) => Given(g),
				$($ty::$v => Same($k),)*
			}
		};
	}
	fn asgp<T>(o: AnySubjectGivenPredicate<T>) -> (Slot<T>, Slot<Option<T>>) {
		match o {
			AnySubjectGivenPredicate::AnyObject(g) => (Any, g!(AnySubjectGivenPredicateAnyObject, g; 0 => SameAsSubject, 2 => SameAsObject)),
			AnySubjectGivenPredicate::SameAsSubject(g) => (Same(0), g!(AnySubjectGivenPredicateGivenObject, g; 0 => SameAsSubject)),
			AnySubjectGivenPredicate::GivenObject(o, g) => (Given(o), g!(AnySubjectGivenPredicateGivenObject, g; 0 => SameAsSubject)),
		}
	}
	let (s, p, (o, g)) = match c {
		C::AnySubject(AnySubject::AnyPredicate(o)) => (Any, Any, match o {
			AnySubjectAnyPredicate::AnyObject(g) => (Any, g!(AnySubjectAnyPredicateAnyObject, g; 0 => SameAsSubject, 1 => SameAsPredicate, 2 => SameAsObject)),
			AnySubjectAnyPredicate::SameAsSubject(g) => (Same(0), g!(AnySubjectAnyPredicateGivenObject, g; 0 => SameAsSubject, 1 => SameAsPredicate)),
			AnySubjectAnyPredicate::SameAsPredicate(g) => (Same(1), g!(AnySubjectAnyPredicateGivenObject, g; 0 => SameAsSubject, 1 => SameAsPredicate)),
			AnySubjectAnyPredicate::GivenObject(o, g) => (Given(o), g!(AnySubjectAnyPredicateGivenObject, g; 0 => SameAsSubject, 1 => SameAsPredicate)),
		}),
		C::AnySubject(AnySubject::SameAsSubject(o)) => (Any, Same(0), asgp(o)),
		C::AnySubject(AnySubject::GivenPredicate(p, o)) => (Any, Given(p), asgp(o)),
		C::GivenSubject(s, GivenSubject::AnyPredicate(o)) => (Given(s), Any, match o {
			GivenSubjectAnyPredicate::AnyObject(g) => (Any, g!(GivenSubjectAnyPredicateAnyObject, g; 1 => SameAsPredicate, 2 => SameAsObject)),
			GivenSubjectAnyPredicate::SameAsPredicate(g) => (Same(1), g!(GivenSubjectAnyPredicateGivenObject, g; 1 => SameAsPredicate)),
			GivenSubjectAnyPredicate::GivenObject(o, g) => (Given(o), g!(GivenSubjectAnyPredicateGivenObject, g; 1 => SameAsPredicate)),
		}),
		C::GivenSubject(s, GivenSubject::GivenPredicate(p, o)) => (Given(s), Given(p), match o {
			GivenSubjectGivenPredicate::AnyObject(g) => (Any, g!(GivenSubjectGivenPredicateAnyObject, g; 2 => SameAsObject)),
			GivenSubjectGivenPredicate::GivenObject(o, g) => (Given(o), g!(GivenSubjectGivenPredicateGivenObject, g;)),
		}),
	};
	Pat { s, p, o, g }
}

pub fn of_triple_pattern<T>(c: rdf_types::pattern::CanonicalTriplePattern<T>) -> Pat<T> {
	use rdf_types::pattern::triple::canonical::*;
	use rdf_types::pattern::CanonicalTriplePattern as C;
	use Slot::*;
	fn asgp<T>(o: AnySubjectGivenPredicate<T>) -> Slot<T> {
		match o {
			AnySubjectGivenPredicate::AnyObject => Any,
			AnySubjectGivenPredicate::SameAsSubject => Same(0),
			AnySubjectGivenPredicate::GivenObject(o) => Given(o),
		}
	}
	let (s, p, o) = match c {
		C::AnySubject(AnySubject::AnyPredicate(o)) => (Any, Any, match o {
			AnySubjectAnyPredicate::AnyObject => Any,
			AnySubjectAnyPredicate::SameAsSubject => Same(0),
			AnySubjectAnyPredicate::SameAsPredicate => Same(1),
			AnySubjectAnyPredicate::GivenObject(o) => Given(o),
		}),
		C::AnySubject(AnySubject::SameAsSubject(o)) => (Any, Same(0), asgp(o)),
		C::AnySubject(AnySubject::GivenPredicate(p, o)) => (Any, Given(p), asgp(o)),
		C::GivenSubject(s, GivenSubject::AnyPredicate(o)) => (Given(s), Any, match o {
			GivenSubjectAnyPredicate::AnyObject => Any,
			GivenSubjectAnyPredicate::SameAsPredicate => Same(1),
			GivenSubjectAnyPredicate::GivenObject(o) => Given(o),
		}),
		C::GivenSubject(s, GivenSubject::GivenPredicate(p, o)) => (Given(s), Given(p), match o {
			GivenSubjectGivenPredicate::AnyObject => Any,
			GivenSubjectGivenPredicate::GivenObject(o) => Given(o),
		}),
	};
	Pat { s, p, o, g: Any }
}

/// Membership test with concrete given resources.
pub fn pat_accepts<R: Val>(p: &Pat<R>, q: &SQ) -> Expr {
	pat_matches(p, q, &|x, a| aeq(x.atom(), a))
}
