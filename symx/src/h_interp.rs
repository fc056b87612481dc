//! Interpretations: dispatch between terms and resources.
//!
//! The interpretation under the wrappers and default methods is a table from
//! terms to symbolic resources; everything between the caller and the table is
//! the crate's code.
use crate::engine::*;
use rdf_types::generator::{Blank, LocalGeneratorInterpretation};
use rdf_types::interpretation::fallible::{FallibleGenerativeInterpretation, TraversableFallibleInterpretation};
use rdf_types::interpretation::{
	ConstGenerativeInterpretation, GenerativeInterpretation, LocalInterpretation, LocalInterpretationMut,
	ReverseInterpretation, ReverseLocalInterpretation, TraversableInterpretation, WithGenerator, WithLocalGenerator,
};
use rdf_types::{
	BlankId, BlankIdBuf, CowId, CowLiteral, CowLiteralType, CowLocalTerm, CowTerm, Generator, IdRef, Interpretation,
	InterpretationMut, Iri, IriBuf, Literal, LiteralRef, LiteralType, LiteralTypeRef, LocalGenerator, LocalTerm,
	LocalTermRef, Term,
};
use std::borrow::Cow;

const LO: i64 = 0;
const HI: i64 = 64;
pub const UNIVERSE: usize = 9;

const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";

pub fn iri(s: &str) -> IriBuf {
	IriBuf::new(s.to_owned()).unwrap()
}
fn lit(v: &str, t: &str) -> LocalTerm {
	LocalTerm::Named(Term::Literal(Literal::new(v.to_owned(), LiteralType::Any(iri(t)))))
}
/// The terms the harnesses draw from, with texts chosen to be confusable
/// across kinds.
pub fn term(i: usize) -> LocalTerm {
	match i {
		0 => LocalTerm::Named(Term::Iri(iri("x:a"))),
		1 => LocalTerm::Named(Term::Iri(iri("y:a"))),
		2 => lit("x:a", XSD),
		3 => lit("x:a", "x:a"),
		4 => LocalTerm::Named(Term::Literal(Literal::new(
			"x:a".to_owned(),
			LiteralType::LangString(langtag::LangTagBuf::new("en".to_owned()).unwrap()),
		))),
		5 => lit("_:a", XSD),
		6 => LocalTerm::Anonymous(BlankIdBuf::new("_:a".to_owned()).unwrap()),
		7 => LocalTerm::Anonymous(BlankIdBuf::new("_:b".to_owned()).unwrap()),
		_ => LocalTerm::Named(Term::Iri(iri("x:b"))),
	}
}

/// Textual identity of a term, independent of the crate's equality.
pub fn key(t: &LocalTerm) -> String {
	match t {
		LocalTerm::Anonymous(b) => key_blank(b),
		LocalTerm::Named(Term::Iri(i)) => key_iri(i),
		LocalTerm::Named(Term::Literal(l)) => match &l.type_ {
			LiteralType::Any(i) => format!("lit {} ^^{}", l.value, i.as_str()),
			LiteralType::LangString(t) => format!("lit {} @{}", l.value, t.as_str()),
		},
	}
}
fn key_term(t: &Term) -> String {
	match t {
		Term::Iri(i) => key_iri(i),
		Term::Literal(l) => key_lit(LiteralRef::new(&l.value, match &l.type_ {
			LiteralType::Any(i) => LiteralTypeRef::Any(i),
			LiteralType::LangString(t) => LiteralTypeRef::LangString(t),
		})),
	}
}
fn key_iri(i: &Iri) -> String {
	format!("iri {}", i.as_str())
}
fn key_blank(b: &BlankId) -> String {
	format!("blank {}", b.as_str())
}
fn key_lit(l: LiteralRef) -> String {
	match l.type_ {
		LiteralTypeRef::Any(i) => format!("lit {} ^^{}", l.value, i.as_str()),
		LiteralTypeRef::LangString(t) => format!("lit {} @{}", l.value, t.as_str()),
	}
}
fn key_cow_lit(l: &CowLiteral) -> String {
	match &l.type_ {
		CowLiteralType::Any(i) => format!("lit {} ^^{}", l.value, i.as_str()),
		CowLiteralType::LangString(t) => format!("lit {} @{}", l.value, t.as_str()),
	}
}
fn key_cow_term(t: &CowTerm) -> String {
	match t {
		CowTerm::Iri(i) => key_iri(i),
		CowTerm::Literal(l) => key_cow_lit(l),
	}
}
fn key_cow_local(t: &CowLocalTerm) -> String {
	match t {
		CowLocalTerm::Anonymous(b) => key_blank(b),
		CowLocalTerm::Named(t) => key_cow_term(t),
	}
}

/// A table of terms and the resources they denote.
struct Table<R> {
	entries: Vec<(LocalTerm, R)>,
	/// Resources given to terms inserted for the first time, in order.
	fresh: Vec<R>,
	used: usize,
	log: Vec<String>,
}

impl<R: Val> Table<R> {
	fn new(entries: Vec<(LocalTerm, R)>, fresh: usize) -> Self {
		Self { entries, fresh: (0..fresh).map(|_| sym::<R>(LO, HI)).collect(), used: 0, log: Vec::new() }
	}
	fn find(&self, k: &str) -> Option<R> {
		self.entries.iter().find(|(t, _)| key(t) == k).map(|(_, r)| r.clone())
	}
	fn put(&mut self, t: LocalTerm) -> R {
		let k = key(&t);
		self.log.push(k.clone());
		if let Some(r) = self.find(&k) {
			return r;
		}
		let r = self.fresh[self.used].clone();
		self.used += 1;
		self.entries.push((t, r.clone()));
		r
	}
	fn of<'a>(&'a self, r: &'a R) -> impl Iterator<Item = &'a LocalTerm> {
		self.entries.iter().filter(move |(_, x)| x == r).map(|(t, _)| t)
	}
}

impl<R: Val> Interpretation for Table<R> {
	type Resource = R;
	fn iri(&self, iri: &Iri) -> Option<R> {
		self.find(&key_iri(iri))
	}
	fn literal<'a>(&self, literal: impl Into<LiteralRef<'a>>) -> Option<R> {
		self.find(&key_lit(literal.into()))
	}
}
impl<R: Val> LocalInterpretation for Table<R> {
	fn blank_id(&self, b: &BlankId) -> Option<R> {
		self.find(&key_blank(b))
	}
}
fn own_literal(l: CowLiteral) -> Literal {
	Literal::new(l.value.into_owned(), match l.type_ {
		CowLiteralType::Any(i) => LiteralType::Any(i.into_owned()),
		CowLiteralType::LangString(t) => LiteralType::LangString(t.into_owned()),
	})
}
impl<R: Val> InterpretationMut for Table<R> {
	fn insert_iri<'a>(&mut self, iri: impl Into<Cow<'a, Iri>>) -> R {
		self.put(LocalTerm::Named(Term::Iri(iri.into().into_owned())))
	}
	fn insert_literal<'a>(&mut self, literal: impl Into<CowLiteral<'a>>) -> R {
		self.put(LocalTerm::Named(Term::Literal(own_literal(literal.into()))))
	}
}
impl<R: Val> LocalInterpretationMut for Table<R> {
	fn insert_blank_id<'a>(&mut self, b: impl Into<Cow<'a, BlankId>>) -> R {
		self.put(LocalTerm::Anonymous(b.into().into_owned()))
	}
}
type Boxed<'a, T> = Box<dyn Iterator<Item = T> + 'a>;
impl<R: Val> ReverseInterpretation for Table<R> {
	type Iris<'a> = Boxed<'a, Cow<'a, Iri>> where Self: 'a;
	type Literals<'a> = Boxed<'a, CowLiteral<'a>> where Self: 'a;
	fn iris_of<'a>(&'a self, r: &'a R) -> Self::Iris<'a> {
		Box::new(self.of(r).filter_map(|t| match t {
			LocalTerm::Named(Term::Iri(i)) => Some(Cow::Borrowed(i.as_iri())),
			_ => None,
		}))
	}
	fn literals_of<'a>(&'a self, r: &'a R) -> Self::Literals<'a> {
		Box::new(self.of(r).filter_map(|t| match t {
			LocalTerm::Named(Term::Literal(l)) => Some(CowLiteral {
				value: Cow::Borrowed(l.value.as_str()),
				type_: match &l.type_ {
					LiteralType::Any(i) => CowLiteralType::Any(Cow::Borrowed(i.as_iri())),
					LiteralType::LangString(t) => CowLiteralType::LangString(Cow::Borrowed(t)),
				},
			}),
			_ => None,
		}))
	}
}
impl<R: Val> ReverseLocalInterpretation for Table<R> {
	type BlankIds<'a> = Boxed<'a, Cow<'a, BlankId>> where Self: 'a;
	fn blank_ids_of<'a>(&'a self, r: &'a R) -> Self::BlankIds<'a> {
		Box::new(self.of(r).filter_map(|t| match t {
			LocalTerm::Anonymous(b) => Some(Cow::Borrowed(b.as_ref())),
			_ => None,
		}))
	}
}
impl<R: Val> TraversableInterpretation for Table<R> {
	type Resources<'a> = Boxed<'a, &'a R> where Self: 'a;
	fn resources(&self) -> Self::Resources<'_> {
		Box::new(self.entries.iter().map(|(_, r)| r))
	}
}

/// A generator yielding the given terms in order.
struct Script {
	terms: Vec<LocalTerm>,
	at: usize,
}
impl LocalGenerator for Script {
	fn next_local_term(&mut self) -> LocalTerm {
		self.at += 1;
		self.terms[self.at - 1].clone()
	}
}
impl Generator for Script {
	fn next_term(&mut self) -> Term {
		self.at += 1;
		match &self.terms[self.at - 1] {
			LocalTerm::Named(t) => t.clone(),
			LocalTerm::Anonymous(_) => unreachable!(),
		}
	}
}
fn script(terms: Vec<LocalTerm>) -> Script {
	Script { terms, at: 0 }
}

/// A table knowing all terms, none, or all but one.
fn table<R: Val>(fresh: usize) -> Table<R> {
	let skip = choice(UNIVERSE + 2);
	let known = (0..UNIVERSE).filter(|i| *i != skip && skip != UNIVERSE + 1);
	Table::new(known.map(|i| (term(i), sym::<R>(LO, HI))).collect(), fresh)
}

fn same_opt<R: Val>(label: &'static str, got: Option<R>, want: Option<R>) {
	check(label, match (got, want) {
		(Some(x), Some(y)) => aeq(x.atom(), y.atom()),
		(None, None) => t(),
		_ => f(),
	});
}

/// What `interp` answers for term `t`, by one of the ways of asking.
fn ask<I: Interpretation>(i: &I, t: &LocalTerm) -> Option<Option<I::Resource>> {
	Some(match t {
		LocalTerm::Anonymous(_) => return None,
		LocalTerm::Named(t) => match choice(2) {
			0 => i.term(t.as_ref()),
			_ => match t {
				Term::Iri(x) => i.iri(x),
				Term::Literal(l) => i.literal(l.as_ref()),
			},
		},
	})
}
fn ask_local<I: LocalInterpretation>(i: &I, t: &LocalTerm) -> Option<I::Resource> {
	match (choice(3), t) {
		(0, LocalTerm::Anonymous(b)) => i.id(IdRef::BlankId(b)),
		(0, LocalTerm::Named(Term::Iri(x))) => i.id(IdRef::Iri(x)),
		(1, LocalTerm::Anonymous(b)) => i.blank_id(b),
		_ => match t {
			LocalTerm::Anonymous(b) => i.local_term(LocalTermRef::Anonymous(b)),
			LocalTerm::Named(t) => i.local_term(LocalTermRef::Named(t.as_ref())),
		},
	}
}
fn tell<I: InterpretationMut>(i: &mut I, t: &LocalTerm) -> Option<I::Resource> {
	Some(match t {
		LocalTerm::Anonymous(_) => return None,
		LocalTerm::Named(t) => match choice(3) {
			0 => i.insert_term(t.clone()),
			1 => i.insert_term(match t {
				Term::Iri(x) => CowTerm::Iri(Cow::Borrowed(x.as_iri())),
				Term::Literal(l) => CowTerm::Literal(CowLiteral::from(l)),
			}),
			_ => match t {
				Term::Iri(x) => i.insert_iri(Cow::Borrowed(x.as_iri())),
				Term::Literal(l) => i.insert_literal(l),
			},
		},
	})
}
fn tell_local<I: LocalInterpretationMut>(i: &mut I, t: &LocalTerm) -> I::Resource {
	match (choice(3), t) {
		(0, LocalTerm::Anonymous(b)) => i.insert_id(CowId::BlankId(Cow::Borrowed(b.as_blank_id_ref()))),
		(0, LocalTerm::Named(Term::Iri(x))) => i.insert_id(CowId::Iri(Cow::Borrowed(x.as_iri()))),
		(1, LocalTerm::Anonymous(b)) => i.insert_blank_id(Cow::Borrowed(b.as_blank_id_ref())),
		(1, LocalTerm::Named(t)) => i.insert_local_term(match t {
			Term::Iri(x) => CowLocalTerm::Named(CowTerm::Iri(Cow::Borrowed(x.as_iri()))),
			Term::Literal(l) => CowLocalTerm::Named(CowTerm::Literal(CowLiteral::from(l))),
		}),
		_ => i.insert_local_term(t.clone()),
	}
}

/// Looking a term up finds the resource the underlying interpretation gives
/// it, whatever the kind of term, the method and the wrapper.
pub fn lookup<R: Val>() {
	let i = table::<R>(0);
	let t = term(choice(UNIVERSE));
	let want = i.find(&key(&t));
	match choice(5) {
		0 => {
			if let Some(got) = ask(&i, &t) {
				same_opt("term looks up its resource", got, want)
			}
		}
		1 => same_opt("local term looks up its resource", ask_local(&i, &t), want),
		2 => {
			if let Some(got) = ask(&WithGenerator::new(i, Blank::new()), &t) {
				same_opt("term looks up its resource through a generator", got, want)
			}
		}
		3 => {
			if let Some(got) = ask(&WithLocalGenerator::new(i, Blank::new()), &t) {
				same_opt("term looks up its resource through a local generator", got, want)
			}
		}
		_ => same_opt(
			"local term looks up its resource through a local generator",
			ask_local(&WithLocalGenerator::new(i, Blank::new()), &t),
			want,
		),
	}
}

/// Inserting a term hands exactly that term to the underlying interpretation,
/// once, and returns what it answers.
pub fn insert<R: Val>() {
	let mut i = table::<R>(1);
	let t = term(choice(UNIVERSE));
	let want = i.find(&key(&t)).unwrap_or_else(|| i.fresh[0].clone());
	let n = i.entries.len();
	let known = i.find(&key(&t)).is_some();
	let (got, i) = match choice(5) {
		0 => (tell(&mut i, &t), i),
		1 => (Some(tell_local(&mut i, &t)), i),
		2 => {
			let mut w = WithGenerator::new(i, script(vec![]));
			let got = tell(&mut w, &t);
			check_b("inserting generates nothing", w.generator().at == 0);
			(got, w.into_inner_interpretation())
		}
		3 => {
			let mut w = WithLocalGenerator::new(i, script(vec![]));
			let got = tell(&mut w, &t);
			check_b("inserting generates nothing", w.generator().at == 0);
			(got, w.into_parts().0)
		}
		_ => {
			let mut w = WithLocalGenerator::new(i, script(vec![]));
			let got = tell_local(&mut w, &t);
			check_b("inserting generates nothing", w.generator().at == 0);
			(Some(got), w.into_inner_interpretation())
		}
	};
	let Some(got) = got else { return };
	check("inserting a term returns its resource", aeq(got.atom(), want.atom()));
	check_b("exactly the term is inserted, once", i.log == vec![key(&t)]);
	check_b("nothing else is inserted", i.entries.len() == n + if known { 0 } else { 1 });
	same_opt("an inserted term denotes the returned resource", i.find(&key(&t)), Some(got));
}

/// The terms of a resource are its IRIs, then its literals, then its blank
/// node identifiers, none missing and none repeated.
pub fn reverse<R: Val>(n: usize) {
	let mut entries: Vec<(LocalTerm, R)> = Vec::new();
	let mut last = 0;
	for _ in 0..n {
		// any increasing choice of terms of the universe
		let k = last + choice(UNIVERSE - last);
		entries.push((term(k), sym::<R>(LO, HI)));
		last = k + 1;
		if last == UNIVERSE {
			break;
		}
	}
	let i = Table::new(entries, 0);
	let r = sym::<R>(LO, HI);
	let (terms, locals, anon, i) = match choice(3) {
		0 => {
			let (terms, locals, anon) = observe(&i, &r);
			(terms, locals, anon, i)
		}
		1 => {
			let w = WithLocalGenerator::new(i, Blank::new());
			let (terms, locals, anon) = observe(&w, &r);
			(terms, locals, anon, w.into_inner_interpretation())
		}
		_ => {
			let w = WithGenerator::new(i, Blank::new());
			let terms: Vec<String> = w.terms_of(&r).map(|t| key_cow_term(&t)).collect();
			let anon = w.is_anonymous(&r);
			(terms, None, anon, w.into_inner_interpretation())
		}
	};
	let kind = |p: &str| -> Vec<String> {
		i.of(&r).map(key).filter(|k| k.starts_with(p)).collect()
	};
	let mut want = kind("iri");
	want.extend(kind("lit"));
	check_b("a resource is anonymous iff no IRI or literal denotes it", anon == want.is_empty());
	check_b("the terms of a resource are its IRIs, then its literals", terms == want);
	want.extend(kind("blank"));
	check_b("its local terms are followed by its blank node identifiers", locals.map_or(true, |l| l == want));
}

fn observe<I: ReverseLocalInterpretation>(i: &I, r: &I::Resource) -> (Vec<String>, Option<Vec<String>>, bool) {
	(
		i.terms_of(r).map(|t| key_cow_term(&t)).collect(),
		Some(i.local_terms_of(r).map(|t| key_cow_local(&t)).collect()),
		i.is_anonymous(r),
	)
}

/// New resources come from the generator: each takes one generated term, is
/// the resource that term denotes from then on, and leaves the rest alone.
pub fn generative<R: Val>(n: usize) {
	let i = table::<R>(n);
	let before: Vec<(String, R)> = i.entries.iter().map(|(t, r)| (key(t), r.clone())).collect();
	let local = flip();
	let named: Vec<usize> = (0..UNIVERSE).filter(|k| local || !matches!(term(*k), LocalTerm::Anonymous(_))).collect();
	let terms: Vec<LocalTerm> = (0..n).map(|_| term(named[choice(named.len())])).collect();
	let keys: Vec<String> = terms.iter().map(key).collect();
	let (made, i, g) = if local {
		let mut w = WithLocalGenerator::new(i, script(terms));
		let made: Vec<R> = (0..n).map(|_| spawn(&mut w)).collect();
		if flip() {
			let (i, g) = w.into_parts();
			(made, i, g.at)
		} else {
			let g = w.generator_mut().at;
			(made, w.into_inner_interpretation(), g)
		}
	} else {
		let mut w = WithGenerator::new(i, script(terms));
		let made: Vec<R> = (0..n).map(|_| spawn(&mut w)).collect();
		if flip() {
			let (i, g) = w.into_parts();
			(made, i, g.at)
		} else {
			let g = w.generator_mut().at;
			(made, w.into_inner_interpretation(), g)
		}
	};
	check_b("each new resource takes one generated term", g == n);
	check_b("the generated terms are inserted, in order", i.log == keys);
	for (k, r) in keys.iter().zip(&made) {
		same_opt("the generated term denotes the new resource", i.find(k), Some(r.clone()));
	}
	for (k, r) in before {
		same_opt("known terms keep their resources", i.find(&k), Some(r));
	}
}

/// `new_resource`, or its fallible form.
fn spawn<I: GenerativeInterpretation>(i: &mut I) -> <I as Interpretation>::Resource
where
	I: FallibleGenerativeInterpretation<Resource = <I as Interpretation>::Resource, Error = std::convert::Infallible>,
{
	if flip() {
		i.new_resource()
	} else {
		match i.try_new_resource() {
			Ok(r) => r,
			Err(e) => match e {},
		}
	}
}

/// The fallible traversal yields the same resources in the same order.
pub fn traverse<R: Val>() {
	let n = choice(4);
	let i = Table::new((0..n).map(|k| (term(k), sym::<R>(LO, HI))).collect(), 0);
	let got: Vec<R> = i
		.try_resources()
		.map(|r| match r {
			Ok(r) => r.clone(),
			Err(e) => match e {},
		})
		.collect();
	check_b("fallible traversal keeps the number of resources", got.len() == n);
	for (k, r) in got.iter().enumerate() {
		check("fallible traversal keeps resources in place", aeq(r.atom(), i.entries[k].1.atom()));
	}
}

/// In the transparent interpretations every term denotes itself and nothing
/// else; new resources are the generator's terms.
pub fn transparent<R: Val>() {
	let t = term(choice(UNIVERSE));
	let k = key(&t);
	let named = matches!(t, LocalTerm::Named(_));
	let own = |r: &LocalTerm| key(r) == k;
	match choice(4) {
		0 => {
			if let Some(r) = ask(&(), &t) {
				check_b("a term denotes itself", r.as_ref().map_or(false, own));
			}
			if let Some(r) = tell(&mut (), &t) {
				check_b("an inserted term is itself", own(&r));
			}
			let terms: Vec<String> = ().terms_of(&t).map(|t| key_cow_term(&t)).collect();
			check_b("a named term is its own only term", terms == if named { vec![k.clone()] } else { vec![] });
			check_b("only blank nodes are anonymous", ().is_anonymous(&t) != named);
		}
		1 => {
			let mut i = LocalGeneratorInterpretation::new(Blank::new());
			if let Some(r) = ask(&i, &t) {
				check_b("a term denotes itself", r.as_ref().map_or(false, own));
			}
			check_b("a local term denotes itself", ask_local(&i, &t).as_ref().map_or(false, own));
			if let Some(r) = tell(&mut i, &t) {
				check_b("an inserted term is itself", own(&r));
			}
			let (terms, locals, anon) = observe(&i, &t);
			check_b("a named term is its own only term", terms == if named { vec![k.clone()] } else { vec![] });
			check_b("a term is its own only local term", locals == Some(vec![k.clone()]));
			check_b("only blank nodes are anonymous", anon != named);
			check_b("only new resources use the generator", i.into_generator().count() == 0);
		}
		2 => {
			// new resources, whatever the access path to the generator
			let n = 1 + choice(3);
			let script = script((0..n).map(|_| term(choice(UNIVERSE))).collect());
			let want: Vec<String> = script.terms.iter().map(key).collect();
			let mut i = LocalGeneratorInterpretation::new(script);
			let mut got = Vec::new();
			for _ in 0..n {
				got.push(key(&match choice(3) {
					0 => ConstGenerativeInterpretation::new_resource(&i),
					1 => GenerativeInterpretation::new_resource(&mut i),
					_ => match i.try_new_resource() {
						Ok(r) => r,
						Err(e) => match e {},
					},
				}));
			}
			check_b("new resources are the generator's terms, in order", got == want);
			check_b("each new resource takes one generated term", i.into_generator().at == n);
		}
		_ => {
			// generators behind references and wrappers over `()`
			let mut g = script(vec![term(choice(UNIVERSE)), term(choice(UNIVERSE))]);
			let want: Vec<String> = g.terms.iter().map(key).collect();
			let got = {
				let mut r = &mut g;
				vec![key(&next_local(&mut r)), key(&next_local(&mut r))]
			};
			check_b("a borrowed generator generates the same terms", got == want && g.at == 2);
			if g.terms.iter().all(|t| matches!(t, LocalTerm::Named(_))) {
				g.at = 0;
				let got = {
					let mut r = &mut g;
					vec![key_term(&next(&mut r)), key_term(&next(&mut r))]
				};
				check_b("a borrowed generator generates the same terms", got == want && g.at == 2);
				g.at = 0;
				let mut w: WithGenerator<_> = WithGenerator::new((), g);
				let got = vec![key(&w.new_resource()), key(&w.new_resource())];
				check_b("new resources are the generator's terms", got == want);
			}
		}
	}
}
fn next_local<G: LocalGenerator>(g: &mut G) -> LocalTerm {
	g.next_local_term()
}
fn next<G: Generator>(g: &mut G) -> Term {
	g.next_term()
}

/// Only the type `xsd:string` is left out when a literal is displayed.
pub fn string_type<R: Val>() {
	const TYPES: [&str; 10] = [
		XSD,
		"http://www.w3.org/2001/XMLSchema#String",
		"http://www.w3.org/2001/XMLSchema#strinh",
		"http://www.w3.org/2001/XMLSchema#strin",
		"http://www.w3.org/2001/XMLSchema#strings",
		"http://www.w3.org/2001/XMLSchema/string",
		"http://www.w3.org/2000/XMLSchema#string",
		"https://www.w3.org/2001/XMLSchema#string",
		"http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
		"x:string",
	];
	use rdf_types::RdfDisplay;
	let ty = TYPES[choice(TYPES.len())];
	let value = ["", "a", "a\"", "\n\\"][choice(4)];
	let quoted = ["\"\"", "\"a\"", "\"a\\\"\"", "\"\\n\\\\\""][["", "a", "a\"", "\n\\"].iter().position(|v| *v == value).unwrap()];
	let want = if ty == XSD { quoted.to_owned() } else { format!("{quoted}^^<{ty}>") };
	let t = iri(ty);
	let l = Literal::new(value.to_owned(), LiteralType::Any(t.clone()));
	let r = LiteralRef::new(value, LiteralTypeRef::Any(&t));
	check_b("only xsd:string is the string type", l.type_.is_xsd_string() == (ty == XSD) && r.type_.is_xsd_string() == (ty == XSD));
	check_b("a literal shows its type unless it is xsd:string", l.rdf_display().to_string() == want);
	check_b("a borrowed literal shows its type unless it is xsd:string", r.rdf_display().to_string() == want);
	check_b("display and RDF display agree on literals", l.to_string() == want && r.to_string() == want);
	let t = LocalTerm::Named(Term::Literal(l));
	check_b("a term shows the type of its literal unless it is xsd:string", t.rdf_display().to_string() == want);
}
