//! Terms, literals and labels over texts chosen symbolically from small
//! alphabets: longer texts than the model-checked harnesses reach, with the
//! real string, IRI and language tag types.
use crate::engine::*;
use rdf_types::*;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};

use crate::h_interp::iri;

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

// --- Literals.
const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";
const VALUES: [&str; 6] = ["", "a", "A", "\u{e9}", "e\u{301}", "a b\n"];
const TYPES: [&str; 5] = ["x:a", "x:A", "x:en", XSD, "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"];
const TAGS: [&str; 7] = ["en", "EN", "en-US", "EN-us", "fr", "zh-Hant-TW", "x-a"];

#[derive(Clone, Copy, PartialEq)]
struct Lit {
	value: &'static str,
	lang: bool,
	ty: &'static str,
}
impl Lit {
	fn any() -> Self {
		let value = VALUES[choice(VALUES.len())];
		match choice(TYPES.len() + TAGS.len()) {
			i if i < TYPES.len() => Self { value, lang: false, ty: TYPES[i] },
			i => Self { value, lang: true, ty: TAGS[i - TYPES.len()] },
		}
	}
	fn ty(self) -> LiteralType {
		if self.lang {
			LiteralType::LangString(langtag::LangTagBuf::new(self.ty.to_owned()).unwrap())
		} else {
			LiteralType::Any(iri(self.ty))
		}
	}
	fn owned(self) -> Literal {
		Literal { value: self.value.to_owned(), type_: self.ty() }
	}
	fn same_type(self, o: Self) -> bool {
		self.lang == o.lang && if self.lang { self.ty.eq_ignore_ascii_case(o.ty) } else { self.ty == o.ty }
	}
	fn same(self, o: Self) -> bool {
		self.value == o.value && self.same_type(o)
	}
	fn is_type(self, t: LiteralTypeRef) -> bool {
		match t {
			LiteralTypeRef::Any(i) => !self.lang && i.as_str() == self.ty,
			LiteralTypeRef::LangString(t) => self.lang && t.as_str() == self.ty,
		}
	}
	fn is_type_owned(self, t: &LiteralType) -> bool {
		match t {
			LiteralType::Any(i) => !self.lang && i.as_str() == self.ty,
			LiteralType::LangString(t) => self.lang && t.as_str() == self.ty,
		}
	}
	fn is_type_cow(self, t: &CowLiteralType) -> bool {
		match t {
			CowLiteralType::Any(i) => !self.lang && i.as_str() == self.ty,
			CowLiteralType::LangString(t) => self.lang && t.as_str() == self.ty,
		}
	}
	fn is(self, l: &Literal) -> bool {
		l.value == self.value && self.is_type_owned(&l.type_)
	}
	fn is_ref(self, l: LiteralRef) -> bool {
		l.value == self.value && self.is_type(l.type_)
	}
	fn is_cow(self, l: &CowLiteral) -> bool {
		l.value == self.value && self.is_type_cow(&l.type_)
	}
}

/// Borrowed, owned and copy-on-write forms of a literal hold the same text.
pub fn literal_forms<R: Val>() {
	let x = Lit::any();
	let l = x.owned();
	check_b("borrowing keeps the literal", x.is_ref(l.as_ref()) && x.is_type(l.type_.as_ref()));
	check_b("owning keeps the literal", x.is(&l.as_ref().to_owned()) && x.is(&l.as_ref().cloned()) && x.is(&l.clone()));
	check_b("owning keeps the type", x.is_type_owned(&l.type_.as_ref().into_owned()));
	check_b("copy-on-write borrowing keeps the literal", x.is_cow(&l.as_cow()) && x.is_cow(&CowLiteral::from(&l)) && x.is_cow(&l.as_ref().into_cow()));
	check_b("copy-on-write owning keeps the literal", x.is_cow(&l.clone().into_cow()) && x.is_type_cow(&l.type_.clone().into_cow()));
	check_b("owning a copy-on-write literal keeps it", x.is(&l.as_cow().into_owned()) && x.is(&l.clone().into_cow().into_owned()));
	check_b("owning a copy-on-write type keeps it", x.is_type_owned(&l.type_.as_cow().into_owned()) && x.is_type_owned(&LiteralType::from(l.type_.as_cow())) && x.is_type_owned(&LiteralType::from(l.type_.clone().into_cow())));
	check_b("borrowing a copy-on-write literal keeps it", x.is_ref(l.as_cow().as_ref()) && x.is_ref(l.clone().into_cow().as_ref()));
	check_b("copy-on-write from a reference keeps the type", x.is_type_cow(&CowLiteralType::from(l.type_.as_ref())));
	match &l.type_ {
		LiteralType::Any(i) => {
			check_b("copy-on-write from an IRI", x.is_type_cow(&CowLiteralType::from(i.as_iri())) && x.is_type_cow(&CowLiteralType::from(i.clone())) && x.is_type_cow(&CowLiteralType::from(Cow::Borrowed(i.as_iri()))));
		}
		LiteralType::LangString(t) => {
			check_b("copy-on-write from a tag", x.is_type_cow(&CowLiteralType::from(t.as_lang_tag())) && x.is_type_cow(&CowLiteralType::from(t.clone())) && x.is_type_cow(&CowLiteralType::from(Cow::Borrowed(t.as_lang_tag()))));
		}
	}
	check_b("kind of a literal", l.is_lang_string() == x.lang && l.as_ref().is_lang_string() == x.lang && l.type_.is_lang_string() == x.lang);
	let tag = x.lang.then_some(x.ty);
	check_b("language tag", l.lang_tag().map(|t| t.as_str()) == tag && l.as_ref().lang_tag().map(|t| t.as_str()) == tag && l.type_.lang_tag().map(|t| t.as_str()) == tag);
	check_b("string type", l.type_.is_xsd_string() == (!x.lang && x.ty == XSD) && l.type_.as_ref().is_xsd_string() == (!x.lang && x.ty == XSD));
	let (v, t) = l.clone().into_parts();
	check_b("parts", v == x.value && x.is_type_owned(&t) && x.is(&Literal::new(v, t)));
	let (v, t) = l.as_ref().into_parts();
	check_b("parts of a reference", v == x.value && x.is_type(t) && x.is_ref(LiteralRef::new(v, t)));
	check_b("values", l.as_str() == x.value && l.as_bytes() == x.value.as_bytes() && l.as_ref().as_str() == x.value && l.clone().into_value() == x.value);
	check_b("types", x.is_type_owned(l.as_type()) && x.is_type(l.as_ref().as_type()) && x.is_type_owned(&l.clone().into_type()));
}

/// Equality, order and hash of literals agree between forms.
pub fn literal_pairs<R: Val>() {
	let (x, y) = (Lit::any(), Lit::any());
	let (same, same_type) = (x.same(y), x.same_type(y));
	let (a, b) = (x.owned(), y.owned());
	cover(if same && x != y { "equal but for the case of the tag" } else { "other" });
	check_b("literals are equal iff same value and type", (a == b) == same && (a.as_ref() == b.as_ref()) == same && (a.as_cow() == b.as_cow()) == same && (a.as_cow() == b.clone().into_cow()) == same);
	check_b("owned and borrowed literals compare alike", (a == b.as_ref()) == same && (a.as_ref() == b) == same);
	check_b("types are equal iff same kind and name", (a.type_ == b.type_) == same_type && (a.type_.as_ref() == b.type_.as_ref()) == same_type && (a.type_ == b.type_.as_ref()) == same_type && (a.type_.as_ref() == b.type_) == same_type && (a.type_.as_cow() == b.type_.as_cow()) == same_type);
	let o = a.cmp(&b);
	check_b("order agrees with equality", (o == Ordering::Equal) == same && b.cmp(&a) == o.reverse());
	check_b("all forms are ordered alike", a.as_ref().cmp(&b.as_ref()) == o && a.as_cow().cmp(&b.as_cow()) == o && a.partial_cmp(&b) == Some(o) && a.partial_cmp(&b.as_ref()) == Some(o) && a.as_ref().partial_cmp(&b) == Some(o));
	let o = a.type_.cmp(&b.type_);
	check_b("order of types agrees with equality", (o == Ordering::Equal) == same_type && b.type_.cmp(&a.type_) == o.reverse());
	check_b("all forms of types are ordered alike", a.type_.as_ref().cmp(&b.type_.as_ref()) == o && a.type_.as_cow().cmp(&b.type_.as_cow()) == o && a.type_.partial_cmp(&b.type_.as_ref()) == Some(o) && a.type_.as_ref().partial_cmp(&b.type_) == Some(o));
	if same {
		check_b("equal literals hash alike", hash(&a) == hash(&b) && hash(&a) == hash(&b.as_ref()));
	}
	if same_type {
		check_b("equal types hash alike", hash(&a.type_) == hash(&b.type_) && hash(&a.type_) == hash(&b.type_.as_ref()));
	}
}

// --- Terms.
#[derive(Clone, Copy, PartialEq)]
enum T {
	Blank(&'static str),
	Iri(&'static str),
	Lit(Lit),
}
const BLANKS: [&str; 3] = ["_:a", "_:A", "_:a.b"];
const IRIS: [&str; 4] = ["x:a", "x:A", "x:a#", "x://h/a?q"];
impl T {
	fn any() -> Self {
		match choice(3) {
			0 => T::Blank(BLANKS[choice(BLANKS.len())]),
			1 => T::Iri(IRIS[choice(IRIS.len())]),
			_ => {
				let value = ["", "x:a", "_:a"][choice(3)];
				let (lang, ty) = [(false, "x:a"), (false, XSD), (true, "en"), (true, "EN"), (true, "en-US")][choice(5)];
				T::Lit(Lit { value, lang, ty })
			}
		}
	}
	fn local(self) -> LocalTerm {
		match self {
			T::Blank(b) => LocalTerm::Anonymous(BlankIdBuf::new(b.to_owned()).unwrap()),
			T::Iri(i) => LocalTerm::Named(Term::Iri(iri(i))),
			T::Lit(l) => LocalTerm::Named(Term::Literal(l.owned())),
		}
	}
	fn is_term(self, t: &Term) -> bool {
		match (self, t) {
			(T::Iri(i), Term::Iri(j)) => i == j.as_str(),
			(T::Lit(l), Term::Literal(m)) => l.is(m),
			_ => false,
		}
	}
	fn is_term_ref(self, t: TermRef) -> bool {
		match (self, t) {
			(T::Iri(i), TermRef::Iri(j)) => i == j.as_str(),
			(T::Lit(l), TermRef::Literal(m)) => l.is_ref(m),
			_ => false,
		}
	}
	fn is_term_cow(self, t: &CowTerm) -> bool {
		match (self, t) {
			(T::Iri(i), CowTerm::Iri(j)) => i == j.as_str(),
			(T::Lit(l), CowTerm::Literal(m)) => l.is_cow(m),
			_ => false,
		}
	}
	fn is(self, t: &LocalTerm) -> bool {
		match (self, t) {
			(T::Blank(b), LocalTerm::Anonymous(c)) => b == c.as_str(),
			(_, LocalTerm::Named(t)) => self.is_term(t),
			_ => false,
		}
	}
	fn is_ref(self, t: LocalTermRef) -> bool {
		match (self, t) {
			(T::Blank(b), LocalTermRef::Anonymous(c)) => b == c.as_str(),
			(_, LocalTermRef::Named(t)) => self.is_term_ref(t),
			_ => false,
		}
	}
	fn is_cow(self, t: &CowLocalTerm) -> bool {
		match (self, t) {
			(T::Blank(b), CowLocalTerm::Anonymous(c)) => b == c.as_str(),
			(_, CowLocalTerm::Named(t)) => self.is_term_cow(t),
			_ => false,
		}
	}
	fn same(self, o: Self) -> bool {
		match (self, o) {
			(T::Lit(a), T::Lit(b)) => a.same(b),
			_ => self == o,
		}
	}
	fn lit(self) -> Option<Lit> {
		match self {
			T::Lit(l) => Some(l),
			_ => None,
		}
	}
	fn iri(self) -> Option<&'static str> {
		match self {
			T::Iri(i) => Some(i),
			_ => None,
		}
	}
}

pub fn term_forms<R: Val>() {
	let x = T::any();
	let l = x.local();
	check_b("borrowing and owning keep the local term", x.is_ref(l.as_ref()) && x.is(&l.as_ref().to_owned()) && x.is(&l.clone()));
	check_b("copy-on-write forms keep the local term", x.is_cow(&l.as_cow()) && x.is_cow(&l.clone().into_cow()) && x.is_cow(&CowLocalTerm::from(l.clone())));
	let anonymous = matches!(x, T::Blank(_));
	check_b("kind of a local term", l.is_anonymous() == anonymous && l.is_blank_id() == anonymous);
	let lit = |l: Option<LiteralRef>| match (l, x.lit()) {
		(Some(l), Some(m)) => m.is_ref(l),
		(None, None) => true,
		_ => false,
	};
	check_b("contents of a local term", l.as_iri().map(|i| i.as_str()) == x.iri() && lit(l.as_literal()));
	if let T::Blank(b) = x {
		check_b("contents of an anonymous local term", l.as_blank_id().map(|b| b.as_str()) == Some(b) && l.as_anonymous().map(|b| b.as_str()) == Some(b));
		let b = BlankIdBuf::new(b.to_owned()).unwrap();
		check_b("from a blank node identifier", x.is(&b.into()));
	} else {
		check_b("contents of a named local term", l.as_blank_id().is_none() && l.as_anonymous().is_none());
	}
	if let LocalTerm::Named(t) = l {
		check_b("borrowing and owning keep the term", x.is_term_ref(t.as_ref()) && x.is_term(&t.as_ref().to_owned()) && x.is_term(&t.clone()));
		check_b("copy-on-write forms keep the term", x.is_term_cow(&t.as_cow()) && x.is_term_cow(&t.clone().into_cow()) && x.is_term_cow(&CowTerm::from(t.clone())));
		check_b("owning copy-on-write forms keeps the term", x.is_term(&t.as_cow().into_owned()) && x.is_term(&t.clone().into_cow().into_owned()));
		check_b("kind and contents of a term", t.is_iri() == x.iri().is_some() && t.is_literal() == x.lit().is_some() && t.as_iri().map(|i| i.as_str()) == x.iri() && lit(t.as_literal()));
		let own = |l: Option<Literal>| match (l, x.lit()) {
			(Some(l), Some(m)) => m.is(&l),
			(None, None) => true,
			_ => false,
		};
		check_b("into_iri", t.clone().into_iri().as_ref().map(|i| i.as_str()) == x.iri());
		check_b("into_literal", own(t.clone().into_literal()));
		check_b("try_into_iri", match t.clone().try_into_iri() {
			Ok(i) => x.iri() == Some(i.as_str()),
			Err(t) => x.lit().is_some() && x.is_term(&t),
		});
		check_b("try_into_literal", match t.clone().try_into_literal() {
			Ok(l) => x.lit().is_some_and(|m| m.is(&l)),
			Err(i) => x.iri() == Some(i.as_str()),
		});
		check_b("from parts", x.is(&LocalTerm::from(t.clone())) && match t {
			Term::Iri(i) => x.is(&LocalTerm::iri(i.clone())) && x.is(&i.into()),
			Term::Literal(l) => x.is(&LocalTerm::literal(l.clone())) && x.is(&l.into()),
		});
	}
	let id = match x {
		T::Blank(b) => Id::BlankId(BlankIdBuf::new(b.to_owned()).unwrap()),
		T::Iri(i) => Id::Iri(iri(i)),
		_ => return,
	};
	let is = |i: IdRef| match (x, i) {
		(T::Blank(b), IdRef::BlankId(c)) => b == c.as_str(),
		(T::Iri(i), IdRef::Iri(j)) => i == j.as_str(),
		_ => false,
	};
	check_b("borrowing and owning keep the identifier", is(id.as_ref()) && is(id.as_ref().into_owned().as_ref()) && is(id.as_ref().to_owned().as_ref()));
	check_b("copy-on-write borrowing keeps the identifier", match id.as_cow() {
		CowId::BlankId(b) => is(IdRef::BlankId(&b)),
		CowId::Iri(i) => is(IdRef::Iri(&i)),
	});
	check_b("IRI of an identifier", id.as_iri().map(|i| i.as_str()) == x.iri());
}

pub fn term_pairs<R: Val>() {
	let (x, y) = (T::any(), T::any());
	let same = x.same(y);
	let (a, b) = (x.local(), y.local());
	check_b("local terms are equal iff same kind and contents", (a == b) == same && (a.as_ref() == b.as_ref()) == same && (a.as_ref() == b) == same);
	let o = a.cmp(&b);
	check_b("order agrees with equality", (o == Ordering::Equal) == same && b.cmp(&a) == o.reverse());
	check_b("all forms are ordered alike", a.as_ref().cmp(&b.as_ref()) == o && a.partial_cmp(&b) == Some(o) && a.as_ref().partial_cmp(&b) == Some(o));
	if same {
		check_b("equal local terms hash alike", hash(&a) == hash(&b));
	}
	if let (LocalTerm::Named(a), LocalTerm::Named(b)) = (a, b) {
		check_b("terms are equal iff same kind and contents", (a == b) == same && (a.as_ref() == b.as_ref()) == same && (a.as_ref() == b) == same);
		check_b("terms are ordered as local terms", a.cmp(&b) == o && a.partial_cmp(&b) == Some(o) && a.as_ref().cmp(&b.as_ref()) == o && a.as_ref().partial_cmp(&b) == Some(o));
		if same {
			check_b("equal terms hash alike", hash(&a) == hash(&b));
		}
	}
	let id = |x| match x {
		T::Blank(b) => Some(Id::BlankId(BlankIdBuf::new(b.to_owned()).unwrap())),
		T::Iri(i) => Some(Id::Iri(iri(i))),
		_ => None,
	};
	if let (Some(a), Some(b)) = (id(x), id(y)) {
		let o = a.as_ref().cmp(&b.as_ref());
		check_b("identifiers are equal iff same kind and contents", (a.as_ref() == b.as_ref()) == same && (o == Ordering::Equal) == same);
		check_b("order of identifiers is antisymmetric", b.as_ref().cmp(&a.as_ref()) == o.reverse());
	}
}

// --- Blank node labels.
const BASE: [(u32, u32); 14] = [
	(0x41, 0x5a), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff),
	(0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd),
	(0x10000, 0xeffff),
];
const MORE: [(u32, u32); 5] = [(0x30, 0x39), (0x2d, 0x2d), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)];
fn within(c: char, l: &[(u32, u32)]) -> bool {
	l.iter().any(|(a, b)| *a <= c as u32 && c as u32 <= *b)
}
fn first(c: char) -> bool {
	within(c, &BASE) || c == '_' || c == ':' || c.is_ascii_digit()
}
fn tail(c: char) -> bool {
	first(c) || within(c, &MORE)
}
fn label(s: &str) -> bool {
	let Some(s) = s.strip_prefix("_:") else { return false };
	let c: Vec<char> = s.chars().collect();
	match c.split_first() {
		None => false,
		Some((h, t)) => first(*h) && t.iter().all(|c| tail(*c) || *c == '.') && t.last() != Some(&'.'),
	}
}
/// The edges of every range of the grammar, and what lies just outside.
fn edge() -> char {
	let mut v: Vec<char> = Vec::new();
	for (a, b) in BASE.iter().chain(&MORE) {
		v.extend([*a, *b, *a - 1, *b + 1].into_iter().filter_map(char::from_u32));
	}
	v.extend(['_', '.', ' ', '\n', '\0', '/', '\u{ad}', '\u{2028}', '\u{e000}', '\u{f8ff}', '\u{10ffff}', '\u{fffe}']);
	v.sort_unstable();
	v.dedup();
	v[choice(v.len())]
}
fn common() -> char {
	['a', '.', '-', '1', ' ', '\u{300}', ':'][choice(7)]
}
pub fn labels<R: Val>() {
	let mut s = ["_:", "_", ":", "", "-:", "_;", "__", "::", "_:_:"][choice(9)].to_owned();
	if s == "_:" {
		match choice(4) {
			0 => s.push(edge()),
			1 => s.extend(['a', edge()]),
			2 => s.extend([edge(), common(), common()]),
			_ => {
				s.push(['a', '1', '_', '-', '.'][choice(5)]);
				for _ in 0..choice(5) {
					s.push(common())
				}
			}
		}
	} else if flip() {
		s.push(common())
	}
	let ok = label(&s);
	cover(if ok { "a label" } else { "not a label" });
	check_b("borrowed", match BlankId::new(&s) {
		Ok(b) => ok && b.as_str() == s && b.suffix() == &s[2..],
		Err(InvalidBlankId(t)) => !ok && t == s,
	});
	check_b("owned", match BlankIdBuf::new(s.clone()) {
		Ok(b) => ok && b.as_str() == s && b.to_string() == s && b.as_blank_id_ref().to_owned().as_str() == s,
		Err(InvalidBlankId(t)) => !ok && t == s,
	});
	check_b("parsed", match s.parse::<BlankIdBuf>() {
		Ok(b) => ok && b.as_str() == s,
		Err(InvalidBlankId(t)) => !ok && t == s,
	});
	if let Some(x) = s.strip_prefix("_:") {
		check_b("from a suffix", match BlankIdBuf::from_suffix(x) {
			Ok(b) => ok && b.as_str() == s && b.suffix() == x,
			Err(InvalidBlankId(t)) => !ok && t == s,
		});
	}
	let json = serde_json::to_string(&s).unwrap();
	check_b("deserialized", match serde_json::from_str::<BlankIdBuf>(&json) {
		Ok(b) => ok && b.as_str() == s && serde_json::to_string(&b).unwrap() == json,
		Err(_) => !ok,
	});
}

// --- Display.
/// Reads an N-Triples string literal.
fn unquote(s: &str) -> Option<String> {
	let mut r = String::new();
	let mut c = s.strip_prefix('"')?.chars();
	loop {
		match c.next()? {
			'"' => return c.next().is_none().then_some(r),
			'\\' => r.push(match c.next()? {
				'n' => '\n',
				'r' => '\r',
				't' => '\t',
				'b' => '\u{8}',
				'f' => '\u{c}',
				'"' => '"',
				'\'' => '\'',
				'\\' => '\\',
				u @ ('u' | 'U') => {
					let n = if u == 'u' { 4 } else { 8 };
					let mut x = String::new();
					for _ in 0..n {
						x.push(c.next().filter(|c| c.is_ascii_hexdigit())?);
					}
					char::from_u32(u32::from_str_radix(&x, 16).ok()?)?
				}
				_ => return None,
			}),
			'\n' | '\r' => return None,
			x => r.push(x),
		}
	}
}
pub fn displayed<R: Val>() {
	let n = choice(5);
	let s: String = (0..n)
		.map(|_| ['a', '"', '\\', '\n', '\r', '\t', '\0', '\u{7f}', 'n', '\u{e9}', '\u{1f600}', '<'][choice(12)])
		.collect();
	let reads = |t: &str| unquote(t).as_deref() == Some(&s);
	check_b("a string reads back", reads(&s.as_str().rdf_display().to_string()) && reads(&s.rdf_display().to_string()));
	let (ty, end): (LiteralType, String) = match choice(4) {
		0 => (LiteralType::Any(iri(XSD)), String::new()),
		1 => (LiteralType::Any(iri("x:\u{e9}#a")), "^^<x:\u{e9}#a>".to_owned()),
		2 => (LiteralType::LangString(langtag::LangTagBuf::new("en-US".to_owned()).unwrap()), "@en-US".to_owned()),
		_ => (LiteralType::Any(iri("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString")), "^^<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>".to_owned()),
	};
	let l = Literal::new(s.clone(), ty);
	let is = |t: String| t.strip_suffix(&end).is_some_and(reads);
	check_b("a literal reads back", is(l.rdf_display().to_string()) && is(l.to_string()));
	check_b("a borrowed literal reads back", is(l.as_ref().rdf_display().to_string()) && is(l.as_ref().to_string()));
	let t = Term::Literal(l);
	check_b("a literal term reads back", is(t.rdf_display().to_string()));
	check_b("a literal local term reads back", is(LocalTerm::Named(t).rdf_display().to_string()));
}
