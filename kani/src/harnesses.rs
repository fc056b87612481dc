use crate::Src;
use rdf_types::{generator::{self, LocalGenerator}, *};

/// Applies to 0..16 without a loop, to keep the unwinding bound small.
macro_rules! each {
	($i:ident $e:block) => {
		each!($i $e 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
	};
	($i:ident $e:block $($n:literal)*) => {
		$({
			const $i: usize = $n;
			$e
		})*
	};
}
/// An ASCII string of at most `N` bytes.
pub struct Ascii<const N: usize>([u8; N], usize);
impl<const N: usize> Ascii<N> {
	pub fn any<S: Src>(s: &mut S) -> Self {
		let mut b = [0u8; N];
		each!(I {
			if I < N {
				b[I] = s.byte();
				s.assume(b[I] < 128);
			}
		});
		let n = s.below(N as u8 + 1) as usize;
		Self(b, n)
	}
	pub fn str(&self) -> &str {
		unsafe { std::str::from_utf8_unchecked(&self.0[..self.1]) }
	}
}

pub fn any_char<S: Src>(s: &mut S) -> char {
	let c = s.byte() as u32 | (s.byte() as u32) << 8 | (s.byte() as u32) << 16;
	match char::from_u32(c) {
		Some(c) => c,
		None => {
			s.assume(false);
			'a'
		}
	}
}

// --- Blank node labels: the grammar quoted in the documentation.
fn within(c: u32, l: &[(u32, u32)]) -> bool {
	let mut r = false;
	for (a, b) in l {
		r |= *a <= c && c <= *b;
	}
	r
}
const BASE: [(u32, u32); 14] = [
	(0x41, 0x5a), (0x61, 0x7a), (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff),
	(0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd),
	(0x10000, 0xeffff),
];
const MORE: [(u32, u32); 4] = [(0x2d, 0x2d), (0xb7, 0xb7), (0x300, 0x36f), (0x203f, 0x2040)];
fn digit(c: u32) -> bool {
	0x30 <= c && c <= 0x39
}
fn chars_u(c: u32) -> bool {
	c == 0x5f || c == 0x3a || within(c, &BASE)
}
fn chars(c: u32) -> bool {
	chars_u(c) || digit(c) || within(c, &MORE)
}
/// Is this sequence of characters a BLANK_NODE_LABEL?
pub fn is_label(l: &[u32]) -> bool {
	if l.len() < 3 || l[0] != 0x5f || l[1] != 0x3a || !(chars_u(l[2]) || digit(l[2])) {
		return false;
	}
	let mut ok = true;
	for i in 3..l.len() {
		ok &= chars(l[i]) || l[i] == 0x2e;
	}
	ok && l[l.len() - 1] != 0x2e
}
/// For ASCII, without the tables.
pub fn is_ascii_label(l: &[u8]) -> bool {
	let head = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b':';
	if l.len() < 3 || l[0] != b'_' || l[1] != b':' || !head(l[2]) {
		return false;
	}
	let mut ok = true;
	for i in 3..l.len() {
		ok &= head(l[i]) || l[i] == b'-' || l[i] == b'.';
	}
	ok && l[l.len() - 1] != b'.'
}

pub fn blank_ascii<S: Src, const N: usize>(s: &mut S) {
	let a = Ascii::<N>::any(s);
	let ok = is_ascii_label(a.str().as_bytes());
	match BlankId::new(a.str()) {
		Ok(b) => {
			assert!(ok, "accepts only labels of the grammar");
			assert!(b.as_str() == a.str() && b.suffix() == &a.str()[2..], "keeps the text");
		}
		Err(InvalidBlankId(e)) => {
			assert!(!ok, "accepts all labels of the grammar");
			assert!(e == a.str(), "returns the rejected text");
		}
	}
}

pub fn blank_unicode<S: Src, const N: usize>(s: &mut S) {
	let mut l = ['_'; N];
	for c in l.iter_mut() {
		*c = any_char(s);
	}
	let mut buf = [0u8; 16];
	buf[0] = b'_';
	buf[1] = b':';
	let mut n = 2;
	let mut seq = [0u32; 8];
	seq[0] = 0x5f;
	seq[1] = 0x3a;
	for i in 0..N {
		n += l[i].encode_utf8(&mut buf[n..]).len();
		seq[i + 2] = l[i] as u32;
	}
	let text = unsafe { std::str::from_utf8_unchecked(&buf[..n]) };
	assert!(BlankId::new(text).is_ok() == is_label(&seq[..N + 2]), "accepts exactly the labels of the grammar");
}

pub fn blank_owned<S: Src, const N: usize>(s: &mut S) {
	let a = Ascii::<N>::any(s);
	let ok = is_ascii_label(a.str().as_bytes());
	match BlankIdBuf::new(a.str().to_owned()) {
		Ok(b) => {
			assert!(ok, "accepts only labels of the grammar");
			assert!(b.as_str() == a.str(), "keeps the text");
		}
		Err(InvalidBlankId(e)) => {
			assert!(!ok, "accepts all labels of the grammar");
			assert!(e == a.str(), "returns the rejected text");
		}
	}
}

pub fn blank_suffix<S: Src, const N: usize>(s: &mut S) {
	let a = Ascii::<N>::any(s);
	let mut l = [b'_', b':', 0, 0, 0, 0, 0, 0];
	let n = a.str().len();
	each!(I {
		if I < n && I < N {
			l[2 + I] = a.0[I]
		}
	} 0 1 2 3);
	let ok = is_ascii_label(&l[..2 + n]);
	match BlankIdBuf::from_suffix(a.str()) {
		Ok(b) => {
			let b = keep(b);
			assert!(ok, "accepts only labels of the grammar");
			assert!(b.as_str().as_bytes() == &l[..2 + n] && b.suffix() == a.str(), "keeps the text");
		}
		Err(InvalidBlankId(e)) => {
			assert!(!ok, "accepts all labels of the grammar");
			assert!(keep(e).as_bytes() == &l[..2 + n], "returns the rejected text");
		}
	}
}
/// `FromStr` and deserialization validate too.
pub fn blank_parse<S: Src, const N: usize>(s: &mut S, serde: bool) {
	let a = Ascii::<N>::any(s);
	let ok = is_ascii_label(a.str().as_bytes());
	let r = if serde {
		let d: serde::de::value::StrDeserializer<'_, Plain> = serde::de::IntoDeserializer::into_deserializer(a.str());
		<BlankIdBuf as serde::Deserialize>::deserialize(d).ok()
	} else {
		a.str().parse::<BlankIdBuf>().ok()
	};
	match keep(r) {
		Some(b) => {
			assert!(ok, "accepts only labels of the grammar");
			assert!(b.as_str() == a.str(), "keeps the text");
		}
		None => assert!(!ok, "accepts all labels of the grammar"),
	}
}
/// An error without its message.
#[derive(Debug)]
pub struct Plain;
impl std::fmt::Display for Plain {
	fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
		Ok(())
	}
}
impl std::error::Error for Plain {}
impl serde::de::Error for Plain {
	fn custom<T: std::fmt::Display>(_: T) -> Self {
		Plain
	}
}
/// Identifiers made from numbers.
pub fn blank_number<S: Src>(s: &mut S, bits: u32) {
	let n = match bits {
		8 => digits(s, 1),
		_ => digits(s, 2),
	};
	let b = keep(match bits {
		8 => BlankIdBuf::from_u8(n as u8),
		16 => BlankIdBuf::from_u16(n as u16),
		32 => BlankIdBuf::from_u32(n as u32),
		_ => BlankIdBuf::from_u64(n as u64),
	});
	assert!(is_numbered(b.as_str().as_bytes(), b"", n), "the identifier is the number");
}
/// Owned and borrowed identifiers compare by text.
pub fn blank_relations<S: Src>(s: &mut S) {
	let (x, y) = ([b'_', b':', small(s), small(s)], [b'_', b':', small(s), small(s)]);
	let (m, n) = (3 + s.below(2) as usize, 3 + s.below(2) as usize);
	let (p, q) = unsafe { (std::str::from_utf8_unchecked(&x[..m]), std::str::from_utf8_unchecked(&y[..n])) };
	let (a, b) = unsafe { (BlankId::new_unchecked(p), BlankId::new_unchecked(q)) };
	let same = m == n && x[2] == y[2] && (m == 3 || x[3] == y[3]);
	let (c, d) = (keep(a.to_owned()), keep(b.to_owned()));
	assert!((a == b) == same && (*c == *d) == same, "identifiers are equal iff their texts are");
	assert!((*c == *b) == same && (*c == b) == same && (a == *d) == same && (*a == *d) == same && (*a == *q) == same, "owned and borrowed identifiers compare alike");
	let o = x[2].cmp(&y[2]).then(if m > 3 && n > 3 { x[3].cmp(&y[3]) } else { m.cmp(&n) });
	assert!(a.cmp(b) == o && c.cmp(d) == o && a.partial_cmp(b) == Some(o) && c.partial_cmp(d) == Some(o), "identifiers are ordered by text");
}

// --- Literals and terms.
use iref::{Iri, IriBuf};
use langtag::{LangTag, LangTagBuf};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;

/// A letter of either case.
fn letter<S: Src>(s: &mut S) -> u8 {
	let b = s.byte();
	s.assume(b.is_ascii_alphabetic());
	b
}
fn small<S: Src>(s: &mut S) -> u8 {
	let b = s.byte();
	s.assume(b.is_ascii_lowercase());
	b
}
/// A literal type: an IRI `x:?` or a language tag `??`.
#[derive(Clone, Copy)]
pub struct Ty {
	lang: bool,
	b: [u8; 3],
}
impl Ty {
	fn any<S: Src>(s: &mut S) -> Self {
		let lang = s.flip();
		Self::of(s, lang)
	}
	fn of<S: Src>(s: &mut S, lang: bool) -> Self {
		if lang {
			Ty { lang: true, b: [letter(s), letter(s), 0] }
		} else {
			Ty { lang: false, b: [b'x', b':', small(s)] }
		}
	}
	fn text(&self) -> &str {
		unsafe { std::str::from_utf8_unchecked(if self.lang { &self.b[..2] } else { &self.b }) }
	}
	fn iri(&self) -> &Iri {
		unsafe { Iri::new_unchecked(self.text()) }
	}
	fn tag(&self) -> &LangTag {
		unsafe { LangTag::new_unchecked(self.text()) }
	}
	fn r(&self) -> LiteralTypeRef<'_> {
		if self.lang {
			LiteralTypeRef::LangString(self.tag())
		} else {
			LiteralTypeRef::Any(self.iri())
		}
	}
	fn owned(&self) -> LiteralType {
		if self.lang {
			LiteralType::LangString(self.tag().to_owned())
		} else {
			LiteralType::Any(self.iri().to_owned())
		}
	}
	fn cow(&self, own: bool) -> CowLiteralType<'_> {
		match (self.lang, own) {
			(true, true) => CowLiteralType::LangString(Cow::Owned(self.tag().to_owned())),
			(true, false) => CowLiteralType::LangString(Cow::Borrowed(self.tag())),
			(false, true) => CowLiteralType::Any(Cow::Owned(self.iri().to_owned())),
			(false, false) => CowLiteralType::Any(Cow::Borrowed(self.iri())),
		}
	}
	fn same(&self, o: &Ty) -> bool {
		self.lang == o.lang
			&& if self.lang {
				self.b[0].eq_ignore_ascii_case(&o.b[0]) && self.b[1].eq_ignore_ascii_case(&o.b[1])
			} else {
				self.b[2] == o.b[2]
			}
	}
	fn is(&self, t: &LiteralType) -> bool {
		match t {
			LiteralType::Any(i) => !self.lang && i.as_str() == self.text(),
			LiteralType::LangString(l) => self.lang && l.as_str() == self.text(),
		}
	}
	fn is_ref(&self, t: LiteralTypeRef) -> bool {
		match t {
			LiteralTypeRef::Any(i) => !self.lang && i.as_str() == self.text(),
			LiteralTypeRef::LangString(l) => self.lang && l.as_str() == self.text(),
		}
	}
	fn is_cow(&self, t: &CowLiteralType) -> bool {
		match t {
			CowLiteralType::Any(i) => !self.lang && i.as_str() == self.text(),
			CowLiteralType::LangString(l) => self.lang && l.as_str() == self.text(),
		}
	}
}

/// Keeps a value alive: dropping it is not under test.
fn keep<T>(t: T) -> &'static T {
	Box::leak(Box::new(t))
}

/// Records what is hashed.
#[derive(PartialEq)]
pub struct Rec([u8; CAP], usize);
const CAP: usize = 32;
impl Hasher for Rec {
	fn write(&mut self, b: &[u8]) {
		for x in b {
			if self.1 < CAP {
				self.0[self.1] = *x;
			}
			self.1 += 1;
		}
	}
	fn finish(&self) -> u64 {
		0
	}
}
fn rec<T: Hash + ?Sized>(t: &T) -> Rec {
	let mut r = Rec([0; CAP], 0);
	t.hash(&mut r);
	r
}
fn same_hash(a: Rec, b: Rec) -> bool {
	a.1 == b.1 && a.1 < CAP && a.0 == b.0
}

pub fn type_relations<S: Src>(s: &mut S) {
	let (x, y) = (Ty::any(s), Ty::any(s));
	let same = x.same(&y);
	let (a, b) = (keep(x.owned()), keep(y.owned()));
	let (ra, rb) = (x.r(), y.r());
	assert!((*a == *b) == same, "owned types are equal iff same kind and name");
	assert!((ra == rb) == same, "borrowed types are equal iff same kind and name");
	assert!((*a == rb) == same && (ra == *b) == same, "owned and borrowed types compare alike");
	let o = a.cmp(b);
	assert!((o == Ordering::Equal) == same, "order agrees with equality");
	assert!(b.cmp(a) == o.reverse(), "order is antisymmetric");
	assert!(ra.cmp(&rb) == o && (*a).partial_cmp(b) == Some(o) && ra.partial_cmp(&rb) == Some(o), "borrowed types are ordered alike");
	assert!((*a).partial_cmp(&rb) == Some(o) && ra.partial_cmp(b) == Some(o), "owned and borrowed types are ordered alike");
}
pub fn type_cow<S: Src>(s: &mut S) {
	let (x, y) = (Ty::any(s), Ty::any(s));
	let same = x.same(&y);
	let (a, b) = (s.flip(), s.flip());
	let (a, b) = (ManuallyDrop::new(x.cow(a)), ManuallyDrop::new(y.cow(b)));
	assert!((a == b) == same, "copy-on-write types are equal iff same kind and name");
	let o = a.cmp(&b);
	assert!(o == x.r().cmp(&y.r()), "copy-on-write types are ordered like owned ones");
	assert!(a.partial_cmp(&b) == Some(o), "partial order is the order");
}
pub fn type_hash<S: Src>(s: &mut S, lang: bool) {
	let (x, y) = (Ty::of(s, lang), Ty::of(s, lang));
	s.assume(x.same(&y));
	assert!(same_hash(rec(&y.owned()), rec(&x.owned())), "equal types hash alike");
	assert!(same_hash(rec(&y.r()), rec(&x.owned())), "owned and borrowed types hash alike");
}
pub fn type_convert<S: Src>(s: &mut S) {
	let x = Ty::any(s);
	assert!(x.is_ref(x.owned().as_ref()), "borrowing keeps the type");
	assert!(x.is(&x.r().into_owned()), "owning keeps the type");
	assert!(x.is_cow(&x.owned().as_cow()), "copy-on-write borrowing keeps the type");
	assert!(x.is_cow(&x.owned().into_cow()), "copy-on-write owning keeps the type");
	assert!(x.is_cow(&CowLiteralType::from(x.r())), "copy-on-write from a reference keeps the type");
	let own = s.flip();
	assert!(x.is_ref(x.cow(own).as_ref()), "borrowing a copy-on-write type keeps it");
	assert!(x.is(&x.cow(own).into_owned()), "owning a copy-on-write type keeps it");
	assert!(x.is(&LiteralType::from(x.cow(own))), "converting a copy-on-write type keeps it");
	if x.lang {
		let t = x.tag();
		assert!(x.is_cow(&CowLiteralType::from(t)) && x.is_cow(&CowLiteralType::from(t.to_owned())) && x.is_cow(&CowLiteralType::from(Cow::Borrowed(t))), "from a language tag");
	} else {
		let t = x.iri();
		assert!(x.is_cow(&CowLiteralType::from(t)) && x.is_cow(&CowLiteralType::from(t.to_owned())) && x.is_cow(&CowLiteralType::from(Cow::Borrowed(t))), "from an IRI");
	}
}
pub fn type_queries<S: Src>(s: &mut S) {
	let (x, y) = (Ty::any(s), Ty::any(s));
	let (a, r) = (x.owned(), x.r());
	assert!(a.is_lang_string() == x.lang && r.is_lang_string() == x.lang, "is_lang_string");
	assert!(a.lang_tag().map(LangTag::as_str) == x.lang.then_some(x.text()), "lang_tag");
	assert!(r.lang_tag().map(LangTag::as_str) == x.lang.then_some(x.text()), "lang_tag of a reference");
	if !y.lang {
		let e = !x.lang && x.b[2] == y.b[2];
		assert!(a.is_iri(y.iri()) == e && r.is_iri(y.iri()) == e, "is_iri");
	}
}
pub struct Lit<const N: usize> {
	v: Ascii<N>,
	t: Ty,
}
impl<const N: usize> Lit<N> {
	fn any<S: Src>(s: &mut S) -> Self {
		Self { v: Ascii::any(s), t: Ty::any(s) }
	}
	fn owned(&self) -> Literal {
		Literal { value: self.v.str().to_owned(), type_: self.t.owned() }
	}
	fn r(&self) -> LiteralRef<'_> {
		LiteralRef { value: self.v.str(), type_: self.t.r() }
	}
	fn cow(&self, own: bool) -> CowLiteral<'_> {
		CowLiteral {
			value: if own { Cow::Owned(self.v.str().to_owned()) } else { Cow::Borrowed(self.v.str()) },
			type_: self.t.cow(own),
		}
	}
	fn is(&self, l: &Literal) -> bool {
		l.value.as_str() == self.v.str() && self.t.is(&l.type_)
	}
	fn is_ref(&self, l: LiteralRef) -> bool {
		l.value == self.v.str() && self.t.is_ref(l.type_)
	}
	fn is_cow(&self, l: &CowLiteral) -> bool {
		&*l.value == self.v.str() && self.t.is_cow(&l.type_)
	}
	fn same(&self, o: &Self) -> bool {
		self.v.str() == o.v.str() && self.t.same(&o.t)
	}
}
pub fn literal_relations<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (Lit::<N>::any(s), Lit::<N>::any(s));
	let same = x.same(&y);
	let (a, b) = (keep(x.owned()), keep(y.owned()));
	let (ra, rb) = (x.r(), y.r());
	assert!((*a == *b) == same, "literals are equal iff same value and type");
	assert!((ra == rb) == same, "borrowed literals are equal iff same value and type");
	assert!((*a == rb) == same && (ra == *b) == same, "owned and borrowed literals compare alike");
	assert!(equivalent::Equivalent::equivalent(&ra, b) == same, "equivalence is equality");
}
pub fn literal_order<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (Lit::<N>::any(s), Lit::<N>::any(s));
	let same = x.same(&y);
	let (a, b) = (keep(x.owned()), keep(y.owned()));
	let (ra, rb) = (x.r(), y.r());
	let o = a.cmp(b);
	assert!((o == Ordering::Equal) == same, "order agrees with equality");
	assert!(b.cmp(a) == o.reverse(), "order is antisymmetric");
	assert!(ra.cmp(&rb) == o && (*a).partial_cmp(b) == Some(o) && ra.partial_cmp(&rb) == Some(o), "borrowed literals are ordered alike");
	assert!((*a).partial_cmp(&rb) == Some(o) && ra.partial_cmp(b) == Some(o), "owned and borrowed literals are ordered alike");
}
pub fn literal_cow<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (Lit::<N>::any(s), Lit::<N>::any(s));
	let (a, b) = (s.flip(), s.flip());
	let (a, b) = (ManuallyDrop::new(x.cow(a)), ManuallyDrop::new(y.cow(b)));
	assert!((a == b) == x.same(&y), "copy-on-write literals are equal iff same value and type");
	let o = x.r().cmp(&y.r());
	assert!(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), "copy-on-write literals are ordered alike");
}
pub fn literal_hash<S: Src>(s: &mut S, lang: bool) {
	let v = [small(s)];
	let v = unsafe { std::str::from_utf8_unchecked(&v) };
	let (x, y) = (Ty::of(s, lang), Ty::of(s, lang));
	s.assume(x.same(&y));
	let h = rec(&Literal { value: v.to_owned(), type_: x.owned() });
	assert!(same_hash(h, rec(&LiteralRef { value: v, type_: y.r() })), "equal owned and borrowed literals hash alike");
}
pub fn literal_convert<S: Src, const N: usize>(s: &mut S) {
	let x = Lit::<N>::any(s);
	assert!(x.is_ref(x.owned().as_ref()), "borrowing keeps the literal");
	assert!(x.is(&x.r().to_owned()) && x.is(&x.r().cloned()), "owning keeps the literal");
	assert!(x.is_cow(&x.owned().as_cow()), "copy-on-write borrowing keeps the literal");
	assert!(x.is_cow(&x.owned().into_cow()), "copy-on-write owning keeps the literal");
	assert!(x.is_cow(&x.r().into_cow()), "copy-on-write from a reference keeps the literal");
	assert!(x.is_cow(&CowLiteral::from(&x.owned())), "copy-on-write from a literal keeps it");
}
pub fn literal_convert_cow<S: Src, const N: usize>(s: &mut S) {
	let x = Lit::<N>::any(s);
	let own = s.flip();
	assert!(x.is_ref(x.cow(own).as_ref()), "borrowing a copy-on-write literal keeps it");
	assert!(x.is(&x.cow(own).into_owned()), "owning a copy-on-write literal keeps it");
	assert!(x.is(&Literal::new(x.v.str(), x.t.owned())), "building a literal");
	assert!(x.is_cow(&CowLiteral::new(x.v.str(), x.t.r())), "building a copy-on-write literal");
	assert!(x.is_ref(LiteralRef::new(x.v.str(), x.t.r())), "building a literal reference");
}
pub fn literal_queries<S: Src, const N: usize>(s: &mut S) {
	let x = Lit::<N>::any(s);
	let (v, r) = (x.v.str(), x.r());
	let mut a = x.owned();
	assert!(a.as_str() == v && a.as_value() == v && a.as_bytes() == v.as_bytes(), "value accessors");
	assert!(r.as_str() == v && r.as_value() == v && r.as_bytes() == v.as_bytes() && r.into_value() == v, "value accessors of a reference");
	assert!(x.t.is(a.as_type()) && x.t.is_ref(r.as_type()) && x.t.is_ref(r.into_type()), "type accessors");
	assert!(x.t.is(a.as_type_mut()) && a.as_value_mut() == v, "mutable accessors");
	assert!(a.is_lang_string() == x.t.lang && r.is_lang_string() == x.t.lang, "is_lang_string");
	assert!(a.lang_tag().map(LangTag::as_str) == x.t.lang.then_some(x.t.text()), "lang_tag");
	assert!(r.lang_tag().map(LangTag::as_str) == x.t.lang.then_some(x.t.text()), "lang_tag of a reference");
	let (p, q) = r.into_parts();
	assert!(p == v && x.t.is_ref(q), "parts of a reference");
	match s.below(3) {
		0 => assert!(x.t.is(&a.into_type()), "into_type"),
		1 => assert!(a.into_value() == v, "into_value"),
		_ => {
			let (p, q) = a.into_parts();
			assert!(p == v && x.t.is(&q), "into_parts")
		}
	}
}

/// A term: a blank node identifier `_:?`, an IRI `x:?` or a literal.
pub struct T<const N: usize> {
	kind: u8,
	b: [u8; 3],
	l: Lit<N>,
}
impl<const N: usize> T<N> {
	/// `kinds` of: 0 blank node identifier, 1 IRI, 2 literal.
	fn any<S: Src>(s: &mut S, lo: u8, hi: u8) -> Self {
		let kind = lo + s.below(hi - lo);
		let c = small(s);
		T { kind, b: if kind == 0 { [b'_', b':', c] } else { [b'x', b':', c] }, l: Lit::any(s) }
	}
	fn text(&self) -> &str {
		unsafe { std::str::from_utf8_unchecked(&self.b) }
	}
	fn blank(&self) -> &BlankId {
		unsafe { BlankId::new_unchecked(self.text()) }
	}
	fn iri(&self) -> &Iri {
		unsafe { Iri::new_unchecked(self.text()) }
	}
	fn term(&self) -> Term {
		match self.kind {
			1 => Term::Iri(self.iri().to_owned()),
			_ => Term::Literal(self.l.owned()),
		}
	}
	fn term_ref(&self) -> TermRef<'_> {
		match self.kind {
			1 => TermRef::Iri(self.iri()),
			_ => TermRef::Literal(self.l.r()),
		}
	}
	fn term_cow(&self, own: bool) -> CowTerm<'_> {
		match self.kind {
			1 => CowTerm::Iri(if own { Cow::Owned(self.iri().to_owned()) } else { Cow::Borrowed(self.iri()) }),
			_ => CowTerm::Literal(self.l.cow(own)),
		}
	}
	fn local(&self) -> LocalTerm {
		match self.kind {
			0 => LocalTerm::Anonymous(self.blank().to_owned()),
			_ => LocalTerm::Named(self.term()),
		}
	}
	fn local_ref(&self) -> LocalTermRef<'_> {
		match self.kind {
			0 => LocalTermRef::Anonymous(self.blank()),
			_ => LocalTermRef::Named(self.term_ref()),
		}
	}
	fn same(&self, o: &Self) -> bool {
		self.kind == o.kind && if self.kind == 2 { self.l.same(&o.l) } else { self.b[2] == o.b[2] }
	}
	fn is_term(&self, t: &Term) -> bool {
		match t {
			Term::Iri(i) => self.kind == 1 && i.as_str() == self.text(),
			Term::Literal(l) => self.kind == 2 && self.l.is(l),
		}
	}
	fn is_term_ref(&self, t: TermRef) -> bool {
		match t {
			TermRef::Iri(i) => self.kind == 1 && i.as_str() == self.text(),
			TermRef::Literal(l) => self.kind == 2 && self.l.is_ref(l),
		}
	}
	fn is_term_cow(&self, t: &CowTerm) -> bool {
		match t {
			CowTerm::Iri(i) => self.kind == 1 && i.as_str() == self.text(),
			CowTerm::Literal(l) => self.kind == 2 && self.l.is_cow(l),
		}
	}
	fn is_local(&self, t: &LocalTerm) -> bool {
		match t {
			LocalTerm::Anonymous(b) => self.kind == 0 && b.as_str() == self.text(),
			LocalTerm::Named(t) => self.is_term(t),
		}
	}
	fn is_local_ref(&self, t: LocalTermRef) -> bool {
		match t {
			LocalTermRef::Anonymous(b) => self.kind == 0 && b.as_str() == self.text(),
			LocalTermRef::Named(t) => self.is_term_ref(t),
		}
	}
	fn is_local_cow(&self, t: &CowLocalTerm) -> bool {
		match t {
			CowLocalTerm::Anonymous(b) => self.kind == 0 && b.as_str() == self.text(),
			CowLocalTerm::Named(t) => self.is_term_cow(t),
		}
	}
}
pub fn term_relations<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (T::<N>::any(s, 1, 3), T::<N>::any(s, 1, 3));
	let same = x.same(&y);
	let (a, b, ra, rb) = (keep(x.term()), keep(y.term()), x.term_ref(), y.term_ref());
	assert!((*a == *b) == same, "terms are equal iff same kind and contents");
	assert!((ra == rb) == same && (ra == *b) == same, "borrowed terms compare alike");
}
pub fn term_order<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (T::<N>::any(s, 1, 3), T::<N>::any(s, 1, 3));
	let same = x.same(&y);
	let (a, b, ra, rb) = (keep(x.term()), keep(y.term()), x.term_ref(), y.term_ref());
	let o = a.cmp(b);
	assert!((o == Ordering::Equal) == same && b.cmp(a) == o.reverse(), "order of terms agrees with equality");
	assert!((*a).partial_cmp(b) == Some(o) && ra.cmp(&rb) == o && ra.partial_cmp(&rb) == Some(o), "borrowed terms are ordered alike");
	assert!(ra.partial_cmp(b) == Some(o), "owned and borrowed terms are ordered alike");
}
pub fn local_relations<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (T::<N>::any(s, 0, 3), T::<N>::any(s, 0, 3));
	let same = x.same(&y);
	let (a, b, ra, rb) = (keep(x.local()), keep(y.local()), x.local_ref(), y.local_ref());
	assert!((*a == *b) == same, "local terms are equal iff same kind and contents");
	assert!((ra == rb) == same && (ra == *b) == same, "borrowed local terms compare alike");
}
pub fn local_order<S: Src, const N: usize>(s: &mut S) {
	let (x, y) = (T::<N>::any(s, 0, 3), T::<N>::any(s, 0, 3));
	let same = x.same(&y);
	let (a, b, ra, rb) = (keep(x.local()), keep(y.local()), x.local_ref(), y.local_ref());
	let o = a.cmp(b);
	assert!((o == Ordering::Equal) == same && b.cmp(a) == o.reverse(), "order of local terms agrees with equality");
	assert!((*a).partial_cmp(b) == Some(o) && ra.cmp(&rb) == o && ra.partial_cmp(&rb) == Some(o), "borrowed local terms are ordered alike");
	assert!(ra.partial_cmp(b) == Some(o), "owned and borrowed local terms are ordered alike");
}
pub fn hash_blank<S: Src>(s: &mut S) {
	let c = [b'_', b':', small(s)];
	let b = unsafe { BlankId::new_unchecked(std::str::from_utf8_unchecked(&c)) };
	let x = ManuallyDrop::new(LocalTerm::Anonymous(b.to_owned()));
	let y = ManuallyDrop::new(LocalTerm::Anonymous(b.to_owned()));
	assert!(same_hash(rec(&*x), rec(&*y)), "equal local terms hash alike");
}
pub fn hash_blank_ref<S: Src>(s: &mut S) {
	let c = [b'_', b':', small(s)];
	let b = unsafe { BlankId::new_unchecked(std::str::from_utf8_unchecked(&c)) };
	let o = ManuallyDrop::new(b.to_owned());
	assert!(same_hash(rec(b), rec(&*o)), "owned and borrowed blank node identifiers hash alike");
}
pub fn hash_iri<S: Src>(s: &mut S) {
	let c = [b'x', b':', small(s)];
	let i = unsafe { Iri::new_unchecked(std::str::from_utf8_unchecked(&c)) };
	let x = ManuallyDrop::new(Term::Iri(i.to_owned()));
	let y = ManuallyDrop::new(Term::Iri(i.to_owned()));
	assert!(same_hash(rec(&*x), rec(&*y)), "equal terms hash alike");
}
pub fn hash_local_iri<S: Src>(s: &mut S) {
	let c = [b'x', b':', small(s)];
	let i = unsafe { Iri::new_unchecked(std::str::from_utf8_unchecked(&c)) };
	let x = ManuallyDrop::new(LocalTerm::iri(i.to_owned()));
	let y = ManuallyDrop::new(LocalTerm::iri(i.to_owned()));
	assert!(same_hash(rec(&*x), rec(&*y)), "equal local terms hash alike");
}
pub fn hash_literal<S: Src>(s: &mut S, lang: bool) {
	let (t, u) = (Ty::of(s, lang), Ty::of(s, lang));
	s.assume(t.same(&u));
	let make = |t: &Ty| Term::Literal(Literal { value: "v".to_owned(), type_: t.owned() });
	assert!(same_hash(rec(keep(make(&t))), rec(keep(make(&u)))), "equal terms hash alike");
	assert!(same_hash(rec(keep(LocalTerm::Named(make(&t)))), rec(keep(LocalTerm::Named(make(&u))))), "equal local terms hash alike");
}
pub fn term_convert<S: Src, const N: usize>(s: &mut S) {
	let x = T::<N>::any(s, 1, 3);
	let a = keep(x.term());
	assert!(x.is_term_ref(a.as_ref()), "borrowing keeps the term");
	assert!(x.is_term(keep(x.term_ref().to_owned())), "owning keeps the term");
	assert!(x.is_term_cow(keep(a.as_cow())), "copy-on-write borrowing keeps the term");
}
pub fn term_convert_cow<S: Src, const N: usize>(s: &mut S, own: bool) {
	let x = T::<N>::any(s, 1, 3);
	assert!(x.is_term(keep(x.term_cow(own).into_owned())), "owning a copy-on-write term keeps it");
}
pub fn term_into_cow<S: Src, const N: usize>(s: &mut S, own: bool) {
	let x = T::<N>::any(s, 1, 3);
	if own {
		assert!(x.is_term_cow(keep(x.term().into_cow())), "copy-on-write owning keeps the term");
	} else {
		assert!(x.is_term_cow(keep(CowTerm::from(x.term()))), "copy-on-write owning keeps the term");
	}
}
pub fn local_convert<S: Src, const N: usize>(s: &mut S) {
	let x = T::<N>::any(s, 0, 3);
	let a = x.local();
	assert!(x.is_local_ref(a.as_ref()), "borrowing keeps the local term");
	assert!(x.is_local(&x.local_ref().to_owned()), "owning keeps the local term");
	assert!(x.is_local_cow(&a.as_cow()), "copy-on-write borrowing keeps the local term");
	assert!(x.is_local_cow(&if s.flip() { a.into_cow() } else { CowLocalTerm::from(a) }), "copy-on-write owning keeps the local term");
}
pub fn local_build<S: Src, const N: usize>(s: &mut S) {
	let x = T::<N>::any(s, 0, 3);
	match x.kind {
		0 => assert!(x.is_local(&x.blank().to_owned().into()), "from a blank node identifier"),
		1 => assert!(x.is_local(&LocalTerm::iri(x.iri().to_owned())) && x.is_local(&x.iri().to_owned().into()), "from an IRI"),
		_ => assert!(x.is_local(&LocalTerm::literal(x.l.owned())) && x.is_local(&x.l.owned().into()), "from a literal"),
	}
	if x.kind != 0 {
		assert!(x.is_local(&x.term().into()), "from a term");
	}
}
pub fn term_queries<S: Src, const N: usize>(s: &mut S) {
	let x = T::<N>::any(s, 1, 3);
	let (iri, a) = (x.kind == 1, x.term());
	assert!(a.is_iri() == iri && a.is_literal() == !iri, "kind of a term");
	assert!(a.as_iri().map(Iri::as_str) == iri.then_some(x.text()), "as_iri");
	match a.as_literal() {
		Some(l) => assert!(!iri && x.l.is_ref(l), "as_literal"),
		None => assert!(iri, "as_literal"),
	}
	match s.below(4) {
		0 => match a.into_literal() {
			Some(l) => assert!(!iri && x.l.is(&l), "into_literal"),
			None => assert!(iri, "into_literal"),
		},
		1 => match a.try_into_literal() {
			Ok(l) => assert!(!iri && x.l.is(&l), "try_into_literal"),
			Err(i) => assert!(iri && i.as_str() == x.text(), "try_into_literal"),
		},
		2 => match a.try_into_iri() {
			Ok(i) => assert!(iri && i.as_str() == x.text(), "try_into_iri"),
			Err(t) => assert!(!iri && x.is_term(&t), "try_into_iri"),
		},
		_ => match a.into_iri() {
			Some(i) => assert!(iri && i.as_str() == x.text(), "into_iri"),
			None => assert!(!iri, "into_iri"),
		},
	}
}
pub fn local_queries<S: Src, const N: usize>(s: &mut S) {
	let x = T::<N>::any(s, 0, 3);
	let a = x.local();
	assert!(a.is_anonymous() == (x.kind == 0) && a.is_blank_id() == (x.kind == 0), "kind of a local term");
	assert!(a.as_anonymous().map(BlankId::as_str) == (x.kind == 0).then_some(x.text()), "as_anonymous");
	assert!(a.as_blank_id().map(BlankId::as_str) == (x.kind == 0).then_some(x.text()), "as_blank_id");
	assert!(a.as_iri().map(Iri::as_str) == (x.kind == 1).then_some(x.text()), "as_iri");
	match a.as_literal() {
		Some(l) => assert!(x.kind == 2 && x.l.is_ref(l), "as_literal"),
		None => assert!(x.kind != 2, "as_literal"),
	}
}
pub fn ids<S: Src>(s: &mut S) {
	let (x, y) = (T::<1>::any(s, 0, 2), T::<1>::any(s, 0, 2));
	fn id<'a>(x: &'a T<1>) -> IdRef<'a> {
		if x.kind == 0 {
			IdRef::BlankId(x.blank())
		} else {
			IdRef::Iri(x.iri())
		}
	}
	let is = |i: IdRef| match i {
		IdRef::BlankId(b) => x.kind == 0 && b.as_str() == x.text(),
		IdRef::Iri(i) => x.kind == 1 && i.as_str() == x.text(),
	};
	let a = if s.flip() { id(&x).to_owned() } else { id(&x).into_owned() };
	assert!(is(a.as_ref()), "owning and borrowing keep the identifier");
	assert!(a.as_iri().map(Iri::as_str) == (x.kind == 1).then_some(x.text()), "as_iri");
	match a.as_cow() {
		CowId::BlankId(b) => assert!(x.kind == 0 && b.as_str() == x.text(), "copy-on-write borrowing keeps the identifier"),
		CowId::Iri(i) => assert!(x.kind == 1 && i.as_str() == x.text(), "copy-on-write borrowing keeps the identifier"),
	}
	let same = x.kind == y.kind && x.b[2] == y.b[2];
	assert!((id(&x) == id(&y)) == same, "identifiers are equal iff same kind and text");
	let o = id(&x).cmp(&id(&y));
	assert!((o == Ordering::Equal) == same && id(&y).cmp(&id(&x)) == o.reverse() && id(&x).partial_cmp(&id(&y)) == Some(o), "order of identifiers agrees with equality");
}

// --- RDF syntax.
use std::fmt;
/// Collects what is written, in pieces of at most `C` bytes.
pub struct Out<const C: usize> {
	b: [u8; C],
	n: usize,
	bad: bool,
}
impl<const C: usize> Out<C> {
	fn put(&mut self, c: u8) {
		if self.n < C {
			self.b[self.n] = c;
			self.n += 1
		} else {
			self.bad = true
		}
	}
}
impl<const C: usize> fmt::Write for Out<C> {
	fn write_str(&mut self, s: &str) -> fmt::Result {
		let b = s.as_bytes();
		each!(I {
			if I < C && I < b.len() {
				self.put(b[I])
			}
		} 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
		if b.len() > C {
			self.bad = true
		}
		Ok(())
	}
	fn write_char(&mut self, c: char) -> fmt::Result {
		if (c as u32) < 128 {
			self.put(c as u8);
			Ok(())
		} else {
			let mut b = [0; 4];
			let n = c.encode_utf8(&mut b).len();
			each!(I {
				if I < 4 && I < n {
					self.put(b[I])
				}
			} 0 1 2 3);
			Ok(())
		}
	}
}
struct With<F>(F);
impl<F: Fn(&mut fmt::Formatter) -> fmt::Result> fmt::Display for With<F> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		(self.0)(f)
	}
}
/// What `f` writes.
fn output<const C: usize>(f: impl Fn(&mut fmt::Formatter) -> fmt::Result) -> Out<C> {
	let mut o = Out { b: [0; C], n: 0, bad: false };
	#[cfg(kani)]
	let ok = f(&mut fmt::Formatter::new(&mut o, Default::default())).is_ok();
	#[cfg(not(kani))]
	let ok = {
		use fmt::Write;
		write!(o, "{}", With(f)).is_ok()
	};
	o.bad |= !ok;
	o
}
/// Reads N-Triples, comparing it with `v`.
struct Reader<'a> {
	v: &'a [u8],
	/// 0 before the opening quote, 1 inside, 2 after a backslash, 3 in the
	/// digits of an escape, 4 after the closing quote, 5 failed.
	mode: u8,
	k: usize,
	left: u8,
	code: u32,
}
impl Reader<'_> {
	fn got(&mut self, c: u8) {
		self.mode = if self.k < self.v.len() && self.v[self.k] == c { 1 } else { 5 };
		self.k += 1;
	}
	fn step(&mut self, c: u8, tail: &[u8]) {
		match self.mode {
			0 => self.mode = if c == b'"' { 1 } else { 5 },
			1 => match c {
				b'"' => {
					self.mode = if self.k == self.v.len() { 4 } else { 5 };
					self.k = 0
				}
				b'\\' => self.mode = 2,
				b'\n' | b'\r' => self.mode = 5,
				c => self.got(c),
			},
			2 => match c {
				b't' => self.got(9),
				b'b' => self.got(8),
				b'n' => self.got(10),
				b'r' => self.got(13),
				b'f' => self.got(12),
				b'"' | b'\'' | b'\\' => self.got(c),
				b'u' | b'U' => {
					self.mode = 3;
					self.code = 0;
					self.left = if c == b'u' { 4 } else { 8 };
				}
				_ => self.mode = 5,
			},
			3 => {
				let d = match c {
					b'0'..=b'9' => c - b'0',
					b'a'..=b'f' => c - b'a' + 10,
					b'A'..=b'F' => c - b'A' + 10,
					_ => 255,
				};
				self.code = self.code << 4 | (d & 15) as u32;
				self.left -= 1;
				if d == 255 || self.code >= 128 {
					self.mode = 5
				} else if self.left == 0 {
					self.got(self.code as u8)
				}
			}
			4 => {
				self.mode = if self.k < tail.len() && tail[self.k] == c { 4 } else { 5 };
				self.k += 1
			}
			_ => {}
		}
	}
}
/// Is this a quoted string denoting `v`, then `tail`?
fn reads<const C: usize>(o: &Out<C>, v: &[u8], tail: &[u8]) -> bool {
	let mut r = Reader { v, mode: 0, k: 0, left: 0, code: 0 };
	each!(I {
		if I < C && I < o.n {
			r.step(o.b[I], tail)
		}
	});
	!o.bad && r.mode == 4 && r.k == tail.len()
}
fn is_text<const C: usize>(o: &Out<C>, t: &[u8]) -> bool {
	let mut ok = !o.bad && o.n == t.len();
	each!(I {
		ok &= I >= C || I >= t.len() || o.b[I] == t[I]
	});
	ok
}
pub fn show_string<S: Src, const N: usize>(s: &mut S) {
	let v = Ascii::<N>::any(s);
	assert!(reads::<8>(&output(|f| v.str().rdf_fmt(f)), v.str().as_bytes(), b""), "a string reads back");
}
pub fn show_owned<S: Src, const N: usize>(s: &mut S) {
	let v = Ascii::<N>::any(s);
	let t = keep(v.str().to_owned());
	assert!(reads::<8>(&output(|f| t.rdf_fmt(f)), v.str().as_bytes(), b""), "an owned string reads back");
}
pub fn show_char<S: Src>(s: &mut S) {
	let mut b = [0; 4];
	let t: &str = any_char(s).encode_utf8(&mut b);
	assert!(reads::<8>(&output(|f| t.rdf_fmt(f)), t.as_bytes(), b""), "any character reads back");
}
fn iri_char<S: Src>(s: &mut S) -> u8 {
	let c = s.byte();
	s.assume(c > 32 && c < 127 && !matches!(c, b'<' | b'>' | b'"' | b'{' | b'}' | b'|' | b'^' | b'`' | b'\\'));
	c
}
pub fn show_iri<S: Src>(s: &mut S, how: u8) {
	let b = [b'<', b'x', b':', iri_char(s), iri_char(s), b'>'];
	let i = unsafe { Iri::new_unchecked(std::str::from_utf8_unchecked(&b[1..5])) };
	let o = match how {
		0 => output::<8>(|f| i.rdf_fmt(f)),
		1 => output(|f| i.as_iri_ref().rdf_fmt(f)),
		_ => {
			let i = keep(i.to_owned());
			output(|f| i.rdf_fmt(f))
		}
	};
	assert!(is_text(&o, &b), "an IRI is its text between angle brackets");
}
pub fn show_names<S: Src>(s: &mut S) {
	let b = [b'_', b':', small(s)];
	let i = unsafe { BlankId::new_unchecked(std::str::from_utf8_unchecked(&b)) };
	let own = keep(i.to_owned());
	assert!(is_text::<8>(&if s.flip() { output(|f| i.rdf_fmt(f)) } else { output(|f| own.rdf_fmt(f)) }, &b), "a blank node identifier is its text");
	let b = [letter(s), letter(s)];
	let i = unsafe { LangTag::new_unchecked(std::str::from_utf8_unchecked(&b)) };
	let own = keep(i.to_owned());
	assert!(is_text::<8>(&if s.flip() { output(|f| i.rdf_fmt(f)) } else { output(|f| own.rdf_fmt(f)) }, &b), "a language tag is its text");
}
/// Stands in for `is_xsd_string`, whose constant Kani cannot encode. The only
/// IRI of this length in these harnesses is that of `xsd:string`.
const XSD: &str = "http://www.w3.org/2001/XMLSchema#string";
pub fn is_xsd_string(t: &LiteralType) -> bool {
	matches!(t, LiteralType::Any(i) if i.as_str().len() == XSD.len())
}
pub fn is_xsd_string_ref<'a>(t: &LiteralTypeRef<'a>) -> bool
where
	'a: 'a,
{
	matches!(t, LiteralTypeRef::Any(i) if i.as_str().len() == XSD.len())
}
fn tail<'a>(t: &Ty, b: &'a mut [u8; 8]) -> &'a [u8] {
	if t.lang {
		*b = [b'@', t.b[0], t.b[1], 0, 0, 0, 0, 0];
		&b[..3]
	} else {
		*b = [b'^', b'^', b'<', b'x', b':', t.b[2], b'>', 0];
		&b[..7]
	}
}
pub fn show_type<S: Src>(s: &mut S, lang: bool) {
	let t = Ty::of(s, lang);
	let o = if s.flip() {
		let o = keep(t.owned());
		output::<8>(|f| o.rdf_fmt(f))
	} else {
		output(|f| t.r().rdf_fmt(f))
	};
	assert!(is_text(&o, tail(&t, &mut [0; 8])), "a literal type is its suffix");
}
/// What a literal displays as: 0 borrowed, 1 borrowed with `Display`, 2 owned,
/// 3 owned with `Display`, 4 as a term, 5 as a local term.
fn shown(v: &str, t: LiteralTypeRef, owned: impl FnOnce() -> LiteralType, how: u8) -> Out<16> {
	let l = LiteralRef { value: v, type_: t };
	let own = || Literal { value: v.to_owned(), type_: owned() };
	match how {
		0 => output(|f| l.rdf_fmt(f)),
		1 => output(|f| fmt::Display::fmt(&l, f)),
		2 => {
			let o = keep(own());
			output(|f| o.rdf_fmt(f))
		}
		3 => {
			let o = keep(own());
			output(|f| fmt::Display::fmt(o, f))
		}
		4 => {
			let o = keep(Term::Literal(own()));
			output(|f| o.rdf_fmt(f))
		}
		_ => {
			let o = keep(LocalTerm::Named(Term::Literal(own())));
			output(|f| o.rdf_fmt(f))
		}
	}
}
pub fn show_literal<S: Src>(s: &mut S, lang: bool, how: u8) {
	let (v, t) = (Ascii::<1>::any(s), Ty::of(s, lang));
	let o = shown(v.str(), t.r(), || t.owned(), how);
	assert!(reads(&o, v.str().as_bytes(), tail(&t, &mut [0; 8])), "a literal reads back");
}
pub fn show_plain<S: Src>(s: &mut S, how: u8) {
	let v = Ascii::<1>::any(s);
	let i = unsafe { Iri::new_unchecked(XSD) };
	let o = shown(v.str(), LiteralTypeRef::Any(i), || LiteralType::Any(i.to_owned()), how);
	assert!(reads(&o, v.str().as_bytes(), b""), "a string literal reads back without its type");
}
pub fn show_iri_term<S: Src>(s: &mut S, local: bool) {
	let b = [b'<', b'x', b':', small(s), b'>'];
	let i = unsafe { Iri::new_unchecked(std::str::from_utf8_unchecked(&b[1..4])) };
	let o = if local {
		let t = keep(LocalTerm::Named(Term::Iri(i.to_owned())));
		output::<16>(|f| t.rdf_fmt(f))
	} else {
		let t = keep(Term::Iri(i.to_owned()));
		output(|f| t.rdf_fmt(f))
	};
	assert!(is_text(&o, &b), "an IRI is its text between angle brackets");
}
pub fn show_blank_term<S: Src>(s: &mut S) {
	let b = [b'_', b':', small(s)];
	let i = unsafe { BlankId::new_unchecked(std::str::from_utf8_unchecked(&b)) };
	let t = keep(LocalTerm::Anonymous(i.to_owned()));
	assert!(is_text::<8>(&output(|f| t.rdf_fmt(f)), &b), "a blank node identifier is its text");
}

// --- Generated identifiers.
/// Stands in for `std::fmt::format`: same text, without growing the buffer.
pub fn format(a: fmt::Arguments<'_>) -> String {
	let mut o = Out::<24> { b: [0; 24], n: 0, bad: false };
	let ok = fmt::Write::write_fmt(&mut o, a).is_ok();
	assert!(ok && !o.bad, "beyond the encoding");
	let mut v = Vec::from(o.b);
	unsafe { v.set_len(o.n) };
	unsafe { String::from_utf8_unchecked(v) }
}
/// Stand in for the growth of strings: one buffer of a fixed capacity.
pub fn string_with_capacity(_: usize) -> String {
	let mut v = Vec::from([0u8; 24]);
	unsafe { v.set_len(0) };
	unsafe { String::from_utf8_unchecked(v) }
}
pub fn string_push(s: &mut String, c: char) {
	let mut b = [0; 4];
	string_push_str(s, c.encode_utf8(&mut b))
}
pub fn string_push_str(s: &mut String, t: &str) {
	let (n, m) = (s.len(), t.len());
	if s.capacity() < 24 {
		let mut v = string_with_capacity(24);
		copy(unsafe { v.as_mut_vec() }, 0, s.as_bytes());
		unsafe { v.as_mut_vec().set_len(n) };
		std::mem::forget(std::mem::replace(s, v));
	}
	assert!(n + m <= s.capacity(), "beyond the encoding");
	let v = unsafe { s.as_mut_vec() };
	copy(v, n, t.as_bytes());
	unsafe { v.set_len(n + m) };
}
fn copy(v: &mut Vec<u8>, at: usize, b: &[u8]) {
	let p = v.as_mut_ptr();
	each!(I {
		if I < b.len() {
			unsafe { *p.add(at + I) = b[I] }
		}
	} 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
}
/// Is this `_:`, then `p`, then `n` in decimal?
fn is_numbered(t: &[u8], p: &[u8], n: usize) -> bool {
	let mut ok = t.len() > 2 + p.len() && t[0] == b'_' && t[1] == b':';
	let mut v = 0usize;
	each!(I {
		if I >= 2 && I < t.len() {
			if I - 2 < p.len() {
				ok &= t[I] == p[I - 2]
			} else {
				ok &= t[I].is_ascii_digit();
				v = v * 10 + (t[I] & 15) as usize;
			}
		}
	});
	ok && v == n && (t[2 + p.len()] != b'0' || t.len() == 3 + p.len())
}
fn digits<S: Src>(s: &mut S, bytes: u32) -> usize {
	let mut n = s.byte() as usize;
	if bytes > 1 {
		n |= (s.byte() as usize) << 8
	}
	if bytes > 2 {
		n |= (s.byte() as usize) << 16 | (s.byte() as usize) << 24
	}
	n
}
/// Numbers where widths or numbers of digits change.
pub fn number_wide<S: Src>(s: &mut S, head: &'static str, base: u64, span: u8) {
	let k = s.below(span);
	let n = base + k as u64;
	let b = keep(if base < 1 << 32 && n < 1 << 32 && s.flip() { BlankIdBuf::from_u32(n as u32) } else { BlankIdBuf::from_u64(n) });
	assert!(ends_numbered(b.as_str().as_bytes(), head.as_bytes(), k), "the identifier is the number");
}
/// Is this `_:`, then `h`, then the digit `k`?
fn ends_numbered(t: &[u8], h: &[u8], k: u8) -> bool {
	if t.len() != h.len() + 3 || t[0] != b'_' || t[1] != b':' {
		return false;
	}
	let mut ok = t[h.len() + 2] == b'0' + k;
	each!(I {
		if I < h.len() {
			ok &= t[I + 2] == h[I]
		}
	} 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18);
	ok
}
/// Steps around counts where widths or numbers of digits change.
pub fn generator_wide<S: Src>(s: &mut S, head: &'static str, base: usize, span: u8, term: bool) {
	let k = s.below(span);
	let n = base + k as usize;
	let g = Box::leak(Box::new(generator::Blank::new_full(String::new(), n)));
	let b = if term {
		match keep(g.next_local_term()) {
			LocalTerm::Anonymous(b) => &**b,
			_ => return assert!(false, "generates blank node identifiers"),
		}
	} else {
		&**keep(g.next_blank_id())
	};
	assert!(ends_numbered(b.as_str().as_bytes(), head.as_bytes(), k), "the identifier is numbered");
	assert!(g.count() == n + 1, "counts");
}
/// One step from any count; `new_full` reaches them all.
pub fn generator<S: Src>(s: &mut S, prefix: usize, term: bool, bytes: u32) {
	let p = [small(s), small(s), small(s)];
	let p = &p[..prefix];
	let n = digits(s, bytes);
	let g = Box::leak(Box::new(generator::Blank::new_full(unsafe { String::from_utf8_unchecked(p.to_vec()) }, n)));
	assert!(g.count() == n && g.prefix().as_bytes() == p, "starts at the offset");
	if term {
		match keep(g.next_local_term()) {
			LocalTerm::Anonymous(b) => assert!(is_numbered(b.as_str().as_bytes(), p, n), "the identifier is numbered"),
			_ => assert!(false, "generates blank node identifiers"),
		}
	} else {
		assert!(is_numbered(keep(g.next_blank_id()).as_str().as_bytes(), p, n), "the identifier is numbered");
	}
	assert!(g.count() == n + 1 && g.prefix().as_bytes() == p, "counts");
}
