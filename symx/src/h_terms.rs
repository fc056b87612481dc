//! Containers of lexical terms. The terms are chosen symbolically from a
//! small universe of confusable ones (see `h_interp::term`).
use crate::engine::*;
use crate::h_interp::{key, term, UNIVERSE};
use rdf_types::dataset::isomorphism::*;
use rdf_types::dataset::*;
use rdf_types::{
	BlankIdBuf, Id, IdRef, LexicalTriple, LiteralType, LocalTerm, Quad, RdfDisplay, RdfQuad, Term, Triple,
};
use std::collections::BTreeSet;

type T = LocalTerm;
type K = (String, String, String, Option<String>);

fn any() -> T {
	term(choice(UNIVERSE))
}
fn graph() -> Option<T> {
	match choice(UNIVERSE + 1) {
		0 => None,
		i => Some(term(i - 1)),
	}
}
fn kq(q: &Quad<T>) -> K {
	(key(&q.0), key(&q.1), key(&q.2), q.3.as_ref().map(key))
}
fn kt(q: &Triple<T>) -> K {
	(key(&q.0), key(&q.1), key(&q.2), None)
}
/// A quad with two symbolic components.
fn quad() -> Quad<T> {
	match choice(3) {
		0 => Quad(any(), term(0), any(), None),
		1 => Quad(term(6), any(), term(3), graph()),
		_ => Quad(term(0), term(8), any(), graph()),
	}
}

/// Round trip of a container of terms through its serialized form.
pub fn serde_terms<R: Val>() {
	let fixed = Quad(term(6), term(0), term(2), Some(term(7)));
	let q = quad();
	let want: BTreeSet<K> = [kq(&fixed), kq(&q)].into();
	let want3: BTreeSet<K> = want.iter().map(|q| (q.0.clone(), q.1.clone(), q.2.clone(), None)).collect();
	let l = [fixed, q];
	macro_rules! go {
		($c:ty, $l:expr, $k:expr, $want:expr) => {{
			let d: $c = $l.collect();
			let text = serde_json::to_string(&d).unwrap();
			match serde_json::from_str::<$c>(&text) {
				Err(_) => check_b("deserializes what was serialized", false),
				Ok(e) => {
					check_b("the deserialized container has the same terms", e.iter().map(|q| $k(&q.cloned())).collect::<BTreeSet<K>>() == $want);
					check_b("and is equal", d == e && d.len() == e.len());
				}
			}
		}};
	}
	let triples = || l.iter().map(|q| q.clone().into_triple().0);
	match choice(4) {
		0 => go!(BTreeDataset, l.iter().cloned(), kq, want),
		1 => go!(IndexedBTreeDataset, l.iter().cloned(), kq, want),
		2 => go!(BTreeGraph, triples(), kt, want3),
		_ => go!(IndexedBTreeGraph, triples(), kt, want3),
	}
}

/// Indexing a dataset of terms through `From`.
pub fn index_terms<R: Val>() {
	let fixed = Quad(term(6), term(0), term(2), Some(term(7)));
	let q = quad();
	let want: BTreeSet<K> = [kq(&fixed), kq(&q)].into();
	let mut d = BTreeDataset::<T>::new();
	d.insert(fixed);
	d.insert(q.clone());
	let mut i: IndexedBTreeDataset = d.into();
	check_b("the same quads", i.iter().map(|q| kq(&q.cloned())).collect::<BTreeSet<K>>() == want);
	let role = |l: Vec<&T>| l.into_iter().map(key).collect::<BTreeSet<_>>();
	check_b("subjects", role(i.subjects().collect()) == want.iter().map(|q| q.0.clone()).collect());
	check_b("predicates", role(i.predicates().collect()) == want.iter().map(|q| q.1.clone()).collect());
	check_b("objects", role(i.objects().collect()) == want.iter().map(|q| q.2.clone()).collect());
	check_b("named graphs", role(i.named_graphs().collect()) == want.iter().filter_map(|q| q.3.clone()).collect());
	check_b("a quad of the result can be removed", i.remove(q.as_ref()) && !i.contains(q.as_ref()));
}

/// A term as RDF syntax.
fn rdf(t: &T) -> String {
	match t {
		LocalTerm::Anonymous(b) => b.as_str().to_owned(),
		LocalTerm::Named(Term::Iri(i)) => format!("<{}>", i.as_str()),
		LocalTerm::Named(Term::Literal(l)) => match &l.type_ {
			LiteralType::Any(i) if i.as_str() == "http://www.w3.org/2001/XMLSchema#string" => format!("\"{}\"", l.value),
			LiteralType::Any(i) => format!("\"{}\"^^<{}>", l.value, i.as_str()),
			LiteralType::LangString(t) => format!("\"{}\"@{}", l.value, t.as_str()),
		},
	}
}

/// Containers of terms are displayed in RDF syntax.
pub fn display_terms<R: Val>() {
	let q = quad();
	let l = [Quad(term(6), term(0), term(2), Some(term(7))), q];
	let line = |s: &T, p: &T, o: &T, g: Option<&T>| {
		let mut t = format!("{} {} {}", rdf(s), rdf(p), rdf(o));
		if let Some(g) = g {
			t += " ";
			t += &rdf(g);
		}
		t + " ."
	};
	let quads: BTreeSet<String> = l.iter().map(|q| line(&q.0, &q.1, &q.2, q.3.as_ref())).collect();
	let triples: BTreeSet<String> = l.iter().map(|q| line(&q.0, &q.1, &q.2, None)).collect();
	macro_rules! go {
		($c:ty, $l:expr, $want:expr) => {{
			let d: $c = $l.collect();
			let text = d.rdf_display().to_string();
			check_b("one line per element", text.lines().count() == d.len());
			check_b("the elements in RDF syntax", text.lines().map(|l| l.to_owned()).collect::<BTreeSet<String>>() == $want);
		}};
	}
	let t = || l.iter().map(|q| q.clone().into_triple().0);
	match choice(4) {
		0 => go!(BTreeDataset, l.iter().cloned(), quads),
		1 => go!(IndexedBTreeDataset, l.iter().cloned(), quads),
		2 => go!(BTreeGraph, t(), triples),
		_ => go!(IndexedBTreeGraph, t(), triples),
	}
}

/// Blank nodes `_:b0`, `_:b1`, ... and confusable named terms.
fn node(i: usize) -> T {
	match i {
		0..=2 => LocalTerm::Anonymous(BlankIdBuf::new(format!("_:b{i}")).unwrap()),
		3 => term(0),
		4 => term(2),
		5 => term(3),
		_ => term(4),
	}
}
const NODES: usize = 7;
fn any_node() -> usize {
	choice(NODES)
}
fn dataset<C: FromIterator<Quad<T>>>(l: &[[usize; 2]]) -> C {
	l.iter().map(|x| Quad(node(x[0]), term(8), node(x[1]), if x[0] == x[1] { Some(node(x[0])) } else { None })).collect()
}
const PERMS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
fn under(p: &[usize; 3], l: &[[usize; 2]]) -> BTreeSet<[usize; 2]> {
	let f = |x: usize| if x < 3 { p[x] } else { x };
	l.iter().map(|x| [f(x[0]), f(x[1])]).collect()
}

/// Isomorphism of lexical datasets: found exactly when there is one, and real.
pub fn lexical_isomorphism<R: Val>(n: usize) {
	let (a, c) = match n {
		1 => (vec![[any_node(), any_node()]], vec![[any_node(), any_node()]]),
		2 => (vec![[any_node(), 1], [0, any_node()]], vec![[any_node(), any_node()], [any_node(), 0]]),
		_ => (
			vec![[any_node(), 1], [0, any_node()], [1, 2]],
			vec![[any_node(), any_node()], [any_node(), 0], [2, any_node()]],
		),
	};
	let (da, dc): (BTreeDataset, IndexedBTreeDataset) = (dataset(&a), dataset(&c));
	let exists = PERMS.iter().any(|p| under(p, &a) == under(&PERMS[0], &c));
	if exists {
		cover("isomorphic");
	} else {
		cover("not isomorphic");
	}
	check_b("are_isomorphic iff some renaming of blank nodes maps one to the other", are_isomorphic(&da, &dc) == exists);
	match find_bijection(&da, &dc) {
		None => check_b("a bijection is found if there is one", !exists),
		Some(s) => {
			check_b("a bijection maps blank nodes to blank nodes", s.forward.iter().all(|(x, y)| {
				matches!(x, LocalTerm::Anonymous(_)) && matches!(y, LocalTerm::Anonymous(_))
			}));
			let image = |t: &T| match s.forward.get(t) {
				Some(u) => key(u),
				None => key(t),
			};
			let i: BTreeSet<K> = da.iter().map(|q| (image(q.0), image(q.1), image(q.2), q.3.map(image))).collect();
			let w: BTreeSet<K> = dc.iter().map(|q| kq(&q.cloned())).collect();
			check_b("the image of the first dataset is the second one", i == w);
		}
	}
}

fn any_id() -> Id {
	match choice(4) {
		0 => Id::BlankId(BlankIdBuf::new("_:a".to_owned()).unwrap()),
		1 => Id::BlankId(BlankIdBuf::new("_:b".to_owned()).unwrap()),
		2 => Id::Iri(crate::h_interp::iri("x:a")),
		_ => Id::Iri(crate::h_interp::iri("y:a")),
	}
}
fn key_id(i: &Id) -> String {
	key_id_ref(match i {
		Id::BlankId(b) => IdRef::BlankId(b),
		Id::Iri(i) => IdRef::Iri(i),
	})
}
fn key_id_ref(i: IdRef) -> String {
	match i {
		IdRef::BlankId(b) => format!("blank {}", b.as_str()),
		IdRef::Iri(i) => format!("iri {}", i.as_str()),
	}
}

/// Borrowing and owning lexical triples and quads.
pub fn lexical<R: Val>() {
	let (s, p, o) = (any_id(), crate::h_interp::iri(if flip() { "x:a" } else { "x:b" }), any());
	let g = if flip() { Some(any_id()) } else { None };
	let want = (key_id(&s), p.as_str().to_owned(), key(&o), g.as_ref().map(key_id));
	let own = |i: IdRef| key_id_ref(i);
	match choice(2) {
		0 => {
			let t: LexicalTriple = Triple(s, p, o);
			let r = t.as_lexical_triple_ref();
			check_b(
				"borrowing keeps every component",
				own(r.0) == want.0 && r.1.as_str() == want.1 && key(&r.2.to_owned()) == want.2,
			);
			let t = r.into_owned();
			check_b("owning keeps every component", key_id(&t.0) == want.0 && t.1.as_str() == want.1 && key(&t.2) == want.2);
		}
		_ => {
			let q: RdfQuad = Quad(s, p, o, g);
			let r = q.as_lexical_quad_ref();
			check_b(
				"borrowing keeps every component",
				own(r.0) == want.0 && r.1.as_str() == want.1 && key(&r.2.to_owned()) == want.2 && r.3.map(own) == want.3,
			);
			let q = r.into_owned();
			check_b(
				"owning keeps every component",
				key_id(&q.0) == want.0
					&& q.1.as_str() == want.1
					&& key(&q.2) == want.2
					&& q.3.as_ref().map(key_id) == want.3,
			);
		}
	}
}

/// A generator, from any of its constructors, around widths of its counter
/// and up to its exhaustion: identifiers are numbered one after the other,
/// then refused, never repeated.
pub fn numbering<R: Val>() {
	use rdf_types::generator::Blank;
	use rdf_types::LocalGenerator;
	let prefix = ["", "p", "b9", "x-"][choice(4)];
	let start = match choice(8) {
		0 => 0,
		1 => 9,
		2 => 98,
		3 => 254,
		4 => 65534,
		5 => u32::MAX as usize - 1,
		6 => i64::MAX as usize - 1,
		_ => usize::MAX - 1,
	};
	let mut g = match (prefix, start) {
		("", 0) if flip() => Blank::new(),
		("", 0) if flip() => Blank::default(),
		("", n) if flip() => Blank::new_with_offset(n),
		(p, 0) if flip() => Blank::new_with_prefix(p.to_owned()),
		(p, n) => Blank::new_full(p.to_owned(), n),
	};
	check_b("starts where asked", g.prefix() == prefix && g.count() == start);
	let local = flip();
	for i in 0..3 {
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
			if local {
				key(&g.next_local_term())
			} else {
				key(&LocalTerm::Anonymous(g.next_blank_id()))
			}
		}));
		match r {
			Ok(k) => check_b("identifiers are numbered in sequence", k == format!("blank _:{prefix}{}", start as u128 + i)),
			Err(_) => {
				cover("exhausted");
				check_b("generation fails only when the counter is exhausted", start as u128 + i >= usize::MAX as u128);
				return;
			}
		}
		check_b("the count is the number of the next identifier", g.count() as u128 == start as u128 + i + 1 && g.prefix() == prefix);
	}
	check_b("an exhausted generator fails", start < usize::MAX - 1);
}
