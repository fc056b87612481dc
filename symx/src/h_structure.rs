//! Conversions between containers, equality/order/hash, bulk construction,
//! serialization.
use crate::engine::*;
use crate::h_containers::load;
use crate::h_pattern::ops;
use crate::spec::*;
use crate::store::*;
use rdf_types::dataset::*;
use std::cmp::Ordering;

/// Building the indexed container from the plain one, then using it.
pub fn index_dataset<R: Val>(k: usize, n: usize, m: usize, lo: i64, hi: i64) {
	let mut t = load::<R, BTreeDataset<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let s = if flip() { t.s.into_indexed() } else { IndexedBTreeDataset::from_non_indexed(t.s) };
	let mut u = Tracked::<R, IndexedBTreeDataset<R>>::with(s, t.h);
	ops(&mut u, m, lo, hi, true);
	after(&u, lo, hi);
}
pub fn index_graph<R: Val>(k: usize, n: usize, m: usize, lo: i64, hi: i64) {
	let mut t = load::<R, BTreeGraph<R>>(k);
	ops(&mut t, n, lo, hi, true);
	let s: IndexedBTreeGraph<R> = match choice(3) {
		0 => IndexedBTreeGraph::from_non_indexed(t.s),
		1 => t.s.into_indexed(),
		_ => t.s.into(),
	};
	let mut u = Tracked::<R, IndexedBTreeGraph<R>>::with(s, t.h);
	ops(&mut u, m, lo, hi, true);
	if flip() {
		u.observe();
	} else {
		let p: Pat<R> = Pat { s: Slot::Any, p: Slot::Any, o: Slot::Given(sym(lo, hi)), g: Slot::Any };
		let pr = Pat { s: Slot::Any, p: Slot::Any, o: crate::h_pattern::refs(&p.o), g: Slot::Any };
		let items: Vec<SQ> = u.s.pattern_matching(triple_pattern(pr)).map(str_).collect();
		check("pattern matching after indexing", enumerates(&items, &u.h, false, &|q| pat_accepts(&p, q)));
	}
}

fn after<R: Val>(u: &Tracked<R, IndexedBTreeDataset<R>>, lo: i64, hi: i64) {
	match choice(5) {
		0 => u.observe(),
		i => {
			let x: R = sym(lo, hi);
			let mut p: Pat<R> = Pat { s: Slot::Any, p: Slot::Any, o: Slot::Any, g: Slot::Any };
			match i {
				1 => p.s = Slot::Given(x),
				2 => p.p = Slot::Given(x),
				3 => p.o = Slot::Given(x),
				_ => p.g = Slot::Given(if flip() { Some(x) } else { None }),
			}
			let c = quad_pattern(p.map(|r| r));
			let items: Vec<SQ> = u.s.pattern_matching(c.as_ref()).map(sqr).collect();
			check("pattern matching after indexing", enumerates(&items, &u.h, false, &|q| pat_accepts(&p, q)));
		}
	}
}

/// Equality, order and hash depend on the elements only, not on the history.
pub fn extensional<R: Val, S: Store<R>>(k1: usize, k2: usize, n: usize, m: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k1);
	ops(&mut t, n, lo, hi, true);
	let mut u = load::<R, S>(k2);
	ops(&mut u, m, lo, hi, true);
	relate(&t, &u);
}

fn relate<R: Val, S: Store<R>>(t: &Tracked<R, S>, u: &Tracked<R, S>) {
	let same = t.h.same(&u.h);
	match choice(4) {
		0 => {
			let r = t.s == u.s;
			if r {
				cover("equal containers");
			} else {
				cover("different containers");
			}
			check("equal iff same elements", iff(b(r), same));
		}
		1 => {
			let o = t.s.cmp(&u.s);
			let (x, y) = (t.s.items(), u.s.items());
			check("cmp is the lexicographic order of the sorted elements", match o {
				Ordering::Less => seq_lt(&x, &y),
				Ordering::Equal => and(vec![same, seq_eq(&x, &y)]),
				Ordering::Greater => seq_lt(&y, &x),
			});
		}
		2 => {
			let o = t.s.partial_cmp(&u.s);
			let (x, y) = (t.s.items(), u.s.items());
			check("partial_cmp agrees with the order", match o {
				Some(Ordering::Less) => seq_lt(&x, &y),
				Some(Ordering::Equal) => and(vec![same, seq_eq(&x, &y)]),
				Some(Ordering::Greater) => seq_lt(&y, &x),
				None => f(),
			});
		}
		_ => {
			let (x, y) = (hash_stream(&t.s), hash_stream(&u.s));
			check("same elements, same hash", implies(same, streams_eq(&x, &y)));
		}
	}
}

/// The same elements inserted in another order, with some others inserted and
/// removed again, possibly over slots vacated earlier.
pub fn permuted<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(0);
	let mut u = load::<R, S>(k);
	let old: Vec<SQ> = u.s.items();
	let mut qs: Vec<SQ> = (0..n).map(|_| sym_quad::<R, S>(lo, hi)).collect();
	for q in &qs {
		t.ins(*q);
	}
	let extra = if flip() { Some(sym_quad::<R, S>(lo, hi)) } else { None };
	if let Some(q) = extra {
		u.ins(q);
	}
	while !qs.is_empty() {
		let q = qs.remove(choice(qs.len()));
		u.ins(q);
	}
	for q in old.into_iter().chain(extra) {
		u.rem(q);
	}
	relate(&t, &u);
}

/// A clone has the same elements and does not share state.
pub fn clones<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k);
	ops(&mut t, n, lo, hi, true);
	let mut u = Tracked::<R, S>::with(t.s.clone(), t.h.clone());
	check_b("clone is equal", u.s == t.s);
	let q = sym_quad::<R, S>(lo, hi);
	let in_clone = flip();
	let del = flip();
	{
		let x = if in_clone { &mut u } else { &mut t };
		if del {
			x.rem(q)
		} else {
			x.ins(q)
		}
	}
	t.observe();
	u.observe();
}

/// `extend`, `collect`, trait-level mutation and the consuming/borrowing
/// iterators agree with element-wise insertion.
pub fn bulk<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k);
	match choice(7) {
		0 => {
			let qs: Vec<SQ> = (0..n).map(|_| sym_quad::<R, S>(lo, hi)).collect();
			t.s.ext(&qs);
			for q in qs {
				t.h.ins(q);
			}
			t.observe();
		}
		1 => {
			let mut h = Hist::default();
			let mut qs: Vec<SQ> = (0..n).map(|_| sym_quad::<R, S>(lo, hi)).collect();
			qs.extend(t.s.items());
			let s = S::collect(&qs);
			for q in qs {
				h.ins(q);
			}
			Tracked::<R, S>::with(s, h).observe();
		}
		2 => {
			for i in 0..n {
				let q = sym_quad::<R, S>(lo, hi);
				if i % 2 == 0 {
					t.s.t_ins(q);
				} else {
					t.s.t_try_ins(q);
				}
				t.h.ins(q);
			}
			t.observe();
		}
		3 => {
			let q = sym_quad::<R, S>(lo, hi);
			t.s.t_try_ins(q);
			t.h.ins(q);
			t.observe();
		}
		4 => {
			let q = sym_quad::<R, S>(lo, hi);
			t.ins(q);
			let q = sym_quad::<R, S>(lo, hi);
			t.s.t_rem(q);
			t.h.rem(q);
			t.observe();
		}
		5 => {
			ops(&mut t, n, lo, hi, true);
			let l = t.s.ref_items();
			check("borrowing iteration", enumerates(&l, &t.h, true, &|_| crate::engine::t()));
			let (l, c) = t.s.t_items();
			check("trait-level iteration", enumerates(&l, &t.h, true, &|_| crate::engine::t()));
			check_b("trait-level count", c == l.len());
			let l = t.s.try_items();
			check("fallible iteration", enumerates(&l, &t.h, true, &|_| crate::engine::t()));
			for v in t.s.t_views() {
				check(v.name, enumerates_roles(&v.items, &t.h, v.sorted, v.roles));
				check_b("trait-level resource count", v.count == v.items.len());
			}
			let h = t.h.clone();
			let l = t.s.into_items();
			check("consuming iteration", enumerates(&l, &h, true, &|_| crate::engine::t()));
		}
		_ => {
			let d = S::default();
			check_b("the default container is empty", d.empty() && d.len() == 0 && d.items().is_empty());
		}
	}
}

/// JSON round trip of the containers.
pub fn serde_container<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k);
	ops(&mut t, n, lo, hi, true);
	let v = serde_json::to_value(&t.s).unwrap();
	// The serialized form lists the elements once each.
	let parse = |v: &serde_json::Value| -> Option<SQ> {
		let a = v.as_array()?;
		let at = |v: &serde_json::Value| v.as_i64().map(decode_atom);
		if a.len() != if S::GRAPHS { 4 } else { 3 } {
			return None;
		}
		Some(SQ(
			at(&a[0])?,
			at(&a[1])?,
			at(&a[2])?,
			if S::GRAPHS && !a[3].is_null() { Some(at(&a[3])?) } else { None },
		))
	};
	let l: Option<Vec<SQ>> = v.as_array().and_then(|a| a.iter().map(parse).collect());
	match l {
		None => check_b("serializes as a sequence of elements", false),
		Some(l) => check("serializes each element once", enumerates(&l, &t.h, true, &|_| crate::engine::t())),
	}
	let text = serde_json::to_string(&t.s).unwrap();
	match serde_json::from_str::<S>(&text) {
		Err(_) => check_b("deserializes what was serialized", false),
		Ok(s) => {
			let u = Tracked::<R, S>::with(s, t.h.clone());
			u.observe();
			check_b("round trip is equal", u.s == t.s);
		}
	}
}

/// Deserializing any sequence of elements (repetitions included) builds the
/// set of those elements.
pub fn deserialize_any<R: Val, S: Store<R>>(n: usize, lo: i64, hi: i64) {
	let mut h = Hist::default();
	let mut l = Vec::new();
	for _ in 0..n {
		let q = sym_quad::<R, S>(lo, hi);
		h.ins(q);
		let e = |a: Atom| serde_json::json!(encode_atom(a));
		let mut v = vec![e(q.0), e(q.1), e(q.2)];
		if S::GRAPHS {
			v.push(q.3.map(e).unwrap_or(serde_json::Value::Null));
		}
		l.push(serde_json::Value::Array(v));
	}
	match serde_json::from_value::<S>(serde_json::Value::Array(l)) {
		Err(_) => check_b("deserializes", false),
		Ok(s) => Tracked::<R, S>::with(s, h).observe(),
	}
}

/// The N-Quads-like rendering lists every element on its own line.
pub fn display<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k);
	ops(&mut t, n, lo, hi, true);
	let text = t.s.display();
	let parse = |l: &str| -> Option<SQ> {
		let l = l.strip_suffix(" .")?;
		let mut a = Vec::new();
		for w in l.split(' ') {
			a.push(decode_atom(w.strip_prefix('<')?.strip_suffix('>')?.parse().ok()?));
		}
		match a[..] {
			[s, p, o] => Some(SQ(s, p, o, None)),
			[s, p, o, g] if S::GRAPHS => Some(SQ(s, p, o, Some(g))),
			_ => None,
		}
	};
	check_b("ends with a newline", text.is_empty() || text.ends_with('\n'));
	match text.lines().map(parse).collect::<Option<Vec<SQ>>>() {
		None => check_b("each line is one element followed by ' .'", false),
		Some(l) => check("displays each element once, in order", enumerates(&l, &t.h, true, &|_| crate::engine::t())),
	}
}
