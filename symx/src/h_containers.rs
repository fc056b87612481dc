//! Containers behave as sets under every history.
use crate::engine::*;
use crate::spec::*;
use crate::store::*;

pub fn c(s: i64, p: i64, o: i64, g: i64) -> SQ {
	SQ(
		Atom::Const(s),
		Atom::Const(p),
		Atom::Const(o),
		if g == 0 { None } else { Some(Atom::Const(g)) },
	)
}

/// Concrete initial histories (operations on constants; resources are
/// multiples of ten so that symbolic values may fall between them).
pub fn prefix(k: usize, graphs: bool) -> Vec<(bool, SQ)> {
	// The same histories over 1, 2, 3, ... (no room in between).
	if k >= 100 {
		let d = |a: Atom| match a {
			Atom::Const(x) => Atom::Const(x / 10),
			a => a,
		};
		return prefix(k - 100, graphs)
			.into_iter()
			.map(|(i, q)| (i, SQ(d(q.0), d(q.1), d(q.2), q.3.map(d))))
			.collect();
	}
	let g = |x: i64| if graphs { x } else { 0 };
	match k {
		0 => vec![],
		// sharing across roles
		1 => vec![
			(true, c(10, 20, 30, g(0))),
			(true, c(10, 20, 20, g(30))),
			(true, c(30, 10, 20, g(10))),
		],
		// vacated slots, not all reused
		2 => vec![
			(true, c(10, 20, 30, g(20))),
			(true, c(20, 20, 20, g(0))),
			(true, c(30, 20, 10, g(20))),
			(false, c(10, 20, 30, g(20))),
			(false, c(20, 20, 20, g(0))),
		],
		// larger than one tree node, then partly emptied: k = (count, removed)
		3 => big(14, 0, graphs),
		4 => big(14, 5, graphs),
		5 => big(60, 0, graphs),
		6 => big(60, 45, graphs),
		7 => big(150, 0, graphs),
		8 => big(150, 120, graphs),
		// one resource in every role
		9 => vec![
			(true, c(10, 10, 10, g(10))),
			(true, c(10, 10, 10, g(0))),
			(true, c(20, 10, 10, g(10))),
			(false, c(10, 10, 10, g(0))),
		],
		// emptied entirely
		10 => vec![
			(true, c(10, 20, 30, g(40))),
			(true, c(20, 30, 10, g(0))),
			(false, c(20, 30, 10, g(0))),
			(false, c(10, 20, 30, g(40))),
		],
		// one resource used by more than 255 elements, then by few again
		11 => wide(300, 0, graphs),
		12 => wide(300, 298, graphs),
		13 => wide(2000, 0, graphs),
		14 => wide(2000, 1998, graphs),
		_ => unreachable!(),
	}
}

fn wide(n: i64, removed: i64, graphs: bool) -> Vec<(bool, SQ)> {
	let q = |i: i64| c(10, 20, 10 * (1 + i), if graphs { 20 } else { 0 });
	let mut v: Vec<(bool, SQ)> = (0..n).map(|i| (true, q((i * 7) % n))).collect();
	v.extend((0..removed).map(|i| (false, q(n - 1 - i))));
	v
}

fn big(n: i64, removed: i64, graphs: bool) -> Vec<(bool, SQ)> {
	let q = |i: i64| {
		c(
			10 * (1 + (i * 7) % 5),
			10 * (1 + (i / 5) % 3),
			10 * (1 + (i * 3 + i / 15) % 6),
			if graphs { 10 * (i % 3) } else { 0 },
		)
	};
	let mut v: Vec<(bool, SQ)> = (0..n).map(|i| (true, q((i * 11) % n))).collect();
	v.extend((0..removed).map(|i| (false, q((i * 7) % n))));
	v
}

pub fn load<R: Val, S: Store<R>>(k: usize) -> Tracked<R, S> {
	let mut t = Tracked::<R, S>::new();
	for (ins, q) in prefix(k, S::GRAPHS) {
		if ins {
			t.ins(q)
		} else {
			t.rem(q)
		}
	}
	t
}

/// `n` operations, each an insertion or a removal of an arbitrary quad over
/// `lo..hi`, after the concrete prefix `k`; then all observations.
pub fn history<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k);
	for i in 0..n {
		let q = sym_quad::<R, S>(lo, hi);
		// On an empty container the first removal is covered by `probe`.
		if (k == 0 && i == 0) || flip() {
			t.ins(q)
		} else {
			cover("removal");
			t.rem(q)
		}
	}
	t.observe();
}

/// One arbitrary operation after prefix `k`, then `contains`/`contains_resource`
/// of an arbitrary probe.
pub fn probe<R: Val, S: Store<R>>(k: usize, n: usize, lo: i64, hi: i64) {
	let mut t = load::<R, S>(k);
	for _ in 0..n {
		let q = sym_quad::<R, S>(lo, hi);
		if flip() {
			t.ins(q)
		} else {
			t.rem(q)
		}
	}
	if flip() {
		let x = sym_quad::<R, S>(lo, hi);
		let r = t.s.has(x);
		check("contains(q) iff q is in the set", iff(b(r), t.h.member(&x)));
	} else {
		let x = sym::<R>(lo, hi).atom();
		let r = t.s.has_res(x);
		check("contains_resource(r) iff some element uses r", iff(b(r), t.h.used(x)));
	}
}
