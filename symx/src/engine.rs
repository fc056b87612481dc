//! Symbolic execution of generic Rust code by monomorphising it on a
//! solver-backed value type.
//!
//! `Sym` is a totally ordered value whose comparisons are symbolic: every
//! `eq`/`cmp` the code under test performs on it becomes a branch whose
//! feasible outcomes are decided by Z3 under the current path condition. Paths
//! are enumerated exhaustively (depth-first, by re-execution); at the end of
//! each path the property formulas are discharged by Z3 for *all* values
//! satisfying that path condition.
use crate::z3::{Ast, Res as ZRes, Z3};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as AO};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const LT: u8 = 1;
const EQ: u8 = 2;
const GT: u8 = 4;
const NE: u8 = LT | GT;

fn inv(m: u8) -> u8 {
	(m & EQ) | if m & LT != 0 { GT } else { 0 } | if m & GT != 0 { LT } else { 0 }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Atom {
	Const(i64),
	Var(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expr {
	B(bool),
	Eq(Atom, Atom),
	Lt(Atom, Atom),
	And(Vec<Expr>),
	Or(Vec<Expr>),
	Not(Box<Expr>),
	/// Exactly `n` of the formulas hold.
	Count(Vec<Expr>, i64),
	/// Both sides have the same number of true formulas.
	SameCount(Vec<Expr>, Vec<Expr>),
}

pub fn t() -> Expr {
	Expr::B(true)
}
pub fn f() -> Expr {
	Expr::B(false)
}
pub fn b(x: bool) -> Expr {
	Expr::B(x)
}
pub fn and(v: Vec<Expr>) -> Expr {
	let mut r = Vec::new();
	for e in v {
		match e {
			Expr::B(true) => {}
			Expr::B(false) => return f(),
			Expr::And(l) => r.extend(l),
			e => r.push(e),
		}
	}
	match r.len() {
		0 => t(),
		1 => r.pop().unwrap(),
		_ => Expr::And(r),
	}
}
pub fn or(v: Vec<Expr>) -> Expr {
	let mut r = Vec::new();
	for e in v {
		match e {
			Expr::B(false) => {}
			Expr::B(true) => return t(),
			Expr::Or(l) => r.extend(l),
			e => r.push(e),
		}
	}
	match r.len() {
		0 => f(),
		1 => r.pop().unwrap(),
		_ => Expr::Or(r),
	}
}
pub fn not(e: Expr) -> Expr {
	match e {
		Expr::B(x) => Expr::B(!x),
		Expr::Not(e) => *e,
		e => Expr::Not(Box::new(e)),
	}
}
pub fn iff(x: Expr, y: Expr) -> Expr {
	match (x, y) {
		(Expr::B(true), y) => y,
		(Expr::B(false), y) => not(y),
		(x, Expr::B(true)) => x,
		(x, Expr::B(false)) => not(x),
		(x, y) => or(vec![
			and(vec![x.clone(), y.clone()]),
			and(vec![not(x), not(y)]),
		]),
	}
}
pub fn implies(x: Expr, y: Expr) -> Expr {
	or(vec![not(x), y])
}
pub fn aeq(a: Atom, c: Atom) -> Expr {
	match (a, c) {
		(Atom::Const(x), Atom::Const(y)) => Expr::B(x == y),
		_ if a == c => t(),
		_ => Expr::Eq(a, c),
	}
}
pub fn alt(a: Atom, c: Atom) -> Expr {
	match (a, c) {
		(Atom::Const(x), Atom::Const(y)) => Expr::B(x < y),
		_ if a == c => f(),
		_ => Expr::Lt(a, c),
	}
}

impl Expr {
	pub fn eval(&self, m: &dyn Fn(Atom) -> i64) -> bool {
		match self {
			Expr::B(x) => *x,
			Expr::Eq(a, c) => m(*a) == m(*c),
			Expr::Lt(a, c) => m(*a) < m(*c),
			Expr::And(l) => l.iter().all(|e| e.eval(m)),
			Expr::Or(l) => l.iter().any(|e| e.eval(m)),
			Expr::Not(e) => !e.eval(m),
			Expr::Count(l, n) => l.iter().filter(|e| e.eval(m)).count() as i64 == *n,
			Expr::SameCount(l, r) => {
				l.iter().filter(|e| e.eval(m)).count() == r.iter().filter(|e| e.eval(m)).count()
			}
		}
	}
	fn z3(&self, z: &mut Z3) -> Ast {
		match self {
			Expr::B(x) => z.bool(*x),
			Expr::Eq(a, c) => {
				let (a, c) = (atom_z3(*a, z), atom_z3(*c, z));
				z.eq(a, c)
			}
			Expr::Lt(a, c) => {
				let (a, c) = (atom_z3(*a, z), atom_z3(*c, z));
				z.lt(a, c)
			}
			Expr::And(l) => {
				let v: Vec<Ast> = l.iter().map(|e| e.z3(z)).collect();
				z.and(&v)
			}
			Expr::Or(l) => {
				let v: Vec<Ast> = l.iter().map(|e| e.z3(z)).collect();
				z.or(&v)
			}
			Expr::Not(e) => {
				let a = e.z3(z);
				z.not(a)
			}
			Expr::Count(l, n) => {
				let v: Vec<Ast> = l.iter().map(|e| e.z3(z)).collect();
				let c = z.count(&v);
				let n = z.int(*n);
				z.eq(c, n)
			}
			Expr::SameCount(l, r) => {
				let v: Vec<Ast> = l.iter().map(|e| e.z3(z)).collect();
				let c = z.count(&v);
				let w: Vec<Ast> = r.iter().map(|e| e.z3(z)).collect();
				let d = z.count(&w);
				z.eq(c, d)
			}
		}
	}
}

fn atom_z3(a: Atom, z: &mut Z3) -> Ast {
	match a {
		Atom::Const(v) => z.int(v),
		Atom::Var(i) => z.var(i as usize),
	}
}

/// Known relations between atoms on the current path (closed under
/// composition): a syntactic simplifier that avoids asking the solver for
/// branches the path condition already fixes.
#[derive(Default)]
struct Rel {
	atoms: Vec<Atom>,
	idx: BTreeMap<Atom, usize>,
	m: Vec<Vec<u8>>,
}

/// Composition of order relations: a r b, b s c |- a (r;s) c.
fn comp(r: u8, s: u8) -> u8 {
	let mut o = 0;
	for x in [LT, EQ, GT] {
		if r & x == 0 {
			continue;
		}
		for y in [LT, EQ, GT] {
			if s & y == 0 {
				continue;
			}
			o |= if x == EQ {
				y
			} else if y == EQ || x == y {
				x
			} else {
				LT | EQ | GT
			};
		}
	}
	o
}

impl Rel {
	fn id(&mut self, a: Atom) -> usize {
		if let Some(&i) = self.idx.get(&a) {
			return i;
		}
		let n = self.atoms.len();
		for (j, row) in self.m.iter_mut().enumerate() {
			row.push(match (self.atoms[j], a) {
				(Atom::Const(x), Atom::Const(y)) => match x.cmp(&y) {
					Ordering::Less => LT,
					Ordering::Equal => EQ,
					Ordering::Greater => GT,
				},
				_ => LT | EQ | GT,
			});
		}
		let mut row: Vec<u8> = self.m.iter().map(|r| inv(r[n])).collect();
		row.push(EQ);
		self.m.push(row);
		self.atoms.push(a);
		self.idx.insert(a, n);
		// Propagate what the new constant relations imply.
		if matches!(a, Atom::Const(_)) {
			for j in 0..n {
				if let Atom::Const(_) = self.atoms[j] {
					for k in 0..n {
						let x = comp(self.m[n][j], self.m[j][k]) & self.m[n][k];
						self.m[n][k] = x;
						self.m[k][n] = inv(x);
					}
				}
			}
		}
		n
	}
	fn set(&mut self, i: usize, j: usize, mask: u8) {
		let mut todo = vec![(i, j, mask)];
		while let Some((i, j, mask)) = todo.pop() {
			let cur = self.m[i][j];
			let new = cur & mask;
			if new == cur {
				continue;
			}
			self.m[i][j] = new;
			self.m[j][i] = inv(new);
			for k in 0..self.atoms.len() {
				if k != i && k != j {
					let a = comp(new, self.m[j][k]);
					if self.m[i][k] & a != self.m[i][k] {
						todo.push((i, k, a));
					}
					let c = comp(self.m[k][i], new);
					if self.m[k][j] & c != self.m[k][j] {
						todo.push((k, j, c));
					}
				}
			}
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Event {
	Decl { lo: i64, hi: i64 },
	Assume(Expr),
	Node { a: Atom, c: Atom, taken: u8, alts: Vec<u8> },
}

enum Mode {
	Symbolic {
		trail: Vec<Event>,
		pos: usize,
		model: Vec<i64>,
		rel: Rel,
		z3: Box<Z3>,
		nvars: u32,
		diverged: Option<String>,
	},
	Concrete {
		values: Vec<i64>,
		pos: usize,
	},
}

struct Run {
	mode: Mode,
	checks: Vec<(&'static str, Expr)>,
	covers: Vec<&'static str>,
	stop: bool,
	hash_ids: bool,
}

thread_local! {
	static RUN: RefCell<Option<Run>> = const { RefCell::new(None) };
}

fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T {
	RUN.with(|r| f(r.borrow_mut().as_mut().expect("no active run")))
}

pub struct Infeasible;

fn assert_rel(z: &mut Z3, a: Atom, c: Atom, mask: u8) {
	let (x, y) = (atom_z3(a, z), atom_z3(c, z));
	let e = match mask {
		LT => z.lt(x, y),
		EQ => z.eq(x, y),
		GT => z.lt(y, x),
		NE => {
			let e = z.eq(x, y);
			z.not(e)
		}
		m if m == LT | EQ => z.le(x, y),
		m if m == GT | EQ => z.le(y, x),
		_ => z.bool(true),
	};
	z.assert(e);
	z.release();
}

/// Declares a fresh symbolic value in `lo..hi`.
fn decl(lo: i64, hi: i64) -> Atom {
	with(|run| match &mut run.mode {
		Mode::Concrete { values, pos } => {
			let v = values.get(*pos).copied().unwrap_or(lo);
			*pos += 1;
			Atom::Const(v)
		}
		Mode::Symbolic {
			trail,
			pos,
			model,
			z3,
			nvars,
			diverged,
			..
		} => {
			let i = *nvars;
			*nvars += 1;
			if *pos < trail.len() {
				if trail[*pos] != (Event::Decl { lo, hi }) {
					*diverged = Some(format!("decl vs {:?}", trail[*pos]));
				}
			} else {
				trail.push(Event::Decl { lo, hi });
				let v = z3.var(i as usize);
				let l = z3.int(lo);
				let h = z3.int(hi);
				let e = z3.le(l, v);
				z3.assert(e);
				let e = z3.lt(v, h);
				z3.assert(e);
				z3.release();
			}
			*pos += 1;
			if model.len() <= i as usize {
				model.push(lo);
			}
			Atom::Var(i)
		}
	})
}

fn model_rel(model: &[i64], a: Atom, c: Atom) -> u8 {
	let v = |a: Atom| match a {
		Atom::Const(x) => x,
		Atom::Var(i) => model[i as usize],
	};
	match v(a).cmp(&v(c)) {
		Ordering::Less => LT,
		Ordering::Equal => EQ,
		Ordering::Greater => GT,
	}
}

/// Branches on the relation between `a` and `c`, among the given (disjoint,
/// exhaustive) outcome masks.
fn decide(a: Atom, c: Atom, outcomes: &[u8]) -> u8 {
	if let (Atom::Const(x), Atom::Const(y)) = (a, c) {
		let r = match x.cmp(&y) {
			Ordering::Less => LT,
			Ordering::Equal => EQ,
			Ordering::Greater => GT,
		};
		return *outcomes.iter().find(|o| **o & r != 0).unwrap();
	}
	if a == c {
		return *outcomes.iter().find(|o| **o & EQ != 0).unwrap();
	}
	with(|run| match &mut run.mode {
		Mode::Concrete { .. } => unreachable!("symbolic value in a concrete run"),
		Mode::Symbolic {
			trail,
			pos,
			model,
			rel,
			z3,
			diverged,
			..
		} => {
			let (i, j) = (rel.id(a), rel.id(c));
			let mask = rel.m[i][j];
			let feasible: Vec<u8> = outcomes.iter().copied().filter(|o| o & mask != 0).collect();
			if feasible.len() == 1 {
				return feasible[0];
			}
			let taken;
			if *pos < trail.len() {
				match &trail[*pos] {
					Event::Node {
						a: x, c: y, taken: tk, ..
					} if *x == a && *y == c && outcomes.contains(tk) => taken = *tk,
					e => {
						*diverged = Some(format!("decide {a:?} {c:?} vs {e:?}"));
						let r = model_rel(model, a, c);
						taken = *outcomes.iter().find(|o| **o & r != 0).unwrap();
					}
				}
			} else {
				let r = model_rel(model, a, c);
				taken = *outcomes.iter().find(|o| **o & r != 0).unwrap();
				z3.push();
				assert_rel(z3, a, c, taken & mask);
				trail.push(Event::Node {
					a,
					c,
					taken,
					alts: feasible.into_iter().filter(|o| *o != taken).collect(),
				});
			}
			*pos += 1;
			rel.set(i, j, taken);
			taken
		}
	})
}

/// A symbolic resource: only its order relative to other values is known.
#[derive(Clone, Copy)]
pub struct Sym(pub Atom);

impl std::fmt::Debug for Sym {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "{:?}", self.0)
	}
}

impl PartialEq for Sym {
	fn eq(&self, o: &Self) -> bool {
		decide(self.0, o.0, &[EQ, NE]) == EQ
	}
}
impl Eq for Sym {}
impl PartialOrd for Sym {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
	fn lt(&self, o: &Self) -> bool {
		decide(self.0, o.0, &[LT, EQ | GT]) == LT
	}
	fn ge(&self, o: &Self) -> bool {
		decide(self.0, o.0, &[LT, EQ | GT]) != LT
	}
	fn gt(&self, o: &Self) -> bool {
		decide(self.0, o.0, &[GT, EQ | LT]) == GT
	}
	fn le(&self, o: &Self) -> bool {
		decide(self.0, o.0, &[GT, EQ | LT]) != GT
	}
}
impl Ord for Sym {
	fn cmp(&self, o: &Self) -> Ordering {
		match decide(self.0, o.0, &[LT, EQ, GT]) {
			LT => Ordering::Less,
			EQ => Ordering::Equal,
			_ => Ordering::Greater,
		}
	}
}
impl Hash for Sym {
	/// Outside of hash-stream observation all values hash alike, which is a
	/// lawful `Hash` and leaves every distinction to `Eq`.
	fn hash<H: Hasher>(&self, h: &mut H) {
		if with(|r| r.hash_ids) {
			h.write_i64(encode_atom(self.0))
		} else {
			h.write_i64(0)
		}
	}
}

pub fn encode_atom(a: Atom) -> i64 {
	match a {
		Atom::Const(v) => v,
		Atom::Var(i) => 1_000_000 + i as i64,
	}
}
pub fn decode_atom(v: i64) -> Atom {
	if v >= 1_000_000 {
		Atom::Var((v - 1_000_000) as u32)
	} else {
		Atom::Const(v)
	}
}

/// Resource types the harnesses are instantiated with: `Sym` for the symbolic
/// exploration, `Con` for the native replay of counterexamples.
pub trait Val:
	Clone
	+ Copy
	+ Ord
	+ Hash
	+ std::fmt::Debug
	+ serde::Serialize
	+ serde::de::DeserializeOwned
	+ rdf_types::RdfDisplay
	+ PartialEq<Other<Self>>
	+ 'static
{
	fn atom(&self) -> Atom;
	fn from_atom(a: Atom) -> Self;
}
impl Val for Sym {
	fn atom(&self) -> Atom {
		self.0
	}
	fn from_atom(a: Atom) -> Self {
		Sym(a)
	}
}
impl Val for Con {
	fn atom(&self) -> Atom {
		Atom::Const(self.0)
	}
	fn from_atom(a: Atom) -> Self {
		match a {
			Atom::Const(v) => Con(v),
			_ => panic!("symbolic value in a concrete run"),
		}
	}
}

/// The native replay type: a plain integer.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Con(pub i64);
impl Hash for Con {
	fn hash<H: Hasher>(&self, h: &mut H) {
		h.write_i64(self.0)
	}
}

/// The same resources behind another type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Other<R>(pub R);
impl PartialEq<Other<Sym>> for Sym {
	fn eq(&self, o: &Other<Sym>) -> bool {
		*self == o.0
	}
}
impl PartialEq<Other<Con>> for Con {
	fn eq(&self, o: &Other<Con>) -> bool {
		*self == o.0
	}
}

macro_rules! codec {
	($($t:ty),*) => { $(
		impl serde::Serialize for $t {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_i64(encode_atom(self.atom()))
			}
		}
		impl<'de> serde::Deserialize<'de> for $t {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				<i64 as serde::Deserialize>::deserialize(d).map(|v| Self::from_atom(decode_atom(v)))
			}
		}
		impl rdf_types::RdfDisplay for $t {
			fn rdf_fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				write!(f, "<{}>", encode_atom(self.atom()))
			}
		}
	)* };
}
codec!(Sym, Con);

pub fn sym<R: Val>(lo: i64, hi: i64) -> R {
	R::from_atom(decl(lo, hi))
}
pub fn con<R: Val>(v: i64) -> R {
	R::from_atom(Atom::Const(v))
}
/// Symbolic choice among `n` alternatives (forks).
pub fn choice(n: usize) -> usize {
	if n <= 1 {
		return 0;
	}
	let v = decl(0, n as i64);
	for k in 0..n - 1 {
		if decide(v, Atom::Const(k as i64), &[EQ, NE]) == EQ {
			return k;
		}
	}
	n - 1
}
pub fn flip() -> bool {
	choice(2) == 1
}
/// Forks on `a == c`.
pub fn same<R: Val>(a: &R, c: &R) -> bool {
	a == c
}
/// Restricts the path to values satisfying `e` (part of the stated bounds).
pub fn assume(e: Expr) {
	let ok = with(|run| match &mut run.mode {
		Mode::Concrete { .. } => e.eval(&|a| match a {
			Atom::Const(v) => v,
			_ => unreachable!(),
		}),
		Mode::Symbolic {
			trail,
			pos,
			model,
			z3,
			nvars,
			diverged,
			..
		} => {
			let holds = |model: &Vec<i64>| {
				e.eval(&|a| match a {
					Atom::Const(v) => v,
					Atom::Var(i) => model[i as usize],
				})
			};
			if *pos < trail.len() {
				if trail[*pos] != Event::Assume(e.clone()) {
					*diverged = Some("assume".into());
				}
				*pos += 1;
				holds(model)
			} else {
				let x = e.z3(z3);
				z3.assert(x);
				z3.release();
				trail.push(Event::Assume(e.clone()));
				*pos += 1;
				if holds(model) {
					true
				} else if z3.check() == ZRes::Sat {
					*model = z3.model(*nvars as usize);
					true
				} else {
					false
				}
			}
		}
	});
	if !ok {
		with(|r| r.stop = true);
		std::panic::panic_any(Infeasible);
	}
}
/// Property assertion: discharged by the solver for every value on the path.
pub fn check(label: &'static str, e: Expr) {
	with(|r| r.checks.push((label, e)))
}
pub fn check_b(label: &'static str, x: bool) {
	check(label, b(x))
}
pub fn cover(label: &'static str) {
	with(|r| r.covers.push(label))
}

/// Records the stream a `Hash` implementation feeds to its hasher.
pub fn hash_stream<T: Hash + ?Sized>(x: &T) -> Vec<Tok> {
	with(|r| r.hash_ids = true);
	let mut h = Rec(Vec::new());
	x.hash(&mut h);
	with(|r| r.hash_ids = false);
	h.0
}
#[derive(Clone, Debug)]
pub enum Tok {
	Raw(u8, u64),
	Bytes(Vec<u8>),
	Atom(Atom),
}
struct Rec(Vec<Tok>);
impl Hasher for Rec {
	fn finish(&self) -> u64 {
		0
	}
	fn write(&mut self, x: &[u8]) {
		self.0.push(Tok::Bytes(x.to_vec()))
	}
	fn write_u8(&mut self, i: u8) {
		self.0.push(Tok::Raw(1, i as u64))
	}
	fn write_u32(&mut self, i: u32) {
		self.0.push(Tok::Raw(4, i as u64))
	}
	fn write_u64(&mut self, i: u64) {
		self.0.push(Tok::Raw(8, i))
	}
	fn write_usize(&mut self, i: usize) {
		self.0.push(Tok::Raw(9, i as u64))
	}
	fn write_isize(&mut self, i: isize) {
		self.0.push(Tok::Raw(10, i as u64))
	}
	fn write_i64(&mut self, i: i64) {
		self.0.push(Tok::Atom(decode_atom(i)))
	}
}
/// The two hash streams are equal.
pub fn streams_eq(x: &[Tok], y: &[Tok]) -> Expr {
	if x.len() != y.len() {
		return f();
	}
	and(x
		.iter()
		.zip(y)
		.map(|(a, c)| match (a, c) {
			(Tok::Atom(a), Tok::Atom(c)) => aeq(*a, *c),
			(Tok::Raw(i, a), Tok::Raw(j, c)) => b(i == j && a == c),
			(Tok::Bytes(a), Tok::Bytes(c)) => b(a == c),
			_ => f(),
		})
		.collect())
}

// ---------------------------------------------------------------------------

pub type Fun = fn();

/// A memory-mapped file holding the inputs of the path each worker is on, so
/// that an abort of the code under test can be replayed.
const SLOT: usize = 1024;
static CRASH: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
extern "C" {
	fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub fn set_crash_file(path: &str, harness: &str, threads: usize) {
	use std::io::Write;
	use std::os::fd::AsRawFd;
	let n = SLOT * (threads + 1);
	let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
	f.set_len(n as u64).unwrap();
	f.write_all(format!("{harness}\n").as_bytes()).unwrap();
	let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 1, f.as_raw_fd(), 0) };
	assert!(p as isize != -1);
	CRASH.store(p, AO::SeqCst);
}
fn note(w: usize, model: &[i64]) {
	let p = CRASH.load(AO::Relaxed);
	if !p.is_null() {
		let n = model.len().min(SLOT / 8 - 2);
		unsafe {
			let q = p.add(SLOT * (w + 1)) as *mut i64;
			q.write(1);
			q.add(1).write(n as i64);
			for (i, v) in model[..n].iter().enumerate() {
				q.add(2 + i).write(*v);
			}
		}
	}
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub label: String,
	pub values: Vec<i64>,
	pub kind: &'static str,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
	pub paths: u64,
	pub infeasible: u64,
	pub decisions: u64,
	pub queries: u64,
	pub sat: u64,
	pub unsat: u64,
	pub assertion_queries: u64,
	pub assertions: u64,
	pub solver_s: f64,
	pub wall_s: f64,
	pub exhausted: bool,
	pub labels: BTreeMap<&'static str, u64>,
	pub error: Option<String>,
	pub max_vars: u32,
	/// Paths whose model was also executed natively, with the same outcome.
	pub validated: u64,
	pub samples: Vec<Vec<i64>>,
	/// Each path was executed on a thread of its own.
	pub fresh: bool,
}

/// The standard library seeds its hash tables from here: the code under
/// test must behave the same each time a path prefix is executed again.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _: u32) -> isize {
	unsafe { std::ptr::write_bytes(buf, 7, len) };
	len as isize
}

/// Executes one path; on a new thread (hence with newly seeded hash tables
/// and thread-local state) if `fresh`.
fn execute(f: Fun, run: Run, fresh: bool) -> (std::thread::Result<()>, Run) {
	struct Send_<T>(T);
	unsafe impl<T> Send for Send_<T> {}
	impl<T> Send_<T> {
		fn get(self) -> T {
			self.0
		}
	}
	let go = move |run: Send_<Run>| {
		RUN.with(|r| *r.borrow_mut() = Some(run.get()));
		let res = std::panic::catch_unwind(f);
		Send_((res, RUN.with(|r| r.borrow_mut().take().unwrap())))
	};
	let run = Send_(run);
	if fresh {
		let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || go(run)).unwrap();
		h.join().unwrap().get()
	} else {
		go(run).get()
	}
}

struct Shared {
	fresh: bool,
	queue: Mutex<(Vec<Vec<Event>>, usize, bool)>, // jobs, idle workers, finished
	cv: Condvar,
	idle: AtomicUsize,
	stop: AtomicBool,
	violation: Mutex<Option<Violation>>,
	stats: Mutex<Stats>,
	current: Vec<Mutex<(Option<Instant>, Vec<i64>)>>,
}

/// Explores every path of `f` on `threads` workers.
pub fn explore(f: Fun, con: Fun, threads: usize, limit: Duration, hang: Duration) -> (Stats, Option<Violation>) {
	let start = Instant::now();
	let r = explore_with(f, con, threads, limit, hang, false);
	match &r.0.error {
		Some(e) if e.starts_with("non-deterministic") => {
			explore_with(f, con, threads, limit.saturating_sub(start.elapsed()), hang, true)
		}
		_ => r,
	}
}

fn explore_with(f: Fun, con: Fun, threads: usize, limit: Duration, hang: Duration, fresh: bool) -> (Stats, Option<Violation>) {
	let start = Instant::now();
	let sh = Arc::new(Shared {
		fresh,
		queue: Mutex::new((vec![Vec::new()], 0, false)),
		cv: Condvar::new(),
		idle: AtomicUsize::new(0),
		stop: AtomicBool::new(false),
		violation: Mutex::new(None),
		stats: Mutex::new(Stats::default()),
		current: (0..threads).map(|_| Mutex::new((None, vec![]))).collect(),
	});
	let mut hs = Vec::new();
	for w in 0..threads {
		let sh = sh.clone();
		hs.push(
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn(move || worker(f, con, w, threads, sh))
				.unwrap(),
		);
	}
	let mut timed_out = false;
	loop {
		if hs.iter().all(|h| h.is_finished()) {
			break;
		}
		std::thread::sleep(Duration::from_millis(2));
		if start.elapsed() > limit {
			timed_out = true;
			sh.stop.store(true, AO::SeqCst);
			sh.cv.notify_all();
		}
		let mut hung = None;
		for c in &sh.current {
			let c = c.lock().unwrap();
			if let (Some(s), v) = (&c.0, &c.1) {
				if s.elapsed() > hang {
					hung = Some(v.clone());
				}
			}
		}
		if let Some(values) = hung {
			sh.stop.store(true, AO::SeqCst);
			let mut st = sh.stats.lock().unwrap().clone();
			st.wall_s = start.elapsed().as_secs_f64();
			return (
				st,
				Some(Violation {
					label: "non-termination".into(),
					values,
					kind: "hang",
				}),
			);
		}
	}
	for h in hs {
		if h.join().is_err() {
			sh.stats.lock().unwrap().error = Some("worker crashed".into());
		}
	}
	let mut st = sh.stats.lock().unwrap().clone();
	let v = sh.violation.lock().unwrap().clone();
	st.exhausted = !timed_out && v.is_none() && st.error.is_none();
	st.wall_s = start.elapsed().as_secs_f64();
	(st, v)
}

fn panic_message(p: Box<dyn std::any::Any + Send>) -> String {
	p.downcast_ref::<String>()
		.cloned()
		.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
		.unwrap_or_else(|| "panic".into())
}

fn worker(f: Fun, con: Fun, w: usize, threads: usize, sh: Arc<Shared>) {
	let mut st = Stats::default();
	let mut z3 = Box::new(Z3::new());
	'jobs: loop {
		let job = {
			let mut q = sh.queue.lock().unwrap();
			loop {
				if sh.stop.load(AO::SeqCst) || q.2 {
					break 'jobs;
				}
				if let Some(j) = q.0.pop() {
					break j;
				}
				q.1 += 1;
				sh.idle.fetch_add(1, AO::SeqCst);
				if q.1 == threads {
					q.2 = true;
					sh.cv.notify_all();
					break 'jobs;
				}
				q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
				q.1 -= 1;
				sh.idle.fetch_sub(1, AO::SeqCst);
			}
		};
		z3 = run_job(f, &|v| replay(con, v), w, &sh, z3, job, &mut st);
		if st.error.is_some() {
			sh.stop.store(true, AO::SeqCst);
			break;
		}
	}
	st.queries = z3.queries;
	st.sat = z3.sat;
	st.unsat = z3.unsat;
	st.solver_s = z3.time.as_secs_f64();
	let mut g = sh.stats.lock().unwrap();
	g.paths += st.paths;
	g.infeasible += st.infeasible;
	g.decisions += st.decisions;
	g.queries += st.queries;
	g.sat += st.sat;
	g.unsat += st.unsat;
	g.assertion_queries += st.assertion_queries;
	g.assertions += st.assertions;
	g.validated += st.validated;
	if g.samples.len() < 3 {
		g.samples.extend(st.samples);
	}
	g.fresh = sh.fresh;
	g.solver_s += st.solver_s;
	g.max_vars = g.max_vars.max(st.max_vars);
	if st.error.is_some() {
		g.error = st.error;
	}
	for (k, v) in st.labels {
		*g.labels.entry(k).or_default() += v;
	}
	drop(g);
	sh.cv.notify_all();
}

fn run_job(
	f: Fun,
	native: &dyn Fn(&[i64]) -> Result<Vec<String>, String>,
	w: usize,
	sh: &Shared,
	mut z3: Box<Z3>,
	job: Vec<Event>,
	st: &mut Stats,
) -> Box<Z3> {
	// A donated prefix is re-asserted from its events.
	let d = z3.depth();
	z3.pop(d);
	z3.push();
	let mut trail: Vec<Event> = Vec::new();
	let mut model: Vec<i64> = Vec::new();
	let mut base = 0;
	if !job.is_empty() {
		let mut n = 0;
		for e in &job {
			match e {
				Event::Decl { lo, hi } => {
					let v = z3.var(n);
					n += 1;
					let l = z3.int(*lo);
					let h = z3.int(*hi);
					let x = z3.le(l, v);
					z3.assert(x);
					let x = z3.lt(v, h);
					z3.assert(x);
					z3.release();
				}
				Event::Assume(e) => {
					let x = e.z3(&mut z3);
					z3.assert(x);
					z3.release();
				}
				Event::Node { a, c, taken, .. } => {
					z3.push();
					assert_rel(&mut z3, *a, *c, *taken);
				}
			}
		}
		match z3.check() {
			ZRes::Sat => {}
			ZRes::Unsat => return z3,
			ZRes::Unknown => {
				st.error = Some("solver returned unknown".into());
				return z3;
			}
		}
		model = z3.model(n);
		trail = job;
		base = trail.len();
	}
	loop {
		if sh.stop.load(AO::SeqCst) {
			return z3;
		}
		*sh.current[w].lock().unwrap() = (Some(Instant::now()), model.clone());
		note(w, &model);
		let run = Run {
			mode: Mode::Symbolic {
				trail,
				pos: 0,
				model,
				rel: Rel::default(),
				z3,
				nvars: 0,
				diverged: None,
			},
			checks: vec![],
			covers: vec![],
			stop: false,
			hash_ids: false,
		};
		let (res, run) = execute(f, run, sh.fresh);
		sh.current[w].lock().unwrap().0 = None;
		let Run {
			mode,
			checks,
			covers,
			stop,
			..
		} = run;
		let Mode::Symbolic {
			trail: tr,
			model: m,
			z3: z,
			nvars,
			diverged,
			pos,
			..
		} = mode
		else {
			unreachable!()
		};
		trail = tr;
		z3 = z;
		model = m;
		st.max_vars = st.max_vars.max(nvars);
		if diverged.is_none() && pos < trail.len() && !stop && res.is_ok() {
			st.error = Some("non-deterministic execution: replay ended early".into());
			return z3;
		}
		if let Some(d) = diverged {
			st.error = Some(format!("non-deterministic execution: {d}"));
			return z3;
		}
		if stop {
			st.infeasible += 1;
		} else {
			st.paths += 1;
			let mut viol: Option<Violation> = None;
			if let Err(p) = res {
				viol = Some(Violation {
					label: format!("panic: {}", panic_message(p)),
					values: model.clone(),
					kind: "panic",
				});
			} else {
				for c in covers {
					*st.labels.entry(c).or_default() += 1;
				}
				let mut open: Vec<Expr> = Vec::new();
				for (l, e) in checks {
					*st.labels.entry(l).or_default() += 1;
					st.assertions += 1;
					let ok = e.eval(&|a| match a {
						Atom::Const(v) => v,
						Atom::Var(i) => model[i as usize],
					});
					if !ok {
						viol = Some(Violation {
							label: l.to_string(),
							values: model.clone(),
							kind: "assertion",
						});
						break;
					}
					if !matches!(e, Expr::B(true)) {
						open.push(not(e));
					}
				}
				if viol.is_none() && !open.is_empty() {
					st.assertion_queries += 1;
					z3.push();
					let e = or(open).z3(&mut z3);
					z3.assert(e);
					let r = z3.check();
					if r == ZRes::Sat {
						viol = Some(Violation {
							label: "solver counterexample".into(),
							values: z3.model(nvars as usize),
							kind: "assertion",
						});
					} else if r == ZRes::Unknown {
						st.error = Some("solver returned unknown".into());
					}
					z3.pop(1);
					z3.release();
					if st.error.is_some() {
						return z3;
					}
				}
			}
			if let Some(v) = viol {
				let mut g = sh.violation.lock().unwrap();
				if g.is_none() {
					*g = Some(v);
				}
				sh.stop.store(true, AO::SeqCst);
				return z3;
			}
			// The same path, natively, on a sample of the paths.
			if st.paths % 64 == 1 {
				match native(&model) {
					Ok(v) if v.is_empty() => st.validated += 1,
					Ok(v) => {
						let mut g = sh.violation.lock().unwrap();
						if g.is_none() {
							*g = Some(Violation { label: v[0].clone(), values: model.clone(), kind: "native" });
						}
						sh.stop.store(true, AO::SeqCst);
						return z3;
					}
					Err(e) => {
						st.error = Some(format!("native execution fails on {model:?}: {e}"));
						return z3;
					}
				}
				if st.samples.len() < 2 && st.paths % 128 == 1 {
					st.samples.push(model.clone());
				}
			}
		}
		// Donate the shallowest open branch when other workers are idle.
		if sh.idle.load(AO::Relaxed) > 0 {
			let mut q = sh.queue.lock().unwrap();
			if q.0.len() < q.1 {
				'don: for i in base..trail.len() {
					if let Event::Node { alts, .. } = &mut trail[i] {
						if let Some(alt) = alts.pop() {
							let mut job: Vec<Event> = trail[..=i].to_vec();
							for e in &mut job {
								if let Event::Node { alts, .. } = e {
									alts.clear();
								}
							}
							if let Event::Node { taken, .. } = &mut job[i] {
								*taken = alt;
							}
							q.0.push(job);
							sh.cv.notify_one();
							break 'don;
						}
					}
				}
			}
		}
		// Backtrack to the deepest branch with a feasible alternative.
		loop {
			// Drop trailing events up to the deepest node with alternatives.
			let mut k = trail.len();
			let mut pops = 0;
			let mut found = false;
			while k > base {
				k -= 1;
				if let Event::Node { alts, .. } = &trail[k] {
					pops += 1;
					if !alts.is_empty() {
						found = true;
						break;
					}
				}
			}
			if !found {
				let d = z3.depth();
				z3.pop(d);
				return z3;
			}
			trail.truncate(k + 1);
			z3.pop(pops);
			let (a, c, alt) = {
				let Event::Node { a, c, taken, alts } = &mut trail[k] else {
					unreachable!()
				};
				let alt = alts.pop().unwrap();
				*taken = alt;
				(*a, *c, alt)
			};
			z3.push();
			st.decisions += 1;
			assert_rel(&mut z3, a, c, alt);
			let n = trail
				.iter()
				.filter(|e| matches!(e, Event::Decl { .. }))
				.count();
			match z3.check() {
				ZRes::Sat => {
					model = z3.model(n);
					break;
				}
				ZRes::Unsat => continue,
				ZRes::Unknown => {
					st.error = Some("solver returned unknown".into());
					return z3;
				}
			}
		}
	}
}

/// Runs a harness natively on concrete values; returns the violated labels.
pub fn replay(f: Fun, values: &[i64]) -> Result<Vec<String>, String> {
	RUN.with(|r| {
		*r.borrow_mut() = Some(Run {
			mode: Mode::Concrete {
				values: values.to_vec(),
				pos: 0,
			},
			checks: vec![],
			covers: vec![],
			stop: false,
			hash_ids: false,
		})
	});
	let res = std::panic::catch_unwind(f);
	let run = RUN.with(|r| r.borrow_mut().take().unwrap());
	if run.stop {
		return Ok(vec![]);
	}
	match res {
		Err(p) => Ok(vec![format!("panic: {}", panic_message(p))]),
		Ok(()) => Ok(run
			.checks
			.iter()
			.filter(|(_, e)| {
				!e.eval(&|a| match a {
					Atom::Const(v) => v,
					_ => unreachable!(),
				})
			})
			.map(|(l, _)| l.to_string())
			.collect()),
	}
}
