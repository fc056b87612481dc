//! Minimal hand-written binding of the Z3 C API (libz3).
#![allow(non_camel_case_types)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
	fn Z3_mk_config() -> P;
	fn Z3_del_config(c: P);
	fn Z3_mk_context_rc(c: P) -> P;
	fn Z3_del_context(c: P);
	fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
	fn Z3_mk_simple_solver(c: P) -> P;
	fn Z3_solver_inc_ref(c: P, s: P);
	fn Z3_solver_dec_ref(c: P, s: P);
	fn Z3_solver_push(c: P, s: P);
	fn Z3_solver_pop(c: P, s: P, n: c_uint);
	fn Z3_solver_assert(c: P, s: P, a: P);
	fn Z3_solver_check(c: P, s: P) -> c_int;
	fn Z3_solver_get_model(c: P, s: P) -> P;
	fn Z3_model_inc_ref(c: P, m: P);
	fn Z3_model_dec_ref(c: P, m: P);
	fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
	fn Z3_get_numeral_int64(c: P, v: P, i: *mut i64) -> bool;
	fn Z3_inc_ref(c: P, a: P);
	fn Z3_dec_ref(c: P, a: P);
	fn Z3_mk_int_sort(c: P) -> P;
	fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
	fn Z3_mk_const(c: P, s: P, ty: P) -> P;
	fn Z3_mk_int64(c: P, v: i64, ty: P) -> P;
	fn Z3_mk_eq(c: P, l: P, r: P) -> P;
	fn Z3_mk_lt(c: P, l: P, r: P) -> P;
	fn Z3_mk_le(c: P, l: P, r: P) -> P;
	fn Z3_mk_not(c: P, a: P) -> P;
	fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
	fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_true(c: P) -> P;
	fn Z3_mk_false(c: P) -> P;
	fn Z3_get_full_version() -> *const c_char;
	fn Z3_global_param_set(k: *const c_char, v: *const c_char);
}

extern "C" fn on_error(_c: P, code: c_uint) {
	eprintln!("z3 error code {code}");
	std::process::exit(3);
}

pub fn version() -> String {
	unsafe {
		CStr::from_ptr(Z3_get_full_version())
			.to_string_lossy()
			.into_owned()
	}
}

pub fn set_seed(seed: u32) {
	for k in ["smt.random_seed", "sat.random_seed"] {
		let k = CString::new(k).unwrap();
		let v = CString::new(seed.to_string()).unwrap();
		unsafe { Z3_global_param_set(k.as_ptr(), v.as_ptr()) }
	}
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ast(P);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
	Sat,
	Unsat,
	Unknown,
}

pub struct Z3 {
	c: P,
	s: P,
	int: P,
	vars: Vec<Ast>,
	/// ASTs built since the last `release`.
	temps: Vec<P>,
	pub queries: u64,
	pub sat: u64,
	pub unsat: u64,
	pub time: std::time::Duration,
	depth: u32,
}

impl Z3 {
	pub fn new() -> Self {
		unsafe {
			let cfg = Z3_mk_config();
			let c = Z3_mk_context_rc(cfg);
			Z3_del_config(cfg);
			Z3_set_error_handler(c, Some(on_error));
			let s = Z3_mk_simple_solver(c);
			Z3_solver_inc_ref(c, s);
			let int = Z3_mk_int_sort(c);
			Z3_inc_ref(c, int);
			Z3 {
				c,
				s,
				int,
				vars: Vec::new(),
				temps: Vec::new(),
				queries: 0,
				sat: 0,
				unsat: 0,
				time: Default::default(),
				depth: 0,
			}
		}
	}
	fn t(&mut self, p: P) -> Ast {
		unsafe { Z3_inc_ref(self.c, p) }
		self.temps.push(p);
		Ast(p)
	}
	pub fn release(&mut self) {
		for p in self.temps.drain(..) {
			unsafe { Z3_dec_ref(self.c, p) }
		}
	}
	pub fn var(&mut self, i: usize) -> Ast {
		while self.vars.len() <= i {
			unsafe {
				let s = Z3_mk_int_symbol(self.c, self.vars.len() as c_int);
				let v = Z3_mk_const(self.c, s, self.int);
				Z3_inc_ref(self.c, v);
				self.vars.push(Ast(v));
			}
		}
		self.vars[i]
	}
	pub fn int(&mut self, v: i64) -> Ast {
		let p = unsafe { Z3_mk_int64(self.c, v, self.int) };
		self.t(p)
	}
	pub fn bool(&mut self, b: bool) -> Ast {
		let p = unsafe {
			if b {
				Z3_mk_true(self.c)
			} else {
				Z3_mk_false(self.c)
			}
		};
		self.t(p)
	}
	pub fn eq(&mut self, a: Ast, b: Ast) -> Ast {
		let p = unsafe { Z3_mk_eq(self.c, a.0, b.0) };
		self.t(p)
	}
	pub fn lt(&mut self, a: Ast, b: Ast) -> Ast {
		let p = unsafe { Z3_mk_lt(self.c, a.0, b.0) };
		self.t(p)
	}
	pub fn le(&mut self, a: Ast, b: Ast) -> Ast {
		let p = unsafe { Z3_mk_le(self.c, a.0, b.0) };
		self.t(p)
	}
	pub fn not(&mut self, a: Ast) -> Ast {
		let p = unsafe { Z3_mk_not(self.c, a.0) };
		self.t(p)
	}
	pub fn and(&mut self, v: &[Ast]) -> Ast {
		let v: Vec<P> = v.iter().map(|a| a.0).collect();
		let p = unsafe { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) };
		self.t(p)
	}
	pub fn or(&mut self, v: &[Ast]) -> Ast {
		let v: Vec<P> = v.iter().map(|a| a.0).collect();
		let p = unsafe { Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) };
		self.t(p)
	}
	/// Number of true formulas among `v`, as an integer term.
	pub fn count(&mut self, v: &[Ast]) -> Ast {
		let one = self.int(1);
		let zero = self.int(0);
		let mut ps: Vec<P> = vec![zero.0];
		for a in v {
			let p = unsafe { Z3_mk_ite(self.c, a.0, one.0, zero.0) };
			ps.push(self.t(p).0);
		}
		let p = unsafe { Z3_mk_add(self.c, ps.len() as c_uint, ps.as_ptr()) };
		self.t(p)
	}
	pub fn push(&mut self) {
		unsafe { Z3_solver_push(self.c, self.s) }
		self.depth += 1;
	}
	pub fn pop(&mut self, n: u32) {
		assert!(n <= self.depth);
		if n > 0 {
			unsafe { Z3_solver_pop(self.c, self.s, n) }
			self.depth -= n;
		}
	}
	pub fn depth(&self) -> u32 {
		self.depth
	}
	pub fn assert(&mut self, a: Ast) {
		unsafe { Z3_solver_assert(self.c, self.s, a.0) }
	}
	pub fn check(&mut self) -> Res {
		let t = std::time::Instant::now();
		let r = unsafe { Z3_solver_check(self.c, self.s) };
		self.time += t.elapsed();
		self.queries += 1;
		match r {
			1 => {
				self.sat += 1;
				Res::Sat
			}
			-1 => {
				self.unsat += 1;
				Res::Unsat
			}
			_ => Res::Unknown,
		}
	}
	pub fn model(&mut self, n: usize) -> Vec<i64> {
		self.var(n);
		unsafe {
			let m = Z3_solver_get_model(self.c, self.s);
			Z3_model_inc_ref(self.c, m);
			let mut r = Vec::with_capacity(n);
			for i in 0..n {
				let mut v: P = std::ptr::null_mut();
				assert!(Z3_model_eval(self.c, m, self.vars[i].0, true, &mut v));
				Z3_inc_ref(self.c, v);
				let mut x = 0i64;
				assert!(Z3_get_numeral_int64(self.c, v, &mut x));
				Z3_dec_ref(self.c, v);
				r.push(x);
			}
			Z3_model_dec_ref(self.c, m);
			r
		}
	}
}

impl Drop for Z3 {
	fn drop(&mut self) {
		self.release();
		unsafe {
			for v in &self.vars {
				Z3_dec_ref(self.c, v.0);
			}
			Z3_solver_dec_ref(self.c, self.s);
			Z3_del_context(self.c);
		}
	}
}
