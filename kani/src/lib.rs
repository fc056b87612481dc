#![cfg_attr(kani, feature(formatting_options))]
//! Harnesses over strings, decided by Kani (CBMC) on the compiled code.
//! Each is generic in its source of bytes so that a counterexample can be
//! replayed natively with the same code.
pub mod harnesses;

pub trait Src {
	fn byte(&mut self) -> u8;
	fn assume(&mut self, c: bool);
	/// A value below `n`.
	fn below(&mut self, n: u8) -> u8 {
		let b = self.byte();
		self.assume(b < n);
		b
	}
	fn flip(&mut self) -> bool {
		self.below(2) == 1
	}
}

/// Bytes of a counterexample; `Infeasible` is raised where an assumption fails.
pub struct Replay {
	pub bytes: Vec<u8>,
	pub pos: usize,
}
pub struct Infeasible;

impl Src for Replay {
	fn byte(&mut self) -> u8 {
		let b = self.bytes.get(self.pos).copied().unwrap_or(0);
		self.pos += 1;
		b
	}
	fn assume(&mut self, c: bool) {
		if !c {
			std::panic::panic_any(Infeasible)
		}
	}
}

#[cfg(kani)]
pub struct Any;
#[cfg(kani)]
impl Src for Any {
	fn byte(&mut self) -> u8 {
		kani::any()
	}
	fn assume(&mut self, c: bool) {
		kani::assume(c)
	}
}

macro_rules! harnesses {
	($( $name:ident $tier:ident $unwind:literal $e:expr; )*) => {
		#[cfg(kani)]
		mod proofs {
			use super::*;
			#[allow(unused_imports)]
			use super::harnesses as h;
			$(
				#[kani::proof]
				#[kani::unwind($unwind)]
				#[kani::solver(cadical)]
				#[kani::stub(std::fmt::format, h::format)]
				#[kani::stub(std::string::String::with_capacity, h::string_with_capacity)]
				#[kani::stub(std::string::String::push, h::string_push)]
				#[kani::stub(std::string::String::push_str, h::string_push_str)]
				#[kani::stub(rdf_types::LiteralType::is_xsd_string, h::is_xsd_string)]
				#[kani::stub(rdf_types::LiteralTypeRef::is_xsd_string, h::is_xsd_string_ref)]
				fn $name() {
					let f: fn(&mut Any) = $e;
					f(&mut Any)
				}
			)*
		}
		pub fn run(name: &str, r: &mut Replay) {
			#[allow(unused_imports)]
			use harnesses as h;
			match name {
				$( stringify!($name) => { let f: fn(&mut Replay) = $e; f(r) } )*
				_ => panic!("no such harness"),
			}
		}
		pub const NAMES: &[&str] = &[$(stringify!($name)),*];
	};
}
include!("registry.rs");
