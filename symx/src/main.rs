//! Symbolic execution of the generic code of `rdf-types`; see DESIGN.md.
#![allow(dead_code)]
mod engine;
mod h_containers;
mod h_interp;
mod h_iso;
mod h_more;
mod h_pattern;
mod h_structure;
mod h_terms;
mod h_text;
mod h_values;
mod spec;
mod store;
mod z3;
use engine::*;
use h_iso::Shape;
use rdf_types::dataset::*;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum Tier {
	Q,
	T,
}
use Tier::*;

struct H {
	prop: &'static str,
	tier: Tier,
	name: &'static str,
	sym: Fun,
	con: Fun,
}

include!("registry.rs");

#[repr(C)]
struct Rlimit(u64, u64);
extern "C" {
	fn setrlimit(r: i32, l: *const Rlimit) -> i32;
	fn dup2(a: i32, b: i32) -> i32;
	fn open(p: *const i8, f: i32, ...) -> i32;
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let a: Vec<String> = std::env::args().collect();
	let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("list");
	unsafe {
		// Runaway allocations of the code under test must not take the machine down.
		setrlimit(9, &Rlimit(16 << 30, 16 << 30));
		// The isomorphism code reports on stderr.
		if std::env::var_os("SYMX_STDERR").is_none() {
			let n = open(b"/dev/null\0".as_ptr() as *const i8, 1);
			dup2(n, 2);
		}
	}
	match cmd {
		// run PROP TIER SECONDS CRASHFILE [HARNESS]
		"run" => run(&a[2], &a[3], a[4].parse().unwrap(), a.get(5), a.get(6)),
		// replay HARNESS V,V,V...
		"replay" => {
			let h = registry().into_iter().find(|h| h.name == a[2]).expect("harness");
			let v: Vec<i64> = a[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
			let r = replay_big_stack(h.con, v);
			println!("{}", serde_json::json!(r));
			std::process::exit(if r.is_empty() { 0 } else { 1 });
		}
		// Iteration order of a hash set on two new threads.
		"seedtest" => {
			for _ in 0..2 {
				let h = std::thread::spawn(|| (0..20).collect::<std::collections::HashSet<i32>>().into_iter().collect::<Vec<_>>());
				println!("{:?}", h.join().unwrap());
			}
		}
		_ => {
			for h in registry() {
				println!("{} {} {}", h.prop, if h.tier == Q { "quick" } else { "thorough" }, h.name);
			}
		}
	}
}

fn replay_big_stack(f: Fun, v: Vec<i64>) -> Vec<String> {
	std::thread::Builder::new()
		.stack_size(64 << 20)
		.spawn(move || replay(f, &v).unwrap_or_else(|e| vec![e]))
		.unwrap()
		.join()
		.unwrap()
}

fn run(prop: &str, tier: &str, limit: u64, crash: Option<&String>, only: Option<&String>) {
	let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
	let end = Instant::now() + Duration::from_secs(limit);
	let seed: u32 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	z3::set_seed(seed);
	let mut out = Vec::new();
	let mut code = 0;
	for h in registry() {
		if (h.prop != prop && prop != "all") || (tier == "quick" && h.tier == T) || only.map(|o| o != h.name).unwrap_or(false) {
			continue;
		}
		if let Some(c) = crash {
			set_crash_file(c, h.name, threads);
		}
		let left = end.saturating_duration_since(Instant::now()).max(Duration::from_millis(200));
		let (st, v) = explore(h.sym, h.con, threads, left, Duration::from_secs(30));
		if std::env::var_os("SYMX_VERBOSE").is_some() {
			println!(
				"# {} {}: paths {} infeasible {} queries {} asserts {} solver {:.1}s wall {:.2}s exhausted {} err {:?}",
				h.prop, h.name, st.paths, st.infeasible, st.queries, st.assertions, st.solver_s, st.wall_s, st.exhausted, st.error
			);
		}
		let mut j = serde_json::json!({
			"harness": h.name, "property": h.prop,
			"paths": st.paths, "infeasible": st.infeasible, "branches_flipped": st.decisions,
			"queries": st.queries, "sat": st.sat, "unsat": st.unsat,
			"assertion_queries": st.assertion_queries, "assertions": st.assertions,
			"solver_s": st.solver_s, "wall_s": st.wall_s, "exhausted": st.exhausted,
			"max_symbols": st.max_vars, "validated": st.validated, "samples": st.samples, "fresh": st.fresh, "error": st.error, "labels": st.labels,
		});
		if let Some(v) = v {
			j["violation"] = serde_json::json!({"kind": v.kind, "label": v.label, "values": v.values});
			if v.kind != "hang" {
				let r = replay_big_stack(h.con, v.values.clone());
				j["native"] = serde_json::json!(r);
			}
			out.push(j);
			code = 1;
			break;
		}
		if st.error.is_some() {
			code = 3;
		}
		out.push(j);
	}
	println!("{}", serde_json::json!({"z3": z3::version(), "threads": threads, "seed": seed, "runs": out}));
	use std::io::Write;
	std::io::stdout().flush().unwrap();
	std::process::exit(code);
}
