use kani_harnesses::*;
/// `replay HARNESS b,b,b`: exit 1 if the assertion fails natively.
fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 3 {
		for n in NAMES {
			println!("{n}");
		}
		return;
	}
	let bytes = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
	let r = std::panic::catch_unwind(|| run(&a[1], &mut Replay { bytes, pos: 0 }));
	match r {
		Ok(()) => println!("holds"),
		Err(p) if p.is::<Infeasible>() => println!("infeasible"),
		Err(p) => {
			let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned());
			println!("violated: {}", m.unwrap_or_default());
			std::process::exit(1)
		}
	}
}
