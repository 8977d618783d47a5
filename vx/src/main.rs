/*!
# vx: mechanical extraction of contracted functions

`vx list EXPANDED.rs` prints every function key.
`vx gen EXPANDED.rs PLAN... -o OUT.rs [--trust KEY]...` builds a Verus file.

The plan names functions of the (macro-expanded, cfg-resolved) source and gives
their contracts; the bodies come from the source on every run. See DESIGN.md for
the list of rewrites and what they assume.
*/
mod desugar;
mod find;
mod guard;
mod inline;
mod macros;
mod plan;
mod print;

use std::collections::BTreeMap;

fn main() {
	let args: Vec<String> = std::env::args().collect();
	match args.get(1).map(String::as_str) {
		Some("list") => {
			let src = std::fs::read_to_string(&args[2]).expect("read");
			let file = find::parse(&src);
			for f in find::index(&file) { println!("{}", f.key); }
		},
		// The names of parameters and locals, by function.
		Some("names") => {
			let src = std::fs::read_to_string(&args[2]).expect("read");
			let file = find::parse(&src);
			for f in find::index(&file) { let (a, l) = inline::names(&f); println!("{}\t{}\t{}", f.key, a.join(","), l.join(",")); }
		},
		Some("gen") => {
			let mut plans = Vec::new();
			let mut out = None;
			let mut trust = Vec::new();
			let mut drop: Vec<String> = Vec::new();
			let mut names: BTreeMap<String, (Vec<String>, Vec<String>)> = BTreeMap::new();
			let mut map = None;
			let mut vacuity = false;
			let mut it = args[3..].iter();
			while let Some(a) = it.next() {
				match a.as_str() {
					"-o" => out = it.next().cloned(),
					"--map" => map = it.next().cloned(),
					"--names" => {
						for l in std::fs::read_to_string(it.next().unwrap()).expect("names").lines() {
							let w: Vec<&str> = l.split('\t').collect();
							let v = |s: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s.split(',').map(str::to_owned).collect() } };
							names.insert(w[0].to_owned(), (v(w[1]), v(w[2])));
						}
					},
					"--drop" => drop.push(it.next().cloned().unwrap()),
					"--trust" => trust.push(it.next().cloned().unwrap()),
					"--vacuity" => vacuity = true,
					p => plans.push(p.to_owned()),
				}
			}
			// Several sources (crates), separated by commas, are one.
			let mut files = args[2].split(',').map(|p| find::parse(&std::fs::read_to_string(p).expect("read")));
			let mut file = files.next().unwrap();
			for f in files { file.items.extend(f.items); }
			let mut plan = plan::Plan::default();
			for p in plans { plan.read(&p); }
			if vacuity { plan.flags.push("vacuity".to_owned()); }
			let res = if plan.flag("macros") { macros::generate(&file, &plan, &trust, &drop) } else { print::generate(&file, &plan, &trust, &drop, &names) };
			std::fs::write(out.expect("-o"), res.text).expect("write");
			std::fs::write(map.expect("--map"), res.map).expect("write");
		},
		_ => { eprintln!("usage"); std::process::exit(2); },
	}
}
