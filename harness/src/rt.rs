//! Runner: random numbers, case accounting, report.
use std::time::Instant;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03); for _ in 0..8 { r.next(); } r }
	pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545_F491_4F6C_DD1D) }
	pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 11) as usize % n } }
	pub fn chance(&mut self, one_in: usize) -> bool { self.below(one_in) == 0 }
	pub fn pick<'a, T: ?Sized>(&mut self, l: &[&'a T]) -> &'a T { l[self.below(l.len())] }
	/// An integer with interesting magnitudes.
	pub fn int(&mut self) -> u64 {
		let bits = self.below(65) as u32;
		let v = if bits == 0 { 0 } else { self.next() >> (64 - bits) };
		match self.below(6) { 0 => v.wrapping_add(1), 1 => (1u64 << self.below(64)).wrapping_sub(self.below(2) as u64), 2 => self.below(300) as u64, _ => v }
	}
}

pub struct Ctx {
	pub prop: String, pub rng: Rng, pub thorough: bool,
	pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>,
	pub notes: Vec<String>,
	start: Instant, budget: f64, seed: u64,
}

pub fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
	}
	o.push('"'); o
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
	if let Some(s) = e.downcast_ref::<String>() { s.clone() }
	else if let Some(s) = e.downcast_ref::<&str>() { (*s).to_owned() }
	else { "panic".to_owned() }
}

impl Ctx {
	pub fn new(prop: &str, seed: u64, thorough: bool, budget: f64) -> Self {
		Self { prop: prop.to_owned(), rng: Rng::new(seed), thorough, evals: 0, distinct: HashSet::new(), samples: Vec::new(), notes: Vec::new(), start: Instant::now(), budget, seed }
	}
	/// Fraction of the budget used so far.
	pub fn used(&self) -> f64 { self.start.elapsed().as_secs_f64() / self.budget }
	pub fn more(&self, frac: f64) -> bool { self.used() < frac }

	/// One case. `nontrivial` marks cases that exercise the property.
	pub fn case<I: std::fmt::Debug, F: FnOnce() -> Result<(), String>>(&mut self, nontrivial: bool, input: I, f: F) {
		self.evals += 1;
		let res = catch_unwind(AssertUnwindSafe(f));
		if nontrivial && self.distinct.len() < 4_000_000 {
			let txt_needed = self.samples.len() < 5 && (self.evals % 97 == 1);
			let mut h = DefaultHasher::new();
			let txt = format!("{input:?}");
			txt.hash(&mut h);
			self.distinct.insert(h.finish());
			if txt_needed { self.samples.push(if txt.chars().count() > 400 { format!("{}...", txt.chars().take(400).collect::<String>()) } else { txt }); }
		}
		let err = match res { Ok(Ok(())) => return, Ok(Err(e)) => e, Err(p) => format!("panicked: {}", panic_msg(p)) };
		let input = format!("{input:?}");
		self.report(Some((&input, &err)));
		std::process::exit(1);
	}
	pub fn finish(&mut self) { if self.samples.is_empty() { self.samples.push("(no sample kept)".into()); } self.report(None); }
	fn report(&self, fail: Option<(&str, &str)>) {
		use std::io::Write;
		let mut o = format!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"secs\":{:.2},\"samples\":[{}],\"notes\":[{}]",
			js(&self.prop), self.seed, self.evals, self.distinct.len(), self.start.elapsed().as_secs_f64(),
			self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
			self.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
		if let Some((i, e)) = fail { o.push_str(&format!(",\"fail\":{{\"input\":{},\"what\":{}}}", js(i), js(e))); }
		o.push('}');
		let mut h = std::io::stdout().lock();
		let _ = writeln!(h, "{o}"); let _ = h.flush();
	}
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
	if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
pub fn ensure(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> { if ok { Ok(()) } else { Err(what()) } }
