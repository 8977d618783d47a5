//! Progress properties: C07–C11, C13, C19. Everything is driven through the
//! public API, with stderr on a pseudo-terminal whose size we control.
use crate::oracle::*;
use crate::p_text::{build, rand_make, step, Model, Op as TOp};
use crate::rt::*;
use fyi_msg::{AnsiColor, BeforeAfter, Msg, MsgKind, Progless, ProglessError};
use std::collections::BTreeSet;
use std::num::*;
use std::os::raw::{c_char, c_int, c_ulong, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---- Terminal ------------------------------------------------------------
unsafe extern "C" {
	fn posix_openpt(flags: c_int) -> c_int;
	fn grantpt(fd: c_int) -> c_int;
	fn unlockpt(fd: c_int) -> c_int;
	fn ptsname_r(fd: c_int, buf: *mut c_char, len: usize) -> c_int;
	fn open(path: *const c_char, flags: c_int, ...) -> c_int;
	fn dup2(a: c_int, b: c_int) -> c_int;
	fn ioctl(fd: c_int, req: c_ulong, ...) -> c_int;
	fn tcgetattr(fd: c_int, t: *mut c_void) -> c_int;
	fn tcsetattr(fd: c_int, act: c_int, t: *const c_void) -> c_int;
	fn cfmakeraw(t: *mut c_void);
	fn close(fd: c_int) -> c_int;
	fn kill(pid: c_int, sig: c_int) -> c_int;
	fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
	fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
}
struct Term { master: c_int, slave: c_int, got: Arc<(Mutex<Vec<u8>>, Condvar)>, mark: u64 }
impl Term {
	/// Put fd 2 on a new pseudo-terminal and collect what is written to it.
	fn new() -> Self {
		let (master, slave) = unsafe {
			let m = posix_openpt(0o2 | 0o400);
			if m < 0 || grantpt(m) != 0 || unlockpt(m) != 0 { eprintln!("no pseudo-terminal"); std::process::exit(2); }
			let mut name = [0 as c_char; 128];
			if ptsname_r(m, name.as_mut_ptr(), 128) != 0 { eprintln!("no pseudo-terminal name"); std::process::exit(2); }
			let s = open(name.as_ptr(), 0o2 | 0o400);
			if s < 0 { eprintln!("no pseudo-terminal slave"); std::process::exit(2); }
			let mut t = [0_u64; 64];
			tcgetattr(s, t.as_mut_ptr().cast()); cfmakeraw(t.as_mut_ptr().cast()); tcsetattr(s, 0, t.as_ptr().cast());
			if dup2(s, 2) != 2 { std::process::exit(2); }
			(m, s)
		};
		let got = Arc::new((Mutex::new(Vec::new()), Condvar::new()));
		let g = Arc::clone(&got);
		std::thread::spawn(move || {
			let mut buf = vec![0_u8; 65536];
			loop {
				let n = unsafe { read(master, buf.as_mut_ptr().cast(), buf.len()) };
				if n <= 0 { return; }
				g.0.lock().unwrap().extend_from_slice(&buf[..n as usize]);
				g.1.notify_all();
			}
		});
		Self { master, slave, got, mark: 0 }
	}
	fn size(&self, cols: u16, rows: u16) { let ws = [rows, cols, 0, 0]; unsafe { ioctl(self.master, 0x5414, ws.as_ptr()); } }
	/// Everything written since the last call.
	fn take(&mut self) -> Vec<u8> {
		self.mark += 1;
		let mark = format!("\u{0}<<mark {}>>\u{0}", self.mark).into_bytes();
		{
			use std::io::Write;
			let mut h = std::io::stderr().lock();
			let _ = h.write_all(&mark); let _ = h.flush();
		}
		let mut g = self.got.0.lock().unwrap();
		let start = Instant::now();
		loop {
			if g.ends_with(&mark) || g.windows(mark.len()).any(|w| w == mark) {
				let p = g.windows(mark.len()).position(|w| w == mark).unwrap();
				let out = g[..p].to_vec();
				let rest = g[p + mark.len()..].to_vec();
				*g = rest;
				return out;
			}
			if start.elapsed() > Duration::from_secs(20) { println!("terminal output stalled"); std::process::exit(2); }
			g = self.got.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
		}
	}
}

/// A new pseudo-terminal: what is written to the slave is collected until it is closed.
pub struct Pty { master: c_int, pub slave: c_int, pub got: Arc<(Mutex<Vec<u8>>, Condvar)> }
impl Pty {
	pub fn new() -> Option<Self> {
		let (master, slave) = unsafe {
			let m = posix_openpt(0o2 | 0o400 | 0o2000000);
			if m < 0 || grantpt(m) != 0 || unlockpt(m) != 0 { return None; }
			let mut name = [0 as c_char; 128];
			if ptsname_r(m, name.as_mut_ptr(), 128) != 0 { return None; }
			let s = open(name.as_ptr(), 0o2 | 0o400 | 0o2000000);
			if s < 0 { return None; }
			let mut t = [0_u64; 64];
			tcgetattr(s, t.as_mut_ptr().cast()); cfmakeraw(t.as_mut_ptr().cast()); tcsetattr(s, 0, t.as_ptr().cast());
			(m, s)
		};
		let got = Arc::new((Mutex::new(Vec::new()), Condvar::new()));
		let g = Arc::clone(&got);
		std::thread::spawn(move || {
			let mut buf = vec![0_u8; 65536];
			loop {
				let n = unsafe { read(master, buf.as_mut_ptr().cast(), buf.len()) };
				if n <= 0 { unsafe { close(master); } return; }
				g.0.lock().unwrap().extend_from_slice(&buf[..n as usize]);
				g.1.notify_all();
			}
		});
		Some(Self { master, slave, got })
	}
	/// Only while the slave is open.
	pub fn size(&self, cols: u16, rows: u16) { let ws = [rows, cols, 0, 0]; unsafe { ioctl(self.master, 0x5414, ws.as_ptr()); } }
	pub fn text(&self) -> Vec<u8> { self.got.0.lock().unwrap().clone() }
}
pub fn signal(pid: u32, sig: i32) { unsafe { kill(pid as c_int, sig); } }

/// Dropping a progress bar joins its ticker, which can take 100 ms.
static PENDING: AtomicUsize = AtomicUsize::new(0);
struct P(Option<Progless>);
impl std::ops::Deref for P { type Target = Progless; fn deref(&self) -> &Progless { self.0.as_ref().unwrap() } }
impl Drop for P {
	fn drop(&mut self) {
		if let Some(p) = self.0.take() {
			p.set_done(u32::MAX); // Stops it.
			while PENDING.load(SeqCst) > 400 { std::thread::sleep(Duration::from_millis(2)); }
			PENDING.fetch_add(1, SeqCst);
			std::thread::spawn(move || { drop(p); PENDING.fetch_sub(1, SeqCst); });
		}
	}
}
fn new_p(total: u32) -> P { P(Some(Progless::from(NonZeroU32::new(total).expect("total")))) }
fn done_of(p: &Progless) -> Result<u64, String> {
	let s = p.summary(MsgKind::None, "x", "x");
	let t = s.as_str();
	let n: String = t.split(' ').next().unwrap_or("").chars().filter(|c| *c != ',').collect();
	n.parse().map_err(|_| format!("unreadable summary {t:?}"))
}

/// Repeat a case that could have been disturbed by a ticker or by timing.
fn steadily(mut f: impl FnMut() -> Result<(), String>) -> Result<(), String> {
	let mut last = Ok(());
	for i in 0..3 {
		last = f();
		if last.is_ok() { return Ok(()); }
		std::thread::sleep(Duration::from_millis(20 * i));
	}
	last
}

// ---- Frames --------------------------------------------------------------
#[derive(Debug, Clone, Default)]
pub struct State { pub total: u32, pub done: u32, pub running: bool, pub tasks: BTreeSet<String>, pub title: Option<String> }

fn sanitise(s: &str) -> Option<String> {
	let t = s.trim_end();
	let o: String = strip(t).chars().filter_map(|c| if c.is_whitespace() { Some(' ') } else if c.is_control() { None } else { Some(c) }).collect();
	if o.is_empty() { None } else { Some(o) }
}
pub fn usable(cols: u16, rows: u16) -> Option<(usize, usize)> {
	let w = cols.saturating_sub(1).min(255); let h = rows.min(255).saturating_sub(1);
	if w == 0 || h == 0 { None } else { Some((w.into(), h.into())) }
}
fn num(s: &str) -> Option<u64> { s.chars().filter(|c| *c != ',').collect::<String>().parse().ok() }

/// Check one frame (without the leading clear).
pub fn check_frame(f: &str, st: &State, w: usize, h: usize, what: Focus) -> Result<(), String> {
	let ctx = |e: String| format!("{e}\n  frame ({w}x{h} usable): {f:?}\n  state: {st:?}");
	if w < 10 { return ensure(f.is_empty(), || ctx("something was drawn in under ten columns".into())); }
	if w < 40 {
		let vis = strip(f);
		return ensure(!f.contains('\n') && vis.trim().starts_with('\u{bb}') && vis.contains('%'), || ctx("not a percentage-only frame".into()));
	}
	// The end: back to the start of the first line.
	let p = f.rfind('\r').ok_or_else(|| ctx("no carriage return at the end".into()))?;
	let (body, tail) = (&f[..p], &f[p + 1..]);
	let up: usize = if tail.is_empty() { 0 } else {
		tail.strip_prefix("\x1b[").and_then(|t| t.strip_suffix('A')).and_then(|t| t.parse().ok()).ok_or_else(|| ctx(format!("odd ending {tail:?}")))?
	};
	let body = body.strip_suffix("\x1b[0m").ok_or_else(|| ctx("no reset at the end".into()))?;
	let ls: Vec<&str> = body.split('\n').collect();
	if what != Focus::Bar { ensure(up == ls.len() - 1, || ctx(format!("moves up {up} lines after printing {} line breaks", ls.len() - 1)))?; }
	let is_status = |l: &str| { let v = strip(l); v.starts_with('[') && v.as_bytes().get(9) == Some(&b']') && v.as_bytes().get(3) == Some(&b':') && v.contains("]  [") && v.contains('/') };
	let si = (0..ls.len().min(2)).rev().find(|i| is_status(ls[*i])).ok_or_else(|| ctx("no status line in the first two lines".into()))?;
	// Status.
	if what != Focus::Tasks {
		let v = strip(ls[si]);
		let rest = v[10..].strip_prefix("  [").ok_or_else(|| ctx("no bar opening".into()))?;
		let (bar, rest) = rest.split_once("]  ").ok_or_else(|| ctx("no bar closing".into()))?;
		let (nums, pct) = rest.split_once("  ").ok_or_else(|| ctx("no percentage".into()))?;
		let (d, t) = nums.split_once('/').ok_or_else(|| ctx("no counters".into()))?;
		ensure(num(d) == Some(st.done.into()) && d == thousands(st.done.into()), || ctx(format!("done is shown as {d}")))?;
		ensure(num(t) == Some(st.total.into()) && t == thousands(st.total.into()), || ctx(format!("total is shown as {t}")))?;
		let pv: f64 = pct.strip_suffix('%').and_then(|x| x.parse().ok()).ok_or_else(|| ctx(format!("percentage {pct:?}")))?;
		let want = f64::from(st.done) / f64::from(st.total) * 100.0;
		ensure((pv - want).abs() < 0.0052, || ctx(format!("percentage is {pct}, expected {want}")))?;
		let fixed = 19 + d.len() + t.len() + pct.len();
		let space = w.saturating_sub(fixed);
		let filled = bar.bytes().filter(|b| *b == b'#').count();
		ensure(bar.bytes().skip(filled).all(|b| b == b'-') && bar.bytes().take(filled).all(|b| b == b'#'), || ctx(format!("bar {bar:?}")))?;
		if space >= 10 {
			ensure(width(&v) == w, || ctx(format!("the status line is {} wide", width(&v))))?;
			let want = (space as u128 * u128::from(st.done) / u128::from(st.total)) as usize;
			ensure(filled == want, || ctx(format!("{filled} of {space} filled, expected {want}")))?;
		}
		else { ensure(bar.is_empty(), || ctx("a bar was drawn without room".into()))?; }
	}
	if what == Focus::Bar { return Ok(()); }
	// Title.
	let first = st.title.as_deref().map_or("", |t| lines(t).first().copied().unwrap_or(""));
	let first = first.strip_suffix('\n').unwrap_or(first);
	let first = first.strip_suffix('\r').unwrap_or(first);
	if si == 1 {
		let line = ls[0].strip_suffix('\r').unwrap_or(ls[0]);
		ensure(width(line) <= w, || ctx(format!("the title is {} wide", width(line))))?;
		ensure(st.title.is_some(), || ctx("a title was drawn although there is none".into()))?;
		let mut n = 0;
		let want: String = strip(first).chars().take_while(|c| { n += cw(*c); n <= w }).collect();
		ensure(strip(line) == want, || ctx(format!("title line {line:?}, expected {want:?}")))?;
		ensure(h >= 2, || ctx("a title was drawn on a one-line screen".into()))?;
	}
	else { ensure(h < 2 || strip(first).is_empty(), || ctx("the title is missing".into()))?; }
	// Tasks.
	let got = &ls[si + 1..];
	let fits = w - 12 >= 2 && si + 1 + st.tasks.len() <= h;
	let want: Vec<String> = if fits { st.tasks.iter().map(|t| format!("    \u{21b3} {}", &t[..cut(t, w - 12)])).collect() } else { Vec::new() };
	ensure(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b), || ctx(format!("task lines {got:?}, expected {want:?}")))
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Focus { Bar, Tasks, All }

/// Push a marker message, and give back what was drawn after it.
fn redraw(t: &mut Term, p: &Progless, cols: u16, rows: u16) -> Result<String, String> {
	t.size(cols, rows);
	let _ = p.push_msg(Msg::from("~~settle~~")); // The first tick after a resize draws nothing.
	let _ = t.take();
	p.push_msg(Msg::from("~~redraw~~")).map_err(|_| "push_msg failed".to_string())?;
	let out = String::from_utf8_lossy(&t.take()).into_owned();
	let out = out.rsplit_once("~~redraw~~\n").ok_or_else(|| format!("message lost: {out:?}"))?.1.to_owned();
	// There can be more than one frame; use the last one.
	let last = out.rsplit_once("\x1b[J").ok_or_else(|| format!("no frame in {out:?}"))?.1;
	Ok(last.to_owned())
}
fn frame_check(t: &mut Term, p: &Progless, st: &State, cols: u16, rows: u16, what: Focus) -> Result<(), String> {
	let Some((w, h)) = usable(cols, rows) else { t.size(cols, rows); return p.push_msg(Msg::from("x")).map_err(|_| "push_msg failed".into()); };
	let f = redraw(t, p, cols, rows)?;
	check_frame(&f, st, w, h, what)
}

// ---- C07 -----------------------------------------------------------------
#[derive(Debug, Clone)]
enum Op { Inc(u32), One, Set(u32), Add(String), Remove(String), Finish, Reset(u32), TryZero, Title(Option<String>), TitleMsg(String), Push }
impl State {
	fn new(total: u32) -> Self { Self { total, running: true, ..Self::default() } }
	fn stop(&mut self) { self.done = self.total; self.running = false; self.tasks.clear(); }
	fn inc(&mut self, n: u32) {
		if n == 0 || !self.running { return; }
		if u64::from(self.done) + u64::from(n) < u64::from(self.total) { self.done += n; } else { self.stop(); }
	}
	fn set(&mut self, n: u32) {
		if !self.running || n == self.done { return; }
		if n < self.total { self.done = n; } else { self.stop(); }
	}
	fn add(&mut self, s: &str) -> bool { self.running && sanitise(s).is_some_and(|x| self.tasks.insert(x)) }
	fn remove(&mut self, s: &str) {
		if !self.running { return; }
		if self.tasks.remove(s.trim_end()) || sanitise(s).is_some_and(|x| self.tasks.remove(&x)) { self.inc(1); }
	}
}
fn apply(p: &Progless, st: &mut State, op: &Op) -> Result<(), String> {
	match op {
		Op::Inc(n) => { st.inc(*n); p.increment_n(*n); },
		Op::One => { st.inc(1); p.increment(); },
		Op::Set(n) => { st.set(*n); p.set_done(*n); },
		Op::Add(s) => { let w = st.add(s); eq("add result", p.add(s), w)?; },
		Op::Remove(s) => { st.remove(s); p.remove(s); },
		Op::Finish => { if st.running { st.stop(); } p.finish(); },
		Op::Reset(n) => { if let Some(n) = NonZeroU32::new(*n) { *st = State { title: st.title.take(), ..State::new(n.get()) }; if n.get() % 2 == 0 { p.reset(n); } else { p.try_reset(n.get()).map_err(|e| format!("try_reset: {e}"))?; } } },
		Op::TryZero => { ensure(p.try_reset(0) == Err(ProglessError::EmptyTotal), || "try_reset(0) was accepted".into())?; },
		Op::Title(s) => { st.title = s.clone().filter(|s| !s.is_empty()); p.set_title(s.clone()); },
		Op::TitleMsg(s) => { if let Some(t) = st.title.as_mut() { *t = s.clone(); } p.set_title_msg(s); },
		Op::Push => { p.push_msg(Msg::from("note")).map_err(|_| "push_msg failed".to_string())?; },
	}
	Ok(())
}
fn counters(p: &Progless, st: &State) -> Result<(), String> { eq("done", done_of(p)?, st.done.into()) }
static PROBE: AtomicU64 = AtomicU64::new(0);
fn counter_history(t: &mut Term, total: u32, ops: &[Op], probe: bool, deflt: bool) -> Result<(), String> {
	let p = if deflt { P(Some(Progless::default())) } else { new_p(total) };
	let mut st = if deflt { State { total: 1, ..State::default() } } else { State::new(total) };
	let live = |p: &Progless, st: &mut State| -> Result<(), String> {
		let l = format!("probe {}", PROBE.fetch_add(1, SeqCst));
		let got = p.add(&l);
		if st.running { st.tasks.insert(l); }
		eq("running", got, st.running)
	};
	if probe { live(&p, &mut st)?; }
	counters(&p, &st)?;
	for (i, op) in ops.iter().enumerate() {
		let here = |e: String| format!("after step {} ({op:?}): {e}", i + 1);
		apply(&p, &mut st, op).map_err(here)?;
		counters(&p, &st).map_err(here)?;
		if probe { live(&p, &mut st).map_err(here)?; }
	}
	if st.running { frame_check(t, &p, &st, 140, 200, Focus::Bar)?; live(&p, &mut st)?; p.set_done(u32::MAX); st.set(u32::MAX); counters(&p, &st)?; live(&p, &mut st)?; }
	let _ = t.take();
	Ok(())
}
const TOTALS: &[u32] = &[1, 2, 3, 9, 255, 256, 65_535, 65_536, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];
fn any_total(r: &mut Rng) -> u32 { match r.below(3) { 0 => TOTALS[r.below(TOTALS.len())], 1 => 1 + r.below(12) as u32, _ => (r.int() as u32).max(1) } }
fn near(r: &mut Rng, total: u32, done: u32) -> u32 {
	let gap = total.wrapping_sub(done);
	match r.below(8) { 0 => 0, 1 => 1, 2 => gap, 3 => gap.wrapping_sub(1), 4 => gap.wrapping_add(1), 5 => u32::MAX, 6 => r.int() as u32, _ => r.below(4) as u32 }
}
pub fn c07(c: &mut Ctx) {
	let mut t = Term::new(); t.size(100, 30);
	// Small totals exhaustively.
	let mut small = Vec::new();
	for n in 0..5 { small.push(Op::Inc(n)); small.push(Op::Set(n)); }
	small.extend([Op::Inc(u32::MAX), Op::Set(u32::MAX), Op::Add("a".into()), Op::Remove("a".into()), Op::TryZero]);
	for total in 1..=4 { for a in &small { for b in &small { for d in &small {
		if !c.more(0.55) { continue; }
		let h = [a.clone(), b.clone(), d.clone()];
		c.case(true, (total, &h), || steadily(|| counter_history(&mut t, total, &h, true, false)));
	} } } }
	while c.more(1.0) {
		let total = any_total(&mut c.rng); let mut st = State::new(total);
		let mut h = Vec::new(); let mut slow = 0;
		for _ in 0..1 + c.rng.below(10) {
			let r = &mut c.rng;
			let op = match r.below(14) {
				0..=3 => Op::Inc(near(r, st.total, st.done)), 4 => Op::One, 5..=7 => { let n = near(r, st.total, 0); Op::Set(n) }, 8 | 9 => Op::Add(["a", "b", "c"][r.below(3)].into()), 10 | 11 => Op::Remove(["a", "b", "c"][r.below(3)].into()),
				12 => Op::TryZero, _ if slow < 1 && r.chance(6) => { slow += 1; if r.chance(2) { Op::Finish } else { Op::Reset(any_total(r)) } }, _ => Op::One,
			};
			// Follow along to aim at the boundaries.
			match &op { Op::Inc(n) => st.inc(*n), Op::One => st.inc(1), Op::Set(n) => st.set(*n), Op::Reset(n) => st = State::new(*n), Op::Finish => st.stop(), Op::Add(s) => { st.add(s); }, Op::Remove(s) => st.remove(s), _ => {} }
			h.push(op);
		}
		let probe = c.rng.chance(2); let d = c.rng.chance(20);
		c.case(true, (total, &h, probe, d), || steadily(|| counter_history(&mut t, total, &h, probe, d)));
	}
}

// ---- C08 -----------------------------------------------------------------
fn race(total: u32, threads: usize, each: &[u32], removes: usize) -> Result<(), String> {
	let p = Arc::new(new_p(total));
	let labels: Vec<String> = (0..removes).map(|i| format!("task {i}")).collect();
	for l in &labels { ensure(p.add(l), || "add failed".into())?; }
	let gate = Arc::new(std::sync::Barrier::new(threads + 1));
	let over = Arc::new(AtomicBool::new(false));
	let mut sum: u64 = removes as u64;
	let hs: Vec<_> = (0..threads).map(|k| {
		let (p, gate) = (Arc::clone(&p), Arc::clone(&gate));
		let each = each.to_vec(); let labels = labels.clone();
		sum += each.iter().map(|n| u64::from(*n)).sum::<u64>();
		std::thread::spawn(move || {
			gate.wait();
			for (i, n) in each.iter().enumerate() { if k % 2 == 0 && *n == 1 { p.increment(); } else { p.increment_n(*n); } if let Some(l) = labels.get(i) { p.remove(l); } }
			for l in labels.iter().skip(each.len()) { p.remove(l); }
		})
	}).collect();
	// Watch the count.
	let (wp, wo) = (Arc::clone(&p), Arc::clone(&over));
	let w = std::thread::spawn(move || { let mut last = 0; while !wo.load(SeqCst) { let d = done_of(&wp)?; if d < last { return Err(format!("done went from {last} to {d}")); } last = d; } Ok(()) });
	gate.wait();
	for h in hs { h.join().map_err(|e| format!("thread panicked: {}", panic_msg(e)))?; }
	over.store(true, SeqCst);
	let w = w.join().map_err(|e| format!("watcher panicked: {}", panic_msg(e)))?;
	let want = sum.min(total.into());
	let got = done_of(&p)?;
	ensure(got == want, || format!("done is {got}, expected {want}"))?;
	eq("running", p.add("probe"), sum < u64::from(total))?;
	w?;
	p.set_done(u32::MAX);
	eq("total", done_of(&p)?, total.into())
}
pub fn c08(c: &mut Ctx) {
	let mut t = Term::new(); t.size(100, 30);
	let mut i = 0;
	while c.more(1.0) {
		let r = &mut c.rng;
		let threads = 2 + r.below(7);
		let n = [1, 5, 50, 400][r.below(4)];
		let each: Vec<u32> = (0..n).map(|_| if r.chance(3) { r.below(40) as u32 } else { 1 }).collect();
		let removes = if r.chance(2) { r.below(30) } else { 0 };
		let sum: u64 = each.iter().map(|x| u64::from(*x)).sum::<u64>() * threads as u64 + removes as u64;
		let total = match r.below(4) { 0 => u32::MAX, 1 => (sum as u32).max(1), 2 => (sum as u32).saturating_add(1), _ => ((sum / 2) as u32).max(removes as u32 + 1) };
		i += 1;
		c.case(true, (i, total, threads, &each, removes), || race(total, threads, &each, removes));
		let _ = t.take();
	}
}

// ---- C09, C10, C19 -------------------------------------------------------
fn bar_case(t: &mut Term, total: u32, done: u32, cols: u16) -> Result<(), String> {
	let p = new_p(total); let mut st = State::new(total);
	p.set_done(done); st.set(done);
	if st.running { frame_check(t, &p, &st, cols, 24, Focus::Bar)?; }
	Ok(())
}
/// Frames must stay right while the counters move and the terminal changes.
fn bar_walk(t: &mut Term, total: u32, steps: &[(Op, u16, u16)], what: Focus) -> Result<(), String> {
	let p = new_p(total); let mut st = State::new(total);
	for (i, (op, cols, rows)) in steps.iter().enumerate() {
		apply(&p, &mut st, op)?;
		if !st.running { break; }
		frame_check(t, &p, &st, *cols, *rows, what).map_err(|e| format!("after step {}: {e}", i + 1))?;
	}
	Ok(())
}
/// Same, but only looking at the end, with a single redraw after the last step.
fn cols(r: &mut Rng) -> u16 { match r.below(6) { 0 => 2 + r.below(40) as u16, 1 => 250 + r.below(12) as u16, 2 => r.next() as u16, _ => 38 + r.below(120) as u16 } }
pub fn c09(c: &mut Ctx) {
	let mut t = Term::new();
	for cols in 2..=300_u16 { for (total, done) in [(1000, 333), (u32::MAX, u32::MAX - 1), (1, 0)] {
		if c.more(0.4) { c.case(true, (total, done, cols), || steadily(|| bar_case(&mut t, total, done, cols))); }
	} }
	for &total in TOTALS { for done in [0, 1, total / 3, total / 2, total - 1] { for cols in [41, 80, 256, 500] { if done < total && c.more(0.6) { c.case(true, (total, done, cols), || steadily(|| bar_case(&mut t, total, done, cols))); } } } }
	while c.more(0.8) {
		let total = any_total(&mut c.rng);
		let done = if c.rng.chance(3) { total - 1 - c.rng.below(3.min(total as usize)) as u32 } else { c.rng.int() as u32 % total };
		let k = cols(&mut c.rng);
		c.case(true, (total, done, k), || steadily(|| bar_case(&mut t, total, done, k)));
	}
	while c.more(1.0) {
		let total = any_total(&mut c.rng);
		let mut k = 80;
		let steps: Vec<(Op, u16, u16)> = (0..1 + c.rng.below(5)).map(|_| {
			let r = &mut c.rng;
			if r.chance(3) { k = cols(r); }
			let op = match r.below(6) { 0 => Op::One, 1 => Op::Inc(r.int() as u32 % (total / 2).max(1)), 2 => Op::Set(r.int() as u32 % total), 3 => Op::Title(Some("T".into())), 4 => Op::Add("x".into()), _ => Op::Push };
			(op, k, 24)
		}).collect();
		c.case(true, (total, &steps), || steadily(|| bar_walk(&mut t, total, &steps, Focus::Bar)));
	}
}
fn label(r: &mut Rng) -> String { match r.below(5) { 0 => rand_text(r, 5), 1 => ["a", "b", "c", "dd", "\u{3042}"][r.below(5)].into(), 2 => "long label ".repeat(1 + r.below(30)), 3 => "\u{3042}\u{1f600}x".repeat(1 + r.below(40)), _ => format!("task {}", r.below(30)) } }
fn title(r: &mut Rng) -> Option<String> { match r.below(6) { 0 => None, 1 => Some(rand_text(r, 8)), 2 => Some("Title ".repeat(1 + r.below(60))), 3 => Some("one\ntwo\nthree".into()), 4 => Some("\u{3042}".repeat(r.below(200))), _ => Some("Title".into()) } }
pub fn c10(c: &mut Ctx) {
	let mut t = Term::new();
	// Every small screen height with every number of tasks.
	for rows in 2..=9_u16 { for n in 0..=8_usize { for ti in [None, Some("T".to_string()), Some("T\nU".into()), Some("\nU".into())] {
		let mut steps: Vec<(Op, u16, u16)> = vec![(Op::Title(ti.clone()), 80, rows)];
		for k in 0..n { steps.push((Op::Add(format!("t{}", n - k)), 80, rows)); }
		steps.push((Op::Title(None), 80, rows)); steps.push((Op::Title(Some("back".into())), 80, rows)); steps.push((Op::TitleMsg("again".into()), 80, rows)); steps.push((Op::Remove("t1".into()), 80, rows)); steps.push((Op::Push, 80, rows + 3));
		if c.more(0.5) { c.case(true, (rows, n, &ti), || steadily(|| bar_walk(&mut t, 100, &steps, Focus::Tasks))); }
	} } }
	for cols in 38..=300_u16 {
		let steps = vec![(Op::Title(Some("wide \u{3042}\u{3042} title ".repeat(40))), cols, 12), (Op::Add("\u{3042}".repeat(150)), cols, 12), (Op::Add("x".repeat(280)), cols, 12)];
		if c.more(0.6) { c.case(true, ("width", cols), || steadily(|| bar_walk(&mut t, 100, &steps, Focus::Tasks))); }
	}
	// Many lines.
	for n in [100, 200, 251, 252, 253, 254, 255, 256, 300] { for rows in [255, 256, 400] {
		let mut steps: Vec<(Op, u16, u16)> = Vec::new();
		let ti = n % 2 == 0;
		let ops: Vec<String> = (0..n).map(|k| format!("t{k}")).collect();
		c.case(true, ("many", n, rows), || steadily(|| {
			let p = new_p(100_000); let mut st = State::new(100_000);
			if ti { apply(&p, &mut st, &Op::Title(Some("T".into())))?; }
			for l in &ops { apply(&p, &mut st, &Op::Add(l.clone()))?; }
			frame_check(&mut t, &p, &st, 90, rows, Focus::Tasks)
		}));
	} }
	while c.more(1.0) {
		let (mut k, mut rows) = (cols(&mut c.rng).max(41), 2 + c.rng.below(12) as u16);
		let steps: Vec<(Op, u16, u16)> = (0..1 + c.rng.below(9)).map(|_| {
			let r = &mut c.rng;
			if r.chance(5) { k = cols(r).max(41); }
			if r.chance(5) { rows = if r.chance(4) { 2 + r.below(300) as u16 } else { 2 + r.below(12) as u16 }; }
			let op = match r.below(9) { 0..=3 => Op::Add(label(r)), 4 => Op::Remove(format!("task {}", r.below(30))), 5 | 6 => Op::Title(title(r)), 7 => Op::TitleMsg(title(r).unwrap_or_default()), _ => Op::One };
			(op, k, rows)
		}).collect();
		c.case(true, &steps, || steadily(|| bar_walk(&mut t, 5000, &steps, Focus::Tasks)));
	}
}

// ---- C11 -----------------------------------------------------------------
fn labels_case(t: &mut Term, total: u32, ops: &[Op]) -> Result<(), String> {
	let p = new_p(total); let mut st = State::new(total);
	for (i, op) in ops.iter().enumerate() {
		let here = |e: String| format!("after step {} ({op:?}): {e}", i + 1);
		apply(&p, &mut st, op).map_err(here)?;
		counters(&p, &st).map_err(here)?;
	}
	// The frame shows what was stored.
	if st.running && st.tasks.iter().all(|l| width(l) <= 240) { frame_check(t, &p, &st, 256, 200, Focus::Tasks)?; }
	// And so does adding the stored forms again.
	for l in st.tasks.clone() { ensure(!p.add(&l) || sanitise(&l).as_deref() != Some(l.as_str()), || format!("{l:?} was not active"))?; }
	Ok(())
}
/// Tasks added while progress ends: none is left when it runs again.
fn late_tasks(len: usize, spin: u32, stop: usize, threads: usize) -> Result<(), String> {
	let p = Progless::from(NonZeroU32::new(5).unwrap());
	let gate = Arc::new(std::sync::Barrier::new(threads + 1));
	let labels: Vec<String> = (0..threads).map(|k| format!("{}{k}", "x".repeat(len))).collect();
	let hs: Vec<_> = labels.iter().map(|l| {
		let (p, l, gate) = (p.clone(), l.clone(), Arc::clone(&gate));
		std::thread::spawn(move || { gate.wait(); p.add(&l); })
	}).collect();
	gate.wait();
	for _ in 0..spin { std::hint::spin_loop(); }
	match stop { 0 => { let _ = p.finish(); } 1 => p.set_done(5), 2 => p.increment_n(5), _ => p.reset(NonZeroU32::new(7).unwrap()) }
	for h in hs { h.join().map_err(|e| format!("thread panicked: {}", panic_msg(e)))?; }
	// (A reset lets later additions in, so end that run, too.)
	if stop > 2 { let _ = p.finish(); }
	p.reset(NonZeroU32::new(9).unwrap());
	for (k, l) in labels.iter().enumerate() { ensure(p.add(l), || format!("the task of thread {k} is active in the next run"))?; }
	let _ = p.finish();
	Ok(())
}
pub fn c11(c: &mut Ctx) {
	let mut t = Term::new();
	for i in 0..60 {
		let r = &mut c.rng;
		let (len, spin, stop, threads) = ([1, 100, 10_000, 100_000][r.below(4)], r.below(40_000) as u32, r.below(4), 1 + r.below(4));
		c.case(true, (i, len, spin, stop, threads), || late_tasks(len, spin, stop, threads));
		if !c.more(0.3) { break; }
	}
	let cell = std::cell::RefCell::new((c, &mut t));
	let atoms = ["a", " ", "\t", "\n", "\x1b[1m", "\x1b", "\u{7}", "\u{a0}", "\u{85}", "\u{3042}", "\x1b]x"];
	exhaustive(&atoms, 3, &mut |s| {
		let (c, t) = &mut *cell.borrow_mut();
		let ops = [Op::Add(s.into()), Op::Add(s.into()), Op::Add("a".into()), Op::Remove(s.into()), Op::Remove(s.into()), Op::Add(s.into())];
		c.case(sanitise(s).as_deref() != Some(s), s, || steadily(|| labels_case(t, 1000, &ops)));
		c.more(0.5)
	});
	let (c, t) = cell.into_inner();
	while c.more(1.0) {
		let total = if c.rng.chance(4) { 1 + c.rng.below(6) as u32 } else { 1000 };
		let pool: Vec<String> = (0..1 + c.rng.below(4)).map(|_| label(&mut c.rng)).collect();
		let ops: Vec<Op> = (0..1 + c.rng.below(12)).map(|_| {
			let mut s = pool[c.rng.below(pool.len())].clone();
			match c.rng.below(6) { 0 => s.push_str(" \t\n"), 1 => s.insert_str(0, "\x1b[1m"), 2 => s.push('\u{7}'), 3 => { if let Some(x) = sanitise(&s) { s = x; } }, _ => {} }
			if c.rng.chance(2) { Op::Remove(s) } else { Op::Add(s) }
		}).collect();
		c.case(true, (total, &ops), || steadily(|| labels_case(t, total, &ops)));
	}
}

// ---- C13 -----------------------------------------------------------------
fn expect(r: Result<Progless, ProglessError>, v: i128, big: bool, what: &str) -> Result<(), String> {
	let ok = !big && (1..=4_294_967_295).contains(&v);
	match r {
		Ok(p) => {
			let p = P(Some(p));
			ensure(ok, || format!("{what} was accepted"))?;
			eq("done", done_of(&p)?, 0)?;
			ensure(p.add("probe"), || format!("{what}: not running"))?;
			if v > 1 { p.set_done((v - 1) as u32); ensure(p.add("probe2"), || format!("{what}: stopped before its total"))?; eq("done below total", done_of(&p)?, (v - 1) as u64)?; }
			p.increment();
			ensure(!p.add("probe3"), || format!("{what}: still running at its total"))?;
			eq("total", done_of(&p)?, v as u64)
		},
		Err(e) => {
			ensure(!ok, || format!("{what} was refused ({e:?})"))?;
			let want = if v == 0 && !big { ProglessError::EmptyTotal } else { ProglessError::TotalOverflow };
			ensure(e == want, || format!("{what} gives {e:?}, expected {want:?}"))
		},
	}
}
pub fn c13(c: &mut Ctx) {
	let mut t = Term::new(); t.size(80, 24);
	let mut vals: Vec<i128> = Vec::new();
	for b in 0..127 { let x = 1_i128 << b; vals.extend([x - 1, x, x + 1, -x, -x - 1, x + (1 << 32), x.wrapping_mul((1_i128 << 32) + 1)]); }
	for k in -3..=3_i128 { vals.extend([k, 4_294_967_295 + k, 4_294_967_295 * 2 + k, (1 << 64) + k, (1 << 63) + k, -(1 << 31) + k, -(1 << 32) + k]); }
	vals.extend([i128::MAX, i128::MIN]);
	for _ in 0..(if c.thorough { 20_000 } else { 1500 }) { let hi = i128::from(c.rng.next()) << 64; let x = i128::from(c.rng.int()); vals.push(match c.rng.below(4) { 0 => x, 1 => -x, 2 => hi | x, _ => (x as u32).into() }); }
	vals.sort_unstable(); vals.dedup();
	for v in vals {
		if !c.more(1.0) { break; }
		macro_rules! int { ($($ty:ty),+) => { $( if let Ok(x) = <$ty>::try_from(v) { c.case(true, (stringify!($ty), v), || expect(Progless::try_from(x), v, false, &format!("{v}_{}", stringify!($ty)))); } )+ } }
		int!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
		macro_rules! nz { ($($ty:ty, $in:ty);+) => { $( if let Some(x) = <$in>::try_from(v).ok().and_then(<$ty>::new) { c.case(true, (stringify!($ty), v), || expect(Progless::try_from(x).map_err(Into::into), v, false, &format!("{v} as {}", stringify!($ty)))); } )+ } }
		nz!(NonZeroU64, u64; NonZeroUsize, usize; NonZeroU128, u128);
		macro_rules! nzf { ($($ty:ty, $in:ty);+) => { $( if let Some(x) = <$in>::try_from(v).ok().and_then(<$ty>::new) { c.case(true, (stringify!($ty), v), || expect(Ok(Progless::from(x)), v, false, &format!("{v} as {}", stringify!($ty)))); } )+ } }
		nzf!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32);
		if v < 0 { let x = v as u128; c.case(true, ("u128", x), || expect(Progless::try_from(x), 0, true, &format!("{x}_u128"))); }
		let _ = t.take();
	}
	c.case(true, "max", || eq("MAX_TOTAL", Progless::MAX_TOTAL, 4_294_967_295));
	c.case(true, "try_reset", || {
		let p = new_p(9);
		ensure(p.try_reset(0) == Err(ProglessError::EmptyTotal), || "try_reset(0)".into())?;
		eq("after refused reset", p.add("x"), true)?; p.increment_n(8); eq("done", done_of(&p)?, 8)?;
		for n in [1, 7, u32::MAX] { p.try_reset(n).map_err(|e| format!("try_reset({n}): {e}"))?; eq("done", done_of(&p)?, 0)?; ensure(p.add("y"), || "not running".into())?; p.set_done(u32::MAX); eq("total", done_of(&p)?, n.into())?; }
		Ok(())
	});
}

// ---- C19 -----------------------------------------------------------------
fn push_case(t: &mut Term, st0: &State, msg: &Msg, m: &Model, cols: u16, rows: u16, stopped: bool) -> Result<(), String> {
	let p = new_p(st0.total); let mut st = State::new(st0.total);
	if let Some(x) = &st0.title { apply(&p, &mut st, &Op::Title(Some(x.clone())))?; }
	for l in &st0.tasks { apply(&p, &mut st, &Op::Add(l.clone()))?; }
	apply(&p, &mut st, &Op::Set(st0.done))?;
	if stopped { apply(&p, &mut st, &Op::Set(u32::MAX))?; }
	t.size(cols, rows);
	let _ = p.push_msg(Msg::from("settle"));
	let _ = t.take();
	let want = Model { nl: "\n".into(), ..m.clone() }.text();
	for round in 0..2 {
		p.push_msg(msg.clone()).map_err(|_| "push_msg failed".to_string())?;
		let out = t.take();
		let here = |e: String| format!("push {}: {e}: {:?}", round + 1, String::from_utf8_lossy(&out));
		if !st.running { ensure(out == want.as_bytes(), || here(format!("expected just {want:?}")))?; continue; }
		let rest = out.strip_prefix(b"\x1b[J").and_then(|o| o.strip_prefix(want.as_bytes())).ok_or_else(|| here(format!("expected a clear and {want:?}")))?;
		let rest = std::str::from_utf8(rest).map_err(|_| here("not UTF-8".into()))?;
		match usable(cols, rows) {
			None => ensure(rest.is_empty(), || here("something drawn on an unusable terminal".into()))?,
			Some((w, h)) => {
				let f = rest.strip_prefix("\x1b[J").ok_or_else(|| here("no frame after the message".into()))?;
				ensure(!f.contains("\x1b[J"), || here("more than one frame".into()))?;
				check_frame(f, &st, w, h, Focus::All)?;
			},
		}
	}
	counters(&p, &st)?;
	for l in &st.tasks { ensure(!p.add(l), || format!("task {l:?} is gone"))?; }
	Ok(())
}
pub fn c19(c: &mut Ctx) {
	let mut t = Term::new();
	while c.more(1.0) {
		let r = &mut c.rng;
		let mk = rand_make(r);
		let (mut msg, mut m) = build(&mk, 0);
		for _ in 0..r.below(3) { let op = match r.below(4) { 0 => TOp::Nl(r.chance(2)), 1 => TOp::Suffix(rand_text(r, 3)), 2 => TOp::Indent(2), _ => TOp::Body({ let n = if r.chance(4) { 300 } else { 6 }; rand_text(r, n) }) }; let _ = step(&mut msg, &mut m, &op, false); }
		let mut st = State { total: any_total(r), ..State::default() };
		st.done = r.int() as u32 % st.total;
		if r.chance(2) { st.title = Some("Title".into()); }
		for k in 0..r.below(6) { st.tasks.insert(format!("task {k}")); }
		let (k, rows) = match r.below(8) { 0 => (0, 0), 1 => (1, 24), 2 => (9, 24), 3 => (30, 24), _ => (cols(r).max(41), 3 + r.below(30) as u16) };
		let stopped = r.chance(3);
		c.case(true, (&mk, &m, &st, k, rows, stopped), || steadily(|| push_case(&mut t, &st, &msg, &m, k, rows, stopped)));
	}
}

// ---- C21 -----------------------------------------------------------------
#[derive(Debug, Clone)]
enum Life { Inc(u32), Done, Reset(u32), TryZero, Finish, Clone, Drop, Title, Push, Add, Nap(u64) }
fn tasks_alive() -> usize { std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count()) }
/// The number of tickers settles at `n` soon, and stays there.
fn settles(base: usize, n: std::ops::RangeInclusive<usize>, when: &str) -> Result<(), String> {
	let start = Instant::now();
	let mut seen;
	loop {
		seen = tasks_alive().saturating_sub(base);
		if n.contains(&seen) { return Ok(()); }
		if start.elapsed() > Duration::from_secs(4) { break; }
		std::thread::sleep(Duration::from_millis(2));
	}
	Err(format!("{when}: {seen} ticker threads, expected {n:?}"))
}
fn live(p: &Progless, extra: &mut Vec<Progless>, op: &Life) {
	match op {
		Life::Inc(n) => p.increment_n(*n),
		Life::Done => p.set_done(u32::MAX),
		Life::Reset(n) => p.reset(NonZeroU32::new(*n).unwrap()),
		Life::TryZero => { let _ = p.try_reset(0); }
		Life::Finish => { let _ = p.finish(); }
		Life::Clone => extra.push(p.clone()),
		Life::Drop => { extra.pop(); }
		Life::Title => p.set_title(Some("title")),
		Life::Push => { let _ = p.push_msg(Msg::from("x").with_newline(true)); }
		Life::Add => { let _ = p.add("task"); }
		Life::Nap(n) => std::thread::sleep(Duration::from_micros(*n)),
	}
}
fn rand_life(r: &mut Rng, racy: bool) -> Life {
	match r.below(if racy { 13 } else { 16 }) { 0 | 1 | 2 => Life::Finish, 3 | 4 => Life::Reset(1 + r.below(9) as u32), 5 => Life::Inc(1 + r.below(4) as u32), 6 => Life::Done, 7 => Life::Clone, 8 => Life::Drop, 9 => Life::Title, 10 => Life::Push, 11 => Life::Add, 12 => Life::TryZero, _ => Life::Nap(r.below(130_000) as u64) }
}
/// One thread: each operation starts or ends the ticker as it should.
fn life_case(t: &mut Term, total: u32, deflt: bool, ops: &[Life], end: usize) -> Result<(), String> {
	let base = tasks_alive();
	let p = if deflt { Progless::default() } else { Progless::from(NonZeroU32::new(total).unwrap()) };
	let mut extra = Vec::new();
	let (mut on, mut done, mut all) = (!deflt, 0_u32, total);
	settles(base, usize::from(on)..=usize::from(on), "new")?;
	for (i, op) in ops.iter().enumerate() {
		live(&p, &mut extra, op);
		match op {
			Life::Inc(n) => if on { done += n; if done >= all { on = false; } },
			Life::Done | Life::Finish => on = false,
			Life::Reset(n) => { on = true; done = 0; all = *n; }
			_ => {}
		}
		if matches!(op, Life::Finish | Life::Reset(_) | Life::Drop | Life::Inc(_) | Life::Done) { settles(base, usize::from(on)..=usize::from(on), &format!("after operation {i}"))?; }
	}
	match end {
		0 => { drop(extra); drop(p); settles(base, 0..=0, "after the last handle was dropped")?; }
		1 => { extra.push(p); while let Some(p) = extra.pop() { drop(p); } settles(base, 0..=0, "after the last clone was dropped")?; }
		2 => {
			live(&p, &mut extra, &Life::Reset(5)); settles(base, 1..=1, "after a last reset")?;
			// Quick successions.
			for _ in 0..3 { live(&p, &mut extra, &Life::Finish); live(&p, &mut extra, &Life::Reset(5)); }
			std::thread::sleep(Duration::from_millis(3));
			settles(base, 1..=1, "after finishing and resetting a few times")?;
			drop(extra); drop(p); settles(base, 0..=0, "after that was dropped")?;
		}
		_ => {
			let _ = p.finish();
			settles(base, 0..=0, "after a last finish")?;
			let _ = t.take();
			t.size(90, 30); std::thread::sleep(Duration::from_millis(230)); t.size(100, 30);
			let late = t.take();
			ensure(late.is_empty(), || format!("something was drawn after finish: {:?}", String::from_utf8_lossy(&late)))?;
			drop(extra); drop(p);
		}
	}
	Ok(())
}
/// A finish right after the end waits for the ticker (or at least wakes it up), which would otherwise sleep on for a
/// part of 100 ms.
fn prompt_end(by: usize) -> Result<(), String> {
	let base = tasks_alive();
	let mut slow = 0;
	for k in 0..8 {
		let p = Progless::from(NonZeroU32::new(2).unwrap());
		std::thread::sleep(Duration::from_millis(5 + k));
		if by == 0 { p.increment_n(2); } else { p.set_done(2); }
		let _ = p.finish();
		let t = Instant::now();
		while tasks_alive() > base && t.elapsed() < Duration::from_millis(30) { std::thread::sleep(Duration::from_millis(1)); }
		if tasks_alive() > base { slow += 1; }
		settles(base, 0..=0, "after finish")?;
	}
	ensure(slow < 4, || format!("the ticker outlived finish {slow} times of 8"))
}
/// Several threads; every call must return, and at most one ticker is left.
fn life_race(total: u32, scripts: &[Vec<Life>], end: usize) -> Result<(), String> {
	let base = tasks_alive();
	let p = Progless::from(NonZeroU32::new(total).unwrap());
	let gate = Arc::new(std::sync::Barrier::new(scripts.len()));
	let (tx, rx) = mpsc::channel();
	let hs: Vec<_> = scripts.iter().enumerate().map(|(i, s)| {
		let (p, s, gate, tx) = (p.clone(), s.clone(), Arc::clone(&gate), tx.clone());
		std::thread::spawn(move || {
			let mut extra = Vec::new();
			gate.wait();
			for op in &s { live(&p, &mut extra, op); }
			let _ = tx.send(i);
		})
	}).collect();
	drop(tx);
	let mut left: BTreeSet<usize> = (0..scripts.len()).collect();
	while !left.is_empty() {
		match rx.recv_timeout(Duration::from_secs(15)) {
			Ok(i) => { left.remove(&i); }
			Err(mpsc::RecvTimeoutError::Timeout) => { std::mem::forget(p); return Err(format!("calls of threads {left:?} have not returned for 15 s")); }
			Err(_) => break,
		}
	}
	for h in hs { h.join().map_err(|e| format!("thread panicked: {}", panic_msg(e)))?; }
	settles(base, 0..=1, "after the threads ended")?;
	let (tx, rx) = mpsc::channel();
	// The last operation on a thread of its own, as it may hang.
	let h = std::thread::spawn(move || {
		match end { 0 => drop(p), 1 => { let _ = p.finish(); let _ = tx.send(Some(p)); return; }, _ => { p.reset(NonZeroU32::MAX); let _ = tx.send(Some(p)); return; } }
		let _ = tx.send(None);
	});
	let p = rx.recv_timeout(Duration::from_secs(15)).map_err(|_| format!("the last operation ({}) has not returned for 15 s", ["drop", "finish", "reset"][end]))?;
	h.join().map_err(|e| format!("panicked: {}", panic_msg(e)))?;
	let n = usize::from(end == 2);
	std::thread::sleep(Duration::from_millis(2));
	settles(base, n..=n, ["after drop", "after finish", "after reset"][end])?;
	drop(p);
	settles(base, 0..=0, "at the end")
}
pub fn c21(c: &mut Ctx) {
	let mut t = Term::new(); t.size(100, 30);
	let mut i = 0_u64;
	while c.more(1.0) {
		i += 1;
		let r = &mut c.rng;
		let total = 1 + r.below(12) as u32;
		if i % 16 == 4 {
			let by = r.below(2);
			c.case(true, (i, by, "finish after the end"), || steadily(|| prompt_end(by)));
		}
		else if i % 8 == 0 {
			let n = r.below(5);
			let ops: Vec<Life> = (0..n).map(|_| rand_life(r, false)).collect();
			let (d, end) = (r.chance(12), r.below(4));
			c.case(true, (total, d, &ops, end), || life_case(&mut t, total, d, &ops, end));
		}
		else {
			let k = 2 + r.below(4);
			let scripts: Vec<Vec<Life>> = (0..k).map(|_| { let n = 1 + r.below(6); (0..n).map(|_| rand_life(r, true)).collect() }).collect();
			let end = r.below(3);
			c.case(true, (i, total, &scripts, end), || life_race(total, &scripts, end));
		}
		let _ = t.take();
	}
}

// ---- C23 -----------------------------------------------------------------
/// Whatever is on the screen is cleared before a message is printed, and for good at the end.
fn clean_screen(out: &[u8]) -> Result<(), String> {
	let (mut i, mut frame) = (0, false);
	while i < out.len() {
		if out[i..].starts_with(b"\x1b[J") { frame = false; i += 3; continue; }
		if out[i] == 0x1b { frame = true; }
		if frame && out[i..].starts_with(b"message ") { return Err(format!("a message was printed over a frame: {:?}", String::from_utf8_lossy(&out[i.saturating_sub(200)..(i + 40).min(out.len())]))); }
		i += 1;
	}
	ensure(!frame, || format!("a frame is left on the screen: {:?}", String::from_utf8_lossy(&out[out.len().saturating_sub(300)..])))
}
#[derive(Debug, Clone)]
enum Act { Push, Inc(u32), Title, NoTitle, Add, Remove, Spin(u32), Many(usize, u8) }
#[derive(Debug, Clone, Copy)]
enum Stop { Finish, Done, Inc, Drop }
fn ended(t: &mut Term, total: u32, cols: u16, scripts: &[Vec<Act>], spin: u32, stop: Stop, late: bool) -> Result<(), String> {
	t.size(cols, 30);
	let _ = t.take();
	let p = Progless::from(NonZeroU32::new(total).unwrap());
	let gate = Arc::new(std::sync::Barrier::new(scripts.len() + 1));
	let hs: Vec<_> = scripts.iter().enumerate().map(|(k, s)| {
		let (p, s, gate) = (p.clone(), s.clone(), Arc::clone(&gate));
		std::thread::spawn(move || {
			gate.wait();
			for op in &s {
				match op {
					Act::Push => { let _ = p.push_msg(Msg::from("message x").with_newline(true)); }
					Act::Inc(n) => p.increment_n(*n),
					Act::Title => p.set_title(Some("title")),
					Act::NoTitle => p.set_title(None::<&str>),
					Act::Add => { p.add(format!("task {k}")); }
					Act::Remove => p.remove(format!("task {k}")),
					Act::Spin(n) => for _ in 0..*n { std::hint::spin_loop(); },
					Act::Many(n, what) => for i in 0..*n {
						match what {
							0 => p.set_title(Some("title")),
							1 => { p.add(format!("task {k} {i}")); }
							2 => { p.add("task"); p.remove("task"); }
							3 => p.set_title_msg("other"),
							_ => p.set_title(None::<&str>),
						}
					},
				}
			}
		})
	}).collect();
	gate.wait();
	for _ in 0..spin { std::hint::spin_loop(); }
	match stop { Stop::Finish => { let _ = p.finish(); } Stop::Done => p.set_done(u32::MAX), Stop::Inc => p.increment_n(u32::MAX), Stop::Drop => {} }
	for h in hs { h.join().map_err(|e| format!("thread panicked: {}", panic_msg(e)))?; }
	if matches!(stop, Stop::Drop) { let _ = p.finish(); }
	ensure(!p.add("late"), || "progress is running again after its end".into())?;
	if late { t.size(cols ^ 3, 30); std::thread::sleep(Duration::from_millis(230)); }
	let _ = p.finish();
	let out = t.take();
	clean_screen(&out)
}
pub fn c23(c: &mut Ctx) {
	let mut t = Term::new(); t.size(100, 30);
	let mut i = 0_u64;
	while c.more(1.0) {
		i += 1;
		let r = &mut c.rng;
		let total = if r.chance(2) { 1000 } else { 1 + r.below(30) as u32 };
		let cols = match r.below(8) { 0 => 5, 1 => 20, _ => 60 + r.below(60) as u16 };
		let k = 1 + r.below(6);
		let scripts: Vec<Vec<Act>> = (0..k).map(|_| { let n = 1 + r.below(5); (0..n).map(|_| match r.below(12) { 0 => Act::Inc(1 + r.below(4) as u32), 1 => Act::Title, 2 => Act::NoTitle, 3 => Act::Add, 4 => Act::Remove, 5 => Act::Spin(r.below(3000) as u32), 6 | 7 => Act::Many(r.below(60), r.below(5) as u8), _ => Act::Push }).collect() }).collect();
		let spin = if r.chance(3) { 0 } else { r.below(4000) as u32 };
		let stop = [Stop::Finish, Stop::Done, Stop::Inc, Stop::Drop][r.below(4)];
		let late = r.chance(40);
		c.case(true, (i, total, cols, &scripts, spin, stop, late), || ended(&mut t, total, cols, &scripts, spin, stop, late));
	}
}
