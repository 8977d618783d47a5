//! Signals: C22. A child in one of the three modes, on a pseudo-terminal of its own,
//! busy in some way when the interrupts come in.
use crate::p_prog::{check_frame, signal, usable, Focus, Pty, State};
use crate::rt::*;
use fyi_msg::{Msg, Progless};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

const SIGINT: i32 = 2;
const SIGWINCH: i32 = 28;
const WARN: &str = "Early shutdown in progress.";

fn ms(n: u64) { std::thread::sleep(Duration::from_millis(n)); }
fn say(s: &str) { let mut o = std::io::stdout().lock(); let _ = writeln!(o, "{s}"); let _ = o.flush(); }

// ---- The child -----------------------------------------------------------
/// `__signal MODE REQUESTS ACTIVITY THREADS SPIN`
pub fn child(a: &[String]) {
	let ask = |m: char| -> Option<&'static Arc<AtomicBool>> { match m { 't' => Some(Progless::sigint_two_strike()), 'k' => Some(Progless::sigint_keepalive()), _ => None } };
	let first = ask(a[0].chars().next().unwrap_or('d'));
	let act = a[2].clone();
	let threads: usize = a[3].parse().unwrap_or(0);
	let spin: u64 = a[4].parse().unwrap_or(0);
	let p = Progless::try_from(1000_u32).unwrap();
	// The default listener comes with the ticker.
	if first.is_none() { ms(60); }
	let mut same = true;
	let mut sw = first;
	for m in a[1].chars() {
		let x = ask(m).unwrap();
		if sw.is_some_and(|s| ! Arc::ptr_eq(s, x)) { same = false; }
		sw = Some(x);
	}
	if ! same { say("switches differ"); return; }
	let Some(sw) = sw else { say("no switch"); return; };
	if sw.load(SeqCst) { say("set early"); return; }
	ms(spin);
	let busy = Arc::new(AtomicBool::new(true));
	let mut hs = Vec::new();
	for _ in 0..threads {
		let (b, p, act) = (Arc::clone(&busy), p.clone(), act.clone());
		hs.push(std::thread::spawn(move || while b.load(SeqCst) { once(&p, &act); }));
	}
	say("ready");
	{
		let start = Instant::now();
		let lock = if act == "lock" { Some(std::io::stderr().lock()) } else { None };
		while ! sw.load(SeqCst) {
			once(&p, &act);
			if start.elapsed() > Duration::from_secs(20) { say("no interrupt seen"); return; }
		}
		drop(lock);
	}
	busy.store(false, SeqCst);
	for h in hs { let _ = h.join(); }
	ms(260);
	if ! sw.load(SeqCst) { say("the switch was reset"); return; }
	say("seen");
	let mut l = String::new();
	let mut i = std::io::stdin().lock();
	// A resize, then the end.
	while i.read_line(&mut l).unwrap_or(0) != 0 {
		match l.trim() {
			"resized" => { ms(260); p.increment(); ms(260); say("drawn"); }
			"end" => { let _ = p.finish(); drop(p); if ! sw.load(SeqCst) { say("the switch was reset"); return; } say("over"); std::process::exit(0); }
			_ => {}
		}
		l.clear();
	}
}
fn once(p: &Progless, act: &str) {
	match act {
		"push" => { let _ = p.push_msg(Msg::info("pushed")); }
		"title" => p.set_title(Some("busy")),
		"task" => { p.add("task"); }
		"write" => eprint!(""),
		"dot" => { eprint!("."); }
		_ => ms(1),
	}
}

// ---- The parent ----------------------------------------------------------
/// What has to be so at the next tick; on a busy machine that takes a while.
fn soon(f: impl Fn() -> Result<(), String>) -> Result<(), String> {
	let start = Instant::now();
	loop {
		let r = f();
		if r.is_ok() || start.elapsed() > Duration::from_secs(6) { return r; }
		ms(20);
	}
}
struct Run { c: Child, rx: mpsc::Receiver<String>, pty: Pty }
impl Drop for Run { fn drop(&mut self) { let _ = self.c.kill(); let _ = self.c.wait(); } }
impl Run {
	fn new(args: &[&str], cols: u16, rows: u16) -> Result<Self, String> {
		let exe = std::env::current_exe().map_err(|e| e.to_string())?;
		let Some(pty) = Pty::new() else { println!("no pseudo-terminal"); std::process::exit(2); };
		pty.size(cols, rows);
		let err = unsafe { std::fs::File::from_raw_fd(pty.slave) };
		let mut c = Command::new(exe).arg("__signal").args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::from(err)).spawn().map_err(|e| e.to_string())?;
		let o = c.stdout.take().unwrap();
		let (tx, rx) = mpsc::channel();
		std::thread::spawn(move || for l in BufReader::new(o).lines() { if l.map_or(true, |l| tx.send(l).is_err()) { break; } });
		Ok(Self { c, rx, pty })
	}
	fn expect(&mut self, want: &str) -> Result<(), String> {
		match self.rx.recv_timeout(Duration::from_secs(30)) {
			Ok(l) if l == want => Ok(()),
			Ok(l) => Err(format!("the program says {l:?} instead of {want:?}")),
			Err(mpsc::RecvTimeoutError::Timeout) => Err(format!("the program hangs (before {want:?})")),
			Err(_) => { let s = self.c.wait(); Err(format!("the program ended ({s:?}) before {want:?}: {}", self.tail())) }
		}
	}
	fn status(&mut self) -> Result<Option<i32>, String> {
		let start = Instant::now();
		loop {
			if let Some(s) = self.c.try_wait().map_err(|e| e.to_string())? { ms(20); return if s.code().is_some() { Ok(s.code()) } else { Err(format!("the program ended with {s:?}: {}", self.tail())) }; }
			if start.elapsed() > Duration::from_secs(20) { return Err("the program does not end".into()); }
			ms(2);
		}
	}
	fn tell(&mut self, s: &str) { if let Some(i) = self.c.stdin.as_mut() { let _ = writeln!(i, "{s}"); let _ = i.flush(); } }
	fn text(&self) -> String { String::from_utf8_lossy(&self.pty.text()).into_owned() }
	fn tail(&self) -> String { let t = self.text(); let c: Vec<char> = t.chars().collect(); c[c.len().saturating_sub(400)..].iter().collect::<String>().escape_debug().to_string() }
	fn visible(&self, when: &str) -> Result<(), String> {
		let t = self.text();
		ensure(t.contains("\x1b[?25h") && t.rfind("\x1b[?25h") > t.rfind("\x1b[?25l"), || format!("the cursor is hidden {when}: {}", self.tail()))
	}
	fn last(&self) -> String { let t = self.text(); t.rsplit_once("\x1b[J").map_or_else(String::new, |x| x.1.replace("\x1b[?25h", "").replace("\x1b[?25l", "")) }
}
fn case(mode: &str, later: &str, act: &str, threads: usize, spin: u64, delay: u64, size: (u16, u16), size2: (u16, u16)) -> Result<(), String> {
	let mut r = Run::new(&[mode, later, act, &threads.to_string(), &spin.to_string()], size.0, size.1)?;
	r.expect("ready")?;
	std::thread::sleep(Duration::from_micros(delay));
	signal(r.c.id(), SIGINT);
	if mode == "d" {
		let s = r.status()?;
		ensure(s == Some(1), || format!("exit status {s:?} after an interrupt"))?;
		return soon(|| r.visible("after the end"));
	}
	r.expect("seen")?;
	soon(|| r.visible("after an interrupt"))?;
	let mut st = State { total: 1000, running: true, ..State::default() };
	let titled = act != "title";
	if act == "task" { st.tasks.insert("task".into()); }
	st.title = Some(format!("Warning: {WARN}"));
	if act != "push" && act != "dot" && titled {
		if let Some((w, h)) = usable(size.0, size.1) { soon(|| check_frame(&r.last(), &st, w, h, Focus::All)).map_err(|e| format!("after an interrupt: {e}"))?; }
	}
	if mode == "k" { for _ in 0..2 { signal(r.c.id(), SIGINT); ms(5); } }
	r.pty.size(size2.0, size2.1);
	signal(r.c.id(), SIGWINCH);
	if act != "push" && act != "dot" && titled {
		if let Some((w, h)) = usable(size2.0, size2.1) { soon(|| check_frame(&r.last(), &st, w, h, Focus::All)).map_err(|e| format!("right after a resize: {e}"))?; }
	}
	r.tell("resized");
	r.expect("drawn")?;
	st.done = 1;
	if let Some((w, h)) = usable(size2.0, size2.1) {
		if titled { soon(|| check_frame(&r.last(), &st, w, h, Focus::All)).map_err(|e| format!("after a resize: {e}"))?; }
		else { soon(|| check_frame(&r.last(), &st, w, h, Focus::Bar)).map_err(|e| format!("after a resize: {e}"))?; }
	}
	soon(|| r.visible("after a resize"))?;
	if mode == "t" {
		signal(r.c.id(), SIGINT);
		let s = r.status()?;
		ensure(s == Some(1), || format!("exit status {s:?} after the second interrupt"))?;
		return soon(|| r.visible("after the end"));
	}
	r.tell("end");
	r.expect("over")?;
	let s = r.status()?;
	ensure(s == Some(0), || format!("exit status {s:?} at the end"))?;
	soon(|| r.visible("at the end"))
}
pub fn c22(c: &mut Ctx) {
	let mut i = 0_u64;
	while c.more(1.0) {
		// A few programs at a time: they mostly wait.
		let mut jobs = Vec::new();
		for _ in 0..12 {
			i += 1;
			let r = &mut c.rng;
			let mode = ["d", "t", "k"][r.below(3)];
			let later: String = (0..1 + r.below(3)).map(|_| if r.chance(2) { 't' } else { 'k' }).collect();
			let act = ["idle", "push", "push", "title", "task", "write", "dot", "lock"][r.below(8)];
			let threads = if act == "lock" || act == "idle" { 0 } else { r.below(4) };
			let spin = if r.chance(2) { 0 } else { r.below(150) as u64 };
			let delay = if r.chance(3) { 0 } else { r.below(60_000) as u64 };
			let mut size = || (if r.chance(8) { r.below(45) as u16 } else { 50 + r.below(100) as u16 }, if r.chance(6) { r.below(5) as u16 } else { 5 + r.below(40) as u16 });
			let (mut a, mut b) = (size(), size());
			// Every so often, only one of the two changes, or whether there is room for a title.
			match r.below(6) { 0 => b.0 = a.0, 1 => b.1 = a.1, 2 => { a.1 = 2; b.0 = a.0; }, 3 => { b.1 = 2 + r.below(2) as u16; b.0 = a.0; }, _ => {} }
			let arg = (i, mode, later.clone(), act, threads, spin, delay, a, b);
			jobs.push((arg, std::thread::spawn(move || case(mode, &later, act, threads, spin, delay, a, b))));
		}
		for (arg, h) in jobs {
			let res = h.join();
			c.case(true, arg, || match res {
				Ok(Ok(())) => Ok(()),
				Err(p) => Err(format!("panicked: {}", panic_msg(p))),
				Ok(Err(e)) => Err(e),
			});
		}
	}
}
