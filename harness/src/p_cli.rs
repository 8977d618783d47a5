//! Command-line and prompt properties: C14, C15, C16. The binary is the one
//! built from the current tree (FYI_BIN); prompts run in a child process.
use crate::oracle::*;
use crate::p_text::{build, kind_at, step, Make, Model, Op};
use crate::rt::*;
use fyi_msg::{AnsiColor, BeforeAfter, Msg, MsgKind, Progless, ProglessError};
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::process::{Command, Stdio};

fn bin() -> String { std::env::var("FYI_BIN").unwrap_or_else(|_| { println!("FYI_BIN is not set"); std::process::exit(2) }) }
struct Out { code: Option<i32>, out: Vec<u8>, err: Vec<u8> }
fn run(cmd: &mut Command, input: &[u8]) -> Result<Out, String> {
	let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("cannot run: {e}"))?;
	{ let mut i = ch.stdin.take().unwrap(); let _ = i.write_all(input); }
	let o = ch.wait_with_output().map_err(|e| e.to_string())?;
	Ok(Out { code: o.status.code(), out: o.stdout, err: o.stderr })
}
fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

// ---- C14 -----------------------------------------------------------------
/// What the documented option grammar makes of the arguments.
#[derive(Debug, PartialEq)]
enum Want { Help, Error, Msg { body: String, prefix: String, color: u8, indent: bool, stderr: bool, ts: bool, yes: bool, exit: u8 }, Blank { count: usize, stderr: bool } }
fn key<'a>(s: &'a str, flags: &[&'static str], vals: &[&'static str]) -> Option<(&'static str, bool, Option<String>)> {
	let find = |k: &str| flags.iter().find(|x| **x == k).map(|x| (*x, false)).or_else(|| vals.iter().find(|x| **x == k).map(|x| (*x, true)));
	if let Some((k, v)) = find(s) { return Some((k, v, None)); }
	let b = s.as_bytes();
	if b.len() < 3 || b[0] != b'-' { return None; }
	let stem = if b[1].is_ascii_alphanumeric() { s.get(..2)? } else if b[1] == b'-' && b[2].is_ascii_alphanumeric() { s.split_once('=')?.0 } else { return None };
	let (k, v) = find(stem)?;
	let rest = &s[k.len()..];
	Some((k, v, Some(rest.strip_prefix('=').unwrap_or(rest).to_owned())))
}
fn number(s: &str) -> Option<u128> { let t = s.trim(); if t.is_empty() || t.len() > 30 || !t.bytes().all(|b| b.is_ascii_digit()) { None } else { t.parse().ok() } }
fn want_msg(args: &[OsString]) -> Want {
	let (mut body, mut prefix, mut color, mut indent, mut stderr, mut ts, mut yes, mut exit) = (None, String::new(), 199, false, false, false, false, 0);
	let mut it = args.iter();
	while let Some(a) = it.next() {
		let Some(a) = a.to_str() else { return Want::Error };
		if a.is_empty() { continue; }
		if a == "--" { break; }
		match key(a, &["-h", "--help", "-i", "--indent", "--stderr", "-t", "--timestamp", "-y", "--yes"], &["-c", "--prefix-color", "-e", "--exit", "-p", "--prefix"]) {
			None => { if body.is_some() { return Want::Error; } body = Some(a.to_owned()); },
			Some((k, false, _)) => match k { "-h" | "--help" => return Want::Help, "-i" | "--indent" => indent = true, "--stderr" => stderr = true, "-t" | "--timestamp" => ts = true, _ => yes = true },
			Some((k, true, v)) => {
				let v = match v { Some(v) => v, None => match it.next() { None => break, Some(v) => match v.to_str() { Some(v) => v.to_owned(), None => return Want::Error } } };
				match k {
					"-c" | "--prefix-color" => { if let Some(n) = number(&v).and_then(|n| u8::try_from(n).ok()) { color = n; } },
					"-e" | "--exit" => { if let Some(n) = number(&v).and_then(|n| u8::try_from(n).ok()) { exit = n; } },
					_ => prefix = v,
				}
			},
		}
	}
	match body { None => Want::Error, Some(body) => Want::Msg { body, prefix, color, indent, stderr, ts, yes, exit } }
}
fn want_blank(args: &[OsString]) -> Want {
	let (mut count, mut stderr) = (1_usize, false);
	let mut it = args.iter();
	while let Some(a) = it.next() {
		let Some(a) = a.to_str() else { continue };
		if a.is_empty() { continue; }
		if a == "--" { break; }
		match key(a, &["-h", "--help", "--stderr"], &["-c", "--count"]) {
			None => {}, Some(("-h" | "--help", ..)) => return Want::Help, Some((_, false, _)) => stderr = true,
			Some((_, true, v)) => { let v = match v { Some(v) => v, None => match it.next() { None => break, Some(v) => match v.to_str() { Some(v) => v.to_owned(), None => continue } } }; if let Some(n) = number(&v).and_then(|n| usize::try_from(n).ok()) { count = count.max(n); } },
		}
	}
	Want::Blank { count, stderr }
}
fn cli_case(cmd: &str, args: &[OsString], input: &[u8]) -> Result<(), String> {
	let want = if cmd == "blank" { want_blank(args) } else { want_msg(args) };
	if let Want::Blank { count, .. } = want { if count > 1_000_000 { return Ok(()); } }
	let o = run(Command::new(bin()).arg(cmd).args(args), input)?;
	let ctx = |e: String| format!("{e}\n  expected {want:?}\n  exit {:?}, stdout {:?}, stderr {:?}", o.code, lossy(&o.out), lossy(&o.err));
	match &want {
		Want::Help => { ensure(o.code == Some(0) && lossy(&o.out).contains("USAGE"), || ctx("no help".into())) },
		Want::Error => { ensure(o.code == Some(1) && o.out.is_empty() && !o.err.is_empty(), || ctx("expected an error".into())) },
		Want::Blank { count, stderr } => {
			let nl = vec![b'\n'; *count];
			let (a, b) = if *stderr { (&o.err, &o.out) } else { (&o.out, &o.err) };
			ensure(o.code == Some(0) && *a == nl && b.is_empty(), || ctx("wrong line breaks".into()))
		},
		Want::Msg { body, prefix, color, indent, stderr, ts, yes, exit } => {
			let confirm = cmd == "confirm";
			let mut m = Model { body: body.clone(), nl: "\n".into(), ..Model::default() };
			if *indent { m.indent = "    ".into(); }
			m.prefix = if cmd == "print" { colored_prefix(prefix, *color) } else { KINDS.iter().find(|k| k.1 == cmd).map_or(String::new(), |k| kind_prefix(k.0)) };
			let (a, b) = if *stderr && !confirm { (&o.err, &o.out) } else { (&o.out, &o.err) };
			let txt = std::str::from_utf8(a).map_err(|_| ctx("not UTF-8".into()))?;
			let rest = format!("{}{}{}", m.prefix, m.body, if confirm { "" } else { "\n" });
			let head = txt.strip_prefix(&m.indent).ok_or_else(|| ctx("indentation".into()))?;
			let p = if *ts {
				let p = head.find("]\x1b[0m ").ok_or_else(|| ctx("no timestamp".into()))? + 6;
				ensure(is_timestamp(&head[..p]), || ctx(format!("timestamp {:?}", &head[..p])))?; p
			} else { 0 };
			let tail = head[p..].strip_prefix(&rest).ok_or_else(|| ctx(format!("expected {rest:?}")))?;
			if confirm {
				ensure(strip(tail) == if *yes { " [Y/n] " } else { " [y/N] " }, || ctx(format!("hint {tail:?}")))?;
				let ans = String::from_utf8_lossy(input).trim().to_lowercase();
				let y = match ans.as_str() { "" => *yes, "y" | "yes" => true, _ => false };
				return ensure(o.code == Some(i32::from(!y)), || ctx("exit code".into()));
			}
			ensure(tail.is_empty(), || ctx(format!("extra output {tail:?}")))?;
			ensure(b.is_empty(), || ctx("output on the other stream".into()))?;
			ensure(o.code == Some((*exit).into()), || ctx("exit code".into()))
		},
	}
}
fn os(s: &str) -> OsString { s.into() }
const CMDS: &[&str] = &["aborted", "crunched", "debug", "done", "error", "found", "info", "notice", "print", "review", "skipped", "success", "task", "warning", "confirm", "blank"];
fn rand_args(r: &mut Rng, cmd: &str) -> Vec<OsString> {
	let mut v: Vec<OsString> = Vec::new();
	let n = r.below(6);
	let num = |r: &mut Rng| -> String { match r.below(9) { 0 => "0".into(), 1 => "255".into(), 2 => "256".into(), 3 => " 7 ".into(), 4 => "-1".into(), 5 => "+3".into(), 6 => "007".into(), 7 => "x".into(), _ => r.below(300).to_string() } };
	for _ in 0..n {
		match r.below(if cmd == "blank" { 9 } else { 14 }) {
			0 => v.push(os("--stderr")), 1 => { v.push(os("-c")); v.push(os(&num(r))); }, 2 => v.push(os(&format!("-c{}", num(r)))), 3 => v.push(os(&format!("-c={}", num(r)))),
			4 => v.push(os(&format!("--{}={}", if cmd == "blank" { "count" } else { "prefix-color" }, num(r)))),
			5 => { if r.chance(6) { v.push(os(r.pick(&["-h", "--help"]))); } else { v.push(os("")); } },
			6 => { if r.chance(8) { v.push(OsString::from_vec(vec![b'a', 0xff, b'b'])); } else if r.chance(6) { v.push(os("--")); } },
			7 | 8 => v.push(os(r.pick(&["-i", "--indent", "-y", "--yes"]))),
			9 => { v.push(os(r.pick(&["-p", "--prefix"]))); v.push(os(r.pick(&["Pre", "", "\u{3042} x", "-i", "--"]))); },
			10 => v.push(os(r.pick(&["-pQ", "-p=Q", "--prefix=Long one", "--prefix=", "-p="]))),
			11 => { v.push(os(r.pick(&["-e", "--exit"]))); v.push(os(&num(r))); }, 12 => v.push(os(&format!("--exit={}", num(r)))),
			_ => v.push(os(r.pick(&["-t", "--timestamp", "-i", "--indent"]))),
		}
	}
	if !r.chance(12) {
		let t = match r.below(6) { 0 => "Hello World".to_string(), 1 => "-z".into(), 2 => "--unknown".into(), 3 => "\u{3042}\n\x1b[1mx".into(), 4 => "error".into(), _ => "m".into() };
		v.insert(r.below(v.len() + 1), os(&t));
		if r.chance(8) { v.push(os("second")); }
	}
	v
}
pub fn c14(c: &mut Ctx) {
	// Every option alone and in pairs, around a message.
	let opts: Vec<Vec<&str>> = vec![vec!["-i"], vec!["--indent"], vec!["-t"], vec!["--timestamp"], vec!["--stderr"], vec!["-e", "3"], vec!["--exit", "255"], vec!["--exit=0"], vec!["-e256"], vec!["-p", "Pre"], vec!["--prefix", "P"], vec!["-c", "9"], vec!["--prefix-color", "0"], vec!["-c300"], vec!["-y"], vec!["--yes"], vec!["-h"], vec!["--help"], vec![""], vec!["x"], vec!["--", "y"]];
	for (i, a) in opts.iter().enumerate() { for (j, b) in opts.iter().enumerate() {
		let cmd = ["error", "print", "info"][(i + j) % 3];
		let mut v: Vec<OsString> = a.iter().map(|s| os(s)).collect();
		if (i + 2 * j) % 3 == 0 { v.extend(b.iter().map(|s| os(s))); v.insert(0, os("Msg")); } else { v.push(os("Msg")); v.extend(b.iter().map(|s| os(s))); }
		if c.more(0.35) { c.case(true, (cmd, &v), || cli_case(cmd, &v, b"")); }
	} }
	for n in 0..=257 { if c.more(0.5) { let v = [os("-e"), os(&n.to_string()), os("M"), os("-p"), os("p"), os("-c"), os(&n.to_string())]; c.case(true, ("numbers", n), || cli_case("print", &v, b"")); } }
	while c.more(1.0) {
		let cmd = c.rng.pick(CMDS).to_owned();
		let v = rand_args(&mut c.rng, &cmd);
		let input: &[u8] = if cmd == "confirm" { [b"y\n".as_slice(), b"n\n", b"\n", b"", b"YES\n", b" No \n"][c.rng.below(6)] } else { b"" };
		c.case(!v.is_empty(), (&cmd, &v, lossy(input)), || cli_case(&cmd, &v, input));
	}
}

// ---- C15 -----------------------------------------------------------------
fn words() -> Vec<(&'static str, usize)> {
	let mut v: Vec<(&'static str, usize)> = KINDS.iter().enumerate().map(|(i, k)| (k.1, i)).collect();
	v.extend([("prompt", 1), ("blank", 15), ("print", 16)]);
	v
}
fn kind_case(raw: &[u8]) -> Result<(), String> {
	let t = raw.trim_ascii();
	let want = words().iter().find(|w| w.0.as_bytes() == t).map_or(MsgKind::None, |w| kind_at(w.1));
	eq("MsgKind::from", MsgKind::from(raw), want)
}
fn first_arg(args: &[OsString]) -> Result<(), String> {
	let o = run(Command::new(bin()).args(args), b"\n")?;
	let ctx = |e: &str| format!("{e}: exit {:?}, stdout {:?}, stderr {:?}", o.code, lossy(&o.out), lossy(&o.err));
	let first = args.first().and_then(|a| a.to_str());
	if let Some("-V" | "--version") = first { return ensure(o.code == Some(0) && lossy(&o.out).starts_with("FYI v"), || ctx("expected the version")); }
	let known = first.is_some_and(|f| CMDS.contains(&f));
	if known { return Ok(()); }
	ensure(o.code == Some(0) && lossy(&o.out).contains("USAGE") && o.err.is_empty(), || ctx("expected the help"))
}
pub fn c15(c: &mut Ctx) {
	for i in 0..17 { c.case(true, ("kind", i), || {
		let k = kind_at(i);
		let word = match i { 14 => "", 15 => "blank", 16 => "print", _ => KINDS[i].1 };
		eq("command", k.command(), word)?;
		eq("name", k.as_str(), KINDS.get(i).map_or("", |k| k.0))?;
		if i < 14 { eq("name and command", k.as_str().to_lowercase().as_str(), k.command())?; }
		eq("is_empty", k.is_empty(), i >= 14)?;
		eq("round trip", MsgKind::from(k.command().as_bytes()), k)
	}); }
	c.case(true, "all kinds", || { let mut a: Vec<MsgKind> = MsgKind::ALL.to_vec(); let n = a.len(); a.dedup(); eq("kinds", n, 17)?; for i in 0..17 { ensure(a.contains(&kind_at(i)), || format!("kind {i} missing"))?; } Ok(()) });
	// Every word, with every small change to it.
	for (w, _) in words() {
		let b = w.as_bytes();
		let mut all: Vec<Vec<u8>> = vec![b.to_vec(), w.to_uppercase().into_bytes(), b[..b.len() - 1].to_vec(), b[1..].to_vec(), [b, b"s"].concat(), [b"x", b].concat(), [b, b" "].concat(), [b" \t\n", b, b"\r\x0c"].concat(), [b, b"\x0b"].concat(), [b, b"\0"].concat(), [b, b"\xc2\xa0"].concat(), [b, b" ", b].concat(), [b"-", b].concat(), [b"--", b].concat()];
		for i in 0..b.len() { for x in 0..=255_u8 { let mut v = b.to_vec(); v[i] = x; all.push(v); } let mut v = b.to_vec(); v.remove(i); all.push(v); if i > 0 { let mut v = b.to_vec(); v.swap(i - 1, i); all.push(v); } }
		for v in all { c.case(true, lossy(&v), || kind_case(&v)); }
	}
	for a in 0..=255_u8 { for b in 0..=255_u8 { let v = [a, b]; c.case(true, v, || kind_case(&v)); } }
	for (a, _) in words() { for (b, _) in words() { for n in 0..=a.len() { let mut v = a.as_bytes()[..n].to_vec(); v.extend_from_slice(&b.as_bytes()[n.min(b.len())..]); c.case(true, lossy(&v), || kind_case(&v)); } } }
	// The binary.
	let mut firsts: Vec<Vec<OsString>> = vec![vec![], vec![os("-V")], vec![os("--version")], vec![os("-h")], vec![os("--help")], vec![os("hello"), os("x")], vec![os("Error"), os("x")], vec![os("errors"), os("x")], vec![os("erro"), os("x")], vec![os("--error"), os("x")], vec![os("-e"), os("1")], vec![os(" error"), os("x")], vec![os("--"), os("error"), os("x")], vec![OsString::from_vec(vec![0xff]), os("error")], vec![os("-V"), os("error"), os("x")], vec![os("None")], vec![os("custom"), os("x")]];
	for (w, _) in words() { firsts.push(vec![os(&w.to_uppercase()), os("x")]); firsts.push(vec![os(&format!("{w}s")), os("x")]); firsts.push(vec![os(&w[..w.len() - 1]), os("x")]); }
	for f in firsts { c.case(true, &f, || first_arg(&f)); }
	for cmd in CMDS { if *cmd != "confirm" && *cmd != "blank" { let v = [os("M")]; c.case(true, (cmd, "M"), || cli_case(cmd, &v, b"")); } }
	while c.more(1.0) {
		let w = words(); let r = &mut c.rng;
		let mut v = w[r.below(w.len())].0.as_bytes().to_vec();
		for _ in 0..r.below(4) { let p = r.below(v.len() + 1); match r.below(3) { 0 => v.insert(p, [b' ', b'\t', r.next() as u8, 0x0b][r.below(4)]), 1 => { if p < v.len() { v.remove(p); } }, _ => { if p < v.len() { v[p] ^= 0x20; } } } }
		c.case(true, lossy(&v), || kind_case(&v));
	}
}

// ---- C16 -----------------------------------------------------------------
/// Child: `MODE BODY INDENT SUFFIX NEWLINE`.
pub fn prompt_child(a: &[String]) {
	let m = prompt_msg(&a[1], a[2].parse().unwrap_or(0), &a[3], a[4] == "1").0;
	let before = m.clone();
	let r = match a[0].as_str() { "p" => m.prompt(), "py" => m.prompt_with_default(true), "pn" => m.prompt_with_default(false), "e" => m.eprompt(), "ey" => m.eprompt_with_default(true), "en" => m.eprompt_with_default(false),
		"my" => fyi_msg::confirm!(yes: &a[1]), "mn" => fyi_msg::confirm!(no: &a[1]), "m" => fyi_msg::confirm!(&a[1]), "myi" => fyi_msg::confirm!(yes: &a[1], 2), "mni" => fyi_msg::confirm!(no: &a[1], 2), _ => fyi_msg::confirm!(&a[1], 2) };
	if m.as_str() != before.as_str() || m.clone().with_suffix("").as_str() != before.with_suffix("").as_str() { std::process::exit(99); }
	std::process::exit(if r { 11 } else { 10 });
}
fn prompt_msg(body: &str, indent: u8, suffix: &str, nl: bool) -> (Msg, Model) {
	let (mut msg, mut m) = build(&Make::Kind(1, body.to_owned()), 0);
	for op in [Op::Indent(indent), Op::Suffix(suffix.to_owned()), Op::Nl(nl)] { let _ = step(&mut msg, &mut m, &op, false); }
	(msg, m)
}
fn prompt_case(mode: &str, body: &str, indent: u8, suffix: &str, nl: bool, input: &[u8]) -> Result<(), String> {
	let exe = std::env::current_exe().map_err(|e| e.to_string())?;
	let o = run(Command::new(exe).args(["__prompt", mode, body, &indent.to_string(), suffix, if nl { "1" } else { "0" }]), input)?;
	let default = mode.contains('y');
	let is_macro = mode.starts_with('m');
	let indent = if is_macro { if mode.ends_with('i') { 2 } else { 0 } } else { indent };
	// What the answers mean.
	let mut bad = 0; let mut res = default;
	for line in input.split_inclusive(|b| *b == b'\n') {
		match std::str::from_utf8(line).map(|l| l.to_lowercase().trim().to_owned()).as_deref() { Ok("") => { break; }, Ok("y" | "yes") => { res = true; break; }, Ok("n" | "no") => { res = false; break; }, _ => bad += 1 }
	}
	let ctx = |e: String| format!("{e} (mode {mode}): exit {:?}, stdout {:?}, stderr {:?}", o.code, lossy(&o.out), lossy(&o.err));
	ensure(o.code != Some(99), || ctx("the message was changed".into()))?;
	ensure(o.code == Some(if res { 11 } else { 10 }), || ctx(format!("expected the answer {res}")))?;
	let (a, b) = if mode.starts_with('e') { (&o.err, &o.out) } else { (&o.out, &o.err) };
	ensure(b.is_empty(), || ctx("output on the other stream".into()))?;
	let q = format!("{}{}{body}", " ".repeat((usize::from(indent) * 4).min(32)), kind_prefix("Confirm"));
	let err = kind_prefix("Error");
	let mut txt = std::str::from_utf8(a).map_err(|_| ctx("not UTF-8".into()))?;
	let mut n = 0;
	loop {
		txt = txt.strip_prefix(&q).ok_or_else(|| ctx(format!("expected the question {q:?} before {txt:?}")))?;
		let hint_end = txt.find("] ").or_else(|| txt.find("]\x1b")).ok_or_else(|| ctx("no hint".into()))?;
		let (hint, rest) = match txt[hint_end..].find(' ') { Some(p) => txt.split_at(hint_end + p + 1), None => return Err(ctx("no space after the hint".into())) };
		ensure(strip(hint) == if default { " [Y/n] " } else { " [y/N] " }, || ctx(format!("hint {hint:?}")))?;
		ensure(hint.contains(if default { "\x1b[4mY\x1b[24m" } else { "\x1b[4mN\x1b[24m" }), || ctx(format!("default not underlined in {hint:?}")))?;
		txt = rest;
		if txt.is_empty() { break; }
		let p = txt.find('\n').ok_or_else(|| ctx("no error line".into()))?;
		ensure(txt.starts_with(&err), || ctx(format!("expected an error before asking again, found {txt:?}")))?;
		n += 1; txt = &txt[p + 1..];
	}
	eq("errors shown", n, bad).map_err(ctx)
}
const MODES: &[&str] = &["p", "py", "pn", "e", "ey", "en", "m", "my", "mn", "mi", "myi", "mni"];
pub fn c16(c: &mut Ctx) {
	let answers: &[&[u8]] = &[b"y\n", b"n\n", b"yes\n", b"no\n", b"Y\n", b"NO\n", b"yEs\n", b" y \n", b"\t no\r\n", b"\n", b" \n", b"maybe\n", b"ye\n", b"yesno\n", b"nn\n", b"ny\n", b"on\n", b"s\n", b"\xff\n", b"y n\n", b"1\n", b"y", b"", b"x", b"\xe3\x80\x80y\n"];
	for m in MODES { for a in answers { c.case(true, (m, lossy(a)), || prompt_case(m, "Ready?", 0, "", true, a)); } }
	for a in answers { for b in answers { for m in ["pn", "ey"] { if a.ends_with(b"\n") && c.more(0.6) {
		let v = [*a, *b].concat(); c.case(true, (m, lossy(&v)), || prompt_case(m, "Ready?", 0, "", true, &v));
	} } } }
	while c.more(1.0) {
		let r = &mut c.rng;
		let m = r.pick(MODES).to_owned();
		let body = match r.below(5) { 0 => String::new(), 1 => "line\nline".into(), 2 => "\u{3042}?".into(), _ => "Ready?".into() };
		let suffix = if r.chance(3) { " old suffix".to_string() } else { String::new() };
		let (indent, nl) = (r.below(12) as u8, r.chance(2));
		let n = r.below(8);
		let mut input = Vec::new();
		for _ in 0..n { let a = if r.chance(3) { answers[r.below(10)] } else { answers[11 + r.below(10)] }; input.extend_from_slice(a); if !a.ends_with(b"\n") { input.push(b'\n'); } }
		c.case(n > 0, (&m, &body, indent, &suffix, nl, lossy(&input)), || prompt_case(&m, &body, indent, &suffix, nl, &input));
	}
}
