//! Executable contracts, written from the property statements only.
use unicode_width::UnicodeWidthChar;

/// Cut a string into visible characters and escape sequences.
#[derive(Debug, Clone, PartialEq)]
pub enum Tok { Vis(usize, char), Seq(usize, usize) }

/// One left-to-right scan: CSI = ESC [ ... first char in '@'..='~'; OSC = ESC ]
/// ... up to œ, BEL or ESC \; unclosed sequences run to the end.
pub fn scan(s: &str) -> Vec<Tok> {
	let cs: Vec<(usize, char)> = s.char_indices().collect();
	let at = |i: usize| if i < cs.len() { cs[i].0 } else { s.len() };
	let ch = |i: usize| cs.get(i).map(|x| x.1);
	let mut out = Vec::new();
	let mut i = 0;
	while i < cs.len() {
		if ch(i) == Some('\u{1b}') && ch(i + 1) == Some('[') {
			let mut j = i + 2;
			while j < cs.len() && !(0x40..=0x7e).contains(&(cs[j].1 as u32)) { j += 1; }
			let end = if j < cs.len() { j + 1 } else { j };
			out.push(Tok::Seq(at(i), at(end))); i = end;
		}
		else if ch(i) == Some('\u{1b}') && ch(i + 1) == Some(']') {
			let mut j = i + 2;
			let end = loop {
				if j >= cs.len() { break j; }
				let c = cs[j].1;
				if c == '\u{7}' || c == '\u{153}' { break j + 1; }
				if c == '\u{1b}' && ch(j + 1) == Some('\\') { break j + 2; }
				j += 1;
			};
			out.push(Tok::Seq(at(i), at(end))); i = end;
		}
		else { out.push(Tok::Vis(cs[i].0, cs[i].1)); i += 1; }
	}
	out
}
pub fn strip(s: &str) -> String { scan(s).iter().filter_map(|t| if let Tok::Vis(_, c) = t { Some(*c) } else { None }).collect() }
pub fn seqs(s: &str) -> Vec<&str> { scan(s).iter().filter_map(|t| if let Tok::Seq(a, b) = t { Some(&s[*a..*b]) } else { None }).collect() }
pub fn cw(c: char) -> usize { UnicodeWidthChar::width(c).unwrap_or(0) }
pub fn width(s: &str) -> usize { strip(s).chars().map(cw).sum() }
pub fn cut(s: &str, max: usize) -> usize {
	let mut w = 0;
	for t in scan(s) { if let Tok::Vis(p, c) = t { w += cw(c); if w > max { return p; } } }
	s.len()
}
/// Lines with their breaks (LF-terminated pieces).
pub fn lines(s: &str) -> Vec<&str> { s.split_inclusive('\n').collect() }
pub fn term(s: &str) -> &str { if s.ends_with("\r\n") { "\r\n" } else if s.ends_with('\n') { "\n" } else { "" } }

pub fn color_seq(n: u8, bold: bool) -> String {
	let b = if bold { "1;" } else { "" };
	match n { 0..=7 => format!("\x1b[{b}3{n}m"), 8..=15 => format!("\x1b[{b}9{}m", n - 8), _ => format!("\x1b[{b}38;5;{n}m") }
}
pub fn thousands(n: u64) -> String {
	let s = n.to_string(); let mut o = String::new();
	for (i, c) in s.chars().enumerate() { if i != 0 && (s.len() - i) % 3 == 0 { o.push(','); } o.push(c); }
	o
}
/// (name, command, colour) of the kinds that have a prefix.
pub const KINDS: &[(&str, &str, u8)] = &[
	("Aborted", "aborted", 9), ("Confirm", "confirm", 208), ("Crunched", "crunched", 10), ("Debug", "debug", 14),
	("Done", "done", 10), ("Error", "error", 9), ("Found", "found", 10), ("Info", "info", 13), ("Notice", "notice", 13),
	("Review", "review", 14), ("Skipped", "skipped", 11), ("Success", "success", 10), ("Task", "task", 199), ("Warning", "warning", 11),
];
pub fn kind_prefix(name: &str) -> String {
	KINDS.iter().find(|k| k.0 == name).map_or(String::new(), |k| format!("{}{}:\x1b[0m ", color_seq(k.2, true), k.0))
}
pub fn colored_prefix(s: &str, n: u8) -> String { if s.is_empty() { String::new() } else { format!("{}{s}:\x1b[0m ", color_seq(n, true)) } }
pub fn plain_prefix(s: &str) -> String { if s.is_empty() { String::new() } else { format!("{s}: ") } }

/// Timestamp shape: dim "[", reset blue date-time, reset dim "]", reset, space.
pub fn is_timestamp(s: &str) -> bool {
	let vis = strip(s);
	let b = vis.as_bytes();
	b.len() == 22 && b[0] == b'[' && b[20] == b']' && b[21] == b' ' &&
	b[1..20].iter().enumerate().all(|(i, c)| match i { 4 | 7 => *c == b'-', 10 => *c == b' ', 13 | 16 => *c == b':', _ => c.is_ascii_digit() }) &&
	s.starts_with("\x1b[2m[") && s.ends_with("]\x1b[0m ")
}

// ---- generators ----
/// Building blocks for short exhaustive strings.
pub const ATOMS: &[&str] = &["\x1b", "[", "]", "\\", "m", "1", "a", "\u{7}", "\u{153}", "\n", "\r", "\u{e9}", "\u{30d}", "\u{3042}", " "];
pub const ATOMS_SMALL: &[&str] = &["\x1b", "[", "]", "\\", "m", "\u{7}", "\u{153}", "\n", "\u{3042}"];
/// Building blocks for long random strings.
pub const FRAGS: &[&str] = &["\x1b[0m", "\x1b[1;38;5;199m", "\x1b]8;;http://a\x1b\\", "\x1b]0;t\u{7}", "\x1b]0;t\u{153}", "\x1b[", "\x1b]", "\x1b", "\x1b\x1b[1m", "\x1b]x\x1b\x1b\\",
	"\x1b]\x1b\u{7}", "\x1b]\x1b\u{153}", "\x1b]q\x1b[1m", "\x1b[?25l", "\x1b[~", "\x1b[@", "\x1b[\u{7f}m", "\x1b[?m", "\x1b[;\u{e9}\u{3042}H", "Hello", "World", "Bj\u{f6}rk", "\u{3042}\u{3044}", "\u{1f600}", "e\u{301}", "\u{200b}", "\u{ad}", "\u{202e}", "\t", "\r\n", "\n", "\r", " ", "\u{a0}", "\u{2028}",
	"a", "m", "[", "]", "\\", "0", ";", "\u{0}", "\u{7}", "\u{153}", "\u{85}", "\u{9b}", "\u{9b}1m", "\u{152}", "\u{154}", "\u{c5}", "@", "~", "?", "\u{7f}", "\u{ffff}", "\u{10ffff}", "::", ": ", "Error", "x\u{300}\u{301}"];
pub fn rand_text(r: &mut crate::rt::Rng, max: usize) -> String {
	let n = r.below(max + 1);
	let mut s = String::new();
	for _ in 0..n {
		if r.chance(12) { if let Some(c) = char::from_u32(r.below(0x3000) as u32) { s.push(c); } }
		else { s.push_str(r.pick(FRAGS)); }
	}
	s
}
pub fn rand_plain(r: &mut crate::rt::Rng, max: usize) -> String {
	let n = r.below(max + 1);
	(0..n).map(|_| r.pick(&["a", "Zz", " ", "\u{e9}", "\u{3042}", "Oops", "-", "0", "\u{1f600}", "\n", ":"])).collect()
}
/// Call `f` for every string of up to `len` atoms.
pub fn exhaustive(atoms: &[&str], len: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
	fn go(atoms: &[&str], left: usize, s: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
		if left == 0 { return f(s); }
		for a in atoms {
			s.push_str(a);
			let ok = go(atoms, left - 1, s, f);
			s.truncate(s.len() - a.len());
			if !ok { return false; }
		}
		true
	}
	for n in 0..=len { let mut s = String::new(); if !go(atoms, n, &mut s, f) { return false; } }
	true
}
