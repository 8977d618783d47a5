//! Text properties: C01–C06, C12, C17, C18 and the dependency contracts.
use crate::oracle::*;
use crate::rt::*;
use fyi_msg::{AnsiColor, BeforeAfter, Msg, MsgKind, Progless, ProglessError};
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

// ---- C01 -----------------------------------------------------------------
/// The abstract message: one string per part.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Model { pub indent: String, pub ts: String, pub prefix: String, pub body: String, pub suffix: String, pub nl: String }
impl Model {
	pub fn text(&self) -> String { [&self.indent, &self.ts, &self.prefix, &self.body, &self.suffix, &self.nl].map(String::as_str).concat() }
}

#[derive(Debug, Clone)]
pub enum Op {
	Indent(u8), Body(String), Nl(bool), PKind(usize), PText(String), PNum(String, u8), PCol(String, u8), Suffix(String), Ts(bool), Strip, Saved(u64, u64), Clone,
}
#[derive(Debug, Clone)]
pub enum Make { Default, Str(String), Kind(usize, String), Plain(String, String), Col(String, u8, String), Shot(usize, String) }

pub fn all_kinds() -> &'static [MsgKind] { &MsgKind::ALL }

/// The message for a one-shot constructor.
pub fn one_shot(i: usize, s: &str) -> Msg {
	match i % 14 {
		0 => Msg::aborted(s), 1 => MsgKind::Confirm.into_msg(s).with_newline(true), 2 => Msg::crunched(s), 3 => Msg::debug(s), 4 => Msg::done(s), 5 => Msg::error(s), 6 => Msg::found(s),
		7 => Msg::info(s), 8 => Msg::notice(s), 9 => Msg::review(s), 10 => Msg::skipped(s), 11 => Msg::success(s), 12 => Msg::task(s), _ => Msg::warning(s),
	}
}
/// All kinds with a prefix, in the order of `KINDS`, then the others.
pub fn kind_at(i: usize) -> MsgKind {
	match i % 17 {
		0 => MsgKind::Aborted, 1 => MsgKind::Confirm, 2 => MsgKind::Crunched, 3 => MsgKind::Debug, 4 => MsgKind::Done, 5 => MsgKind::Error, 6 => MsgKind::Found,
		7 => MsgKind::Info, 8 => MsgKind::Notice, 9 => MsgKind::Review, 10 => MsgKind::Skipped, 11 => MsgKind::Success, 12 => MsgKind::Task, 13 => MsgKind::Warning,
		14 => MsgKind::None, 15 => MsgKind::Blank, _ => MsgKind::Custom,
	}
}
fn kp(i: usize) -> String { KINDS.get(i % 17).map_or(String::new(), |k| kind_prefix(k.0)) }

pub fn build(mk: &Make, variant: usize) -> (Msg, Model) {
	let mut m = Model::default();
	let msg = match mk {
		Make::Default => Msg::default(),
		Make::Str(s) => { m.body = s.clone(); match variant % 5 { 0 => Msg::from(s.as_str()), 1 => Msg::from(s), 2 => Msg::from(s.clone()), 3 => Msg::from(Cow::Borrowed(s.as_str())), _ => Msg::from(Cow::<str>::Owned(s.clone())) } },
		Make::Kind(k, s) => { m.prefix = kp(*k); m.body = s.clone(); if variant % 2 == 0 { Msg::new(kind_at(*k), s) } else { kind_at(*k).into_msg(s) } },
		Make::Plain(p, s) => { m.prefix = plain_prefix(p); m.body = s.clone(); match variant % 3 { 0 => Msg::new(p.as_str(), s), 1 => Msg::new(p, s), _ => Msg::new(p.clone(), s.clone()) } },
		Make::Col(p, c, s) => { m.prefix = colored_prefix(p, *c); m.body = s.clone(); if variant % 2 == 0 { Msg::new((p, *c), s) } else { Msg::new((p.as_str(), AnsiColor::from_u8(*c)), s) } },
		Make::Shot(k, s) => { m.prefix = kp(*k % 14); m.body = s.clone(); m.nl = "\n".into(); one_shot(*k, s) },
	};
	(msg, m)
}
/// Take the timestamp out of a message whose other parts are known.
fn take_ts(txt: &str, m: &Model) -> Result<String, String> {
	let rest = [&m.prefix, &m.body, &m.suffix, &m.nl].map(String::as_str).concat();
	let mid = txt.strip_prefix(&m.indent).and_then(|t| t.strip_suffix(&rest)).ok_or_else(|| format!("text is {txt:?}; expected {:?} + timestamp + {rest:?}", m.indent))?;
	ensure(is_timestamp(mid), || format!("{mid:?} is not a timestamp (text is {txt:?})"))?;
	Ok(mid.to_owned())
}
pub fn step(msg: &mut Msg, m: &mut Model, op: &Op, with: bool) -> Result<(), String> {
	let mut new_ts = false;
	macro_rules! run { ($set:ident, $with:ident, $($a:expr),*) => { if with { let t = std::mem::take(msg); *msg = t.$with($($a),*); } else { msg.$set($($a),*); } } }
	match op {
		Op::Indent(n) => { m.indent = " ".repeat((usize::from(*n) * 4).min(32)); run!(set_indent, with_indent, *n); },
		Op::Body(s) => { m.body = s.clone(); run!(set_msg, with_msg, s); },
		Op::Nl(b) => { m.nl = if *b { "\n".into() } else { String::new() }; run!(set_newline, with_newline, *b); },
		Op::PKind(k) => { m.prefix = kp(*k); run!(set_prefix, with_prefix, kind_at(*k)); },
		Op::PText(s) => { m.prefix = plain_prefix(s); run!(set_prefix, with_prefix, s); },
		Op::PNum(s, c) => { m.prefix = colored_prefix(s, *c); run!(set_prefix, with_prefix, (s, *c)); },
		Op::PCol(s, c) => { m.prefix = colored_prefix(s, *c); run!(set_prefix, with_prefix, (s.as_str(), AnsiColor::from_u8(*c))); },
		Op::Suffix(s) => { m.suffix = s.clone(); run!(set_suffix, with_suffix, s); },
		#[cfg(feature = "ts")]
		Op::Ts(b) => { m.ts.clear(); new_ts = *b; run!(set_timestamp, with_timestamp, *b); },
		#[cfg(not(feature = "ts"))]
		Op::Ts(_) => {},
		Op::Strip => {
			let before = m.text();
			for p in [&mut m.ts, &mut m.prefix, &mut m.body, &mut m.suffix] { *p = strip(p); }
			if with { let t = std::mem::take(msg); *msg = t.without_ansi(); }
			else { let r = msg.strip_ansi(); eq("strip_ansi return value", r, before != m.text())?; }
		},
		Op::Saved(b, a) => {
			m.suffix = if *b != 0 && *a != 0 && b > a { saved_suffix(*b, *a, msg.clone().with_bytes_saved((*b, *a).into()).as_str())? } else { " \x1b[2m(No savings.)\x1b[0m".into() };
			let t = std::mem::take(msg); *msg = t.with_bytes_saved((*b, *a).into());
		},
		Op::Clone => { let c = msg.clone(); eq("clone", c.as_str(), msg.as_str())?; *msg = c; },
	}
	if new_ts { m.ts = take_ts(msg.as_str(), m)?; }
	eq("text", msg.as_str(), m.text().as_str())
}
/// Percentages are only checked to one unit in the last place shown.
fn saved_suffix(b: u64, a: u64, txt: &str) -> Result<String, String> {
	let s = b - a;
	let head = format!(" \x1b[2m(Saved {} bytes, ", thousands(s));
	let tail = "%.)\x1b[0m";
	let p = txt.rfind(&head).ok_or_else(|| format!("{txt:?} does not contain {head:?}"))?;
	let rest = &txt[p + head.len()..];
	let e = rest.find(tail).ok_or_else(|| format!("{txt:?} does not have {tail:?} after {head:?}"))?;
	let num = &rest[..e];
	let v: f64 = num.parse().map_err(|_| format!("{num:?} is not a percentage"))?;
	let want = (s as f64) / (b as f64) * 100.0;
	ensure((v - want).abs() <= 0.0051 && num.split('.').nth(1).is_some_and(|d| d.len() == 2), || format!("percentage {num:?}, expected {want:.4}"))?;
	Ok(format!("{head}{num}{tail}"))
}
fn rand_str(r: &mut Rng) -> String { match r.below(8) { 0 => String::new(), 1 => "a".into(), 2 => "\u{3042}".into(), 3 => rand_plain(r, 60), 4 => rand_text(r, 12), _ => rand_text(r, 4) } }
pub fn rand_make(r: &mut Rng) -> Make {
	match r.below(7) {
		0 => Make::Default, 1 => Make::Str(rand_str(r)), 2 => Make::Kind(r.below(17), rand_str(r)), 3 => Make::Plain(rand_str(r), rand_str(r)),
		4 | 5 => Make::Col(rand_str(r), r.next() as u8, rand_str(r)), _ => Make::Shot(r.below(14), rand_str(r)),
	}
}
pub fn rand_op(r: &mut Rng, strips: bool) -> Op {
	match r.below(if strips { 13 } else { 11 }) {
		0 => Op::Indent(if r.chance(4) { r.next() as u8 } else { r.below(12) as u8 }), 1 => Op::Body(rand_str(r)), 2 => Op::Nl(r.chance(2)), 3 => Op::PKind(r.below(17)),
		4 => Op::PText(rand_str(r)), 5 => Op::PNum(rand_str(r), r.next() as u8), 6 => Op::PCol(rand_str(r), r.next() as u8), 7 | 8 => Op::Suffix(rand_str(r)),
		9 => Op::Ts(!r.chance(3)), 10 => if r.chance(3) { Op::Saved(r.int(), r.int()) } else { Op::Clone }, _ => Op::Strip,
	}
}
fn history(mk: &Make, ops: &[(Op, bool)], variant: usize) -> Result<(), String> {
	let (mut msg, mut m) = build(mk, variant);
	eq("text after construction", msg.as_str(), m.text().as_str())?;
	for (i, (op, with)) in ops.iter().enumerate() {
		step(&mut msg, &mut m, op, *with).map_err(|e| format!("after edit {} ({op:?}): {e}", i + 1))?;
	}
	// The stored boundaries must still separate the parts: replace each one.
	for op in [Op::Suffix("S".into()), Op::Body("\u{e9}".into()), Op::Indent(1), Op::PText("P".into()), Op::Ts(false), Op::Nl(true), Op::Suffix(String::new()), Op::Nl(false)] {
		step(&mut msg, &mut m, &op, false).map_err(|e| format!("at the end, setting {op:?}: {e}"))?;
	}
	Ok(())
}
/// A fixed edit list whose pairs are tried exhaustively.
fn base_ops() -> Vec<Op> {
	vec![Op::Indent(0), Op::Indent(1), Op::Indent(9), Op::Indent(255), Op::Body(String::new()), Op::Body("b".into()), Op::Body("\u{3042}long body".into()), Op::Nl(true), Op::Nl(false), Op::PKind(5), Op::PKind(14),
		Op::PText("x".into()), Op::PText(String::new()), Op::PNum("x".into(), 1), Op::PCol("yy".into(), 10), Op::PNum("z".into(), 199), Op::Suffix(String::new()), Op::Suffix("suf".into()), Op::Ts(true), Op::Ts(false)]
}
fn base_makes() -> Vec<Make> {
	vec![Make::Default, Make::Str(String::new()), Make::Str("abc".into()), Make::Str("abc\n".into()), Make::Kind(5, "m".into()), Make::Kind(14, "m".into()), Make::Plain("p".into(), "m".into()), Make::Plain(String::new(), "m".into()),
		Make::Col("p".into(), 3, "m\u{e9}".into()), Make::Shot(0, String::new()), Make::Shot(9, "m\n".into())]
}
pub fn c01(c: &mut Ctx) {
	for mk in base_makes() { for v in 0..6 { c.case(true, (&mk, v), || history(&mk, &[], v)); } }
	let ops = base_ops();
	for mk in base_makes() { for a in &ops { for b in &ops {
		let h = [(a.clone(), true), (b.clone(), false)];
		c.case(true, (&mk, &h), || history(&mk, &h, 0));
	} } }
	for n in 0..=255_u8 { let h = [(Op::Indent(n), false)]; c.case(true, ("indent", n), || history(&Make::Shot(1, "x".into()), &h, 0)); }
	while c.more(1.0) {
		let mk = rand_make(&mut c.rng); let v = c.rng.below(6);
		let n = if c.rng.chance(10) { 30 } else { 7 };
		let h: Vec<(Op, bool)> = (0..c.rng.below(n)).map(|_| (rand_op(&mut c.rng, false), c.rng.chance(2))).collect();
		c.case(!h.is_empty(), (&mk, &h, v), || history(&mk, &h, v));
	}
}

// ---- C02 -----------------------------------------------------------------
fn prefix_all(s: &str, n: u8, body: &str) -> Result<(), String> {
	let owned = s.to_owned();
	let cb: Cow<'_, str> = Cow::Borrowed(s);
	let co: Cow<'_, str> = Cow::Owned(owned.clone());
	let plain = plain_prefix(s);
	let col = colored_prefix(s, n);
	let color = AnsiColor::from_u8(n);
	macro_rules! one { ($($p:expr, $want:ident);+ $(;)?) => { $(
		let want = &$want;
		let what = stringify!($p);
		let a = Msg::new($p, body);
		ensure(a.as_str() == format!("{want}{body}"), || format!("Msg::new({what}, ..) is {:?}, expected {:?}", a.as_str(), format!("{want}{body}")))?;
		let b = a.with_msg("Z");
		ensure(b.as_str() == format!("{want}Z"), || format!("prefix length for {what} is off: {:?} after with_msg(\"Z\")", b.as_str()))?;
		let c = Msg::info(body).with_prefix($p);
		ensure(c.as_str() == format!("{want}{body}\n"), || format!("with_prefix({what}) gives {:?}, expected {:?}", c.as_str(), format!("{want}{body}\n")))?;
		let mut d = c.with_msg("Y"); d.set_prefix($p);
		ensure(d.as_str() == format!("{want}Y\n"), || format!("set_prefix({what}) gives {:?}, expected {:?}", d.as_str(), format!("{want}Y\n")))?;
	)+ } }
	one! {
		s, plain; &owned, plain; owned.clone(), plain; &cb, plain; cb.clone(), plain; &co, plain; co.clone(), plain;
		(s, n), col; (&owned, n), col; (owned.clone(), n), col; (&cb, n), col; (cb.clone(), n), col; (&co, n), col; (co.clone(), n), col;
		(s, color), col; (&owned, color), col; (owned.clone(), color), col; (&cb, color), col; (cb.clone(), color), col; (co.clone(), color), col;
	}
	Ok(())
}
pub fn c02(c: &mut Ctx) {
	for i in 0..17 { for body in ["", "x", "Hello \u{3042}\n"] {
		c.case(true, ("kind", i, body), || {
			let want = kp(i); let k = kind_at(i);
			eq("Msg::new", Msg::new(k, body).as_str(), format!("{want}{body}").as_str())?;
			eq("into_msg", k.into_msg(body).as_str(), format!("{want}{body}").as_str())?;
			eq("length", Msg::new(k, body).with_msg("Z").as_str(), format!("{want}Z").as_str())?;
			eq("with_prefix", Msg::from(body).with_prefix(k).as_str(), format!("{want}{body}").as_str())?;
			eq("with_prefix over another", Msg::new(("abc", 7), body).with_prefix(k).with_msg("Q").as_str(), format!("{want}Q").as_str())?;
			eq("prefix colour", k.prefix_color().map(|x| x as u8), KINDS.get(i).map(|k| k.2))?;
			eq("name", k.as_str(), KINDS.get(i).map_or("", |k| k.0))?;
			eq("display", k.to_string().as_str(), k.as_str())?;
			eq("is_empty", k.is_empty(), i >= 14)?;
			if i < 14 {
				eq("one-shot", one_shot(i, body).as_str(), format!("{want}{body}\n").as_str())?;
				eq("one-shot body", one_shot(i, body).with_msg("Z").as_str(), format!("{want}Z\n").as_str())?;
				eq("one-shot newline", one_shot(i, body).with_newline(false).as_str(), format!("{want}{body}").as_str())?;
				eq("one-shot suffix", one_shot(i, body).with_suffix("S").with_prefix("").as_str(), format!("{body}S\n").as_str())?;
			}
			Ok(())
		});
	} }
	for n in 0..=255_u8 { for s in ["", "a", "\u{3042}", " ", ":"] { c.case(!s.is_empty(), (s, n), || prefix_all(s, n, "b\u{e9}")); } }
	while c.more(1.0) {
		let s = if c.rng.chance(3) { rand_text(&mut c.rng, 30) } else { rand_text(&mut c.rng, 3) };
		let b = rand_str(&mut c.rng); let n = c.rng.next() as u8;
		c.case(!s.is_empty(), (&s, n, &b), || prefix_all(&s, n, &b));
	}
}

// ---- C03 -----------------------------------------------------------------
fn strip_case(mk: &Make, ops: &[(Op, bool)]) -> Result<(), String> {
	let mut all = ops.to_vec(); all.push((Op::Strip, false)); all.push((Op::Strip, false));
	history(mk, &all, 0)?;
	let mut all = ops.to_vec(); all.push((Op::Strip, true));
	history(mk, &all, 1)
}
pub fn c03(c: &mut Ctx) {
	let n = if c.thorough { 6 } else { 5 };
	let cell = std::cell::RefCell::new(c);
	exhaustive(ATOMS_SMALL, n, &mut |s| {
		let mut c = cell.borrow_mut();
		c.case(s.contains('\x1b'), s, || {
			let want = strip(s);
			let mut a = Msg::from(s);
			eq("strip_ansi return value", a.strip_ansi(), want != s)?;
			eq("stripped body", a.as_str(), want.as_str())?;
			let mut b = Msg::new(s, s).with_suffix(s);
			b.set_newline(true);
			let w = format!("{}{want}{want}\n", strip(&plain_prefix(s)));
			b.strip_ansi();
			eq("stripped parts", b.as_str(), w.as_str())?;
			eq("body edit after strip", b.with_msg("|").as_str(), format!("{}|{want}\n", strip(&plain_prefix(s))).as_str())
		});
		c.more(0.45)
	});
	let c = cell.into_inner();
	while c.more(1.0) {
		let mk = rand_make(&mut c.rng);
		let h: Vec<(Op, bool)> = (0..c.rng.below(8)).map(|_| (rand_op(&mut c.rng, true), c.rng.chance(2))).collect();
		c.case(true, (&mk, &h), || strip_case(&mk, &h));
	}
}

// ---- C04, C05, C06 -------------------------------------------------------
fn texts(c: &mut Ctx, f: impl Fn(&str, &mut Rng) -> Result<(), String>) {
	let n = if c.thorough { 5 } else { 4 };
	let cell = std::cell::RefCell::new(c);
	exhaustive(ATOMS, n, &mut |s| {
		let mut c = cell.borrow_mut();
		let mut r = Rng::new(c.evals.wrapping_mul(7919));
		c.case(!s.is_empty(), s, || f(s, &mut r));
		c.more(0.4)
	});
	let c = cell.into_inner();
	// Every character, alone and behind an escape.
	for cp in (0..0x11_0000u32).step_by(1) {
		if !c.thorough && cp > 0x3100 && cp % 61 != 0 { continue; }
		if let Some(ch) = char::from_u32(cp) {
			let s = format!("{ch}\u{1b}{ch}\u{1b}[{ch}m{ch}");
			let mut r = Rng::new(u64::from(cp));
			c.case(true, &s, || f(&s, &mut r));
		}
		if cp % 4096 == 0 && !c.more(0.7) { break; }
	}
	while c.more(1.0) {
		let n = [4, 12, 40, 200][c.rng.below(4)];
		let s = rand_text(&mut c.rng, n);
		let mut r = Rng::new(c.rng.next());
		c.case(!s.is_empty(), &s, || f(&s, &mut r));
	}
}
pub fn c04(c: &mut Ctx) { texts(c, |s, _| eq("width", fyi_msg::width(s), width(s))); }

fn limits(s: &str, r: &mut Rng) -> Vec<usize> {
	let w = width(s);
	let mut l = vec![0, 1, 2, w, w.saturating_sub(1), w + 1, s.len(), usize::MAX];
	if w > 3 { l.push(r.below(w)); l.push(r.below(w)); }
	l.sort_unstable(); l.dedup(); l
}
pub fn c05(c: &mut Ctx) {
	texts(c, |s, r| {
		for max in limits(s, r) {
			let got = fyi_msg::length_width(s, max);
			ensure(s.is_char_boundary(got), || format!("length_width(.., {max}) = {got} is not a character boundary"))?;
			ensure(width(&s[..got]) <= max, || format!("length_width(.., {max}) = {got}, but that has width {}", width(&s[..got])))?;
			ensure(got == cut(s, max), || format!("length_width(.., {max}) = {got}, expected {}", cut(s, max)))?;
		}
		Ok(())
	});
}
/// Lines including an empty last one.
fn all_lines(s: &str) -> Vec<&str> { let mut v = lines(s); if s.is_empty() || s.ends_with('\n') { v.push(""); } v }
pub fn fit_ok(s: &str, max: usize, out: &str) -> Result<(), String> {
	let (a, b) = (all_lines(s), all_lines(out));
	ensure(a.len() == b.len(), || format!("fitted to {max}: {} lines became {}: {out:?}", a.len(), b.len()))?;
	for (x, y) in a.iter().zip(&b) {
		// (A carriage return that was text can end up in front of a line feed.)
		let tx = term(x);
		let x0 = &x[..x.len() - tx.len()];
		let y0 = y.strip_suffix(tx).ok_or_else(|| format!("fitted to {max}: line {x:?} became {y:?} (line break changed)"))?;
		ensure(width(y) <= max, || format!("fitted to {max}: line {y:?} has width {}", width(y)))?;
		if width(x) <= max { ensure(x == y, || format!("fitted to {max}: line {x:?} already fits but became {y:?}"))?; continue; }
		ensure(seqs(x0) == seqs(y0), || format!("fitted to {max}: line {x:?} became {y:?} (sequences {:?} became {:?})", seqs(x0), seqs(y0)))?;
		let (vx, vy) = (strip(x0), strip(y0));
		let mut w = 0;
		let want: String = vx.chars().take_while(|c| { w += cw(*c); w <= max }).collect();
		ensure(vy == want, || format!("fitted to {max}: line {x:?} became {y:?} (visible {vy:?}, expected {want:?})"))?;
	}
	Ok(())
}
pub fn c06(c: &mut Ctx) {
	texts(c, |s, r| {
		for max in limits(s, r) {
			if max == 0 { continue; }
			let out = fyi_msg::fit_to_width(s, max);
			fit_ok(s, max, &out)?;
			let m = Msg::from(s);
			ensure(m.fitted(max) == out, || format!("Msg::fitted({max}) differs from fit_to_width"))?;
		}
		Ok(())
	});
}

// ---- C12 -----------------------------------------------------------------
fn ba_case(b: u64, a: u64, mk: &Make) -> Result<(), String> {
	for form in 0..3 {
		let st = match form { 0 => BeforeAfter::from((b, a)), 1 => { let mut s = BeforeAfter::start(b); s.stop(a); s }, _ => { let mut s = BeforeAfter::start(b); s.stop(a.wrapping_add(1)); s.stop(a); s } };
		let ok = b != 0 && a != 0;
		let less = if ok && b > a { Some(b - a) } else { None };
		let more = if ok && a > b { Some(a - b) } else { None };
		eq("before", st.before().map(|x| x.get()), Some(b).filter(|x| *x != 0))?;
		eq("after", st.after().map(|x| x.get()), Some(a).filter(|x| *x != 0))?;
		eq("less", st.less().map(|x| x.get()), less)?;
		eq("more", st.more().map(|x| x.get()), more)?;
		let near = |got: Option<f64>, n: Option<u64>, what: &str| match (got, n) {
			(None, None) => Ok(()),
			(Some(g), Some(n)) => { let w = n as f64 / b as f64; ensure((g - w).abs() <= w.abs() * 1e-9, || format!("{what} is {g}, expected {w}")) },
			(g, n) => Err(format!("{what} is {g:?} with amount {n:?}")),
		};
		near(st.less_percent(), less, "less_percent")?;
		near(st.more_percent(), more, "more_percent")?;
	}
	let st = BeforeAfter::start(b);
	ensure(st.less().is_none() && st.more().is_none() && st.less_percent().is_none() && st.more_percent().is_none(), || "reported without an after value".into())?;
	let (mut m, mut model) = build(mk, 0);
	m.set_suffix("old"); model.suffix = "old".into();
	step(&mut m, &mut model, &Op::Saved(b, a), false)?;
	for op in [Op::Body("B".into()), Op::PText("pp".into()), Op::Nl(true), Op::Suffix(String::new())] { step(&mut m, &mut model, &op, false)?; }
	Ok(())
}
pub fn c12(c: &mut Ctx) {
	let e: Vec<u64> = (0..64).flat_map(|i| [(1u64 << i) - 1, 1 << i, (1 << i) + 1]).chain([u64::MAX, u64::MAX - 1, 999, 1000, 100]).collect();
	let mk = Make::Shot(2, "Hi".into());
	for &b in &e { for &a in &e { c.case(a != 0 && b != 0 && a != b, (b, a), || ba_case(b, a, &mk)); } }
	while c.more(0.6) {
		let (b, mut a) = (c.rng.int(), c.rng.int());
		if c.rng.chance(4) { a = b.wrapping_add(c.rng.below(5) as u64).wrapping_sub(2); }
		let mk = rand_make(&mut c.rng);
		c.case(a != 0 && b != 0 && a != b, (b, a, &mk), || ba_case(b, a, &mk));
	}
}

// ---- C17 -----------------------------------------------------------------
fn h<T: Hash + ?Sized>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn same_text(a: &Msg, t: &str, b: &Msg, u: &str) -> Result<(), String> {
	eq("eq", a == b, t == u)?; eq("ne", a != b, t != u)?;
	eq("cmp", a.cmp(b), t.cmp(u))?; eq("partial_cmp", a.partial_cmp(b), t.partial_cmp(u))?; eq("lt", a < b, t < u)?;
	eq("hash", h(a), h(t))?;
	eq("borrow", <Msg as Borrow<str>>::borrow(a), t)?;
	eq("borrowed hash", h(a), h(<Msg as Borrow<str>>::borrow(a)))?;
	eq("as_str", a.as_str(), t)?; eq("as_bytes", a.as_bytes(), t.as_bytes())?; eq("len", a.len(), t.len())?; eq("is_empty", a.is_empty(), t.is_empty())?;
	eq("AsRef<str>", <Msg as AsRef<str>>::as_ref(a), t)?; eq("AsRef<[u8]>", <Msg as AsRef<[u8]>>::as_ref(a), t.as_bytes())?;
	eq("to_string", a.to_string().as_str(), t)?; eq("into_string", a.clone().into_string().as_str(), t)?; eq("into_bytes", a.clone().into_bytes().as_slice(), t.as_bytes())?;
	eq("String::from", String::from(a.clone()).as_str(), t)?;
	eq("format", format!("{a}").as_str(), t)?;
	eq("padded format", format!("{a:>9}|{a:<7}|{a:^5}|{a:.2}"), format!("{t:>9}|{t:<7}|{t:^5}|{t:.2}"))?;
	let us = u.to_owned(); let ub = u.as_bytes(); let uv = ub.to_vec();
	let bs: Box<str> = u.into(); let bb: Box<[u8]> = ub.into();
	let cs: Cow<'_, str> = Cow::Borrowed(u); let cb: Cow<'_, [u8]> = Cow::Borrowed(ub);
	let same = t == u;
	macro_rules! both { ($($x:expr),+ $(,)?) => { $( ensure((*a == $x) == same, || format!("msg == {} is {}", stringify!($x), !same))?; ensure(($x == *a) == same, || format!("{} == msg is {}", stringify!($x), !same))?; ensure((*a != $x) != same, || format!("msg != {}", stringify!($x)))?; )+ } }
	both!(*u, u, us, &us, bs, &bs, cs, &cs, *ub, ub, uv, &uv, bb, &bb, cb, &cb);
	let mut map: HashMap<Msg, u8> = HashMap::new(); map.insert(a.clone(), 1);
	eq("map lookup by text", map.get(u).is_some(), same)?;
	let mut set = std::collections::BTreeSet::new(); set.insert(a.clone());
	eq("ordered lookup by text", set.contains(u), same)
}
pub fn c17(c: &mut Ctx) {
	let fixed = ["", "a", "b", "ab", "a\n", "\u{e9}", "\u{3042}", "Error: x", "\x1b[1;91mError:\x1b[0m x", "abc", "Abc"];
	for t in fixed { for u in fixed { c.case(true, (t, u), || {
		same_text(&Msg::from(t), t, &Msg::from(u), u)
	}); } }
	while c.more(1.0) {
		// The same text divided differently, and neighbours of it.
		let (p, b, s) = (rand_str(&mut c.rng), rand_str(&mut c.rng), rand_str(&mut c.rng));
		let k = c.rng.below(6);
		let n = c.rng.next() as u8;
		c.case(true, (&p, &b, &s, k, n), || {
			let a = Msg::new((&p, n), &b).with_suffix(&s).with_indent((k % 3) as u8).with_newline(k > 3);
			let t = format!("{}{}{b}{s}{}", "    ".repeat(k % 3), colored_prefix(&p, n), if k > 3 { "\n" } else { "" });
			let x = match k {
				0 => Msg::from(t.as_str()), 1 => Msg::default().with_suffix(&t), 2 => Msg::from(format!("{t}x")),
				3 => Msg::from(t.get(1..).unwrap_or("")), 4 => Msg::default().with_suffix(&t[..]).with_newline(true).with_newline(false), _ => Msg::from(t.to_uppercase()),
			};
			let u = match k { 0 | 1 | 4 => t.clone(), 2 => format!("{t}x"), 3 => t.get(1..).unwrap_or("").to_owned(), _ => t.to_uppercase() };
			same_text(&a, &t, &x, &u)?;
			same_text(&x, &u, &a, &t)
		});
	}
}

// ---- C18 -----------------------------------------------------------------
pub fn c18(c: &mut Ctx) {
	let mut seen: HashMap<String, u8> = HashMap::new();
	for n in 0..=255_u8 {
		let col = AnsiColor::from_u8(n);
		c.case(true, ("colour", n), || {
			let want = color_seq(n, false);
			eq("as u8", col as u8, n)?; eq("From<u8>", AnsiColor::from(n), col)?; ensure(col == n && n == col, || "not equal to its number".into())?;
			for m in 0..=255_u8 { eq("eq other number", (col == m, m == col), (n == m, n == m))?; eq("eq other colour", col == AnsiColor::from_u8(m), n == m)?; }
			eq("as_str", col.as_str(), want.as_str())?; eq("display", col.to_string().as_str(), want.as_str())?;
			eq("prefix", Msg::new(("x", n), "").as_str(), format!("{}x:\x1b[0m ", color_seq(n, true)).as_str())?;
			eq("prefix by name", Msg::new(("x", col), "").as_str(), format!("{}x:\x1b[0m ", color_seq(n, true)).as_str())
		});
		if let Some(o) = seen.insert(col.as_str().to_owned(), n) { c.case(true, (o, n), || Err("two colours share a sequence".into())); }
	}
	eq("reset", AnsiColor::RESET, "\x1b[0m").unwrap_or_else(|e| c.case(true, "RESET", || Err(e)));
}

// ---- Dependency contracts ------------------------------------------------
/// Facts assumed by the proofs about external crates, checked exhaustively
/// where the domain allows it.
pub fn deps(c: &mut Ctx) {
	let mut max = 0;
	for cp in 0..0x11_0000u32 {
		let Some(ch) = char::from_u32(cp) else { continue };
		let w = cw(ch); max = max.max(w);
		c.case(true, cp, || {
			ensure(w <= ch.len_utf8() && w <= 3, || format!("width {w} for {ch:?}"))?;
			ensure(!ch.is_control() || w == 0, || format!("control {ch:?} has width {w}"))?;
			ensure(!ch.is_whitespace() || ch.len_utf8() <= 3, || "whitespace length".into())
		});
	}
	for n in (0..=u32::MAX).step_by(9973) { c.case(true, ("nice", n), || eq("NiceU32", dactyl::NiceU32::from(n).as_str(), thousands(u64::from(n)).as_str())); }
	while c.more(0.5) {
		let n = c.rng.int();
		c.case(true, ("nice", n), || eq("NiceU64", dactyl::NiceU64::from(n).as_str(), thousands(n).as_str()));
		let secs = c.rng.below(200) as u32 * 3601 + c.rng.below(90) as u32;
		c.case(true, ("clock", secs), || eq("NiceClock length", dactyl::NiceClock::from(secs).len(), 8));
		let p = (n as f64 / u64::MAX as f64) as f32;
		c.case(true, ("percent", n), || {
			let s = dactyl::NicePercent::from(p);
			ensure(s.len() >= 5 && s.len() <= 7 && s.as_str().ends_with('%'), || s.as_str().to_owned())
		});
	}
}
