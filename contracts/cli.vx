# The command line.
@include prompt.vx
@include msg_ts.vx
@path argyle::args vx_argyle_args
@path std::env::args_os vx_args_os
@path std::io::_print vx_print
@path std::io::_eprint vx_eprint
@path Argue VxArgue
@path ExitCode VxExit
@path NonZeroUsize::btou vx_btou_nz
@path NonZeroUsize::MIN VX_NZ_MIN
@path NonZeroUsize::max vx_nz_max
@path u8::btou vx_btou_u8
@path MsgKind::from MsgKind::kind_from
@path u8::from vx_u8_from
@method repeat vx_repeat
@method into vx_into
@method to_string vx_to_string
@method as_bytes vx_as_bytes
@raw
pub use vcli::*;
pub mod vcli {
use vstd::prelude::*;
/// A command-line argument.
pub ghost enum Raw { Text(Seq<char>), Bad }
/// The arguments of the process, its name included.
pub uninterp spec fn argv() -> Seq<Raw>;
/// What the parser makes of them.
pub ghost enum Arg { Command(Seq<char>), Key(Seq<char>), Val(Seq<char>, Seq<char>), Other(Seq<char>), Bad, End }
/// The class of a keyword: a command, a key, or a key with a value.
pub ghost enum Cls { No, Command, Key, Val }
pub open spec fn alnum(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') || ('0' <= c <= '9') }
pub open spec fn eq_at(s: Seq<char>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() || s[i] == '=' { i } else { eq_at(s, i + 1) } }
/// The name of an option with its value attached: two characters, or all up to the first `=`.
pub open spec fn needle(s: Seq<char>) -> Option<Seq<char>> {
	if s.len() >= 3 && s[0] == '-' {
		if alnum(s[1]) { Some(s.take(2)) }
		else if s[1] == '-' && alnum(s[2]) && 0 <= eq_at(s, 0) < s.len() { Some(s.take(eq_at(s, 0))) }
		else { None }
	} else { None }
}
/// The keyword an argument stands for.
pub open spec fn word_of(s: Seq<char>, cls: spec_fn(Seq<char>) -> Cls) -> Option<Seq<char>> {
	if s.len() == 0 || !(s[0] == '-' || alnum(s[0])) { None }
	else if !(cls(s) is No) { Some(s) }
	else if needle(s) is Some && !(cls(needle(s)->0) is No) { needle(s) }
	else { None }
}
pub open spec fn attached(s: Seq<char>, n: Seq<char>) -> Seq<char> {
	let v = s.skip(n.len() as int);
	if v.len() > 0 && v[0] == '=' { v.drop_first() } else { v }
}
/// The next argument, and what is left.
pub open spec fn arg_next(raw: Seq<Raw>, cls: spec_fn(Seq<char>) -> Cls) -> (Option<Arg>, Seq<Raw>) decreases raw.len() {
	if raw.len() == 0 { (None, raw) }
	else {
		let rest = raw.drop_first();
		match raw[0] {
			Raw::Bad => (Some(Arg::Bad), rest),
			Raw::Text(s) =>
				if s.len() == 0 { arg_next(rest, cls) }
				else if s =~= seq!['-', '-'] { if rest.len() == 0 { (None, rest) } else { (Some(Arg::End), rest.take(0)) } }
				else {
					match word_of(s, cls) {
						None => (Some(Arg::Other(s)), rest),
						Some(n) => match cls(n) {
							Cls::Command => (Some(Arg::Command(n)), rest),
							Cls::Key => (Some(Arg::Key(n)), rest),
							_ =>
								if n =~= s {
									if rest.len() == 0 { (None, rest) }
									else { match rest[0] { Raw::Text(v) => (Some(Arg::Val(n, v)), rest.drop_first()), Raw::Bad => (Some(Arg::Bad), rest.drop_first()) } }
								}
								else { (Some(Arg::Val(n, attached(s, n))), rest) },
						},
					}
				},
		}
	}
}
pub proof fn lemma_next(raw: Seq<Raw>, cls: spec_fn(Seq<char>) -> Cls)
	ensures arg_next(raw, cls).1.len() <= raw.len(), arg_next(raw, cls).0 is Some ==> arg_next(raw, cls).1.len() < raw.len(),
	decreases raw.len()
{
	if raw.len() > 0 { lemma_next(raw.drop_first(), cls); }
}
/// What is found has its class.
pub proof fn lemma_next_cls(raw: Seq<Raw>, cls: spec_fn(Seq<char>) -> Cls)
	ensures match arg_next(raw, cls).0 { Some(Arg::Command(k)) => cls(k) is Command, Some(Arg::Key(k)) => cls(k) is Key, Some(Arg::Val(k, _)) => cls(k) is Val, _ => true }
	decreases raw.len()
{
	if raw.len() > 0 { lemma_next_cls(raw.drop_first(), cls); }
}
/// All arguments, as parsed.
pub open spec fn args_of(raw: Seq<Raw>, cls: spec_fn(Seq<char>) -> Cls) -> Seq<Arg> decreases raw.len() via args_of_dec {
	let (a, rest) = arg_next(raw, cls);
	if a is None { seq![] } else { seq![a->0] + args_of(rest, cls) }
}
#[via_fn]
proof fn args_of_dec(raw: Seq<Raw>, cls: spec_fn(Seq<char>) -> Cls) { lemma_next(raw, cls); }

pub open spec fn isd(b: u8) -> bool { 48 <= b <= 57 }
/// Decimal digits.
pub open spec fn value(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (value(s.drop_last()) * 10 + (s.last() - 48)) as nat } }
/// A number of at most `max`, of digits only.
pub open spec fn number(s: Seq<u8>, max: nat) -> Option<nat> {
	if s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> isd(#[trigger] s[i])) && value(s) <= max { Some(value(s)) } else { None }
}
}
/// Trusted: std::ffi::OsString.
#[verifier::external_body]
pub struct VxOsString { x: u8 }
/// Trusted: std::env::ArgsOs.
#[verifier::external_body]
pub struct VxArgsOs { x: u8 }
impl VxArgsOs {
	pub uninterp spec fn raw(&self) -> Seq<Raw>;
	#[verifier::external_body]
	pub fn skip(self, n: usize) -> (r: Self) ensures r.raw() == (if n <= self.raw().len() { self.raw().skip(n as int) } else { self.raw().take(0) }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_args_os() -> (r: VxArgsOs) ensures r.raw() == argv() { unimplemented!() }
/// argyle::Argument, argyle::KeyWord.
pub enum Argument { Command(&'static str), Key(&'static str), KeyWithValue(&'static str, String), Other(String), InvalidUtf8(VxOsString), End(Vec<VxOsString>) }
pub enum KeyWord { Command(&'static str), Key(&'static str), KeyWithValue(&'static str) }
pub open spec fn arg(a: Argument) -> Arg {
	match a {
		Argument::Command(k) => Arg::Command(k@), Argument::Key(k) => Arg::Key(k@), Argument::KeyWithValue(k, v) => Arg::Val(k@, v@),
		Argument::Other(s) => Arg::Other(s@), Argument::InvalidUtf8(_) => Arg::Bad, Argument::End(_) => Arg::End,
	}
}
/// The class of `s` among the keywords; a later one replaces an earlier.
pub open spec fn cls_at(k: Seq<KeyWord>, s: Seq<char>, n: int) -> Cls decreases n {
	if n <= 0 || n > k.len() { Cls::No }
	else { match k[n - 1] {
		KeyWord::Command(w) => if w@ == s { Cls::Command } else { cls_at(k, s, n - 1) },
		KeyWord::Key(w) => if w@ == s { Cls::Key } else { cls_at(k, s, n - 1) },
		KeyWord::KeyWithValue(w) => if w@ == s { Cls::Val } else { cls_at(k, s, n - 1) },
	} }
}
/// Trusted: argyle::Argue.
#[verifier::external_body]
pub struct VxArgue { x: u8 }
impl VxIter for VxArgue {}
impl VxArgue {
	pub uninterp spec fn raw(&self) -> Seq<Raw>;
	pub uninterp spec fn cls(&self) -> spec_fn(Seq<char>) -> Cls;
	#[verifier::external_body]
	pub fn from(a: VxArgsOs) -> (r: Self) ensures r.raw() == a.raw() { unimplemented!() }
	/// (On a fresh parser.)
	#[verifier::external_body]
	pub fn with_keywords<const N: usize>(self, k: [KeyWord; N]) -> (r: Self) ensures r.raw() == self.raw(), forall|s: Seq<char>| #[trigger] r.cls()(s) == cls_at(k@, s, N as int) { unimplemented!() }
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<Argument>)
		ensures
			final(self).cls() == old(self).cls(),
			final(self).raw() == arg_next(old(self).raw(), old(self).cls()).1,
			r is None <==> arg_next(old(self).raw(), old(self).cls()).0 is None,
			r is Some ==> arg_next(old(self).raw(), old(self).cls()).0 == Some(arg(r->0)),
			// (lemma_next)
			r is Some ==> final(self).raw().len() < old(self).raw().len(),
	{ unimplemented!() }
}
#[verifier::external_body]
pub fn vx_argyle_args() -> (r: VxArgue) ensures r.raw() == (if argv().len() > 0 { argv().skip(1) } else { argv().take(0) }) { unimplemented!() }
/// Trusted: std::process::ExitCode.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VxExit { pub code: u8 }
impl VxExit {
	pub const SUCCESS: VxExit = VxExit { code: 0 };
	pub const FAILURE: VxExit = VxExit { code: 1 };
	pub fn from(c: u8) -> (r: Self) ensures r.code == c { VxExit { code: c } }
}
pub trait VxIntoExit { fn vx_into(self) -> VxExit; }
impl VxIntoExit for u8 { fn vx_into(self) -> (r: VxExit) ensures r.code == self { VxExit { code: self } } }
/// Trusted: std::num::NonZeroUsize.
#[verifier::external_body]
pub exec const VX_NZ_MIN: NonZeroUsize ensures VX_NZ_MIN@ == 1 { NonZeroUsize::MIN }
#[verifier::external_body]
pub fn vx_nz_max(a: NonZeroUsize, b: NonZeroUsize) -> (r: NonZeroUsize) ensures r@ == (if a@ >= b@ { a@ } else { b@ }) { a.max(b) }
#[verifier::external_body]
pub fn vx_btou_nz(s: &[u8]) -> (r: Option<NonZeroUsize>)
	ensures
		r is Some <==> (number(s@, usize::MAX as nat) is Some && number(s@, usize::MAX as nat)->0 > 0),
		r is Some ==> r->0@ == number(s@, usize::MAX as nat)->0,
{ unimplemented!() }
pub fn vx_u8_from(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }
/// Trusted: dactyl::traits::BytesToUnsigned.
#[verifier::external_body]
pub fn vx_btou_u8(s: &[u8]) -> (r: Option<u8>)
	ensures r is Some <==> number(s@, 255) is Some, r is Some ==> r->0 as nat == number(s@, 255)->0,
{ unimplemented!() }
pub trait VxText { spec fn tview(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.tview()); fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == times(self.tview(), n as nat); }
impl VxText for str {
	open spec fn tview(&self) -> Seq<char> { self@ }
	#[verifier::external_body]
	fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
	#[verifier::external_body]
	fn vx_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
}
pub open spec fn times(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { times(s, (n - 1) as nat) + s } }
/// Trusted: formatted text.
#[verifier::external_body]
pub struct VxFmt { x: String }
pub trait VxShow { spec fn shows(&self, s: Seq<char>) -> bool; }
impl VxShow for String { open spec fn shows(&self, s: Seq<char>) -> bool { s == self@ } }
impl VxShow for &'static str { open spec fn shows(&self, s: Seq<char>) -> bool { s == self@ } }
impl VxFmt {
	pub uninterp spec fn view(&self) -> Seq<char>;
	#[verifier::external_body]
	pub fn new() -> (r: Self) ensures r.view() == Seq::<char>::empty() { unimplemented!() }
	#[verifier::external_body]
	pub fn lit(self, s: &str) -> (r: Self) ensures r.view() == self.view() + s@ { unimplemented!() }
	#[verifier::external_body]
	pub fn arg<T: VxShow>(self, x: &T) -> (r: Self) ensures exists|s: Seq<char>| #[trigger] x.shows(s) && r.view() == self.view() + s { unimplemented!() }
}
/// Trusted: print!. Standard output is flushed up to the last line break.
#[verifier::external_body]
pub fn vx_print(s: VxFmt, Tracked(w): Tracked<&mut World>)
	ensures
		final(w).up() == old(w).up(),
		s.view().len() > 0 && s.view().last() == '\n' ==> wrote(old(w), final(w), false, encode_utf8(s.view())),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_eprint(s: VxFmt, Tracked(w): Tracked<&mut World>)
	ensures wrote(old(w), final(w), true, encode_utf8(s.view())),
{ unimplemented!() }
@end
@item enum Flags #[derive(Clone, Copy, PartialEq, Eq, Structural)] #[repr(u8)]
@item struct Settings #[derive(Clone, Copy)]
@item enum FyiError #[derive(Clone, Copy)]
@fn Flags::from_u8
+props C14
+ret r
+sig
requires num < 16,
ensures r as u8 == num,
@fn Flags::contains
+props C14
+ret r
+sig
ensures r == (((self as u8) & (other as u8)) == other as u8),
@fn Flags::with
+props C14
+path Self::from_u8 Flags::from_u8
+ret r
+sig
ensures r as u8 == (self as u8) | (other as u8),
+begin
proof { lemma_flag_or(self as u8, other as u8); }
@fn Flags::set
+props C14
+sig
ensures (*final(self)) as u8 == ((*old(self)) as u8) | (other as u8),
@raw
pub proof fn lemma_flag_or(a: u8, b: u8)
	requires a < 16, b < 16
	ensures (a | b) < 16
{ assert((a | b) < 16) by (bit_vector) requires a < 16, b < 16; }
@end
@raw
/// The arguments after the subcommand.
pub open spec fn tail_args() -> Seq<Raw> { if argv().len() >= 2 { argv().skip(2) } else { argv().take(0) } }
pub open spec fn help_key(k: Seq<char>) -> bool { k == "-h"@ || k == "--help"@ }
/// The options of a message.
pub open spec fn mkey(k: Seq<char>) -> bool { help_key(k) || k == "-i"@ || k == "--indent"@ || k == "--stderr"@ || k == "-t"@ || k == "--timestamp"@ || k == "-y"@ || k == "--yes"@ }
pub open spec fn mval(k: Seq<char>) -> bool { k == "-c"@ || k == "--prefix-color"@ || k == "-e"@ || k == "--exit"@ || k == "-p"@ || k == "--prefix"@ }
pub open spec fn mcls() -> spec_fn(Seq<char>) -> Cls { |k: Seq<char>| if mkey(k) { Cls::Key } else if mval(k) { Cls::Val } else { Cls::No } }
/// The options of the blank subcommand.
pub open spec fn bkey(k: Seq<char>) -> bool { help_key(k) || k == "--stderr"@ }
pub open spec fn bval(k: Seq<char>) -> bool { k == "-c"@ || k == "--count"@ }
pub open spec fn bcls() -> spec_fn(Seq<char>) -> Cls { |k: Seq<char>| if bkey(k) { Cls::Key } else if bval(k) { Cls::Val } else { Cls::No } }
/// What was asked for.
pub ghost struct Ask { pub msg: Option<Seq<char>>, pub prefix: Seq<char>, pub color: int, pub indent: bool, pub stderr: bool, pub stamp: bool, pub yes: bool, pub exit: int }
pub ghost enum Parse { Help, Bad, Done(Ask) }
pub open spec fn num_of(v: Seq<char>, max: nat) -> Option<nat> { number(encode_utf8(strim(v)), max) }
/// The arguments of a message, folded.
pub open spec fn asked(a: Seq<Arg>, s: Ask) -> Parse decreases a.len() {
	if a.len() == 0 { Parse::Done(s) }
	else {
		let t = a.drop_first();
		match a[0] {
			Arg::Key(k) =>
				if help_key(k) { Parse::Help }
				else if k == "-i"@ || k == "--indent"@ { asked(t, Ask { indent: true, ..s }) }
				else if k == "--stderr"@ { asked(t, Ask { stderr: true, ..s }) }
				else if k == "-t"@ || k == "--timestamp"@ { asked(t, Ask { stamp: true, ..s }) }
				else if k == "-y"@ || k == "--yes"@ { asked(t, Ask { yes: true, ..s }) }
				else { Parse::Bad },
			Arg::Val(k, v) =>
				if k == "-c"@ || k == "--prefix-color"@ { asked(t, if num_of(v, 255) is Some { Ask { color: num_of(v, 255)->0 as int, ..s } } else { s }) }
				else if k == "-e"@ || k == "--exit"@ { asked(t, if num_of(v, 255) is Some { Ask { exit: num_of(v, 255)->0 as int, ..s } } else { s }) }
				else if k == "-p"@ || k == "--prefix"@ { asked(t, Ask { prefix: v, ..s }) }
				else { Parse::Bad },
			Arg::Other(x) => if s.msg is None { asked(t, Ask { msg: Some(x), ..s }) } else { Parse::Bad },
			Arg::End => asked(t, s),
			_ => Parse::Bad,
		}
	}
}
pub open spec fn ask0() -> Ask { Ask { msg: None, prefix: seq![], color: 199, indent: false, stderr: false, stamp: false, yes: false, exit: 0 } }
pub open spec fn fl(f: Flags, g: Flags) -> bool { (f as u8) & (g as u8) == g as u8 }
pub open spec fn ask_of(msg: Option<String>, prefix: String, color: u8, s: Settings) -> Ask {
	Ask { msg: match msg { Some(m) => Some(m@), None => None }, prefix: prefix@, color: color as int, indent: fl(s.flags, Flags::Indent), stderr: fl(s.flags, Flags::Stderr), stamp: fl(s.flags, Flags::Timestamp), yes: fl(s.flags, Flags::Yes), exit: s.exit.code as int }
}
/// The message asked for.
pub open spec fn made(m: &Msg, kind: MsgKind, a: Ask) -> bool {
	let p = m.parts();
	let stamp = p[TocId::Timestamp as int];
	&&& m.wf()
	&&& a.msg is Some
	&&& p == newparts(p.len(), if kind is Custom { colored(a.color, a.prefix) } else { kprefix(kind) }, a.msg->0, seq!['\n']).update(TocId::Indent as int, spaces(if a.indent { 1 } else { 0 })).update(TocId::Timestamp as int, stamp)
	&&& !a.stamp ==> stamp == Seq::<char>::empty()
	&&& a.stamp ==> is_stamp(stamp)
}
pub open spec fn parsed(kind: MsgKind, r: Result<(Msg, Settings), FyiError>) -> bool {
	match asked(args_of(tail_args(), mcls()), ask0()) {
		Parse::Help => r is Err && r->Err_0 == FyiError::PrintHelp(kind),
		Parse::Bad => r is Err && r->Err_0 == FyiError::InvalidCli(kind),
		Parse::Done(a) =>
			if a.msg is None { r is Err && r->Err_0 is NoMessage }
			else { r is Ok && made(&(r->Ok_0).0, kind, a) && fits((r->Ok_0).1, a) },
	}
}
/// The remaining settings.
pub open spec fn fits(s: Settings, a: Ask) -> bool { fl(s.flags, Flags::Stderr) == a.stderr && fl(s.flags, Flags::Yes) == a.yes && s.exit.code == a.exit }
/// The literals differ (by length, or by a letter).
pub proof fn lemma_lits()
	ensures
		"-h"@.len() == 2, "-h"@[0] == '-', "-h"@[1] == 'h',
		"--help"@.len() == 6, "--help"@[0] == '-', "--help"@[1] == '-', "--help"@[2] == 'h',
		"-i"@.len() == 2, "-i"@[0] == '-', "-i"@[1] == 'i',
		"--indent"@.len() == 8, "--indent"@[0] == '-', "--indent"@[1] == '-', "--indent"@[2] == 'i',
		"--stderr"@.len() == 8, "--stderr"@[0] == '-', "--stderr"@[1] == '-', "--stderr"@[2] == 's',
		"-t"@.len() == 2, "-t"@[0] == '-', "-t"@[1] == 't',
		"--timestamp"@.len() == 11, "--timestamp"@[0] == '-', "--timestamp"@[1] == '-', "--timestamp"@[2] == 't',
		"-y"@.len() == 2, "-y"@[0] == '-', "-y"@[1] == 'y',
		"--yes"@.len() == 5, "--yes"@[0] == '-', "--yes"@[1] == '-', "--yes"@[2] == 'y',
		"-c"@.len() == 2, "-c"@[0] == '-', "-c"@[1] == 'c',
		"--prefix-color"@.len() == 14, "--prefix-color"@[0] == '-', "--prefix-color"@[1] == '-', "--prefix-color"@[2] == 'p',
		"-e"@.len() == 2, "-e"@[0] == '-', "-e"@[1] == 'e',
		"--exit"@.len() == 6, "--exit"@[0] == '-', "--exit"@[1] == '-', "--exit"@[2] == 'e',
		"-p"@.len() == 2, "-p"@[0] == '-', "-p"@[1] == 'p',
		"--prefix"@.len() == 8, "--prefix"@[0] == '-', "--prefix"@[1] == '-', "--prefix"@[2] == 'p',
		"--count"@.len() == 7, "--count"@[0] == '-', "--count"@[1] == '-', "--count"@[2] == 'c',
		"-V"@.len() == 2, "-V"@[0] == '-', "-V"@[1] == 'V',
		"--version"@.len() == 9, "--version"@[0] == '-', "--version"@[1] == '-', "--version"@[2] == 'v',
{
	reveal_strlit("-h");
	reveal_strlit("--help");
	reveal_strlit("-i");
	reveal_strlit("--indent");
	reveal_strlit("--stderr");
	reveal_strlit("-t");
	reveal_strlit("--timestamp");
	reveal_strlit("-y");
	reveal_strlit("--yes");
	reveal_strlit("-c");
	reveal_strlit("--prefix-color");
	reveal_strlit("-e");
	reveal_strlit("--exit");
	reveal_strlit("-p");
	reveal_strlit("--prefix");
	reveal_strlit("--count");
	reveal_strlit("-V");
	reveal_strlit("--version");
}
pub proof fn lemma_flags(f: u8)
	ensures
		forall|f: u8| (#[trigger] (f | 1u8)) & 1u8 == 1u8 && (f | 1u8) & 2u8 == f & 2u8 && (f | 1u8) & 4u8 == f & 4u8 && (f | 1u8) & 8u8 == f & 8u8,
		forall|f: u8| (#[trigger] (f | 2u8)) & 2u8 == 2u8 && (f | 2u8) & 1u8 == f & 1u8 && (f | 2u8) & 4u8 == f & 4u8 && (f | 2u8) & 8u8 == f & 8u8,
		forall|f: u8| (#[trigger] (f | 4u8)) & 4u8 == 4u8 && (f | 4u8) & 1u8 == f & 1u8 && (f | 4u8) & 2u8 == f & 2u8 && (f | 4u8) & 8u8 == f & 8u8,
		forall|f: u8| (#[trigger] (f | 8u8)) & 8u8 == 8u8 && (f | 8u8) & 1u8 == f & 1u8 && (f | 8u8) & 2u8 == f & 2u8 && (f | 8u8) & 4u8 == f & 4u8,
		0u8 & 1u8 == 0u8, 0u8 & 2u8 == 0u8, 0u8 & 4u8 == 0u8, 0u8 & 8u8 == 0u8,
{
	assert(forall|f: u8| (#[trigger] (f | 1u8)) & 1u8 == 1u8 && (f | 1u8) & 2u8 == f & 2u8 && (f | 1u8) & 4u8 == f & 4u8 && (f | 1u8) & 8u8 == f & 8u8) by (bit_vector);
	assert(forall|f: u8| (#[trigger] (f | 2u8)) & 2u8 == 2u8 && (f | 2u8) & 1u8 == f & 1u8 && (f | 2u8) & 4u8 == f & 4u8 && (f | 2u8) & 8u8 == f & 8u8) by (bit_vector);
	assert(forall|f: u8| (#[trigger] (f | 4u8)) & 4u8 == 4u8 && (f | 4u8) & 1u8 == f & 1u8 && (f | 4u8) & 2u8 == f & 2u8 && (f | 4u8) & 8u8 == f & 8u8) by (bit_vector);
	assert(forall|f: u8| (#[trigger] (f | 8u8)) & 8u8 == 8u8 && (f | 8u8) & 1u8 == f & 1u8 && (f | 8u8) & 2u8 == f & 2u8 && (f | 8u8) & 4u8 == f & 4u8) by (bit_vector);
	assert(0u8 & 1u8 == 0u8 && 0u8 & 2u8 == 0u8 && 0u8 & 4u8 == 0u8 && 0u8 & 8u8 == 0u8) by (bit_vector);
}
/// One argument more.
pub broadcast proof fn lemma_args_of(raw: Seq<Raw>, cls: spec_fn(Seq<char>) -> Cls)
	ensures
		arg_next(raw, cls).0 is None ==> #[trigger] args_of(raw, cls) == Seq::<Arg>::empty(),
		arg_next(raw, cls).0 is Some ==> args_of(raw, cls).len() > 0 && args_of(raw, cls)[0] == arg_next(raw, cls).0->0 && args_of(raw, cls).drop_first() == args_of(arg_next(raw, cls).1, cls),
{
	let (a, rest) = arg_next(raw, cls);
	if a is Some { assert(args_of(raw, cls).drop_first() =~= args_of(rest, cls)); }
}
@end
@fn Settings::new
+props C14
+ret r
+sig
ensures r.flags is None, r.exit.code == 0,
@fn Settings::indent
+props C14
+ret r
+sig
ensures r == fl(self.flags, Flags::Indent),
@fn Settings::stderr
+props C14
+ret r
+sig
ensures r == fl(self.flags, Flags::Stderr),
@fn Settings::timestamp
+props C14
+ret r
+sig
ensures r == fl(self.flags, Flags::Timestamp),
@fn Settings::yes
+props C14
+ret r
+sig
ensures r == fl(self.flags, Flags::Yes),
@fn Settings::exit
+props C14
+ret r
+sig
ensures
	self.exit.code == 0 ==> r is Ok,
	self.exit.code != 0 ==> r is Err && r->Err_0 == FyiError::Passthrough(self.exit),
@fn parse_msg
+props C14
+ret r
+sig
ensures parsed(kind, r),
+begin
let ghost mut vx_r = tail_args();
proof { lemma_lits(); lemma_flags(0); }
+after with_keywords#0
proof {
	reveal_with_fuel(cls_at, 18);
	assert forall|k: Seq<char>| #[trigger] (args.cls())(k) == mcls()(k) by {}
	assert(args.cls() =~= mcls());
	lemma_args_of(tail_args(), mcls());
}
+loop 0
invariant_except_break
	vx_r == vx_it0.raw(), arg_next(vx_r, mcls()).0 is None ==> args_of(vx_r, mcls()) == Seq::<Arg>::empty(),
	vx_it0.cls() == mcls(),
	asked(args_of(vx_it0.raw(), mcls()), ask_of(msg, prefix, color, flags)) == asked(args_of(tail_args(), mcls()), ask0()),
invariant (flags.flags as u8) < 16,
ensures asked(args_of(tail_args(), mcls()), ask0()) == Parse::Done(ask_of(msg, prefix, color, flags)),
decreases vx_it0.raw().len(),
+loopbegin 0
proof { lemma_lits(); lemma_flags(0); lemma_args_of(vx_r, mcls()); lemma_args_of(vx_it0.raw(), mcls()); vx_r = vx_it0.raw(); }
+end
proof {
	if vx_ret is Ok {
		let m = (vx_ret->Ok_0).0;
		let a = asked(args_of(tail_args(), mcls()), ask0())->Done_0;
		let p = m.parts();
		let stamp = p[TocId::Timestamp as int];
		assert(p.len() == TocId::Newline as int + 1);
		assert(p =~= newparts(p.len(), if kind is Custom { colored(a.color, a.prefix) } else { kprefix(kind) }, a.msg->0, seq!['\n']).update(TocId::Indent as int, spaces(if a.indent { 1 } else { 0 })).update(TocId::Timestamp as int, stamp));
	}
}
@raw
/// The arguments of the blank subcommand, folded: how many line breaks, and where to.
pub ghost enum Blank { Help, Done(bool, int) }
pub open spec fn lines(a: Seq<Arg>, err: bool, n: int) -> Blank decreases a.len() {
	if a.len() == 0 { Blank::Done(err, n) }
	else {
		let t = a.drop_first();
		match a[0] {
			Arg::Key(k) =>
				if help_key(k) { Blank::Help }
				else if k == "--stderr"@ { lines(t, true, n) }
				else { lines(t, err, n) },
			Arg::Val(k, v) =>
				if (k == "-c"@ || k == "--count"@) && num_of(v, usize::MAX as nat) is Some && num_of(v, usize::MAX as nat)->0 > n { lines(t, err, num_of(v, usize::MAX as nat)->0 as int) }
				else { lines(t, err, n) },
			_ => lines(t, err, n),
		}
	}
}
pub open spec fn breaks(n: nat) -> Seq<char> { Seq::new(n, |i: int| '\n') }
pub proof fn lemma_breaks(n: nat)
	ensures times("\n"@, n) == breaks(n)
	decreases n
{
	reveal_strlit("\n");
	if n > 0 { lemma_breaks((n - 1) as nat); assert(times("\n"@, n) =~= breaks(n)); }
	else { assert(times("\n"@, n) =~= breaks(n)); }
}
/// Nothing was written or read.
pub open spec fn still(w0: &World, w1: &World) -> bool { w1.up() == w0.up() && w1.log() == w0.log() && w1.pend(true) == w0.pend(true) && w1.pend(false) == w0.pend(false) }
pub open spec fn blanked(w0: &World, w1: &World, r: Result<(), FyiError>) -> bool {
	match lines(args_of(tail_args(), bcls()), false, 1) {
		Blank::Help => r is Err && r->Err_0 == FyiError::PrintHelp(MsgKind::Blank) && still(w0, w1),
		Blank::Done(err, n) => r is Ok && n >= 1 && wrote(w0, w1, err, encode_utf8(breaks(n as nat))),
	}
}
/// The first argument.
pub open spec fn kcls() -> spec_fn(Seq<char>) -> Cls { |k: Seq<char>| if help_key(k) || k == "-V"@ || k == "--version"@ { Cls::Key } else if command(k) { Cls::Command } else { Cls::No } }
pub open spec fn command(k: Seq<char>) -> bool {
	k == "aborted"@ || k == "blank"@ || k == "confirm"@ || k == "crunched"@ || k == "debug"@ || k == "done"@ || k == "error"@ || k == "found"@
	|| k == "info"@ || k == "notice"@ || k == "print"@ || k == "review"@ || k == "skipped"@ || k == "success"@ || k == "task"@ || k == "warning"@
}
pub open spec fn first_arg() -> Option<Arg> { arg_next(if argv().len() > 0 { argv().skip(1) } else { argv().take(0) }, kcls()).0 }
pub proof fn lemma_enc_ascii(s: Seq<char>)
	requires forall|i: int| 0 <= i < s.len() ==> ascii(#[trigger] s[i])
	ensures encode_utf8(s) == abytes(s)
{
	lemma_blen_ascii(s); lemma_enc_len(s);
	assert forall|i: int| 0 <= i < s.len() implies encode_utf8(s)[i] == #[trigger] abytes(s)[i] by {
		lemma_bpos_take(s, i); lemma_blen_ascii(s.take(i));
		lemma_ascii_char(s, i);
	}
	assert(encode_utf8(s) =~= abytes(s));
}
/// The command words are what they are.
pub proof fn lemma_word(m: MsgKind)
	ensures kind_of(trim(encode_utf8(kword(m)))) == m
{
	lemma_enc_ascii(kword(m));
	thm_c15_words(m, seq![], seq![]);
	assert(seq![] + abytes(kword(m)) + seq![] =~= abytes(kword(m)));
}
pub proof fn lemma_words_lits()
	ensures
		"aborted"@ == kword(MsgKind::Aborted), "blank"@ == kword(MsgKind::Blank), "confirm"@ == kword(MsgKind::Confirm), "crunched"@ == kword(MsgKind::Crunched),
		"debug"@ == kword(MsgKind::Debug), "done"@ == kword(MsgKind::Done), "error"@ == kword(MsgKind::Error), "found"@ == kword(MsgKind::Found),
		"info"@ == kword(MsgKind::Info), "notice"@ == kword(MsgKind::Notice), "print"@ == kword(MsgKind::Custom), "review"@ == kword(MsgKind::Review),
		"skipped"@ == kword(MsgKind::Skipped), "success"@ == kword(MsgKind::Success), "task"@ == kword(MsgKind::Task), "warning"@ == kword(MsgKind::Warning),
{
	reveal_strlit("aborted"); reveal_strlit("blank"); reveal_strlit("confirm"); reveal_strlit("crunched"); reveal_strlit("debug"); reveal_strlit("done"); reveal_strlit("error"); reveal_strlit("found");
	reveal_strlit("info"); reveal_strlit("notice"); reveal_strlit("print"); reveal_strlit("review"); reveal_strlit("skipped"); reveal_strlit("success"); reveal_strlit("task"); reveal_strlit("warning");
	assert("aborted"@ =~= kword(MsgKind::Aborted)); assert("blank"@ =~= kword(MsgKind::Blank)); assert("confirm"@ =~= kword(MsgKind::Confirm)); assert("crunched"@ =~= kword(MsgKind::Crunched));
	assert("debug"@ =~= kword(MsgKind::Debug)); assert("done"@ =~= kword(MsgKind::Done)); assert("error"@ =~= kword(MsgKind::Error)); assert("found"@ =~= kword(MsgKind::Found));
	assert("info"@ =~= kword(MsgKind::Info)); assert("notice"@ =~= kword(MsgKind::Notice)); assert("print"@ =~= kword(MsgKind::Custom)); assert("review"@ =~= kword(MsgKind::Review));
	assert("skipped"@ =~= kword(MsgKind::Skipped)); assert("success"@ =~= kword(MsgKind::Success)); assert("task"@ =~= kword(MsgKind::Task)); assert("warning"@ =~= kword(MsgKind::Warning));
}
/// C15: the commands are the words of the kinds.
pub proof fn thm_c15_commands(k: Seq<char>)
	ensures
		command(k) <==> k.len() > 0 && exists|m: MsgKind| kword(m) == k,
		command(k) ==> !(kind_of(trim(encode_utf8(k))) is None) && kword(kind_of(trim(encode_utf8(k)))) == k,
{
	lemma_words_lits();
	if k.len() > 0 && exists|m: MsgKind| kword(m) == k {
		let m = choose|m: MsgKind| kword(m) == k;
		assert(!(m is None));
	}
	if command(k) {
		let m = if k == "aborted"@ { MsgKind::Aborted } else if k == "blank"@ { MsgKind::Blank } else if k == "confirm"@ { MsgKind::Confirm } else if k == "crunched"@ { MsgKind::Crunched }
			else if k == "debug"@ { MsgKind::Debug } else if k == "done"@ { MsgKind::Done } else if k == "error"@ { MsgKind::Error } else if k == "found"@ { MsgKind::Found }
			else if k == "info"@ { MsgKind::Info } else if k == "notice"@ { MsgKind::Notice } else if k == "print"@ { MsgKind::Custom } else if k == "review"@ { MsgKind::Review }
			else if k == "skipped"@ { MsgKind::Skipped } else if k == "success"@ { MsgKind::Success } else if k == "task"@ { MsgKind::Task } else { MsgKind::Warning };
		assert(kword(m) == k);
		lemma_word(m);
	}
}
/// C15: a command word selects its kind; the version or the help screen is for all else.
pub open spec fn selected(r: Result<MsgKind, FyiError>) -> bool {
	match first_arg() {
		Some(Arg::Key(k)) => r is Err && r->Err_0 == (if k == "-V"@ || k == "--version"@ { FyiError::PrintVersion } else { FyiError::PrintHelp(MsgKind::None) }),
		Some(Arg::Command(s)) => r is Ok && kword(r->Ok_0) == s && !(r->Ok_0 is None),
		_ => r is Err && r->Err_0 == FyiError::PrintHelp(MsgKind::None),
	}
}
@end
@fn parse_blank
+props C14
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs _print Tracked(w)
+callargs _eprint Tracked(w)
+sig
ensures blanked(old(w), final(w), r),
+begin
proof { lemma_lits(); }
+after with_keywords#0
proof {
	reveal_with_fuel(cls_at, 18);
	assert forall|k: Seq<char>| #[trigger] (args.cls())(k) == bcls()(k) by {}
	assert(args.cls() =~= bcls());
}
+loop 0
invariant_except_break
	vx_it0.cls() == bcls(),
	lines(args_of(vx_it0.raw(), bcls()), stderr, count@ as int) == lines(args_of(tail_args(), bcls()), false, 1),
invariant still(old(w), w),
ensures lines(args_of(tail_args(), bcls()), false, 1) == Blank::Done(stderr, count@ as int),
decreases vx_it0.raw().len(),
+loopbegin 0
proof { lemma_lits(); broadcast use lemma_args_of; }
+before _print#0
proof { lemma_breaks(count@ as nat); }
+before _eprint#0
proof { lemma_breaks(count@ as nat); }
@fn parse_kind
+props C15 C14
+ret r
+sig
ensures selected(r),
+begin
proof { lemma_lits(); }
+after with_keywords#0
proof {
	reveal_with_fuel(cls_at, 22);
	lemma_next_cls(args.raw(), args.cls());
	assert forall|k: Seq<char>| #[trigger] (args.cls())(k) == kcls()(k) by { lemma_words_lits(); }
	assert(args.cls() =~= kcls());
	assert forall|k: Seq<char>| #[trigger] command(k) implies !(kind_of(trim(encode_utf8(k))) is None) && kword(kind_of(trim(encode_utf8(k)))) == k by { thm_c15_commands(k); }
}
@raw
/// The text of an error.
impl VxShow for FyiError {
	open spec fn shows(&self, s: Seq<char>) -> bool {
		match *self {
			FyiError::InvalidCli(_) | FyiError::NoMessage => s.len() > 0,
			FyiError::PrintVersion => s.len() > 5 && s.take(5) == "FYI v"@,
			FyiError::Passthrough(_) | FyiError::PrintHelp(_) => s.len() == 0,
		}
	}
}
impl<'a> VxFormatter<'a> {
	#[verifier::external_body]
	pub fn write_fmt(&mut self, s: VxFmt) -> (r: VxFmtResult) ensures final(self).plain() == old(self).plain(), r is Ok ==> old(self).ok() && final(self).out() == old(self).out() + s.view() { unimplemented!() }
}
/// Trusted: ToString writes what Display does (see the contract of fyi_fmt).
pub trait VxToString { spec fn prints(&self, s: Seq<char>) -> bool; fn vx_to_string(&self) -> (r: String) ensures self.prints(r@); }
impl VxToString for FyiError {
	open spec fn prints(&self, s: Seq<char>) -> bool { self.shows(s) }
	#[verifier::external_body]
	fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// Help, the version and such: something on standard output, no error.
pub open spec fn told(w0: &World, w1: &World) -> bool { exists|b: Seq<u8>| b.len() > 0 && #[trigger] wrote(w0, w1, false, b) }
/// Nothing on standard output, something on standard error.
pub open spec fn refused(w0: &World, w1: &World) -> bool { exists|b: Seq<u8>| b.len() > 0 && #[trigger] wrote(w0, w1, true, b) }
@end
@fn FyiError::as_str
+props C14 C15
+ret r
+sig
ensures self is InvalidCli || self.shows(r@),
+end
proof {
	reveal_strlit("FYI v");
	if self is PrintVersion { assert(vx_ret@.take(5) =~= "FYI v"@); }
}
@fn FyiError as Display::fmt
+free
+as fyi_fmt
+props C14 C15
+ret r
+sig
ensures r is Ok && old(f).plain() ==> exists|s: Seq<char>| #[trigger] vx_self.shows(s) && final(f).out() == old(f).out() + s,
+begin
let ghost vx_o = f.out();
+end
proof {
	let s = f.out().skip(vx_o.len() as int);
	if vx_ret is Ok && vx_self is InvalidCli { assert(f.out() =~= vx_o + s); assert(s.len() > 0); assert(vx_self.shows(s)); }
}
@fn helper
+props C14 C15
+params Tracked(w): Tracked<&mut World>
+callargs write_all Tracked(w)
+callargs flush Tracked(w)
+sig
requires old(w).up(),
ensures told(old(w), final(w)),
+begin
let ghost vx_w0 = *w;
+before flush#0
let ghost vx_b = w.pend(false).skip(vx_w0.pend(false).len() as int);
proof { assert(w.pend(false) =~= vx_w0.pend(false) + vx_b); assert(vx_b.len() > 0); }
+end
proof { assert(wrote(&vx_w0, w, false, vx_b)); }
@raw
/// The whole of a run: what was written, and the exit status.
pub open spec fn ran(w0: &World, w1: &World, code: int) -> bool {
	match first_arg() {
		Some(Arg::Command(s)) =>
			if s == kword(MsgKind::Blank) {
				match lines(args_of(tail_args(), bcls()), false, 1) {
					Blank::Help => code == 0 && told(w0, w1),
					Blank::Done(err, n) => code == 0 && n >= 1 && wrote(w0, w1, err, encode_utf8(breaks(n as nat))),
				}
			}
			else {
				match asked(args_of(tail_args(), mcls()), ask0()) {
					Parse::Help => code == 0 && told(w0, w1),
					Parse::Bad => code == 1 && refused(w0, w1),
					Parse::Done(a) =>
						if a.msg is None { code == 1 && refused(w0, w1) }
						else { exists|m: Msg, kind: MsgKind| kword(kind) == s && #[trigger] made(&m, kind, a) && (
							if kind is Confirm { prompted(w0, w1, &m, a.yes, false, code == 0) && (code == 0 || code == 1) }
							else { wrote(w0, w1, a.stderr, encode_utf8(m.text())) && code == a.exit }
						) },
				}
			},
		_ => code == 0 && told(w0, w1),
	}
}
/// What is left to do after the work.
pub open spec fn worked(w0: &World, w1: &World, r: Result<(), FyiError>) -> bool {
	match r {
		Ok(()) => ran(w0, w1, 0),
		Err(FyiError::Passthrough(e)) => ran(w0, w1, e.code as int),
		Err(FyiError::PrintHelp(_)) | Err(FyiError::PrintVersion) => still(w0, w1) && (forall|w: World| #[trigger] told(w0, &w) ==> ran(w0, &w, 0)),
		Err(_) => still(w0, w1) && (forall|w: World| #[trigger] refused(w0, &w) ==> ran(w0, &w, 1)),
	}
}
pub proof fn lemma_still(w0: &World, w2: &World)
	ensures forall|w1: World| #[trigger] still(w0, &w1) ==> {
		&&& told(&w1, w2) ==> told(w0, w2)
		&&& refused(&w1, w2) ==> refused(w0, w2)
		&&& forall|s: Seq<char>| s.len() > 0 && #[trigger] wrote(&w1, w2, false, encode_utf8(s)) ==> told(w0, w2)
		&&& forall|s: Seq<char>| s.len() > 0 && #[trigger] wrote(&w1, w2, true, encode_utf8(s)) ==> refused(w0, w2)
	}
{
	assert forall|w1: World| #[trigger] still(w0, &w1) implies {
		&&& told(&w1, w2) ==> told(w0, w2)
		&&& refused(&w1, w2) ==> refused(w0, w2)
		&&& forall|s: Seq<char>| s.len() > 0 && #[trigger] wrote(&w1, w2, false, encode_utf8(s)) ==> told(w0, w2)
		&&& forall|s: Seq<char>| s.len() > 0 && #[trigger] wrote(&w1, w2, true, encode_utf8(s)) ==> refused(w0, w2)
	} by {
		if told(&w1, w2) { let b = choose|b: Seq<u8>| b.len() > 0 && #[trigger] wrote(&w1, w2, false, b); assert(wrote(w0, w2, false, b)); }
		if refused(&w1, w2) { let b = choose|b: Seq<u8>| b.len() > 0 && #[trigger] wrote(&w1, w2, true, b); assert(wrote(w0, w2, true, b)); }
		assert forall|s: Seq<char>| s.len() > 0 && #[trigger] wrote(&w1, w2, false, encode_utf8(s)) implies told(w0, w2) by { lemma_blen_ge(s); lemma_enc_len(s); assert(wrote(w0, w2, false, encode_utf8(s))); }
		assert forall|s: Seq<char>| s.len() > 0 && #[trigger] wrote(&w1, w2, true, encode_utf8(s)) implies refused(w0, w2) by { lemma_blen_ge(s); lemma_enc_len(s); assert(wrote(w0, w2, true, encode_utf8(s))); }
	}
}
/// A message with a prefix is not empty.
pub broadcast proof fn lemma_text(m: &Msg)
	ensures m.wf() && m.parts()[TocId::Prefix as int].len() > 0 ==> #[trigger] m.text().len() > 0
{
	if m.wf() { reveal(parts); lemma_cuts(m.inner@, m.toc.0@); }
}
@end
@fn main__
+props C14 C15
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs parse_blank Tracked(w)
+callargs print Tracked(w)
+callargs eprint Tracked(w)
+callargs prompt_with_default Tracked(w)
+sig
requires old(w).up(),
ensures worked(old(w), final(w), r),
@fn main
+as fyi_main
+props C14 C15
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs main__ Tracked(w)
+callargs helper Tracked(w)
+callargs _print Tracked(w)
+callargs eprint Tracked(w)
+sig
requires old(w).up(),
ensures ran(old(w), final(w), r.code as int),
+begin
let ghost vx_w0 = *w;
proof { broadcast use lemma_text; lemma_kprefix(MsgKind::Error); }
+end
proof { lemma_still(&vx_w0, w); }
@raw
pub open spec fn indent_key(k: Seq<char>) -> bool { k == "-i"@ || k == "--indent"@ }
pub open spec fn stamp_key(k: Seq<char>) -> bool { k == "-t"@ || k == "--timestamp"@ }
pub open spec fn yes_key(k: Seq<char>) -> bool { k == "-y"@ || k == "--yes"@ }
pub open spec fn stderr_key(k: Seq<char>) -> bool { k == "--stderr"@ }
pub open spec fn color_key(k: Seq<char>) -> bool { k == "-c"@ || k == "--prefix-color"@ }
pub open spec fn exit_key(k: Seq<char>) -> bool { k == "-e"@ || k == "--exit"@ }
pub open spec fn prefix_key(k: Seq<char>) -> bool { k == "-p"@ || k == "--prefix"@ }
pub open spec fn f_help() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| help_key(k) }
pub open spec fn f_indent() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| indent_key(k) }
pub open spec fn f_stamp() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| stamp_key(k) }
pub open spec fn f_yes() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| yes_key(k) }
pub open spec fn f_stderr() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| stderr_key(k) }
pub open spec fn f_color() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| color_key(k) }
pub open spec fn f_exit() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| exit_key(k) }
pub open spec fn f_prefix() -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| prefix_key(k) }
/// Is a flag given?
pub open spec fn given(a: Seq<Arg>, f: spec_fn(Seq<char>) -> bool) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] a[i] is Key && f(a[i]->Key_0) }
/// The last usable number of an option, or `d`.
pub open spec fn last_num(a: Seq<Arg>, f: spec_fn(Seq<char>) -> bool, d: int) -> int decreases a.len() {
	if a.len() == 0 { d }
	else if a.last() is Val && f(a.last()->Val_0) && num_of(a.last()->Val_1, 255) is Some { num_of(a.last()->Val_1, 255)->0 as int }
	else { last_num(a.drop_last(), f, d) }
}
/// The last value of an option, or `d`.
pub open spec fn last_val(a: Seq<Arg>, f: spec_fn(Seq<char>) -> bool, d: Seq<char>) -> Seq<char> decreases a.len() {
	if a.len() == 0 { d }
	else if a.last() is Val && f(a.last()->Val_0) { a.last()->Val_1 }
	else { last_val(a.drop_last(), f, d) }
}
pub proof fn lemma_last_num(a: Seq<Arg>, f: spec_fn(Seq<char>) -> bool, d: int)
	requires a.len() > 0
	ensures last_num(a, f, d) == last_num(a.drop_first(), f, if a[0] is Val && f(a[0]->Val_0) && num_of(a[0]->Val_1, 255) is Some { num_of(a[0]->Val_1, 255)->0 as int } else { d })
	decreases a.len()
{
	if a.len() > 1 {
		assert(a.drop_first().drop_last() =~= a.drop_last().drop_first());
		assert(a.drop_first().last() == a.last());
		assert(a.drop_last()[0] == a[0]);
		lemma_last_num(a.drop_last(), f, d);
	} else { assert(a.drop_last().len() == 0); assert(last_num(a.drop_last(), f, d) == d); assert(a.last() == a[0]); }
}
pub proof fn lemma_last_val(a: Seq<Arg>, f: spec_fn(Seq<char>) -> bool, d: Seq<char>)
	requires a.len() > 0
	ensures last_val(a, f, d) == last_val(a.drop_first(), f, if a[0] is Val && f(a[0]->Val_0) { a[0]->Val_1 } else { d })
	decreases a.len()
{
	if a.len() > 1 {
		assert(a.drop_first().drop_last() =~= a.drop_last().drop_first());
		assert(a.drop_first().last() == a.last());
		assert(a.drop_last()[0] == a[0]);
		lemma_last_val(a.drop_last(), f, d);
	} else { assert(a.drop_last().len() == 0); assert(last_val(a.drop_last(), f, d) == d); assert(a.last() == a[0]); }
}
pub proof fn lemma_given(a: Seq<Arg>, f: spec_fn(Seq<char>) -> bool)
	requires a.len() > 0
	ensures given(a, f) <==> (a[0] is Key && f(a[0]->Key_0)) || given(a.drop_first(), f)
{
	let t = a.drop_first();
	if given(a, f) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] is Key && f(a[i]->Key_0); if i > 0 { assert(t[i - 1] == a[i]); } }
	if given(t, f) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] is Key && f(t[i]->Key_0); assert(a[i + 1] == t[i]); }
}
/// C14: what is asked for is what the arguments say, in whatever order.
pub proof fn thm_c14_settings(a: Seq<Arg>, s: Ask)
	requires asked(a, s) is Done
	ensures ({
		let r = asked(a, s)->Done_0;
		&&& r.indent == (s.indent || given(a, f_indent()))
		&&& r.stderr == (s.stderr || given(a, f_stderr()))
		&&& r.stamp == (s.stamp || given(a, f_stamp()))
		&&& r.yes == (s.yes || given(a, f_yes()))
		&&& r.exit == last_num(a, f_exit(), s.exit)
		&&& r.color == last_num(a, f_color(), s.color)
		&&& r.prefix == last_val(a, f_prefix(), s.prefix)
		&&& !given(a, f_help())
	})
	decreases a.len()
{
	let t = a.drop_first();
	lemma_lits();
	if a.len() > 0 {
		lemma_given(a, f_indent()); lemma_given(a, f_stderr()); lemma_given(a, f_stamp()); lemma_given(a, f_yes()); lemma_given(a, f_help());
		lemma_last_num(a, f_exit(), s.exit); lemma_last_num(a, f_color(), s.color); lemma_last_val(a, f_prefix(), s.prefix);
		let n = step(a[0], s);
		assert(asked(a, s) == asked(t, n));
		thm_c14_settings(t, n);
	}
}
/// The settings after one more argument.
pub open spec fn step(x: Arg, s: Ask) -> Ask {
	match x {
		Arg::Key(k) => if indent_key(k) { Ask { indent: true, ..s } } else if stderr_key(k) { Ask { stderr: true, ..s } } else if stamp_key(k) { Ask { stamp: true, ..s } } else { Ask { yes: true, ..s } },
		Arg::Val(k, v) =>
			if color_key(k) { if num_of(v, 255) is Some { Ask { color: num_of(v, 255)->0 as int, ..s } } else { s } }
			else if exit_key(k) { if num_of(v, 255) is Some { Ask { exit: num_of(v, 255)->0 as int, ..s } } else { s } }
			else { Ask { prefix: v, ..s } },
		Arg::Other(m) => Ask { msg: Some(m), ..s },
		_ => s,
	}
}
/// C14: one message, and no argument that is not understood; or else help or an error, whatever comes first.
pub proof fn thm_c14_message(a: Seq<Arg>, s: Ask)
	ensures match asked(a, s) {
		Parse::Done(r) => {
			&&& forall|i: int| 0 <= i < a.len() ==> !(#[trigger] a[i] is Bad) && !(a[i] is Command) && (a[i] is Other ==> s.msg is None && r.msg == Some(a[i]->Other_0))
			&&& forall|i: int, j: int| 0 <= i < j < a.len() ==> !(#[trigger] a[i] is Other && #[trigger] a[j] is Other)
			&&& (forall|i: int| 0 <= i < a.len() ==> !(#[trigger] a[i] is Other)) ==> r.msg == s.msg
		},
		Parse::Help => exists|i: int| 0 <= i < a.len() && #[trigger] a[i] is Key && help_key(a[i]->Key_0) && asked(a.take(i), s) is Done,
		Parse::Bad => exists|i: int| 0 <= i < a.len() && #[trigger] asked(a.take(i), s) is Done && (a[i] is Bad || a[i] is Command || (a[i] is Other && (asked(a.take(i), s)->Done_0).msg is Some)
			|| (a[i] is Key && !mkey(a[i]->Key_0)) || (a[i] is Val && !mval(a[i]->Val_0))),
	}
	decreases a.len()
{
	lemma_lits();
	let t = a.drop_first();
	if a.len() > 0 {
		assert(a.take(0) =~= seq![]);
		assert(asked(a.take(0), s) == Parse::Done(s));
		let stop = match a[0] { Arg::Key(k) => help_key(k) || !mkey(k), Arg::Val(k, v) => !mval(k), Arg::Other(x) => s.msg is Some, Arg::End => false, _ => true };
		if !stop {
			let n = step(a[0], s);
			assert(asked(a, s) == asked(t, n));
			thm_c14_message(t, n);
			assert forall|i: int| 0 <= i < t.len() implies asked(#[trigger] t.take(i), n) == asked(a.take(i + 1), s) by {
				assert(a.take(i + 1).drop_first() =~= t.take(i));
				assert(a.take(i + 1)[0] == a[0]);
			}
			match asked(t, n) {
				Parse::Done(r) => {
					assert forall|i: int| 0 <= i < a.len() implies !(#[trigger] a[i] is Bad) && !(a[i] is Command) && (a[i] is Other ==> s.msg is None && r.msg == Some(a[i]->Other_0)) by {
						if i > 0 { assert(a[i] == t[i - 1]); }
						else if a[0] is Other { assert(n.msg is Some); assert(forall|i: int| 0 <= i < t.len() ==> !(#[trigger] t[i] is Other)); }
					}
					assert forall|i: int, j: int| 0 <= i < j < a.len() implies !(#[trigger] a[i] is Other && #[trigger] a[j] is Other) by {
						assert(a[j] == t[j - 1]);
						if i > 0 { assert(a[i] == t[i - 1]); }
					}
					if forall|i: int| 0 <= i < a.len() ==> !(#[trigger] a[i] is Other) {
						assert(!(a[0] is Other));
						assert forall|i: int| 0 <= i < t.len() implies !(#[trigger] t[i] is Other) by { assert(t[i] == a[i + 1]); }
					}
				},
				Parse::Help => {
					let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] is Key && help_key(t[i]->Key_0) && asked(t.take(i), n) is Done;
					assert(a[i + 1] == t[i]);
				},
				Parse::Bad => {
					let i = choose|i: int| 0 <= i < t.len() && #[trigger] asked(t.take(i), n) is Done && (t[i] is Bad || t[i] is Command || (t[i] is Other && (asked(t.take(i), n)->Done_0).msg is Some)
						|| (t[i] is Key && !mkey(t[i]->Key_0)) || (t[i] is Val && !mval(t[i]->Val_0)));
					assert(a[i + 1] == t[i]);
					assert(asked(a.take(i + 1), s) is Done);
				},
			}
		} else {
			if asked(a, s) is Help { assert(a[0] is Key && help_key(a[0]->Key_0)); }
			else { assert(asked(a.take(0), s) is Done); }
		}
	} else {}
}
/// C14: the blank subcommand prints the largest of the numbers asked for, and at least one line break.
pub proof fn thm_c14_blank(a: Seq<Arg>, err: bool, n: int)
	requires n >= 1
	ensures
		lines(a, err, n) is Help <==> given(a, f_help()),
		lines(a, err, n) is Done ==> ({
			let (e, m) = (lines(a, err, n)->Done_0, lines(a, err, n)->Done_1);
			&&& e == (err || given(a, f_stderr()))
			&&& m >= n
			&&& forall|i: int| 0 <= i < a.len() && bcount(#[trigger] a[i]) is Some ==> bcount(a[i])->0 <= m
			&&& m == n || exists|i: int| 0 <= i < a.len() && #[trigger] bcount(a[i]) == Some(m as nat)
		}),
	decreases a.len()
{
	lemma_lits();
	let t = a.drop_first();
	if a.len() > 0 {
		lemma_given(a, f_help()); lemma_given(a, f_stderr());
		if !(a[0] is Key && help_key(a[0]->Key_0)) {
			let e1 = err || (a[0] is Key && stderr_key(a[0]->Key_0));
			let n1 = if bcount(a[0]) is Some && bcount(a[0])->0 > n { bcount(a[0])->0 as int } else { n };
			assert(lines(a, err, n) == lines(t, e1, n1));
			thm_c14_blank(t, e1, n1);
			if lines(t, e1, n1) is Done {
				let m = lines(t, e1, n1)->Done_1;
				assert forall|i: int| 0 <= i < a.len() && bcount(#[trigger] a[i]) is Some implies bcount(a[i])->0 <= m by { if i > 0 { assert(a[i] == t[i - 1]); } }
				if m != n {
					if m == n1 { assert(bcount(a[0]) == Some(m as nat)); }
					else { let i = choose|i: int| 0 <= i < t.len() && #[trigger] bcount(t[i]) == Some(m as nat); assert(bcount(a[i + 1]) == Some(m as nat)); }
				}
			}
		}
	}
}
pub open spec fn bcount(x: Arg) -> Option<nat> { match x { Arg::Val(k, v) => if bval(k) { num_of(v, usize::MAX as nat) } else { None }, _ => None } }
@end
