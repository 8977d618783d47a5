# The steady ticker, with signals: interrupts, resizes and the cursor.
@include steady_body.vx
@path ProglessSignals::default ProglessSignals::vx_default
@path OnceLock VxOnce
@path SIGINT_HANLDER VX_ONCE
@path AtomicBool VxBool
@path SeqCst VxOrder::SeqCst
@path Ordering::SeqCst VxOrder::SeqCst
@path std::io::_eprint vx_eprint
@path io::_eprint vx_eprint
@path signal_hook::low_level::register vx_register
@path low_level::register vx_register
@path signal_hook::low_level::exit vx_exit
@path low_level::exit vx_exit
@path signal_hook::flag::register vx_flag_register
@path flag::register vx_flag_register
@path std::process::exit vx_process_exit
@path process::exit vx_process_exit
@path ManuallyDrop VxKept
@path File VxFile
@path Msg VxMsg
@callargs swap Tracked(t)
@callargs load Tracked(t)
@callargs store Tracked(t)
@callargs fetch_or Tracked(t)
@callargs fetch_and Tracked(t)
@callargs exit Tracked(t)
@callargs _eprint Tracked(t)
@callargs write_all Tracked(t)
@callargs sigint_unhide Tracked(t)
@callargs get_or_init Tracked(t)
@callargs default Tracked(t)
@callargs pretick Tracked(t)
@callargs tick_resize Tracked(t)
@callargs sigint Tracked(t)
@callargs drop Tracked(t)
@raw
pub use vstd::utf8::*;
pub use vstd::string::*;
pub use vsg::*;
pub mod vsg {
use vstd::prelude::*;
use vstd::utf8::*;
use super::*;
pub enum VxOrder { SeqCst, Relaxed, Acquire, Release, AcqRel }
/// After a wait, anything may have happened; a tick is for those who have looked.
pub open spec fn waited(t: Tv) -> Tv { Tv { due: true, intr: true, ..t } }
pub open spec fn ready(t: Tv) -> bool { !t.due && !t.intr }
/// Trusted: a listener that does so was registered for interrupts, or one for resizes, which set the switch.
pub uninterp spec fn listens(b: VxBool, m: Mode) -> bool;
pub uninterp spec fn resizes(b: VxBool) -> bool;
pub open spec fn interrupts(b: VxBool) -> bool { exists|m: Mode| listens(b, m) }
/// What a look at a switch that was found to be `r` tells.
pub open spec fn looked(b: VxBool, r: bool, t0: Tv, t1: Tv) -> bool {
	&&& t1.alive == t0.alive && t1.locked == t0.locked && t1.held == t0.held && t1.listener == t0.listener && t1.sw == t0.sw && t1.run == t0.run && t1.chosen == t0.chosen
	&&& interrupts(b) && !resizes(b) ==> t1.intr == r && t1.due == t0.due && t1.owes == (t0.owes && (r || t0.listener is Some))
	&&& resizes(b) && !interrupts(b) ==> t1.due == r && t1.intr == t0.intr && t1.owes == t0.owes
}
/// What it means to change it to `v`: only the listener sets the switch of interrupts, once, and nobody resets it.
pub open spec fn may_change(b: VxBool, v: bool, t: Tv) -> bool {
	||| interrupts(b) && v && t.listener is Some && t.sw is None
	||| resizes(b) && !interrupts(b) && !v && t.listener is None
}
pub open spec fn changed(b: VxBool, v: bool, r: bool, t0: Tv, t1: Tv) -> bool {
	&&& t1.alive == t0.alive && t1.locked == t0.locked && t1.held == t0.held && t1.listener == t0.listener && t1.run == t0.run && t1.chosen == t0.chosen
	&&& interrupts(b) && v ==> t1.sw == Some(r) && t1.owes == (t0.owes || !r) && t1.intr == t0.intr && t1.due == t0.due
	&&& !interrupts(b) && !v ==> t1.sw == t0.sw && t1.owes == t0.owes && t1.intr == t0.intr && t1.due == r
}
pub open spec fn hide() -> Seq<u8> { encode_utf8("\x1b[?25l"@) }
pub open spec fn show() -> Seq<u8> { encode_utf8("\x1b[?25h"@) }
pub open spec fn shown(b: Seq<u8>, t: Tv) -> Tv { Tv { owes: b != show(), ..t } }
}
impl VxBool {
	pub uninterp spec fn first(&self) -> bool;
	#[verifier::external_body]
	pub fn new(v: bool) -> (r: VxBool) ensures r.first() == v { unimplemented!() }
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		ensures looked(*self, r, old(t).tv(), final(t).tv())
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: bool, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		requires may_change(*self, v, old(t).tv()),
		ensures changed(*self, v, r, old(t).tv(), final(t).tv())
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_or(&self, v: bool, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		requires v, may_change(*self, v, old(t).tv()),
		ensures changed(*self, v, r, old(t).tv(), final(t).tv())
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_and(&self, v: bool, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		requires !v, may_change(*self, v, old(t).tv()),
		ensures changed(*self, v, r, old(t).tv(), final(t).tv())
	{ unimplemented!() }
	/// As a swap whose answer isn't known.
	#[verifier::external_body]
	pub fn store(&self, v: bool, o: VxOrder, Tracked(t): Tracked<&mut Thr>)
		requires !v, may_change(*self, v, old(t).tv()),
		ensures changed(*self, v, true, old(t).tv(), final(t).tv())
	{ unimplemented!() }
}
/// Trusted: signal-hook. A listener runs on any thread at any time, so it does not use what may be locked.
pub const SIGINT: i32 = 2;
pub const SIGWINCH: i32 = 28;
#[derive(Clone, Copy)]
pub struct SigId { pub x: u8 }
pub struct VxHookError { pub x: u8 }
pub struct VxListener { pub m: Mode, pub b: std::sync::Arc<VxBool> }
pub fn vx_listener(m: Mode, b: std::sync::Arc<VxBool>) -> (r: VxListener) ensures r.m == m, r.b == b { VxListener { m, b } }
#[verifier::external_body]
pub fn vx_register(sig: i32, l: VxListener) -> (r: Result<SigId, VxHookError>)
	requires sig == SIGINT, !(*l.b).first(),
	ensures r is Ok ==> listens(*l.b, l.m) && !resizes(*l.b),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_flag_register(sig: i32, b: std::sync::Arc<VxBool>) -> (r: Result<SigId, VxHookError>)
	requires sig == SIGWINCH, (*b).first(),
	ensures r is Ok ==> resizes(*b) && !interrupts(*b),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_exit(code: i32, Tracked(t): Tracked<&mut Thr>) -> !
	requires
		code == 1, !old(t).tv().owes, old(t).tv().sw is Some,
		old(t).tv().listener == Some(Mode::Default) || old(t).tv().listener == Some(Mode::TwoStrike) && old(t).tv().sw == Some(true),
	ensures false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_process_exit(code: i32, Tracked(t): Tracked<&mut Thr>) -> !
	requires old(t).tv().listener is None,
	ensures false,
{ unimplemented!() }
/// Trusted: OnceLock, as if it were this thread's turn.
pub struct VxOnce { pub x: u8 }
pub const VX_ONCE: VxOnce = VxOnce { x: 0 };
impl VxOnce {
	#[verifier::external_body]
	pub fn get_or_init<F: FnOnce() -> std::sync::Arc<VxBool>>(&self, f: F, Tracked(t): Tracked<&mut Thr>) -> (r: &'static std::sync::Arc<VxBool>)
		requires
			old(t).tv().listener is None,
			f.requires(()), forall|x: std::sync::Arc<VxBool>| f.ensures((), x) ==> interrupts(*x) && !resizes(*x),
		ensures
			final(t).tv() == (Tv { chosen: Some(*r), ..old(t).tv() }),
			interrupts(**r), !resizes(**r),
			match old(t).tv().chosen { Some(x) => *r == x, None => f.ensures((), *r) },
	{ unimplemented!() }
}
/// Trusted: text on standard error, by the shared handle or directly. Only what hides or shows the cursor is written here.
pub struct VxFmt { x: String }
pub trait VxShow { spec fn shows(&self) -> Seq<char>; }
impl VxShow for &'static str { open spec fn shows(&self) -> Seq<char> { self@ } }
impl VxFmt {
	pub uninterp spec fn view(&self) -> Seq<char>;
	#[verifier::external_body]
	pub fn new() -> (r: Self) ensures r.view() == Seq::<char>::empty() { unimplemented!() }
	#[verifier::external_body]
	pub fn lit(self, s: &str) -> (r: Self) ensures r.view() == self.view() + s@ { unimplemented!() }
	#[verifier::external_body]
	pub fn arg<T: VxShow>(self, x: &T) -> (r: Self) ensures r.view() == self.view() + x.shows() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_eprint(s: VxFmt, Tracked(t): Tracked<&mut Thr>)
	requires old(t).tv().listener is None, encode_utf8(s.view()) == hide() || encode_utf8(s.view()) == show(),
	ensures final(t).tv() == shown(encode_utf8(s.view()), old(t).tv()),
{ unimplemented!() }
pub struct VxFile { pub fd: i32 }
impl VxFile { pub unsafe fn from_raw_fd(fd: i32) -> (r: VxFile) ensures r.fd == fd { VxFile { fd } } }
pub struct VxKept { pub f: VxFile }
impl VxKept {
	pub fn new(f: VxFile) -> (r: VxKept) ensures r.f == f { VxKept { f } }
	#[verifier::external_body]
	pub fn write_all(&mut self, b: &[u8], Tracked(t): Tracked<&mut Thr>) -> (r: Result<(), VxHookError>)
		requires old(self).f.fd == 2, b@ == show(),
		ensures final(t).tv() == shown(b@, old(t).tv()),
	{ unimplemented!() }
}
pub struct VxMsg { pub x: u8 }
impl VxMsg {
	#[verifier::external_body]
	pub fn error(s: &str) -> VxMsg { unimplemented!() }
	#[verifier::external_body]
	pub fn eprint(&self) { unimplemented!() }
}
impl ProglessInner {
	/// Looks at the size anew (unit progsig).
	#[verifier::external_body]
	pub fn tick_resize(&self, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		requires old(t).tv().alive,
		ensures final(t).tv() == (Tv { alive: r, due: old(t).tv().due && !r, ..old(t).tv() }),
	{ unimplemented!() }
	/// Sets the title (unit progsig).
	#[verifier::external_body]
	pub fn sigint(&self, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		requires old(t).tv().alive, old(t).tv().intr,
		ensures final(t).tv() == (Tv { alive: r, intr: !r, ..old(t).tv() }),
	{ unimplemented!() }
}
@end
@item struct ProglessSignals
@item struct ResizeHandler
@assoc Progless CURSOR_HIDE
@assoc Progless CURSOR_UNHIDE
@raw
impl ProglessSignals {
	pub open spec fn ok(&self) -> bool {
		&&& interrupts(**self.sigint) && !resizes(**self.sigint)
		&&& self.sigwinch is Some ==> resizes(*(self.sigwinch->0).switch) && !interrupts(*(self.sigwinch->0).switch)
	}
}
/// drop() of a ticker's signals.
pub fn vx_drop(s: ProglessSignals, Tracked(t): Tracked<&mut Thr>)
	requires old(t).tv().listener is None,
	ensures !final(t).tv().owes, final(t).tv().alive == old(t).tv().alive,
{ let mut s = s; s.vx_drop_signals(Tracked(t)); }
@end
@fn spawn_ticker #thread
+as vx_ticker
+closurebody 0
+attrs #[verifier::exec_allows_no_decreases_clause]
+props C21 C22
+params Tracked(t): Tracked<&mut Thr>
+path drop vx_drop
+sig
requires old(t).tv().alive, !old(t).tv().locked, !old(t).tv().held, old(t).tv().listener is None, !old(t).tv().owes,
ensures !final(t).tv().alive, !final(t).tv().owes,
+loop 0
invariant t.tv().alive, t.tv().locked, !t.tv().held, t.tv().listener is None, !t.tv().owes, signals.ok(),
@fn ProglessSignals as Default::default
+impl impl ProglessSignals
+as vx_default
+props C22
+params Tracked(t): Tracked<&mut Thr>
+ret r
+sig
requires old(t).tv().listener is None, !old(t).tv().owes,
ensures r.ok(), final(t).tv().listener is None, !final(t).tv().owes, final(t).tv().alive == old(t).tv().alive, final(t).tv().held == old(t).tv().held, final(t).tv().locked == old(t).tv().locked,
@fn ProglessSignals as Drop::drop
+impl impl ProglessSignals
+as vx_drop_signals
+props C22
+params Tracked(t): Tracked<&mut Thr>
+sig
requires old(t).tv().listener is None,
ensures !final(t).tv().owes, final(t).tv() == (Tv { owes: false, ..old(t).tv() }),
@fn ProglessSignals::pretick
+props C22
+params Tracked(t): Tracked<&mut Thr>
+ret r
+sig
requires self.ok(), old(t).tv().listener is None, old(t).tv().alive, old(t).tv().due, old(t).tv().intr, !old(t).tv().owes,
ensures
	final(t).tv().alive == r, r ==> !final(t).tv().due && !final(t).tv().intr, !final(t).tv().owes, final(t).tv().listener is None,
	final(t).tv().held == old(t).tv().held, final(t).tv().locked == old(t).tv().locked,
@fn ResizeHandler::new
+props C22
+ret r
+sig
ensures r is Some ==> resizes(*(r->0).switch) && !interrupts(*(r->0).switch),
@fn sigint_unhide
+props C22
+params Tracked(t): Tracked<&mut Thr>
+sig
ensures final(t).tv() == (Tv { owes: false, ..old(t).tv() }),
@fn sigint_error
+trusted
+sig
ensures false,
@fn sigint_default #listener
+as vx_sigint_default_listener
+closurebody 0
+props C22
+params t_switch: std::sync::Arc<VxBool>, Tracked(t): Tracked<&mut Thr>
+sig
requires listens(*t_switch, Mode::Default), !resizes(*t_switch), old(t).tv().listener == Some(Mode::Default), old(t).tv().sw is None, !old(t).tv().owes,
ensures false,
@fn sigint_default
+props C22
+ret r
+hold register vx_listener(Mode::Default, t_switch)
+sig
ensures listens(*r, Mode::Default), !resizes(*r),
@fn sigint_two_strike #listener
+as vx_sigint_two_strike_listener
+closurebody 0
+props C22
+params t_switch: std::sync::Arc<VxBool>, Tracked(t): Tracked<&mut Thr>
+sig
requires listens(*t_switch, Mode::TwoStrike), !resizes(*t_switch), old(t).tv().listener == Some(Mode::TwoStrike), old(t).tv().sw is None, !old(t).tv().owes,
ensures !final(t).tv().owes, final(t).tv().sw == Some(false),
@fn sigint_two_strike
+props C22
+ret r
+hold register vx_listener(Mode::TwoStrike, t_switch)
+sig
ensures listens(*r, Mode::TwoStrike), !resizes(*r),
@fn Progless::sigint_two_strike
+props C22
+ret r
+params Tracked(t): Tracked<&mut Thr>
+sig
requires old(t).tv().listener is None,
ensures
	interrupts(**r), final(t).tv() == (Tv { chosen: Some(*r), ..old(t).tv() }),
	match old(t).tv().chosen { Some(x) => *r == x, None => listens(**r, Mode::TwoStrike) },
@fn sigint_keepalive #listener
+as vx_sigint_keepalive_listener
+closurebody 0
+props C22
+params t_switch: std::sync::Arc<VxBool>, Tracked(t): Tracked<&mut Thr>
+sig
requires listens(*t_switch, Mode::Keepalive), !resizes(*t_switch), old(t).tv().listener == Some(Mode::Keepalive), old(t).tv().sw is None, !old(t).tv().owes,
ensures !final(t).tv().owes, final(t).tv().sw is Some,
@fn sigint_keepalive
+props C22
+ret r
+hold register vx_listener(Mode::Keepalive, t_switch)
+sig
ensures listens(*r, Mode::Keepalive), !resizes(*r),
@fn Progless::sigint_keepalive
+props C22
+ret r
+params Tracked(t): Tracked<&mut Thr>
+sig
requires old(t).tv().listener is None,
ensures
	interrupts(**r), final(t).tv() == (Tv { chosen: Some(*r), ..old(t).tv() }),
	match old(t).tv().chosen { Some(x) => *r == x, None => listens(**r, Mode::Keepalive) },
@raw
pub use vsgt::*;
pub mod vsgt {
use vstd::prelude::*;
/// The cursor, the switch, and who still has to show the one or look at the other.
pub ghost struct Cur { pub switch: bool, pub hidden: bool, pub owing: Set<int> }
pub ghost enum Do { Swap(int), Hide(int), Show(int), See(int) }
pub open spec fn can(c: Cur, d: Do) -> bool { match d { Do::See(i) => !c.switch, _ => true } }
pub open spec fn done(c: Cur, d: Do) -> Cur {
	match d {
		Do::Swap(i) => Cur { switch: true, owing: if c.switch { c.owing } else { c.owing.insert(i) }, ..c },
		Do::Hide(i) => Cur { hidden: true, owing: c.owing.insert(i), ..c },
		Do::Show(i) => Cur { hidden: false, owing: c.owing.remove(i), ..c },
		Do::See(i) => Cur { owing: c.owing.remove(i), ..c },
	}
}
pub open spec fn sound(c: Cur) -> bool { c.switch && c.hidden ==> !(c.owing =~= Set::empty()) }
pub open spec fn all(c: Cur, h: Seq<Do>) -> bool decreases h.len() { h.len() == 0 || can(c, h[0]) && all(done(c, h[0]), h.drop_first()) }
pub open spec fn last(c: Cur, h: Seq<Do>) -> Cur decreases h.len() { if h.len() == 0 { c } else { last(done(c, h[0]), h.drop_first()) } }
/// C22: whatever listeners and tickers do at the same time, after an interrupt the cursor is visible once each has done
/// what it owes (each contract above: nothing is owed at the end).
pub proof fn thm_c22_cursor(c: Cur, h: Seq<Do>)
	requires sound(c), all(c, h)
	ensures sound(last(c, h)), last(c, h).switch && last(c, h).owing =~= Set::empty() ==> !last(c, h).hidden
	decreases h.len()
{
	if h.len() > 0 {
		let d = done(c, h[0]);
		assert(sound(d)) by {
			match h[0] {
				Do::Swap(i) => { if !c.switch { assert(d.owing.contains(i)); } },
				Do::Hide(i) => { assert(d.owing.contains(i)); },
				_ => {},
			}
		}
		thm_c22_cursor(d, h.drop_first());
	}
}
/// C22: the switch stays.
pub proof fn thm_c22_switch(c: Cur, h: Seq<Do>)
	requires c.switch
	ensures last(c, h).switch
	decreases h.len()
{ if h.len() > 0 { thm_c22_switch(done(c, h[0]), h.drop_first()); } }
}
@end
