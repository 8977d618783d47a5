# What is left on the screen: the standard error lock, stopping, clearing and drawing.
@include progbase.vx
@flag lock_mutex
@path AtomicU8 VxFlags
@path AtomicU16 VxCell16
@path AtomicU32 VxCell32
@path AtomicU64 VxCell64
@path SeqCst VxOrder::SeqCst
@path Ordering::SeqCst VxOrder::SeqCst
@path Ordering::Relaxed VxOrder::Relaxed
@path Ordering::Acquire VxOrder::Acquire
@path Ordering::Release VxOrder::Release
@path Ordering::AcqRel VxOrder::AcqRel
@path stderr vx_stderr
@path std::io::stderr vx_stderr
@callargs load Tracked(t)
@callargs store Tracked(t)
@callargs swap Tracked(t)
@callargs fetch_or Tracked(t)
@callargs fetch_and Tracked(t)
@callargs fetch_add Tracked(t)
@callargs fetch_max Tracked(t)
@callargs fetch_update Tracked(t)
@callargs compare_exchange Tracked(t)
@callargs compare_exchange_weak Tracked(t)
@callargs lock Tracked(t)
@callargs running Tracked(t)
@callargs add Tracked(t)
@callargs tick_set_secs Tracked(t)
@callargs tick_set_drawable Tracked(t)
@callargs stop Tracked(w), Tracked(t)
@callargs increment_n Tracked(w), Tracked(t)
@callargs tick Tracked(w), Tracked(t)
@callargs tick_set_size Tracked(&*w), Tracked(t)
@callargs push_msg Tracked(w), Tracked(t)
@callargs write_all Tracked(t)
@callargs vx_show Tracked(t)
@callargs vx_lock Tracked(t)
@callargs eprint Tracked(w)
@item struct ProglessInner
@item struct Progless
@raw
pub enum VxOrder { SeqCst, Relaxed, Acquire, Release, AcqRel }
/// Trusted: what a thread did so far. The rules that it follows are in `vsc`, thm_c23 is about every
/// interleaving of what follows them.
#[verifier::external_body]
pub tracked struct Sc { x: () }
impl Sc { pub uninterp spec fn s(&self) -> S; }
/// Trusted: standard error and its lock.
pub struct VxStderr { pub x: u8 }
pub fn vx_stderr() -> VxStderr { VxStderr { x: 0 } }
impl VxStderr {
	#[verifier::external_body]
	pub fn lock(&self, Tracked(t): Tracked<&mut Sc>) -> (r: VxErrLock)
		requires old(t).s().owe is None
		ensures final(t).s() == (S { lock: Some(r.id()), seen: false, owe: None, ..old(t).s() }),
	{ unimplemented!() }
}
#[verifier::external_body]
pub struct VxErrLock { x: u8 }
impl VxErrLock {
	pub uninterp spec fn id(&self) -> int;
	/// Clears the screen, if that is what is written.
	#[verifier::external_body]
	pub fn write_all(&mut self, b: &[u8], Tracked(t): Tracked<&mut Sc>) -> (r: Result<(), VxIoError>)
		ensures final(self).id() == old(self).id(), final(t).s() == (if b@ == cls() && old(t).s().owe == Some(old(self).id()) { S { owe: None, ..old(t).s() } } else { old(t).s() }),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_flush(&mut self) -> (r: Result<(), VxIoError>) ensures final(self).id() == old(self).id() { unimplemented!() }
}
impl ProglessBuffer {
	/// Trusted here: drawing (unit frame). A frame may only be drawn by who saw progress running since it got the lock.
	#[verifier::external_body]
	pub fn vx_show(&self, width: NonZeroU8, h: &mut VxErrLock, Tracked(t): Tracked<&mut Sc>) -> (r: bool)
		requires old(t).s().lock == Some(old(h).id()), old(t).s().seen,
		ensures final(h).id() == old(h).id(), *final(t) == *old(t),
	{ unimplemented!() }
}
/// Trusted: the shared flags.
#[verifier::external_body]
pub struct VxFlags { x: u8 }
impl VxFlags {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u8)
		ensures final(t).s() == s_after(old(t).s(), r, r),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Sc>)
		requires forall|x: u8| #[trigger] s_ok(old(t).s(), x, v),
		ensures exists|x: u8| final(t).s() == #[trigger] s_after(old(t).s(), x, v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u8)
		requires forall|x: u8| #[trigger] s_ok(old(t).s(), x, v),
		ensures final(t).s() == s_after(old(t).s(), r, v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_or(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u8)
		requires forall|x: u8| #[trigger] s_ok(old(t).s(), x, x | v),
		ensures final(t).s() == s_after(old(t).s(), r, r | v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_and(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u8)
		requires forall|x: u8| #[trigger] s_ok(old(t).s(), x, x & v),
		ensures final(t).s() == s_after(old(t).s(), r, r & v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange(&self, a: u8, b: u8, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u8, u8>)
		requires s_ok(old(t).s(), a, b),
		ensures
			r is Ok ==> r->Ok_0 == a && final(t).s() == s_after(old(t).s(), a, b),
			r is Err ==> final(t).s() == s_after(old(t).s(), r->Err_0, r->Err_0),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_load(&self, Tracked(t): Tracked<&mut Sc>) -> (r: u8)
		ensures final(t).s() == s_after(old(t).s(), r, r),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_commit(&self, a: u8, b: u8, Tracked(t): Tracked<&mut Sc>)
		requires s_ok(old(t).s(), a, b),
		ensures final(t).s() == s_after(old(t).s(), a, b),
	{ unimplemented!() }
}
/// Trusted: other shared cells, which hold anything (in the case of the counters: no more done than the total).
pub open spec fn ok64(x: u64) -> bool { 0 <= hi(x) <= lo(x) < 0x1_0000_0000 && x >> 32 <= u32::MAX }
#[verifier::external_body]
pub struct VxCell16 { x: u8 }
impl VxCell16 {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u16, o: VxOrder, Tracked(t): Tracked<&mut Sc>) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u16, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_add(&self, v: u16, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_max(&self, v: u16, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange(&self, a: u16, b: u16, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u16, u16>) ensures *final(t) == *old(t), r is Ok ==> r->Ok_0 == a { unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange_weak(&self, a: u16, b: u16, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u16, u16>) ensures *final(t) == *old(t), r is Ok ==> r->Ok_0 == a { unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_load(&self, Tracked(t): Tracked<&mut Sc>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_commit(&self, a: u16, b: u16, Tracked(t): Tracked<&mut Sc>) ensures *final(t) == *old(t) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxCell32 { x: u8 }
impl VxCell32 {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u32, o: VxOrder, Tracked(t): Tracked<&mut Sc>) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u32, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_add(&self, v: u32, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_max(&self, v: u32, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange(&self, a: u32, b: u32, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u32, u32>) ensures *final(t) == *old(t), r is Ok ==> r->Ok_0 == a { unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange_weak(&self, a: u32, b: u32, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u32, u32>) ensures *final(t) == *old(t), r is Ok ==> r->Ok_0 == a { unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_load(&self, Tracked(t): Tracked<&mut Sc>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_commit(&self, a: u32, b: u32, Tracked(t): Tracked<&mut Sc>) ensures *final(t) == *old(t) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxCell64 { x: u8 }
impl VxCell64 {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u64) ensures ok64(r), *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Sc>) requires ok64(v) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u64) requires ok64(v) ensures ok64(r), *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_add(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u64) requires forall|x: u64| ok64(x) ==> x + v <= u64::MAX && #[trigger] ok64((x + v) as u64) ensures ok64(r), *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_max(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: u64) requires ok64(v) ensures ok64(r), *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange(&self, a: u64, b: u64, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u64, u64>) requires ok64(b) ensures *final(t) == *old(t), r is Ok ==> r->Ok_0 == a && ok64(a), r is Err ==> ok64(r->Err_0) { unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange_weak(&self, a: u64, b: u64, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Sc>) -> (r: Result<u64, u64>) requires ok64(b) ensures *final(t) == *old(t), r is Ok ==> r->Ok_0 == a && ok64(a), r is Err ==> ok64(r->Err_0) { unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_load(&self, Tracked(t): Tracked<&mut Sc>) -> (r: u64) ensures ok64(r), *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_commit(&self, a: u64, b: u64, Tracked(t): Tracked<&mut Sc>) requires ok64(b) ensures *final(t) == *old(t) { unimplemented!() }
}
/// Trusted: a lock. What is found behind it is anything (that others may have left there). What is put there
/// is left to others no later than when it is locked again, or at the end of the function.
pub trait VxLock: Sized {
	spec fn left(&self) -> bool;
	spec fn may(&self, s: S) -> bool;
	spec fn got(&self, s: S) -> S;
	fn vx_lock(&mut self, Tracked(t): Tracked<&mut Sc>) -> (r: &mut Self)
		requires old(self).may(old(t).s())
		ensures r.left(), final(t).s() == r.got(old(t).s()), *final(self) == *final(r);
}
impl VxLock for VxSet<String> {
	open spec fn left(&self) -> bool { true }
	open spec fn may(&self, s: S) -> bool { t_left(s, self.set()) }
	open spec fn got(&self, s: S) -> S { t_got(s, self.set()) }
	#[verifier::external_body]
	fn vx_lock(&mut self, Tracked(t): Tracked<&mut Sc>) -> (r: &mut Self) { unimplemented!() }
}
impl VxLock for ProglessBuffer {
	open spec fn left(&self) -> bool { true }
	open spec fn may(&self, s: S) -> bool { true }
	open spec fn got(&self, s: S) -> S { s }
	#[verifier::external_body]
	fn vx_lock(&mut self, Tracked(t): Tracked<&mut Sc>) -> (r: &mut Self) { unimplemented!() }
}
impl VxLock for Option<Msg> {
	open spec fn left(&self) -> bool { *self is Some ==> self->0.wf() }
	open spec fn may(&self, s: S) -> bool { true }
	open spec fn got(&self, s: S) -> S { s }
	#[verifier::external_body]
	fn vx_lock(&mut self, Tracked(t): Tracked<&mut Sc>) -> (r: &mut Self) { unimplemented!() }
}
pub use vsc::*;
pub mod vsc {
use vstd::prelude::*;
use super::*;
/// A thread: the lock it took last, whether it saw progress running since, and whether it has to clear the screen
/// (it stopped progress) before it lets that lock go; whether it ever saw progress not running; whether it may set
/// progress running; and of the tasks: were they locked (after a stop), with what in them, was progress seen running
/// since, and do they have to be cleared?
pub ghost struct S {
	pub lock: Option<int>, pub seen: bool, pub owe: Option<int>, pub gone: bool, pub start: bool,
	pub tlock: bool, pub tbase: Set<Seq<char>>, pub tseen: bool, pub towe: bool,
}
/// Progress is only stopped under a lock, and only set running by who may.
pub open spec fn s_ok(t: S, x: u8, y: u8) -> bool {
	&&& flg(x, TICKING) && !flg(y, TICKING) ==> t.lock is Some
	&&& !flg(x, TICKING) && flg(y, TICKING) ==> t.start
}
pub open spec fn s_after(t: S, x: u8, y: u8) -> S {
	let t = S { gone: t.gone || !flg(x, TICKING), tseen: t.tseen || flg(x, TICKING), ..t };
	if flg(x, TICKING) && !flg(y, TICKING) { S { seen: false, owe: t.lock, tlock: false, towe: true, ..t } } else { S { seen: t.seen || flg(x, TICKING), ..t } }
}
/// Tasks as they may be left by who locked them last: with nothing new, unless progress was seen running since, and none
/// if it was stopped before.
pub open spec fn t_left(t: S, d: Set<Seq<char>>) -> bool { t.tlock ==> (t.tseen || d.subset_of(t.tbase)) && (t.towe ==> d =~= Set::empty()) }
pub open spec fn t_got(t: S, d: Set<Seq<char>>) -> S { S { tlock: true, tbase: d, tseen: false, towe: t.towe && !t.tlock, ..t } }
/// Between calls.
pub open spec fn fine(t: S, d: Set<Seq<char>>) -> bool { t.owe is None && t_left(t, d) && (t.towe ==> t.tlock) }
/// All threads: is progress running, who has the lock (and saw it running, has to clear), and is there a frame on the screen?
pub ghost struct Scr { pub run: bool, pub owner: Option<int>, pub seen: bool, pub owe: bool, pub frame: bool }
pub ghost enum Do { Take(int), Leave, See, Stop, Run, Clear, Draw }
pub open spec fn can(g: Scr, a: Do) -> bool {
	match a {
		Do::Take(_) => g.owner is None,
		Do::Leave => g.owner is Some && !g.owe,
		Do::See => g.owner is Some && g.run,
		Do::Stop => g.owner is Some,
		Do::Run => true,
		Do::Clear => g.owner is Some,
		Do::Draw => g.owner is Some && g.seen,
	}
}
pub open spec fn done(g: Scr, a: Do) -> Scr {
	match a {
		Do::Take(i) => Scr { owner: Some(i), seen: false, ..g },
		Do::Leave => Scr { owner: None, ..g },
		Do::See => Scr { seen: true, ..g },
		Do::Stop => Scr { run: false, seen: false, owe: true, ..g },
		Do::Run => Scr { run: true, ..g },
		Do::Clear => Scr { owe: false, frame: false, ..g },
		Do::Draw => Scr { frame: true, ..g },
	}
}
pub open spec fn tidy(g: Scr) -> bool { (g.owner is None ==> !g.owe) && (g.owner is Some && g.seen ==> g.run) && (g.frame ==> g.run || g.owe) }
pub open spec fn can_all(g: Scr, h: Seq<Do>) -> bool decreases h.len() { h.len() == 0 || can(g, h[0]) && can_all(done(g, h[0]), h.drop_first()) }
pub open spec fn done_all(g: Scr, h: Seq<Do>) -> Scr decreases h.len() { if h.len() == 0 { g } else { done_all(done(g, h[0]), h.drop_first()) } }
/// C23: whatever threads tick, push, stop and reset at the same time, while progress is not running and nobody is writing, no frame is left on the screen.
pub proof fn thm_c23(g: Scr, h: Seq<Do>)
	requires tidy(g), can_all(g, h)
	ensures tidy(done_all(g, h)), ({ let e = done_all(g, h); !e.run && e.owner is None ==> !e.frame })
	decreases h.len()
{ if h.len() > 0 { thm_c23(done(g, h[0]), h.drop_first()); } }
/// C23: once it is stopped and the screen cleared, nothing is drawn until progress is set running again.
pub proof fn thm_c23_quiet(g: Scr, h: Seq<Do>)
	requires tidy(g), !g.run, can_all(g, h), forall|i: int| 0 <= i < h.len() ==> !(#[trigger] h[i] is Run)
	ensures forall|i: int| 0 <= i < h.len() ==> !(#[trigger] h[i] is Draw)
	decreases h.len()
{
	if h.len() > 0 {
		let d = h.drop_first();
		assert(!(h[0] is Run));
		assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Run) by { assert(d[i] == h[i + 1]); }
		thm_c23_quiet(done(g, h[0]), d);
		assert forall|i: int| 0 <= i < h.len() implies !(#[trigger] h[i] is Draw) by { if i > 0 { assert(d[i - 1] == h[i]); } }
	}
}
/// All threads, and the tasks: is progress running, who stopped it and still has to clear the tasks, who has the tasks
/// locked (and has to clear them before it lets them go, and saw progress running since), and are there any?
pub ghost struct Tks { pub run: bool, pub owers: Set<int>, pub holder: Option<int>, pub pays: bool, pub seen: bool, pub any: bool }
pub ghost enum Td { Take(int), See(int), Stop(int), Run, Leave(bool) }
pub open spec fn t_can(g: Tks, a: Td) -> bool {
	match a {
		Td::Take(_) => g.holder is None,
		Td::See(_) => g.run,
		Td::Stop(_) => g.run,
		Td::Run => true,
		// s. t_left: cleared by who stopped, with nothing new unless progress was seen running. (Who stops it in the
		// meantime has to clear them when it locks them next.)
		Td::Leave(any) => g.holder is Some && (if g.pays { !any } else { any ==> g.seen || g.any || g.owers.contains(g.holder->0) }),
	}
}
pub open spec fn t_done(g: Tks, a: Td) -> Tks {
	match a {
		Td::Take(i) => Tks { holder: Some(i), pays: g.owers.contains(i), seen: false, ..g },
		Td::See(i) => Tks { seen: g.seen || g.holder == Some(i), ..g },
		Td::Stop(i) => Tks { run: false, owers: g.owers.insert(i), pays: g.pays && g.holder != Some(i), ..g },
		Td::Run => Tks { run: true, ..g },
		Td::Leave(any) => Tks { any, holder: None, owers: if g.pays { g.owers.remove(g.holder->0) } else { g.owers }, pays: false, ..g },
	}
}
pub open spec fn t_owing(g: Tks) -> bool { exists|i: int| #[trigger] g.owers.contains(i) && !(g.pays && g.holder == Some(i)) }
pub open spec fn t_tidy(g: Tks) -> bool {
	&&& g.any ==> g.run || exists|i: int| #[trigger] g.owers.contains(i)
	&&& g.pays ==> g.holder is Some && g.owers.contains(g.holder->0)
	&&& g.holder is Some && g.seen ==> g.run || t_owing(g)
}
pub open spec fn t_can_all(g: Tks, h: Seq<Td>) -> bool decreases h.len() { h.len() == 0 || t_can(g, h[0]) && t_can_all(t_done(g, h[0]), h.drop_first()) }
pub open spec fn t_done_all(g: Tks, h: Seq<Td>) -> Tks decreases h.len() { if h.len() == 0 { g } else { t_done_all(t_done(g, h[0]), h.drop_first()) } }
proof fn lemma_tidy(g: Tks, a: Td) requires t_tidy(g), t_can(g, a) ensures t_tidy(t_done(g, a)) {
	let e = t_done(g, a);
	match a {
		Td::Stop(i) => { assert(e.owers.contains(i)); },
		Td::Leave(any) => {
			if any {
				if g.owers.contains(g.holder->0) { assert(e.owers.contains(g.holder->0)); }
				else if g.seen && !g.run { let i = choose|i: int| #[trigger] g.owers.contains(i) && !(g.pays && g.holder == Some(i)); assert(e.owers.contains(i)); }
				else if !g.run { let i = choose|i: int| #[trigger] g.owers.contains(i); assert(e.owers.contains(i)); }
			}
		},
		_ => {
			if g.any && !g.run { let i = choose|i: int| #[trigger] g.owers.contains(i); assert(e.owers.contains(i)); }
			if g.holder is Some && g.seen && !g.run { let i = choose|i: int| #[trigger] g.owers.contains(i) && !(g.pays && g.holder == Some(i)); assert(e.owers.contains(i)); }
		},
	}
}
/// C11: whatever threads add, remove, stop and reset at the same time, while progress is not running and those who stopped it are done, no task is active.
pub proof fn thm_c11_end(g: Tks, h: Seq<Td>)
	requires t_tidy(g), t_can_all(g, h)
	ensures t_tidy(t_done_all(g, h)), ({ let e = t_done_all(g, h); !e.run && e.owers =~= Set::empty() ==> !e.any })
	decreases h.len()
{ if h.len() > 0 { lemma_tidy(g, h[0]); thm_c11_end(t_done(g, h[0]), h.drop_first()); } }
}
@end
@fn ProglessInner::running
+props C23 C11
+ret r
+params Tracked(t): Tracked<&mut Sc>
+sig
ensures exists|f: u8| final(t).s() == #[trigger] s_after(old(t).s(), f, f) && r == flg(f, TICKING),
+begin
proof { lemma_flags(); }
@fn progless_task
+props C23 C11
+ret r
+trusted
+sig
ensures r is Some <==> label(src@) is Some, r is Some ==> r->0@ == label(src@)->0,
@fn term_size
+props C23
+ret r
+trusted
+params Tracked(w): Tracked<&World>
+callargs terminal_size_of Tracked(w)
@fn ProglessInner::stop
+props C23 C11
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+kind and_then result
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::add
+props C23 C11
+ret r
+mutself
+params Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::increment_n
+props C23 C11
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::remove
+props C23 C11
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::reset
+props C23 C11
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+sig
requires old(t).s().start, fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::set_done
+props C23 C11
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::set_title
+props C23
+mutself
+params Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()), title is Some ==> title->0.wf(),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::set_title_msg
+props C23
+mutself
+params Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::tick_set_secs
+props C23
+ret r
+mutself
+params Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start, final(t).s().lock == old(t).s().lock, old(t).s().seen ==> final(t).s().seen,
+begin
proof { lemma_flags(); }
@fn ProglessInner::tick_set_drawable
+props C23
+ret r
+mutself
+params Tracked(t): Tracked<&mut Sc>
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start, final(t).s().lock == old(t).s().lock, old(t).s().seen ==> final(t).s().seen,
+begin
proof { lemma_flags(); }
@fn ProglessInner::tick_set_size
+props C23
+ret r
+mutself
+params Tracked(w): Tracked<&World>, Tracked(t): Tracked<&mut Sc>
+callargs term_size Tracked(w)
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start, final(t).s().lock == old(t).s().lock, old(t).s().seen ==> final(t).s().seen,
+begin
proof { lemma_flags(); }
@fn ProglessInner::tick
+props C23 C11 C21
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+method print vx_show
+callargs print Tracked(t)
+kind and_then result
+sig
requires fine(old(t).s(), old(self).doing.set()),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
	!old(t).s().seen ==> (r ==> final(t).s().seen),
	!old(t).s().gone ==> (!r ==> final(t).s().gone),
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::push_msg
+props C23
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Sc>
+kind and_then result
+sig
requires fine(old(t).s(), old(self).doing.set()), msg.wf(),
ensures fine(final(t).s(), final(self).doing.set()), final(t).s().start == old(t).s().start,
+begin
proof { lemma_flags(); lemma_reset_flags(); lemma_packs(); lemma_all_packed(); }
