# The steady ticker: its thread, its lock and its end. `waited` and `ready` are a configuration's own.
@flag guard_mutex
@path Mutex VxLock
@path Condvar VxCondvar
@path Mutex::new VxLock::vx_mutex
@path Arc::strong_count vx_strong_count
@path Duration VxDuration
@path LockResult::Ok Ok
@callargs vx_mutex Tracked(t)
@callargs vx_lock Tracked(t)
@callargs vx_unlock Tracked(t)
@callargs vx_set Tracked(t)
@callargs join Tracked(t)
@callargs spawn_ticker Tracked(t)
@callargs wait_timeout Tracked(t)
@callargs tick Tracked(t)
@callargs stop Tracked(t)
@callargs start Tracked(t)
@callargs reset Tracked(t)
@callargs running Tracked(t)
@item struct ProglessSteady
@item struct Progless
@item enum ProglessError #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@raw
use std::sync::Arc;
use std::num::NonZeroU32;
pub use vsy::*;
pub mod vsy {
use vstd::prelude::*;
use super::*;
/// What a thread knows of a ticker.
pub ghost struct Tv {
	/// The lock of the handle is held, and these tickers have not ended yet.
	pub held: bool,
	pub live: Set<int>,
	/// The lock of the dead flag is held, and this is known to be its value (for as long as the handle is held).
	pub locked: bool,
	pub known: Option<bool>,
	/// The tickers that had not ended when the handle was let go last.
	pub left: Option<Set<int>>,
	/// The progress was set running by this thread last (or stopped).
	pub run: Option<bool>,
	/// Running when the ticker was started.
	pub good: bool,
	/// A ticker: it may go on.
	pub alive: bool,
	/// A ticker, with signals: the size may have changed, or an interrupt have come in, since the last look.
	pub due: bool,
	pub intr: bool,
	/// A listener for interrupts, its policy, and what it found the switch to be.
	pub listener: Option<Mode>,
	pub sw: Option<bool>,
	/// The cursor has to be shown yet.
	pub owes: bool,
	/// The switch that was chosen first.
	pub chosen: Option<std::sync::Arc<VxBool>>,
}
/// What is done about an interrupt.
pub enum Mode { Default, TwoStrike, Keepalive }
/// Trusted: an atomic switch.
#[verifier::external_body]
pub struct VxBool { x: u8 }
pub open spec fn ids(h: Option<JoinHandle<()>>) -> Set<int> { match h { Some(h) => set![h.id()], None => Set::empty() } }
/// What goes for a locked value.
pub trait VxGuarded: Sized {
	spec fn may_lock(t: Tv) -> bool;
	spec fn locked(v: Self, t0: Tv, t1: Tv) -> bool;
	spec fn may_set(v: Self, t: Tv) -> bool;
	spec fn set(v: Self, t: Tv) -> Tv;
	spec fn may_unlock(v: Self, t: Tv) -> bool;
	spec fn unlocked(v: Self, t: Tv) -> Tv;
	spec fn may_make(v: Self, t: Tv) -> bool;
	spec fn made(v: Self, t: Tv) -> Tv;
}
/// The dead flag: anyone may set it, but only one who holds the handle and knows of no ticker may reset it.
impl VxGuarded for bool {
	open spec fn may_lock(t: Tv) -> bool { !t.locked }
	open spec fn locked(v: bool, t0: Tv, t1: Tv) -> bool { t1 == (Tv { locked: true, ..t0 }) && (t0.held && t0.known == Some(true) ==> v) }
	open spec fn may_set(v: bool, t: Tv) -> bool { t.locked && (v || t.held && t.live =~= Set::empty()) }
	open spec fn set(v: bool, t: Tv) -> Tv { Tv { known: Some(v), ..t } }
	open spec fn may_unlock(v: bool, t: Tv) -> bool { t.locked }
	open spec fn unlocked(v: bool, t: Tv) -> Tv { Tv { locked: false, known: if v { Some(true) } else { t.known }, ..t } }
	open spec fn may_make(v: bool, t: Tv) -> bool { true }
	open spec fn made(v: bool, t: Tv) -> Tv { Tv { known: Some(v), ..t } }
}
/// The handle: when it is let go, a ticker that has not ended is the one behind the handle.
impl VxGuarded for Option<JoinHandle<()>> {
	open spec fn may_lock(t: Tv) -> bool { !t.held && !t.locked }
	open spec fn locked(v: Self, t0: Tv, t1: Tv) -> bool { t1 == (Tv { held: true, live: t1.live, known: None, ..t0 }) && t1.live.subset_of(ids(v)) }
	open spec fn may_set(v: Self, t: Tv) -> bool { t.held }
	open spec fn set(v: Self, t: Tv) -> Tv { t }
	open spec fn may_unlock(v: Self, t: Tv) -> bool { t.held && !t.locked && t.live.subset_of(ids(v)) }
	open spec fn unlocked(v: Self, t: Tv) -> Tv { Tv { held: false, known: None, left: Some(t.live), ..t } }
	open spec fn may_make(v: Self, t: Tv) -> bool { t.held && !t.locked && t.live.subset_of(ids(v)) }
	open spec fn made(v: Self, t: Tv) -> Tv { Self::unlocked(v, t) }
}
}
/// Trusted: what a thread did and saw so far. thm_c21 is about every interleaving of what follows these rules.
#[verifier::external_body]
pub tracked struct Thr { x: () }
impl Thr { pub uninterp spec fn tv(&self) -> Tv; }
/// Trusted: locks, as above.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxLock<T> { x: Option<T> }
pub struct VxGuard<T> { pub v: T }
impl<T: VxGuarded> VxLock<T> {
	#[verifier::external_body]
	pub fn vx_mutex(v: T, Tracked(t): Tracked<&mut Thr>) -> (r: Self)
		requires T::may_make(v, old(t).tv()),
		ensures final(t).tv() == T::made(v, old(t).tv()),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_lock(&self, Tracked(t): Tracked<&mut Thr>) -> (r: VxGuard<T>)
		requires T::may_lock(old(t).tv()),
		ensures T::locked(r.v, old(t).tv(), final(t).tv()),
	{ unimplemented!() }
}
impl<T: VxGuarded> VxGuard<T> {
	#[verifier::external_body]
	pub fn vx_set(&mut self, v: T, Tracked(t): Tracked<&mut Thr>)
		requires T::may_set(v, old(t).tv()),
		ensures final(self).v == v, final(t).tv() == T::set(v, old(t).tv()),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_unlock(self, Tracked(t): Tracked<&mut Thr>)
		requires T::may_unlock(self.v, old(t).tv()),
		ensures final(t).tv() == T::unlocked(self.v, old(t).tv()),
	{ unimplemented!() }
}
/// Trusted: a wait gives the lock back with whatever value it has then. A ticker that was told to end, or
/// whose progress is over, does not wait again.
#[verifier::external_body]
pub struct VxCondvar { x: u8 }
pub struct VxTimeout { pub x: u8 }
pub struct VxPoison { pub x: u8 }
impl VxCondvar {
	#[verifier::external_body]
	pub fn new() -> VxCondvar { unimplemented!() }
	#[verifier::external_body]
	pub fn notify_all(&self) { unimplemented!() }
	#[verifier::external_body]
	pub fn notify_one(&self) { unimplemented!() }
	#[verifier::external_body]
	pub fn wait_timeout(&self, g: VxGuard<bool>, d: VxDuration, Tracked(t): Tracked<&mut Thr>) -> (r: Result<(VxGuard<bool>, VxTimeout), VxPoison>)
		requires old(t).tv().locked, old(t).tv().alive,
		ensures
			r is Ok ==> final(t).tv() == (Tv { alive: !(r->Ok_0).0.v, ..waited(old(t).tv()) }),
			r is Err ==> final(t).tv() == (Tv { alive: false, locked: false, ..old(t).tv() }),
	{ unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct VxDuration { pub ms: u64 }
impl VxDuration {
	pub const fn from_millis(ms: u64) -> (r: VxDuration) ensures r.ms == ms { VxDuration { ms } }
	pub const fn from_secs(s: u64) -> (r: VxDuration) requires s < 1000000 ensures r.ms == s * 1000 { VxDuration { ms: s * 1000 } }
}
/// Trusted: threads. One is only waited for by who holds the handle, has told it to end and does not hold the flag it looks at.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { x: Option<T> }
pub struct VxPanic { pub x: u8 }
impl std::fmt::Debug for VxPanic { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl JoinHandle<()> {
	pub uninterp spec fn id(&self) -> int;
	#[verifier::external_body]
	pub fn join(self, Tracked(t): Tracked<&mut Thr>) -> (r: Result<(), VxPanic>)
		requires old(t).tv().held, !old(t).tv().locked, old(t).tv().known == Some(true),
		ensures r is Ok, final(t).tv() == (Tv { live: old(t).tv().live.remove(self.id()), ..old(t).tv() }),
	{ unimplemented!() }
}
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
	ensures r == *old(o), *final(o) == Some(v);
#[verifier::external_body]
pub fn vx_strong_count<T>(a: &Arc<T>) -> (r: usize) ensures r >= 1 { unimplemented!() }
pub struct VxInstant { pub x: u8 }
impl VxInstant { #[verifier::external_body] pub fn elapsed(&self) -> VxDuration { unimplemented!() } }
/// Trusted here: progress itself (units prog, progsig, race and screen).
pub struct ProglessInner { pub started: VxInstant }
impl ProglessInner {
	#[verifier::external_body]
	pub fn stop(&self, Tracked(t): Tracked<&mut Thr>)
		ensures final(t).tv() == (Tv { run: Some(false), ..old(t).tv() }),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn reset(&self, total: NonZeroU32, Tracked(t): Tracked<&mut Thr>)
		ensures final(t).tv() == (Tv { run: Some(true), ..old(t).tv() }),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn running(&self, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		ensures final(t).tv() == (if r { old(t).tv() } else { Tv { run: Some(false), ..old(t).tv() } }),
	{ unimplemented!() }
	/// A tick of a ticker that may go on. It says whether progress was found to be running (unit screen).
	#[verifier::external_body]
	pub fn tick(&self, force: bool, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		requires old(t).tv().alive, ready(old(t).tv()),
		ensures final(t).tv() == (Tv { alive: r, ..old(t).tv() }),
	{ unimplemented!() }
}
@end
@assoc ProglessSteady TICK_RATE exec ensures ProglessSteady::TICK_RATE.ms <= 1000
@fn spawn_ticker
+trusted
+ret r
+params Tracked(t): Tracked<&mut Thr>
+sig
requires
	old(t).tv().held, !old(t).tv().locked,
	old(t).tv().live =~= Set::empty(), old(t).tv().known == Some(false),
ensures
	final(t).tv() == (Tv { live: set![r.id()], known: None, good: old(t).tv().run == Some(true), ..old(t).tv() }),
@fn ProglessSteady as Default::default
+impl impl ProglessSteady
+as vx_default
+props C21
+params Tracked(t): Tracked<&mut Thr>
+ret r
+sig
requires old(t).tv().held, !old(t).tv().locked, old(t).tv().live =~= Set::empty(),
ensures !final(t).tv().held, !final(t).tv().locked, final(t).tv().left == Some(Set::<int>::empty()),
@fn ProglessSteady as From<Arc<ProglessInner>>::from
+impl impl ProglessSteady
+as vx_from
+props C21
+params Tracked(t): Tracked<&mut Thr>
+ret r
+sig
requires old(t).tv().held, !old(t).tv().locked, old(t).tv().live =~= Set::empty(),
ensures !final(t).tv().held, !final(t).tv().locked, one(final(t).tv().left), final(t).tv().good <==> old(t).tv().run == Some(true),
@raw
pub open spec fn one(s: Option<Set<int>>) -> bool { s is Some && exists|x: int| s == Some(#[trigger] set![x]) }
@end
@fn ProglessSteady::start
+props C21
+params Tracked(t): Tracked<&mut Thr>
+sig
requires !old(t).tv().held, !old(t).tv().locked,
ensures final(t).tv().run == old(t).tv().run, !final(t).tv().held, !final(t).tv().locked, one(final(t).tv().left), final(t).tv().good <==> old(t).tv().run == Some(true),
@fn ProglessSteady::stop
+props C21
+params Tracked(t): Tracked<&mut Thr>
+sig
requires !old(t).tv().held, !old(t).tv().locked,
ensures final(t).tv().run == old(t).tv().run, !final(t).tv().held, !final(t).tv().locked, final(t).tv().left == Some(Set::<int>::empty()),
@fn ProglessSteady as Drop::drop
+impl impl ProglessSteady
+as vx_drop_steady
+props C21
+params Tracked(t): Tracked<&mut Thr>
+sig
requires !old(t).tv().held, !old(t).tv().locked,
ensures !final(t).tv().held, !final(t).tv().locked, final(t).tv().left == Some(Set::<int>::empty()),
@fn Progless::finish
+props C21
+ret r
+params Tracked(t): Tracked<&mut Thr>
+sig
requires !old(t).tv().held, !old(t).tv().locked,
ensures !final(t).tv().held, !final(t).tv().locked, final(t).tv().left == Some(Set::<int>::empty()), final(t).tv().run == Some(false),
@fn Progless::reset
+props C21
+params Tracked(t): Tracked<&mut Thr>
+sig
requires !old(t).tv().held, !old(t).tv().locked,
ensures !final(t).tv().held, !final(t).tv().locked, one(final(t).tv().left), final(t).tv().good,
@fn Progless::try_reset
+props C21
+ret r
+params Tracked(t): Tracked<&mut Thr>
+sig
requires !old(t).tv().held, !old(t).tv().locked,
ensures !final(t).tv().held, !final(t).tv().locked, total != 0 ==> r is Ok && one(final(t).tv().left) && final(t).tv().good, total == 0 ==> r is Err && final(t).tv() == old(t).tv(),
@raw
pub use vsyt::*;
pub mod vsyt {
use vstd::prelude::*;
/// A ticker's lock, flag and threads, as all threads together see them.
pub ghost struct G { pub handle: Option<int>, pub owner: Option<int>, pub known: Option<bool>, pub dead: bool, pub live: Set<int> }
pub open spec fn hids(h: Option<int>) -> Set<int> { match h { Some(x) => set![x], None => Set::empty() } }
/// What a thread may do: the rules of the locks, of joining and of spawning above.
pub ghost enum Act { Take(int), See, Tell, TellOwn, Clear, Join(int), Spawn(int), Leave(Option<int>), End(int), Draw(int) }
pub open spec fn may(g: G, a: Act) -> bool {
	match a {
		Act::Take(t) => g.owner is None,
		Act::See => g.owner is Some && g.dead,
		Act::Tell => true,
		Act::TellOwn => g.owner is Some,
		Act::Clear => g.owner is Some && g.live =~= Set::empty(),
		Act::Join(i) => g.owner is Some && g.known == Some(true),
		Act::Spawn(i) => g.owner is Some && g.live =~= Set::empty() && g.known == Some(false),
		Act::Leave(h) => g.owner is Some && g.live.subset_of(hids(h)),
		Act::End(i) => g.live.contains(i),
		Act::Draw(i) => g.live.contains(i),
	}
}
pub open spec fn act(g: G, a: Act) -> G {
	match a {
		Act::Take(t) => G { owner: Some(t), known: None, ..g },
		Act::See => G { known: Some(true), ..g },
		Act::Tell => G { dead: true, known: if g.known == Some(false) { None } else { g.known }, ..g },
		Act::TellOwn => G { dead: true, known: Some(true), ..g },
		Act::Clear => G { dead: false, known: Some(false), ..g },
		Act::Join(i) => G { live: g.live.remove(i), ..g },
		Act::Spawn(i) => G { live: set![i], known: None, ..g },
		Act::Leave(h) => G { handle: h, owner: None, known: None, ..g },
		Act::End(i) => G { live: g.live.remove(i), ..g },
		Act::Draw(i) => g,
	}
}
pub open spec fn good(g: G) -> bool {
	&&& g.owner is None ==> g.live.subset_of(hids(g.handle)) && g.known is None
	&&& g.known == Some(true) ==> g.dead
	&&& forall|x: int, y: int| g.live.contains(x) && g.live.contains(y) ==> x == y
}
pub open spec fn runs(g: G, h: Seq<Act>) -> bool decreases h.len() { h.len() == 0 || may(g, h[0]) && runs(act(g, h[0]), h.drop_first()) }
pub open spec fn after(g: G, h: Seq<Act>) -> G decreases h.len() { if h.len() == 0 { g } else { after(act(g, h[0]), h.drop_first()) } }
/// C21: whatever threads do at the same time, at most one ticker lives; whoever has the lock knows of it; from being
/// told to end until it has ended its flag stays set; and once the lock is left without a handle, none lives.
pub proof fn thm_c21(g: G, h: Seq<Act>)
	requires good(g), runs(g, h)
	ensures
		good(after(g, h)),
		after(g, h).owner is None && after(g, h).handle is None ==> after(g, h).live =~= Set::empty(),
	decreases h.len()
{
	if h.len() > 0 { thm_c21(act(g, h[0]), h.drop_first()); }
}
/// C21: nothing is drawn while no ticker lives, and only a new one brings that back.
pub proof fn thm_c21_quiet(g: G, h: Seq<Act>)
	requires runs(g, h), g.live =~= Set::empty(), forall|i: int| 0 <= i < h.len() ==> !(#[trigger] h[i] is Spawn)
	ensures forall|i: int| 0 <= i < h.len() ==> !(#[trigger] h[i] is Draw), after(g, h).live =~= Set::empty()
	decreases h.len()
{
	if h.len() > 0 {
		let d = h.drop_first();
		assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Spawn) by { assert(d[i] == h[i + 1]); }
		thm_c21_quiet(act(g, h[0]), d);
		assert forall|i: int| 0 <= i < h.len() implies !(#[trigger] h[i] is Draw) by { if i > 0 { assert(d[i - 1] == h[i]); } }
	}
}
}
@end
