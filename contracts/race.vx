# Progress from many threads: every access to the shared counters and flags follows a protocol.
@include progbase.vx
@flag lock_mutex
@path AtomicU8 VxFlags
@path AtomicU16 VxCell16
@path AtomicU32 VxCell32
@path AtomicU64 VxCount
@path SeqCst VxOrder::SeqCst
@path Ordering::SeqCst VxOrder::SeqCst
@path Ordering::Relaxed VxOrder::Relaxed
@path Ordering::Acquire VxOrder::Acquire
@path Ordering::Release VxOrder::Release
@path Ordering::AcqRel VxOrder::AcqRel
@callargs load Tracked(t)
@callargs store Tracked(t)
@callargs swap Tracked(t)
@callargs fetch_or Tracked(t)
@callargs fetch_and Tracked(t)
@callargs fetch_add Tracked(t)
@callargs fetch_max Tracked(t)
@callargs fetch_update Tracked(t)
@callargs compare_exchange Tracked(t)
@callargs compare_exchange_weak Tracked(t)
@callargs running Tracked(t)
@callargs add Tracked(t)
@callargs tick_set_secs Tracked(t)
@callargs tick_set_drawable Tracked(t)
@callargs stop Tracked(w), Tracked(t)
@callargs increment_n Tracked(w), Tracked(t)
@callargs tick Tracked(w), Tracked(t)
@callargs tick_set_size Tracked(&*w), Tracked(t)
@callargs push_msg Tracked(w), Tracked(t)
@callargs write_all Tracked(w)
@callargs flush Tracked(w)
@callargs print Tracked(w)
@callargs eprint Tracked(w)
@item struct ProglessInner
@item struct Progless
@raw
pub enum VxOrder { SeqCst, Relaxed, Acquire, Release, AcqRel }
/// Trusted: what a thread did and saw so far. The rules that the accesses follow are in `vra`,
/// and thm_c08 is about every interleaving of accesses that follow them.
#[verifier::external_body]
pub tracked struct Thr { x: () }
impl Thr { pub uninterp spec fn st(&self) -> Th; }
/// Trusted: the increments that an operation is about to make.
pub axiom fn vx_asks(tracked t: &mut Thr, n: int)
	requires n >= 0
	ensures final(t).st() == asks(old(t).st(), n);
/// Trusted: the shared counters. Other threads change them at any time.
#[verifier::external_body]
pub struct VxCount { x: u8 }
impl VxCount {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u64)
		ensures d_valid(old(t).st(), r), final(t).st() == d_after(old(t).st(), r, r),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Thr>)
		requires forall|x: u64| d_valid(old(t).st(), x) ==> #[trigger] d_ok(old(t).st(), x, v),
		ensures exists|x: u64| d_valid(old(t).st(), x) && final(t).st() == #[trigger] d_after(old(t).st(), x, v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u64)
		requires forall|x: u64| d_valid(old(t).st(), x) ==> #[trigger] d_ok(old(t).st(), x, v),
		ensures d_valid(old(t).st(), r), final(t).st() == d_after(old(t).st(), r, v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_add(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u64)
		requires forall|x: u64| d_valid(old(t).st(), x) ==> #[trigger] d_ok(old(t).st(), x, wadd(x, v)),
		ensures d_valid(old(t).st(), r), final(t).st() == d_after(old(t).st(), r, wadd(r, v)),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_max(&self, v: u64, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u64)
		requires forall|x: u64| d_valid(old(t).st(), x) ==> #[trigger] d_ok(old(t).st(), x, wmax(x, v)),
		ensures d_valid(old(t).st(), r), final(t).st() == d_after(old(t).st(), r, wmax(r, v)),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange(&self, a: u64, b: u64, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: Result<u64, u64>)
		requires d_valid(old(t).st(), a) ==> d_ok(old(t).st(), a, b),
		ensures
			r is Ok ==> r->Ok_0 == a && d_valid(old(t).st(), a) && final(t).st() == d_after(old(t).st(), a, b),
			r is Err ==> d_valid(old(t).st(), r->Err_0) && final(t).st() == d_after(old(t).st(), r->Err_0, r->Err_0),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange_weak(&self, a: u64, b: u64, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: Result<u64, u64>)
		requires d_valid(old(t).st(), a) ==> d_ok(old(t).st(), a, b),
		ensures
			r is Ok ==> r->Ok_0 == a && d_valid(old(t).st(), a) && final(t).st() == d_after(old(t).st(), a, b),
			r is Err ==> d_valid(old(t).st(), r->Err_0) && final(t).st() == d_after(old(t).st(), r->Err_0, r->Err_0),
	{ unimplemented!() }
	/// The two halves of fetch_update, which happen at once.
	#[verifier::external_body]
	pub fn vx_fu_load(&self, Tracked(t): Tracked<&mut Thr>) -> (r: u64)
		ensures d_valid(old(t).st(), r), final(t).st() == d_after(old(t).st(), r, r),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_commit(&self, a: u64, b: u64, Tracked(t): Tracked<&mut Thr>)
		requires d_valid(old(t).st(), a), d_ok(old(t).st(), a, b),
		ensures final(t).st() == d_after(old(t).st(), a, b),
	{ unimplemented!() }
}
/// Trusted: the shared flags.
#[verifier::external_body]
pub struct VxFlags { x: u8 }
impl VxFlags {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u8)
		ensures final(t).st() == f_after(old(t).st(), r, r),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Thr>)
		requires forall|x: u8| #[trigger] f_ok(old(t).st(), x, v),
		ensures exists|x: u8| final(t).st() == #[trigger] f_after(old(t).st(), x, v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u8)
		requires forall|x: u8| #[trigger] f_ok(old(t).st(), x, v),
		ensures final(t).st() == f_after(old(t).st(), r, v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_or(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u8)
		requires forall|x: u8| #[trigger] f_ok(old(t).st(), x, x | v),
		ensures final(t).st() == f_after(old(t).st(), r, r | v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn fetch_and(&self, v: u8, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u8)
		requires forall|x: u8| #[trigger] f_ok(old(t).st(), x, x & v),
		ensures final(t).st() == f_after(old(t).st(), r, r & v),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn compare_exchange(&self, a: u8, b: u8, o: VxOrder, p: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: Result<u8, u8>)
		requires f_ok(old(t).st(), a, b),
		ensures
			r is Ok ==> r->Ok_0 == a && final(t).st() == f_after(old(t).st(), a, b),
			r is Err ==> final(t).st() == f_after(old(t).st(), r->Err_0, r->Err_0),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_load(&self, Tracked(t): Tracked<&mut Thr>) -> (r: u8)
		ensures final(t).st() == f_after(old(t).st(), r, r),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_fu_commit(&self, a: u8, b: u8, Tracked(t): Tracked<&mut Thr>)
		requires f_ok(old(t).st(), a, b),
		ensures final(t).st() == f_after(old(t).st(), a, b),
	{ unimplemented!() }
}
/// Trusted: other shared cells, which hold anything.
#[verifier::external_body]
pub struct VxCell16 { x: u8 }
impl VxCell16 {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u16, o: VxOrder, Tracked(t): Tracked<&mut Thr>) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u16, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u16) ensures *final(t) == *old(t) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxCell32 { x: u8 }
impl VxCell32 {
	#[verifier::external_body]
	pub fn load(&self, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn store(&self, v: u32, o: VxOrder, Tracked(t): Tracked<&mut Thr>) ensures *final(t) == *old(t) { unimplemented!() }
	#[verifier::external_body]
	pub fn swap(&self, v: u32, o: VxOrder, Tracked(t): Tracked<&mut Thr>) -> (r: u32) ensures *final(t) == *old(t) { unimplemented!() }
}
/// Trusted: a lock. What is found behind it is anything (that others may have left there).
pub trait VxLock {
	spec fn left(&self) -> bool;
	fn vx_lock(&mut self) -> (r: &mut Self) ensures r.left();
}
impl VxLock for VxSet<String> {
	open spec fn left(&self) -> bool { true }
	#[verifier::external_body]
	fn vx_lock(&mut self) -> (r: &mut Self) { unimplemented!() }
}
impl VxLock for ProglessBuffer {
	open spec fn left(&self) -> bool { true }
	#[verifier::external_body]
	fn vx_lock(&mut self) -> (r: &mut Self) { unimplemented!() }
}
impl VxLock for Option<Msg> {
	open spec fn left(&self) -> bool { *self is Some ==> self->0.wf() }
	#[verifier::external_body]
	fn vx_lock(&mut self) -> (r: &mut Self) { unimplemented!() }
}
impl VxSet<String> {
	/// Trusted: remove, by this thread.
	#[verifier::external_body]
	pub fn vx_take<Q: VxKey + ?Sized>(&mut self, q: &Q, Tracked(t): Tracked<&mut Thr>) -> (r: bool)
		ensures final(t).st() == (Th { taken: old(t).st().taken + (if r { 1int } else { 0 }), ..old(t).st() }),
	{ unimplemented!() }
}
pub use vra::*;
pub mod vra {
use vstd::prelude::*;
use super::*;
/// A thread: the increments it was asked for and those not applied yet, the tasks it took, and
/// what it knows (that the total is reached, that progress was stopped) and has to do (store
/// the total because it stopped progress, stop it because it stored the total).
pub ghost struct Th { pub total: int, pub asked: int, pub owed: int, pub taken: int, pub over: bool, pub stopped: bool, pub must_store: bool, pub must_stop: bool }
pub open spec fn asks(t: Th, n: int) -> Th { Th { asked: t.asked + n, owed: t.owed + n, ..t } }
pub open spec fn idle(t: Th) -> bool { t.owed >= 0 && !t.must_store && (t.stopped || t.owed == 0 && !t.must_stop) }
/// Nothing asked for, and nothing left to do.
pub open spec fn calm(a: Th, b: Th) -> bool { idle(b) && b.asked == a.asked && b.taken == a.taken && b.total == a.total }
pub open spec fn wmax(x: u64, v: u64) -> u64 { if v > x { v } else { x } }
pub open spec fn wadd(x: u64, v: u64) -> u64 { ((x + v) % 0x1_0000_0000_0000_0000) as u64 }
/// The counters, by the rules.
pub open spec fn d_valid(t: Th, v: u64) -> bool { lo(v) == t.total && 0 <= hi(v) <= t.total }
pub open spec fn d_saw(t: Th, v: u64) -> Th { Th { over: t.over || hi(v) + t.owed >= t.total, must_store: t.must_store && hi(v) < t.total, ..t } }
/// The total stays; the count goes up by what is owed, or to the total once that is reached.
pub open spec fn d_ok(t: Th, x: u64, y: u64) -> bool {
	x == y || lo(y) == t.total && (hi(x) < hi(y) <= hi(x) + t.owed && hi(y) < t.total || hi(y) == t.total && d_saw(t, x).over)
}
pub open spec fn d_after(t: Th, x: u64, y: u64) -> Th {
	let s = d_saw(t, x);
	if x == y { s }
	else if hi(y) < t.total { Th { owed: s.owed - (hi(y) - hi(x)), ..s } }
	else { Th { must_store: false, must_stop: true, ..s } }
}
/// The flags, by the rules: progress is stopped only if the total is reached.
pub open spec fn f_ok(t: Th, x: u8, y: u8) -> bool { flg(x, TICKING) == flg(y, TICKING) || flg(x, TICKING) && t.over }
pub open spec fn f_after(t: Th, x: u8, y: u8) -> Th {
	Th {
		stopped: t.stopped || !flg(x, TICKING) || !flg(y, TICKING),
		over: t.over || !flg(x, TICKING),
		must_store: t.must_store || flg(x, TICKING) && !flg(y, TICKING),
		..t
	}
}
/// All threads and what they share; `base` is the count to start with.
pub ghost struct All { pub base: int, pub total: int, pub d: u64, pub f: u8, pub ths: Seq<Th> }
pub ghost enum Act { Asks(int, int), Count(int, u64), Flags(int, u8), Takes(int) }
pub open spec fn asked(ths: Seq<Th>) -> int decreases ths.len() { if ths.len() == 0 { 0 } else { asked(ths.drop_last()) + ths.last().asked } }
pub open spec fn owed(ths: Seq<Th>) -> int decreases ths.len() { if ths.len() == 0 { 0 } else { owed(ths.drop_last()) + ths.last().owed } }
pub open spec fn by_rules(g: All, a: Act) -> bool {
	match a {
		Act::Asks(i, n) => 0 <= i < g.ths.len() && n >= 0,
		Act::Count(i, y) => 0 <= i < g.ths.len() && d_ok(g.ths[i], g.d, y),
		Act::Flags(i, y) => 0 <= i < g.ths.len() && f_ok(g.ths[i], g.f, y),
		Act::Takes(i) => 0 <= i < g.ths.len(),
	}
}
pub open spec fn act(g: All, a: Act) -> All {
	match a {
		Act::Asks(i, n) => All { ths: g.ths.update(i, asks(g.ths[i], n)), ..g },
		Act::Count(i, y) => All { d: y, ths: g.ths.update(i, d_after(g.ths[i], g.d, y)), ..g },
		Act::Flags(i, y) => All { f: y, ths: g.ths.update(i, f_after(g.ths[i], g.f, y)), ..g },
		Act::Takes(i) => All { ths: g.ths.update(i, Th { taken: g.ths[i].taken + 1, ..g.ths[i] }), ..g },
	}
}
pub open spec fn fair(g: All) -> bool {
	&&& 1 <= g.total && lo(g.d) == g.total && 0 <= g.base <= hi(g.d) <= g.total
	&&& forall|i: int| 0 <= i < g.ths.len() ==> {
		let t = #[trigger] g.ths[i];
		&&& t.total == g.total && 0 <= t.owed
		&&& t.stopped ==> !flg(g.f, TICKING)
		&&& t.over ==> g.base + asked(g.ths) >= g.total
	}
	&&& hi(g.d) < g.total ==> hi(g.d) == g.base + asked(g.ths) - owed(g.ths)
	&&& hi(g.d) == g.total ==> g.base + asked(g.ths) >= g.total && (!flg(g.f, TICKING) || exists|i: int| 0 <= i < g.ths.len() && (#[trigger] g.ths[i]).must_stop && !g.ths[i].stopped)
	&&& !flg(g.f, TICKING) ==> g.base + asked(g.ths) >= g.total && (hi(g.d) == g.total || exists|i: int| 0 <= i < g.ths.len() && (#[trigger] g.ths[i]).must_store)
}
proof fn lemma_sums(ths: Seq<Th>, i: int, t: Th)
	requires 0 <= i < ths.len()
	ensures asked(ths.update(i, t)) == asked(ths) - ths[i].asked + t.asked, owed(ths.update(i, t)) == owed(ths) - ths[i].owed + t.owed
	decreases ths.len()
{
	let u = ths.update(i, t);
	if i == ths.len() - 1 { assert(u.drop_last() =~= ths.drop_last()); }
	else { assert(u.drop_last() =~= ths.drop_last().update(i, t)); lemma_sums(ths.drop_last(), i, t); }
}
proof fn lemma_owed(ths: Seq<Th>)
	requires forall|i: int| 0 <= i < ths.len() ==> (#[trigger] ths[i]).owed >= 0
	ensures owed(ths) >= 0, forall|i: int| 0 <= i < ths.len() ==> owed(ths) >= (#[trigger] ths[i]).owed, (forall|i: int| 0 <= i < ths.len() ==> (#[trigger] ths[i]).owed == 0) ==> owed(ths) == 0
	decreases ths.len()
{
	if ths.len() > 0 {
		let p = ths.drop_last();
		assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).owed >= 0 by { assert(p[i] == ths[i]); }
		lemma_owed(p);
		assert(ths[ths.len() - 1].owed >= 0);
		assert forall|i: int| 0 <= i < ths.len() implies owed(ths) >= (#[trigger] ths[i]).owed by { if i < p.len() { assert(p[i] == ths[i]); } }
		if forall|i: int| 0 <= i < ths.len() ==> (#[trigger] ths[i]).owed == 0 {
			assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).owed == 0 by { assert(p[i] == ths[i]); }
		}
	}
}
/// C08: no access by the rules, by any thread at any time, lowers the count or changes the total, or breaks what all of them rely on.
pub proof fn thm_c08_step(g: All, a: Act)
	requires fair(g), by_rules(g, a)
	ensures fair(act(g, a)), hi(act(g, a).d) >= hi(g.d), lo(act(g, a).d) == lo(g.d), g.total == act(g, a).total
{
	let h = act(g, a);
	let i = match a { Act::Asks(i, _) => i, Act::Count(i, _) => i, Act::Flags(i, _) => i, Act::Takes(i) => i };
	lemma_sums(g.ths, i, h.ths[i]);
	assert forall|j: int| 0 <= j < g.ths.len() implies (#[trigger] g.ths[j]).owed >= 0 by {}
	lemma_owed(g.ths);
	assert(g.ths[i].owed >= 0);
	lemma_packed(h.d);
	assert forall|j: int| 0 <= j < h.ths.len() implies ({
		let t = #[trigger] h.ths[j];
		&&& t.total == h.total && 0 <= t.owed
		&&& t.stopped ==> !flg(h.f, TICKING)
		&&& t.over ==> h.base + asked(h.ths) >= h.total
	}) by { assert(g.ths[j].total == g.total); }
	if hi(h.d) == h.total && flg(h.f, TICKING) {
		if hi(g.d) == g.total {
			let k = choose|k: int| 0 <= k < g.ths.len() && (#[trigger] g.ths[k]).must_stop && !g.ths[k].stopped;
			assert(h.ths[k].must_stop && !h.ths[k].stopped);
		} else {
			assert(h.ths[i].must_stop && !h.ths[i].stopped);
		}
	}
	if !flg(h.f, TICKING) && hi(h.d) < h.total {
		if !flg(g.f, TICKING) {
			let k = choose|k: int| 0 <= k < g.ths.len() && (#[trigger] g.ths[k]).must_store;
			assert(h.ths[k].must_store);
		} else {
			assert(h.ths[i].must_store);
		}
	}
}
/// A bar that nobody has touched yet.
pub open spec fn untouched(g: All) -> bool {
	&&& 0 <= g.base < g.total && hi(g.d) == g.base && lo(g.d) == g.total && flg(g.f, TICKING)
	&&& forall|i: int| 0 <= i < g.ths.len() ==> #[trigger] g.ths[i] == (Th { total: g.total, asked: 0, owed: 0, taken: 0, over: false, stopped: false, must_store: false, must_stop: false })
}
pub open spec fn acts(g: All, h: Seq<Act>) -> All decreases h.len() { if h.len() == 0 { g } else { act(acts(g, h.drop_last()), h.last()) } }
pub open spec fn all_by_rules(g: All, h: Seq<Act>) -> bool decreases h.len() { h.len() == 0 || all_by_rules(g, h.drop_last()) && by_rules(acts(g, h.drop_last()), h.last()) }
proof fn lemma_untouched(ths: Seq<Th>)
	requires forall|i: int| 0 <= i < ths.len() ==> (#[trigger] ths[i]).owed == 0 && ths[i].asked == 0
	ensures owed(ths) == 0, asked(ths) == 0
	decreases ths.len()
{
	if ths.len() > 0 {
		let p = ths.drop_last();
		assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).owed == 0 && p[i].asked == 0 by { assert(p[i] == ths[i]); }
		lemma_untouched(p);
		assert(ths[ths.len() - 1].owed == 0);
	}
}
/// C08: whatever the threads and however their accesses interleave, once all are done the count is the sum of all increments, capped at the total, at which point (and only then) progress is stopped.
pub proof fn thm_c08(g: All, h: Seq<Act>)
	requires untouched(g), all_by_rules(g, h)
	ensures ({
		let e = acts(g, h);
		let sum = g.base + asked(e.ths);
		&&& fair(e) && e.base == g.base && e.total == g.total
		&&& (forall|i: int| 0 <= i < e.ths.len() ==> idle(#[trigger] e.ths[i])) ==> {
			&&& lo(e.d) == g.total
			&&& hi(e.d) == if sum < g.total { sum } else { g.total }
			&&& flg(e.f, TICKING) <==> sum < g.total
		}
	})
	decreases h.len()
{
	let e = acts(g, h);
	if h.len() == 0 {
		assert forall|i: int| 0 <= i < g.ths.len() implies (#[trigger] g.ths[i]).owed == 0 && g.ths[i].asked == 0 by {}
		lemma_untouched(g.ths);
	} else {
		thm_c08(g, h.drop_last());
		thm_c08_step(acts(g, h.drop_last()), h.last());
	}
	assert(fair(e));
	if forall|i: int| 0 <= i < e.ths.len() ==> idle(#[trigger] e.ths[i]) {
		assert forall|i: int| 0 <= i < e.ths.len() implies (#[trigger] e.ths[i]).owed >= 0 by {}
		lemma_owed(e.ths);
		if flg(e.f, TICKING) {
			assert forall|i: int| 0 <= i < e.ths.len() implies (#[trigger] e.ths[i]).owed == 0 by { assert(idle(e.ths[i])); }
		}
	}
}
}
@end
@fn ProglessInner::running
+props C08
+ret r
+params Tracked(t): Tracked<&mut Thr>
+sig
ensures exists|f: u8| final(t).st() == #[trigger] f_after(old(t).st(), f, f) && r == flg(f, TICKING),
+begin
proof { lemma_flags(); }
@fn ProglessInner::stop
+props C08
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+kind and_then result
+sig
requires old(t).st().over, !old(t).st().must_store, old(t).st().owed >= 0,
ensures
	({ let (a, b) = (old(t).st(), final(t).st()); b.over && b.stopped && !b.must_store && b.asked == a.asked && b.taken == a.taken && b.total == a.total && b.owed == a.owed }),
+begin
proof { lemma_flags(); lemma_packs(); lemma_all_packed(); }
@fn progless_task
+props C08
+ret r
+trusted
+sig
ensures r is Some <==> label(src@) is Some, r is Some ==> r->0@ == label(src@)->0,
@fn ProglessInner::add
+props C08
+ret r
+mutself
+params Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()),
ensures calm(old(t).st(), final(t).st()),
+begin
proof { lemma_flags(); }
@fn ProglessInner::increment_n
+props C08
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()),
ensures ({ let (a, b) = (old(t).st(), final(t).st()); idle(b) && b.asked == a.asked + n && b.taken == a.taken && b.total == a.total }),
+begin
proof { lemma_flags(); lemma_packs(); lemma_all_packed(); vx_asks(t, n as int); }
@fn ProglessInner::remove
+props C08
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+method remove vx_take
+callargs remove Tracked(t)
+sig
requires idle(old(t).st()),
ensures ({ let (a, b) = (old(t).st(), final(t).st()); idle(b) && b.asked - a.asked == b.taken - a.taken && b.taken - a.taken <= 1 && b.total == a.total }),
+begin
proof { lemma_flags(); }
@fn ProglessInner::set_title
+props C08
+mutself
+params Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()), title is Some ==> title->0.wf(),
ensures calm(old(t).st(), final(t).st()),
+begin
proof { lemma_flags(); }
@fn ProglessInner::set_title_msg
+props C08
+mutself
+params Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()),
ensures calm(old(t).st(), final(t).st()),
+begin
proof { lemma_flags(); }
@fn ProglessInner::tick_set_secs
+props C08
+ret r
+mutself
+params Tracked(t): Tracked<&mut Thr>
+sig
ensures final(t).st() == old(t).st(),
@fn ProglessInner::tick_set_drawable
+props C08
+ret r
+mutself
+params Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()),
ensures calm(old(t).st(), final(t).st()),
+begin
proof { lemma_flags(); }
@fn term_size
+props C08
+ret r
+trusted
+params Tracked(w): Tracked<&World>
+callargs terminal_size_of Tracked(w)
@fn ProglessInner::tick_set_size
+props C08
+ret r
+mutself
+params Tracked(w): Tracked<&World>, Tracked(t): Tracked<&mut Thr>
+callargs term_size Tracked(w)
+sig
requires idle(old(t).st()),
ensures calm(old(t).st(), final(t).st()),
+begin
proof { lemma_flags(); }
@fn ProglessInner::tick
+props C08
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+kind and_then result
+sig
requires idle(old(t).st()),
ensures calm(old(t).st(), final(t).st()),
+begin
proof { lemma_flags(); lemma_packs(); lemma_all_packed(); }
@fn ProglessInner::push_msg
+props C08
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+kind and_then result
+sig
requires idle(old(t).st()), msg.wf(),
ensures calm(old(t).st(), final(t).st()),
@fn Progless::increment
+props C08
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()),
ensures ({ let (a, b) = (old(t).st(), final(t).st()); idle(b) && b.asked == a.asked + 1 && b.taken == a.taken && b.total == a.total }),
@fn Progless::increment_n
+props C08
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+sig
requires idle(old(t).st()),
ensures ({ let (a, b) = (old(t).st(), final(t).st()); idle(b) && b.asked == a.asked + n && b.taken == a.taken && b.total == a.total }),
@fn Progless::remove
+props C08
+mutself
+params Tracked(w): Tracked<&mut World>, Tracked(t): Tracked<&mut Thr>
+callargs remove Tracked(w), Tracked(t)
+sig
requires idle(old(t).st()),
ensures ({ let (a, b) = (old(t).st(), final(t).st()); idle(b) && b.asked - a.asked == b.taken - a.taken && b.taken - a.taken <= 1 && b.total == a.total }),
