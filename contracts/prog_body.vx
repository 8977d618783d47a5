# Progress: counters, tasks, titles, ticks. What size a tick goes by is in prog.vx and progsig.vx (vgs::tick_size).
@include progbase.vx
@include frame_thm.vx
@include atomic.vx
@flag erase_mutex
@path u32::try_from vx_try_u32
@path Into VxInto
@method into vx_into
@item enum ProglessError #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@item struct ProglessInner
@item struct Progless
@assoc ProglessBuffer DEFAULT exec ensures blank(&ProglessBuffer::DEFAULT)
@raw
/// Trusted: integer conversions.
pub struct VxTryFromIntError { pub x: u8 }
#[verifier::external_body]
pub fn vx_try_u32<T: VxNum>(t: T) -> (r: Result<u32, VxTryFromIntError>)
	ensures r is Ok <==> 0 <= t.num() <= 0xffff_ffff, r is Ok ==> r->Ok_0 == t.num()
{ unimplemented!() }
impl VxNum for std::num::NonZeroU8 { open spec fn num(&self) -> int { self@ as int } }
impl VxNum for std::num::NonZeroU16 { open spec fn num(&self) -> int { self@ as int } }
impl VxNum for std::num::NonZeroU32 { open spec fn num(&self) -> int { self@ as int } }
impl VxNum for std::num::NonZeroU64 { open spec fn num(&self) -> int { self@ as int } }
impl VxNum for std::num::NonZeroUsize { open spec fn num(&self) -> int { self@ as int } }
impl VxNum for std::num::NonZeroU128 { open spec fn num(&self) -> int { self@ as int } }
/// A conversion into a message.
pub trait VxInto<T>: Sized {
	spec fn iparts(&self) -> Seq<Seq<char>>;
	fn vx_into(self) -> (r: Msg) ensures r.wf(), r.parts() == self.iparts();
}
pub use vft::no_breaks;
pub use vg::*;
pub mod vg {
use vstd::prelude::*;
use super::*;
/// Tasks without line breaks, if their set is of such.
pub proof fn lemma_members(d: Seq<Seq<char>>, e: Seq<Seq<char>>, x: Seq<char>)
	requires no_breaks(d), forall|y: Seq<char>| #[trigger] e.contains(y) ==> d.contains(y) || y == x, forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '\n'
	ensures no_breaks(e)
{
	assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e[i].len() implies #[trigger] e[i][j] != '\n' by {
		assert(e.contains(e[i]));
		if d.contains(e[i]) { let k = choose|k: int| 0 <= k < d.len() && d[k] == e[i]; assert(d[k][j] != '\n'); }
	}
}
pub proof fn lemma_no_members(d: Seq<Seq<char>>)
	ensures d.len() == 0 <==> d.to_set() == Set::<Seq<char>>::empty()
{
	if d.len() == 0 { assert(d.to_set() =~= Set::<Seq<char>>::empty()); }
	else { assert(d.contains(d[0])); assert(d.to_set().contains(d[0])); }
}
/// A task more.
pub proof fn lemma_added(d: Seq<Seq<char>>, e: Seq<Seq<char>>, x: Seq<char>)
	requires no_breaks(d), forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '\n'
	ensures
		e.to_set() == d.to_set().insert(x) ==> no_breaks(e),
		d.contains(x) ==> d.to_set().insert(x) == d.to_set(),
		d.to_set().contains(x) <==> d.contains(x),
{
	if e.to_set() == d.to_set().insert(x) {
		assert forall|y: Seq<char>| #[trigger] e.contains(y) implies d.contains(y) || y == x by { assert(e.to_set().contains(y)); if y != x { assert(d.to_set().contains(y)); } }
		lemma_members(d, e, x);
	}
	if d.contains(x) { assert(d.to_set().insert(x) =~= d.to_set()); }
}
/// A task less.
pub proof fn lemma_removed(d: Seq<Seq<char>>, e: Seq<Seq<char>>, x: Seq<char>)
	requires no_breaks(d)
	ensures
		e.to_set() == d.to_set().remove(x) ==> no_breaks(e),
		d.to_set().contains(x) <==> d.contains(x),
{
	if e.to_set() == d.to_set().remove(x) {
		assert forall|y: Seq<char>| #[trigger] e.contains(y) implies d.contains(y) || y == seq![] by { assert(e.to_set().contains(y)); assert(d.to_set().contains(y)); }
		lemma_members(d, e, seq![]);
	}
}
/// The state of a progress bar, as far as operations see it.
pub ghost struct St { pub run: bool, pub done: int, pub total: int, pub doing: Set<Seq<char>> }
pub ghost enum Op { Stop, Inc(int), SetDone(int), Add(Seq<char>), Remove(Seq<char>), Reset(int), Look }
pub open spec fn stopped(s: St) -> St { if s.run { St { run: false, done: s.total, total: s.total, doing: Set::empty() } } else { s } }
pub open spec fn inc(s: St, n: int) -> St {
	if !s.run || n == 0 { s } else if s.done + n < s.total { St { done: s.done + n, ..s } } else { stopped(s) }
}
/// The active task that a label removes.
pub open spec fn removes(s: St, t: Seq<char>) -> Option<Seq<char>> {
	if s.doing.contains(rtrim(t)) { Some(rtrim(t)) }
	else if label(t) is Some && s.doing.contains(label(t)->0) { label(t) }
	else { None }
}
pub open spec fn step(s: St, o: Op) -> St {
	match o {
		Op::Stop => stopped(s),
		Op::Inc(n) => inc(s, n),
		Op::SetDone(n) => if !s.run || n == s.done { s } else if n < s.total { St { done: n, ..s } } else { stopped(s) },
		Op::Add(t) => if s.run && label(t) is Some { St { doing: s.doing.insert(label(t)->0), ..s } } else { s },
		Op::Remove(t) => if s.run && removes(s, t) is Some { inc(St { doing: s.doing.remove(removes(s, t)->0), ..s }, 1) } else { s },
		Op::Reset(n) => St { run: true, done: 0, total: n, doing: if s.run { Set::empty() } else { s.doing } },
		Op::Look => s,
	}
}
/// Usable columns and rows of a terminal.
pub open spec fn usable(s: Option<(u16, u16)>) -> Option<(int, int)> {
	match s {
		Some((c, r)) if c >= 2 && r >= 2 => Some((clamp(c - 1, 255), clamp(r as int, 255) - 1)),
		_ => None,
	}
}
pub open spec fn title_of(t: Option<Msg>) -> Option<Seq<char>> { match t { Some(m) => Some(m.text()), None => None } }
/// Without a line break of its own.
pub open spec fn no_newline(p: Seq<Seq<char>>) -> Seq<Seq<char>> { p.update(TocId::Newline as int, seq![]) }
pub open spec fn full_frame(t: Option<Seq<char>>, d: Seq<Seq<char>>, secs: int, done: int, total: int, w: int, h: int) -> Seq<u8> {
	let title = title_text(t, w, h);
	let titled = title.len() > 0;
	let s = bar_space(w, done, total);
	let f = bar_filled(w, done, total);
	frame_full(
		title,
		status_text(uclock(secs), rep(35, f), rep(45, s - f), unice(done), unice(total), upct(ratio(done, total))),
		tasks_text(d, titled, w, h),
		clamp(tasks_drawn(d, titled, w, h) + (if titled { 1int } else { 0 }), 255)
	)
}
/// What a tick draws.
pub open spec fn drawing(t: Option<Seq<char>>, d: Seq<Seq<char>>, secs: int, done: int, total: int, w: int, h: int) -> Seq<u8> {
	if w < 10 { cls() }
	else if w < 40 { frame_small(upct(ratio(done, total))) }
	else { full_frame(t, d, secs, done, total, w, h) }
}
pub open spec fn blank(b: &ProglessBuffer) -> bool {
	b.title@.len() == 0 && b.elapsed.secs() == 0 && b.bar_done@.len() == 0 && b.bar_undone@.len() == 0 && b.done.bytes() == unice(0) && b.total.bytes() == unice(0) && b.percent.bytes() == upct(0.0f32) && b.doing@.len() == 0 && b.lines_doing == 0
}
impl ProglessInner {
	pub open spec fn run(&self) -> bool { flg(self.flags.v, TICKING) }
	pub open spec fn fl(&self, b: u8) -> bool { flg(self.flags.v, b) }
	pub open spec fn done(&self) -> int { hi(self.done_total.v) }
	pub open spec fn total(&self) -> int { lo(self.done_total.v) }
	pub open spec fn w(&self) -> int { self.last_size.v as int % 256 }
	pub open spec fn h(&self) -> int { self.last_size.v as int / 256 }
	pub open spec fn st(&self) -> St { St { run: self.run(), done: self.done(), total: self.total(), doing: self.doing.set() } }
	/// What is not marked as changed is in the buffer.
	pub open spec fn sync(&self) -> bool {
		let (d, t, w, h) = (self.done(), self.total(), self.w(), self.h());
		&&& !self.fl(TICK_DONE) ==> self.buf.done.bytes() == unice(d)
		&&& !self.fl(TICK_TOTAL) ==> self.buf.total.bytes() == unice(t)
		&&& !self.fl(TICK_DONE) && !self.fl(TICK_TOTAL) ==> self.buf.percent.bytes() == upct(ratio(d, t))
		&&& !self.fl(TICK_DONE) && !self.fl(TICK_TOTAL) && !self.fl(TICK_BAR) ==> self.buf.bar_done@ == rep(35, bar_filled(w, d, t)) && self.buf.bar_undone@ == rep(45, bar_space(w, d, t) - bar_filled(w, d, t))
		&&& !self.fl(TICK_TITLE) ==> self.buf.title@ == title_text(title_of(self.title), w, h)
		&&& !self.fl(TICK_DOING) ==> self.buf.doing@ == tasks_text(self.doing.view(), self.buf.title@.len() > 0, w, h) && self.buf.lines_doing == tasks_drawn(self.doing.view(), self.buf.title@.len() > 0, w, h)
	}
	pub open spec fn inv(&self) -> bool {
		&&& self.run() ==> self.done() < self.total() && self.sync()
		&&& !self.run() ==> self.doing.view().len() == 0
		&&& self.done() <= self.total() && 1 <= self.total()
		&&& no_breaks(self.doing.view())
		&&& self.title is Some ==> self.title->0.wf()
	}
	/// The same counters, tasks and title.
	pub open spec fn same(&self, o: &ProglessInner) -> bool { self.run() == o.run() && self.done_total == o.done_total && self.doing == o.doing && self.title == o.title }
	/// Nothing marked as changed.
	pub open spec fn calm(&self) -> bool { !self.fl(TICK_DONE) && !self.fl(TICK_TOTAL) && !self.fl(TICK_BAR) && !self.fl(TICK_TITLE) && !self.fl(TICK_DOING) }
	pub open spec fn draws(&self, w: int, h: int) -> Seq<u8> { drawing(title_of(self.title), self.doing.view(), self.buf.elapsed.secs(), self.done(), self.total(), w, h) }
}
/// A tick.
pub open spec fn ticked(s0: &ProglessInner, s1: &ProglessInner, w0: &World, w1: &World, force: bool) -> bool {
	&&& s1.inv() && s1.same(s0)
	&&& !s0.run() ==> *s1 == *s0 && *w1 == *w0
	&&& s0.run() ==> match tick_size(s0, w0) {
		Some((w, h)) => {
			||| *w1 == *w0 && !force && s0.calm() && s1.calm() && w >= 10
			||| wrote(w0, w1, true, s1.draws(w, h))
		},
		None => *w1 == *w0,
	}
}
/// The text of a message with one line break.
pub open spec fn lined(m: Msg) -> Seq<char> { flat(m.parts().update(TocId::Newline as int, seq!['\n'])) }
/// What may follow a message: nothing, or a frame for the size of the screen.
pub open spec fn redrawn(s: &ProglessInner, d: Seq<u8>) -> bool { d.len() == 0 || exists|w: int, h: int| d == #[trigger] s.draws(w, h) }
pub proof fn lemma_pushed(s0: &ProglessInner, s1: &ProglessInner, w0: &World, wm: &World, w1: &World, b: Seq<u8>)
	requires wrote(w0, wm, true, b), s0.run(), ticked(s0, s1, wm, w1, true)
	ensures exists|d: Seq<u8>| #[trigger] redrawn(s1, d) && wrote(w0, w1, true, b + d)
{
	if *w1 == *wm {
		assert(b + Seq::<u8>::empty() =~= b);
		assert(redrawn(s1, Seq::<u8>::empty()) && wrote(w0, w1, true, b + Seq::<u8>::empty()));
	} else {
		let (w, h) = tick_size(s0, wm)->0;
		let d = s1.draws(w, h);
		assert(redrawn(s1, d));
		if w0.up() {
			lemma_out(w0.log(), true, w0.pend(true) + b, d);
			assert(w0.pend(true) + b + d =~= w0.pend(true) + (b + d));
			assert(Seq::<u8>::empty() + d =~= d);
		}
		assert(wrote(w0, w1, true, b + d));
	}
}
/// A new progress bar.
pub open spec fn fresh(r: &ProglessInner, n: int) -> bool {
	&&& r.inv() && r.run() && r.done() == 0 && r.total() == n && r.doing.view().len() == 0 && r.title is None
}
pub open spec fn tried(r: Result<ProglessInner, ProglessError>, n: int) -> bool {
	if 1 <= n <= 0xffff_ffff { r is Ok && fresh(&r->Ok_0, n) }
	else if n == 0 { r is Err && r->Err_0 == ProglessError::EmptyTotal }
	else { r is Err && r->Err_0 == ProglessError::TotalOverflow }
}
pub open spec fn outer_tried(r: Result<Progless, ProglessError>, n: int) -> bool {
	if 1 <= n <= 0xffff_ffff { r is Ok && fresh(&r->Ok_0.inner, n) }
	else if n == 0 { r is Err && r->Err_0 == ProglessError::EmptyTotal }
	else { r is Err && r->Err_0 == ProglessError::TotalOverflow }
}
/// What a new progress bar consists of.
pub open spec fn newish(r: &ProglessInner) -> bool {
	&&& blank(&r.buf) && r.flags.v == TICK_NEW && r.last_size.v == 0 && r.doing.view().len() == 0 && r.title is None && r.done_total.v < 0x1_0000_0000 && r.done_total.v > 0
}
pub broadcast proof fn lemma_newish(r: &ProglessInner)
	requires newish(r)
	ensures #[trigger] r.inv(), r.run(), r.done() == 0, r.total() == r.done_total.v
{
	lemma_packs(); lemma_flags();
	let v = r.done_total.v;
	assert(hi(v) == 0 && lo(v) == v);
	assert(r.title is None);
	assert(r.buf.title@ =~= title_text(title_of(r.title), 0, 0));
	assert(r.doing.view() =~= seq![]);
	assert(r.buf.doing@ =~= tasks_text(r.doing.view(), false, 0, 0)) by { reveal_with_fuel(task_lines, 1); }
}
pub broadcast proof fn lemma_idle(r: &ProglessInner)
	requires r.flags.v == 0, r.doing.view().len() == 0, r.title is None, r.done_total.v < 0x1_0000_0000, r.done_total.v > 0
	ensures #[trigger] r.inv(), !r.run(), r.done() == 0, r.total() == r.done_total.v
{
	lemma_packs(); lemma_flags();
	let v = r.done_total.v;
	assert(hi(v) == 0 && lo(v) == v);
}
}
/// A new total, by infallible and fallible conversion.
pub trait VxFromTotal<T: VxNum>: Sized {
	spec fn from_ok(t: T, r: Self) -> bool;
	fn vx_from(total: T) -> (r: Self) ensures Self::from_ok(total, r);
}
pub trait VxTryTotal<T: VxNum>: Sized {
	spec fn try_ok(t: T, r: Result<Self, ProglessError>) -> bool;
	fn vx_try_from(total: T) -> (r: Result<Self, ProglessError>) ensures Self::try_ok(total, r);
}
@end
@fn ProglessInner as Default::default
+props C07 C13
+ret r
+sig
ensures
	r.inv(), !r.run(), r.done() == 0, r.total() == 1, r.doing.view().len() == 0, r.title is None, blank(&r.buf), r.last_size.v == 0, r.flags.v == 0,
+begin
broadcast use lemma_newish, lemma_idle;
@raw
impl VxFromTotal<NonZeroU8> for ProglessInner {
	open spec fn from_ok(t: NonZeroU8, r: Self) -> bool { fresh(&r, t.num()) }
@end
@fn ProglessInner as From<NonZeroU8>::from
+as vx_from
+bare
+props C07 C13
+ret r
+begin
broadcast use lemma_newish, lemma_idle;
@raw
}
@end
@raw
impl VxFromTotal<NonZeroU16> for ProglessInner {
	open spec fn from_ok(t: NonZeroU16, r: Self) -> bool { fresh(&r, t.num()) }
@end
@fn ProglessInner as From<NonZeroU16>::from
+as vx_from
+bare
+props C07 C13
+ret r
+begin
broadcast use lemma_newish, lemma_idle;
@raw
}
@end
@raw
impl VxFromTotal<NonZeroU32> for ProglessInner {
	open spec fn from_ok(t: NonZeroU32, r: Self) -> bool { fresh(&r, t.num()) }
@end
@fn ProglessInner as From<NonZeroU32>::from
+as vx_from
+bare
+props C07 C13
+ret r
+begin
broadcast use lemma_newish, lemma_idle;
@raw
}
@end
@raw
impl VxTryTotal<NonZeroU64> for ProglessInner {
	open spec fn try_ok(t: NonZeroU64, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<NonZeroU64>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
+begin
broadcast use lemma_newish, lemma_idle;
@raw
}
@end
@raw
impl VxTryTotal<NonZeroUsize> for ProglessInner {
	open spec fn try_ok(t: NonZeroUsize, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<NonZeroUsize>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
+begin
broadcast use lemma_newish, lemma_idle;
@raw
}
@end
@raw
impl VxTryTotal<NonZeroU128> for ProglessInner {
	open spec fn try_ok(t: NonZeroU128, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<NonZeroU128>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
+begin
broadcast use lemma_newish, lemma_idle;
@raw
}
@end
@raw
impl VxTryTotal<u8> for ProglessInner {
	open spec fn try_ok(t: u8, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<u8>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u16> for ProglessInner {
	open spec fn try_ok(t: u16, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<u16>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u64> for ProglessInner {
	open spec fn try_ok(t: u64, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<u64>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<usize> for ProglessInner {
	open spec fn try_ok(t: usize, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<usize>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u128> for ProglessInner {
	open spec fn try_ok(t: u128, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<u128>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i8> for ProglessInner {
	open spec fn try_ok(t: i8, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<i8>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i16> for ProglessInner {
	open spec fn try_ok(t: i16, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<i16>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i32> for ProglessInner {
	open spec fn try_ok(t: i32, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<i32>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i64> for ProglessInner {
	open spec fn try_ok(t: i64, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<i64>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<isize> for ProglessInner {
	open spec fn try_ok(t: isize, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<isize>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i128> for ProglessInner {
	open spec fn try_ok(t: i128, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<i128>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u32> for ProglessInner {
	open spec fn try_ok(t: u32, r: Result<Self, ProglessError>) -> bool { tried(r, t.num()) }
@end
@fn ProglessInner as TryFrom<u32>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl<T: VxNum> VxFromTotal<T> for Progless where ProglessInner: VxFromTotal<T> {
	open spec fn from_ok(t: T, r: Self) -> bool { <ProglessInner as VxFromTotal<T>>::from_ok(t, r.inner) }
@end
@fn Progless as From<T>::from
+as vx_from
+bare
+props C07 C13
+ret r
+path ProglessInner::from ProglessInner::vx_from
@raw
}
@end
@raw
impl VxTryTotal<u8> for Progless {
	open spec fn try_ok(t: u8, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<u8>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u16> for Progless {
	open spec fn try_ok(t: u16, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<u16>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u64> for Progless {
	open spec fn try_ok(t: u64, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<u64>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<usize> for Progless {
	open spec fn try_ok(t: usize, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<usize>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u128> for Progless {
	open spec fn try_ok(t: u128, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<u128>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i8> for Progless {
	open spec fn try_ok(t: i8, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<i8>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i16> for Progless {
	open spec fn try_ok(t: i16, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<i16>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i32> for Progless {
	open spec fn try_ok(t: i32, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<i32>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i64> for Progless {
	open spec fn try_ok(t: i64, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<i64>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<isize> for Progless {
	open spec fn try_ok(t: isize, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<isize>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<i128> for Progless {
	open spec fn try_ok(t: i128, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<i128>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<u32> for Progless {
	open spec fn try_ok(t: u32, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<u32>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<NonZeroU64> for Progless {
	open spec fn try_ok(t: NonZeroU64, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<NonZeroU64>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<NonZeroUsize> for Progless {
	open spec fn try_ok(t: NonZeroUsize, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<NonZeroUsize>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@raw
impl VxTryTotal<NonZeroU128> for Progless {
	open spec fn try_ok(t: NonZeroU128, r: Result<Self, ProglessError>) -> bool { outer_tried(r, t.num()) }
@end
@fn Progless as TryFrom<NonZeroU128>::try_from
+as vx_try_from
+bare
+props C13
+ret r
+rettype Result<Self, ProglessError>
+path ProglessInner::try_from ProglessInner::vx_try_from
+path Self::try_from Self::vx_try_from
+path Self::from Self::vx_from
+kind and_then result
+kind map result
@raw
}
@end
@fn ProglessInner::running
+props C07
+ret r
+sig
ensures r == self.run(),
+begin
proof { lemma_flags(); }
@fn ProglessInner::stop
+props C07
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs write_all Tracked(w)
+callargs flush Tracked(w)
+kind and_then result
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == stopped(old(self).st()), final(self).title == old(self).title,
	!old(self).run() ==> *final(w) == *old(w),
	old(self).run() ==> wrote(old(w), final(w), true, cls()),
+begin
proof { lemma_flags(); lemma_packs(); lemma_packed(self.done_total.v); lemma_no_members(self.doing.view()); }
+end
proof { lemma_no_members(self.doing.view()); }
@fn progless_task
+props C11
+ret r
+sig
ensures r is Some <==> label(src@) is Some, r is Some ==> r->0@ == label(src@)->0,
+begin
hide(clean); hide(vis); hide(rtrim); hide(vstd::std_specs::char::is_white_space);
broadcast use lemma_next_vis;
proof { lemma_clean_none(); lemma_label_none(src@); }
let ghost vx_s = rtrim(src@);
let ghost mut vx_seen: Seq<char> = seq![];
+loop 0
invariant
	vx_it0.wf(), vx_it0.src() == vx_s, 0 <= vx_it0.k() <= vx_s.len(),
	vis(vx_s, 0) =~= vx_seen + vis(vx_s, vx_it0.k()),
	out@ == clean(vx_seen),
decreases vx_s.len() - vx_it0.k(),
+loopbegin 0
proof {
	lemma_clean_push(vx_seen, c);
	vx_seen = vx_seen.push(c);
}
@fn ProglessInner::add
+props C07 C11
+ret r
+mutself
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == step(old(self).st(), Op::Add(txt@)), final(self).title == old(self).title,
	r <==> old(self).run() && label(txt@) is Some && !old(self).doing.view().contains(label(txt@)->0),
+begin
proof { lemma_flags(); lemma_stored(txt@); }
+end
proof { lemma_added(old(self).doing.view(), self.doing.view(), stored(txt@)); }
@fn ProglessInner::increment_n
+props C07
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs stop Tracked(w)
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == step(old(self).st(), Op::Inc(n as int)), final(self).title == old(self).title,
+begin
proof { lemma_flags(); lemma_packs(); lemma_packed(self.done_total.v); }
@fn ProglessInner::remove
+props C07 C11
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs increment_n Tracked(w)
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == step(old(self).st(), Op::Remove(txt@)), final(self).title == old(self).title,
+begin
proof { lemma_flags(); lemma_rtrim2(txt@); }
+before increment_n#0
proof {
	let l = if old(self).doing.view().contains(rtrim(txt@)) { rtrim(txt@) } else { stored(txt@) };
	lemma_removed(old(self).doing.view(), self.doing.view(), l);
}
@fn ProglessInner::reset
+props C07 C13
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs stop Tracked(w)
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == step(old(self).st(), Op::Reset(total@ as int)), final(self).title == old(self).title,
+begin
proof { lemma_flags(); lemma_packs(); lemma_no_members(self.doing.view()); lemma_reset_flags(); }
@fn ProglessInner::set_done
+props C07
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs stop Tracked(w)
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == step(old(self).st(), Op::SetDone(done as int)), final(self).title == old(self).title,
+begin
proof { lemma_flags(); lemma_packs(); lemma_packed(self.done_total.v); }
@fn ProglessInner::set_title
+props C10 C07
+mutself
+sig
requires old(self).inv(), title is Some ==> title->0.wf(),
ensures
	final(self).inv(), final(self).st() == old(self).st(),
	final(self).title is Some <==> title is Some,
	title is Some ==> final(self).title->0.parts() == no_newline(title->0.parts()),
+begin
proof { lemma_flags(); }
@fn ProglessInner::set_title_msg
+props C10 C07
+mutself
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).st() == old(self).st(),
	final(self).title is Some <==> old(self).title is Some,
	old(self).title is Some ==> final(self).title->0.parts() == old(self).title->0.parts().update(TocId::Message as int, msg@),
+begin
proof { lemma_flags(); }
@fn ProglessInner::tick_set_secs
+props C09 C10 C19
+ret r
+mutself
+sig
ensures
	*final(self) == (ProglessInner { elapsed: final(self).elapsed, buf: ProglessBuffer { elapsed: final(self).buf.elapsed, ..old(self).buf }, ..*old(self) }),
@fn ProglessInner::tick_set_drawable
+props C09 C10 C19
+ret r
+mutself
+sig
requires old(self).inv(),
ensures
	*final(self) == (ProglessInner { flags: final(self).flags, elapsed: final(self).elapsed, buf: ProglessBuffer { elapsed: final(self).buf.elapsed, ..old(self).buf }, ..*old(self) }),
	final(self).calm(), final(self).run() == old(self).run(),
	r is None ==> old(self).calm(),
	r is Some ==> {
		&&& flg(r->0, TICK_DONE) == old(self).fl(TICK_DONE) && flg(r->0, TICK_TOTAL) == old(self).fl(TICK_TOTAL) && flg(r->0, TICK_BAR) == old(self).fl(TICK_BAR)
		&&& flg(r->0, TICK_TITLE) == old(self).fl(TICK_TITLE) && flg(r->0, TICK_DOING) == old(self).fl(TICK_DOING)
	},
+begin
proof { lemma_flags(); }
@fn term_size
+props C09 C10
+ret r
+params Tracked(w): Tracked<&World>
+callargs terminal_size_of Tracked(w)
+sig
ensures
	r is Some <==> usable(w.size()) is Some,
	r is Some ==> ((r->0).0)@ == (usable(w.size())->0).0 && ((r->0).1)@ == (usable(w.size())->0).1,
@fn ProglessInner::tick
+props C09 C10 C19
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs tick_set_size Tracked(&*w)
+callargs write_all Tracked(w)
+callargs flush Tracked(w)
+callargs print Tracked(w)
+kind and_then result
+sig
requires old(self).inv(),
ensures
	ticked(old(self), final(self), old(w), final(w), force),
	r == old(self).run(),
+begin
proof { lemma_flags(); lemma_packed(self.done_total.v); }
@fn ProglessInner::push_msg
+props C19
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs write_all Tracked(w)
+callargs flush Tracked(w)
+callargs tick Tracked(w)
+callargs eprint Tracked(w)
+kind and_then result
+sig
requires old(self).inv(), msg.wf(),
ensures
	final(self).inv(), final(self).same(old(self)),
	!old(self).run() ==> wrote(old(w), final(w), true, encode_utf8(lined(msg))) && r is Ok,
	old(w).up() ==> r is Ok,
	old(self).run() ==> exists|d: Seq<u8>| #[trigger] redrawn(final(self), d) && wrote(old(w), final(w), true, cls() + encode_utf8(lined(msg)) + d),
+begin
let ghost (vx_t, vx_w0) = (encode_utf8(lined(msg)), *w);
+after with_newline#0
proof { thm_c01_text(&msg); }
+before tick#0
let ghost (vx_s, vx_w) = (*self, *w);
proof { assert(vx_w0.pend(true) + (cls() + vx_t) =~= vx_w0.pend(true) + cls() + vx_t); }
+after tick#0
proof { lemma_pushed(&vx_s, self, &vx_w0, &vx_w, w, cls() + vx_t); }
@fn Progless::add
+props C07 C11
+ret r
+mutself
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::Add(txt.text())), final(self).inner.title == old(self).inner.title,
	r <==> old(self).inner.run() && label(txt.text()) is Some && !old(self).inner.doing.view().contains(label(txt.text())->0),
@fn Progless::remove
+props C07 C11
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs remove Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::Remove(txt.text())), final(self).inner.title == old(self).inner.title,
@fn Progless::increment
+props C07
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs increment_n Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::Inc(1)), final(self).inner.title == old(self).inner.title,
@fn Progless::increment_n
+props C07
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs increment_n Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::Inc(n as int)), final(self).inner.title == old(self).inner.title,
@fn Progless::set_done
+props C07
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs set_done Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::SetDone(done as int)), final(self).inner.title == old(self).inner.title,
@fn Progless::reset
+props C07 C13
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs reset Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::Reset(total@ as int)), final(self).inner.title == old(self).inner.title,
@fn Progless::try_reset
+props C07 C13
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs reset Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.title == old(self).inner.title,
	total == 0 ==> r == Err::<(), ProglessError>(ProglessError::EmptyTotal) && final(self).inner.st() == old(self).inner.st(),
	total != 0 ==> r is Ok && final(self).inner.st() == step(old(self).inner.st(), Op::Reset(total as int)),
@fn Progless::finish
+props C07
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs stop Tracked(w)
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == step(old(self).inner.st(), Op::Stop), final(self).inner.title == old(self).inner.title,
	!old(self).inner.run() ==> *final(w) == *old(w),
@fn Progless::push_msg
+props C19
+ret r
+mutself
+params Tracked(w): Tracked<&mut World>
+callargs push_msg Tracked(w)
+sig
requires old(self).inner.inv(), msg.wf(),
ensures
	final(self).inner.inv(), final(self).inner.same(&old(self).inner),
	!old(self).inner.run() ==> wrote(old(w), final(w), true, encode_utf8(lined(msg))) && r is Ok,
	old(w).up() ==> r is Ok,
	old(self).inner.run() ==> exists|d: Seq<u8>| #[trigger] redrawn(&final(self).inner, d) && wrote(old(w), final(w), true, cls() + encode_utf8(lined(msg)) + d),
@fn Progless::set_title
+props C10 C07
+mutself
+kind and_then option
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == old(self).inner.st(), titled(&final(self).inner, match title { Some(m) => Some(m.iparts()), None => None }),
+after into#0
proof { thm_c01_text(&m); assert(m.text().len() == 0 ==> m.text() =~= Seq::<char>::empty()); }
@fn Progless::with_title
+props C10 C07
+ret r
+mutself
+kind and_then option
+sig
requires self.inner.inv(),
ensures
	r.inner.inv(), r.inner.st() == self.inner.st(), titled(&r.inner, match title { Some(m) => Some(m.iparts()), None => None }),
+after into#0
proof { thm_c01_text(&m); assert(m.text().len() == 0 ==> m.text() =~= Seq::<char>::empty()); }
@fn Progless::set_title_msg
+props C10 C07
+mutself
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == old(self).inner.st(),
	final(self).inner.title is Some <==> old(self).inner.title is Some,
	old(self).inner.title is Some ==> final(self).inner.title->0.parts() == old(self).inner.title->0.parts().update(TocId::Message as int, msg@),
@fn Progless::set_reticulating_splines
+props C10 C07
+mutself
+sig
requires old(self).inner.inv(),
ensures
	final(self).inner.inv(), final(self).inner.st() == old(self).inner.st(), final(self).inner.title is Some,
@fn Progless::with_reticulating_splines
+props C10 C07
+ret r
+mutself
+sig
requires self.inner.inv(),
ensures
	r.inner.inv(), r.inner.st() == self.inner.st(), r.inner.title is Some,
@raw
/// The title that was set.
pub open spec fn titled(p: &ProglessInner, t: Option<Seq<Seq<char>>>) -> bool {
	match t {
		Some(x) if flat(x).len() > 0 => p.title is Some && p.title->0.parts() == no_newline(x),
		_ => p.title is None,
	}
}
pub use vgt::*;
pub mod vgt {
use vstd::prelude::*;
use super::*;
/// A bar made for a total, after any operations.
pub open spec fn sound(s: St) -> bool {
	&&& 0 <= s.done <= s.total
	&&& s.run ==> s.done < s.total
	&&& !s.run ==> s.done == s.total && s.doing == Set::<Seq<char>>::empty()
}
pub open spec fn valid(o: Op) -> bool {
	match o { Op::Inc(n) => n >= 0, Op::SetDone(n) => n >= 0, Op::Reset(n) => n >= 1, _ => true }
}
pub open spec fn history(s: St, o: Seq<Op>) -> St decreases o.len() { if o.len() == 0 { s } else { step(history(s, o.drop_last()), o.last()) } }
pub open spec fn made(total: int) -> St { St { run: true, done: 0, total, doing: Set::empty() } }
/// C07: the count follows the operations and stops exactly at the total, whatever came before.
pub proof fn thm_c07(total: int, h: Seq<Op>)
	requires 1 <= total, forall|i: int| 0 <= i < h.len() ==> valid(#[trigger] h[i])
	ensures ({
		let s = history(made(total), h);
		&&& sound(s)
		&&& forall|n: int| n >= 0 ==> {
			let t = #[trigger] step(s, Op::Inc(n));
			&&& s.run && s.done + n < s.total ==> t == (St { done: s.done + n, ..s })
			&&& s.run && s.done + n >= s.total ==> !t.run && t.done == s.total && t.total == s.total && t.doing == Set::<Seq<char>>::empty()
			&&& n == 0 ==> t == s
		}
		&&& forall|n: int| n >= 0 ==> {
			let t = #[trigger] step(s, Op::SetDone(n));
			&&& s.run && n < s.total ==> t == (St { done: n, ..s })
			&&& s.run && n >= s.total ==> !t.run && t.done == s.total && t.total == s.total && t.doing == Set::<Seq<char>>::empty()
		}
		&&& !step(s, Op::Stop).run && step(s, Op::Stop).done == s.total
		&&& !s.run ==> forall|o: Op| !(o is Reset) ==> #[trigger] step(s, o) == s
		&&& forall|n: int| n >= 1 ==> #[trigger] step(s, Op::Reset(n)) == made(n)
	})
	decreases h.len()
{
	if h.len() > 0 {
		let p = h.drop_last();
		assert forall|i: int| 0 <= i < p.len() implies valid(#[trigger] p[i]) by { assert(p[i] == h[i]); }
		thm_c07(total, p);
		assert(valid(h[h.len() - 1]));
	}
}
/// C07: a new bar is made for its total.
pub proof fn thm_c07_new(r: &ProglessInner, n: int)
	requires fresh(r, n)
	ensures r.st() == made(n), r.inv()
{ lemma_no_members(r.doing.view()); }
/// C07: the state of a bar is that of its counters, and a total is never exceeded.
pub proof fn thm_c07_state(r: &ProglessInner)
	requires r.inv()
	ensures r.st().done <= r.st().total, r.st().run ==> r.st().done < r.st().total, !r.st().run ==> r.st().doing == Set::<Seq<char>>::empty()
{ lemma_no_members(r.doing.view()); }
/// A character as stored.
pub open spec fn tidy(c: char) -> bool { c == ' ' || !ws(c) && !ctl(c) }
proof fn lemma_plain(s: Seq<char>)
	ensures forall|i: int| 0 <= i < clean(s).len() ==> tidy(#[trigger] clean(s)[i])
	decreases s.len()
{
	if s.len() > 0 {
		lemma_plain(s.drop_last());
		let p = clean(s.drop_last());
		assert forall|i: int| 0 <= i < clean(s).len() implies tidy(#[trigger] clean(s)[i]) by { if i < p.len() { assert(clean(s)[i] == p[i]); } }
	}
}
proof fn lemma_keeps(s: Seq<char>)
	requires forall|i: int| 0 <= i < s.len() ==> tidy(#[trigger] s[i])
	ensures clean(s) == s
	decreases s.len()
{
	if s.len() > 0 {
		let p = s.drop_last();
		assert forall|i: int| 0 <= i < p.len() implies tidy(#[trigger] p[i]) by { assert(p[i] == s[i]); }
		lemma_keeps(p);
		assert(tidy(s[s.len() - 1]));
		assert(clean(s) =~= s);
	}
	else { assert(clean(s) =~= s); }
}
/// C11: a stored label has no white space other than spaces and no control character, and a label without any of these is kept.
pub proof fn thm_c11_label(s: Seq<char>)
	ensures
		label(s) is Some ==> (label(s)->0).len() > 0 && forall|i: int| 0 <= i < (label(s)->0).len() ==> tidy(#[trigger] (label(s)->0)[i]),
		label(s) is None <==> stored(s).len() == 0,
		label(s) == label(rtrim(s)),
		(forall|i: int| 0 <= i < vis(rtrim(s), 0).len() ==> tidy(#[trigger] vis(rtrim(s), 0)[i])) ==> stored(s) == vis(rtrim(s), 0),
{
	lemma_plain(vis(rtrim(s), 0));
	lemma_rtrim2(s);
	if forall|i: int| 0 <= i < vis(rtrim(s), 0).len() ==> tidy(#[trigger] vis(rtrim(s), 0)[i]) { lemma_keeps(vis(rtrim(s), 0)); }
}
/// C11: every active label is tracked once, and adding and removing change that one label.
pub proof fn thm_c11_tasks(s: St, t: Seq<char>)
	requires sound(s)
	ensures
		s.run && label(t) is Some ==> {
			&&& step(s, Op::Add(t)).doing == s.doing.insert(label(t)->0)
			&&& s.doing.contains(label(t)->0) ==> step(s, Op::Add(t)) == s
			&&& step(s, Op::Add(t)).done == s.done
		},
		!s.run || label(t) is None ==> step(s, Op::Add(t)) == s,
		s.run ==> match removes(s, t) {
			Some(l) => {
				&&& s.doing.contains(l)
				&&& s.done + 1 < s.total ==> step(s, Op::Remove(t)) == (St { done: s.done + 1, doing: s.doing.remove(l), ..s })
				&&& s.done + 1 == s.total ==> step(s, Op::Remove(t)) == stopped(s)
			},
			None => step(s, Op::Remove(t)) == s && !s.doing.contains(rtrim(t)) && (label(t) is Some ==> !s.doing.contains(label(t)->0)),
		},
{
	if label(t) is Some && s.doing.contains(label(t)->0) { assert(s.doing.insert(label(t)->0) =~= s.doing); }
}
/// C10: the active tasks are in order, each once.
pub proof fn thm_c10_sorted(r: &ProglessInner)
	ensures sorted(r.doing.view()), r.doing.view().no_duplicates()
{ axiom_set(&r.doing); }
/// C10: what a tick draws at full size ends by going up as many lines as it has line breaks, and fits the screen.
pub proof fn thm_c10_drawn(r: &ProglessInner, w: int, h: int)
	requires r.inv(), 40 <= w <= 255, 1 <= h <= 254
	ensures exists|b: Seq<u8>, n: int| r.draws(w, h) == b + #[trigger] close(n) && #[trigger] vft::breaks_in(b) == n && n + 1 <= h
{
	lemma_packed(r.done_total.v);
	let (t, d, secs, done, total) = (title_of(r.title), r.doing.view(), r.buf.elapsed.secs(), r.done(), r.total());
	vft::thm_c10_cursor(t, d, secs, done, total, w, h);
	let title = title_text(t, w, h);
	let tasks = tasks_text(d, title.len() > 0, w, h);
	let s = bar_space(w, done, total);
	let f = bar_filled(w, done, total);
	let line = status_text(uclock(secs), rep(35, f), rep(45, s - f), unice(done), unice(total), upct(ratio(done, total)));
	let n = clamp(tasks_drawn(d, title.len() > 0, w, h) + (if title.len() == 0 { 0int } else { 1 }), 255);
	let b = cls() + title + line + tasks;
	assert(r.draws(w, h) == b + close(n) && vft::breaks_in(b) == n);
}
/// C09: what a tick draws at full size has a status line that fills the width exactly if there is a bar.
pub proof fn thm_c09_drawn(r: &ProglessInner, w: int, h: int)
	requires r.inv(), 40 <= w <= 255, 1 <= h <= 254
	ensures
		exists|title: Seq<u8>, line: Seq<u8>, tasks: Seq<u8>, n: int| r.draws(w, h) == #[trigger] frame_full(title, line, tasks, n) && status_of(line, r, w),
		bar_space(w, r.done(), r.total()) == 0 || bar_space(w, r.done(), r.total()) >= 10,
{
	lemma_packed(r.done_total.v);
	let (secs, done, total) = (r.buf.elapsed.secs(), r.done(), r.total());
	vft::thm_c09_width(secs, done, total, w);
	let s = bar_space(w, done, total);
	let f = bar_filled(w, done, total);
	let line = status_text(uclock(secs), rep(35, f), rep(45, s - f), unice(done), unice(total), upct(ratio(done, total)));
	let title = title_text(title_of(r.title), w, h);
	let tasks = tasks_text(r.doing.view(), title.len() > 0, w, h);
	let n = clamp(tasks_drawn(r.doing.view(), title.len() > 0, w, h) + (if title.len() > 0 { 1int } else { 0 }), 255);
	assert(r.draws(w, h) == frame_full(title, line, tasks, n));
	assert(status_of(line, r, w));
}
/// A status line with the current figures, as wide as the screen if there is a bar.
pub open spec fn status_of(line: Seq<u8>, r: &ProglessInner, w: int) -> bool {
	let s = bar_space(w, r.done(), r.total());
	let f = bar_filled(w, r.done(), r.total());
	&&& line == status_text(uclock(r.buf.elapsed.secs()), rep(35, f), rep(45, s - f), unice(r.done()), unice(r.total()), upct(ratio(r.done(), r.total())))
	&&& s > 0 ==> vft::sw(line, false) == w
}
/// C19: a pushed message is its text with exactly one line-break part.
pub proof fn thm_c19_lined(m: Msg)
	requires m.wf()
	ensures
		m.text() == flat(m.parts().drop_last()) + m.parts().last(),
		lined(m) == flat(m.parts().drop_last()) + seq!['\n'],
		m.parts().last().len() == 0 ==> lined(m) == m.text() + seq!['\n'],
{
	thm_c01_text(&m);
	let p = m.parts();
	let q = p.update(TocId::Newline as int, seq!['\n']);
	assert(q.drop_last() =~= p.drop_last());
	assert(q.last() =~= seq!['\n']);
	if p.last().len() == 0 { assert(flat(p.drop_last()) + p.last() =~= flat(p.drop_last())); }
}
}
@end
