# Progress, with signals: a tick goes by the size known last.
@include prog_body.vx
@also C22 ProglessInner::tick
@also C22 ProglessInner::tick_set_drawable
@also C22 ProglessInner::running
@also C22 ProglessInner::reset
@item const SIGINT
@raw
pub use vgs::*;
pub mod vgs {
use vstd::prelude::*;
use super::*;
pub open spec fn tick_size(s: &ProglessInner, w: &World) -> Option<(int, int)> {
	if s.w() == 0 || s.h() == 0 { None } else { Some((s.w(), s.h())) }
}
pub proof fn lemma_sigint()
	ensures
		forall|f: u8| (#[trigger] (f & SIGINT) == SIGINT) <==> flg(f, SIGINT),
		forall|f: u8, m: u8| #[trigger] flg(f & m, SIGINT) <==> flg(f, SIGINT) && flg(m, SIGINT),
		forall|m: u8| #[trigger] flg(!m, SIGINT) <==> !flg(m, SIGINT),
		forall|f: u8| (#[trigger] (f & (SIGINT | TICKING)) == TICKING) <==> flg(f, TICKING) && !flg(f, SIGINT),
		!flg(0, SIGINT),
		flg(SIGINT, SIGINT),
		!flg(TICK_RESIZED, SIGINT),
		flg(TICK_RESIZED, TICK_BAR),
		!flg(TICK_RESIZED, TICKING),
		!flg(TICK_RESIZED, TICK_DONE),
		!flg(TICK_RESIZED, TICK_TOTAL),
		!flg(SIGINT, TICK_BAR),
		!flg(TICK_BAR, SIGINT),
		!flg(SIGINT, TICK_DOING),
		!flg(TICK_DOING, SIGINT),
		!flg(SIGINT, TICK_DONE),
		!flg(TICK_DONE, SIGINT),
		!flg(SIGINT, TICK_TITLE),
		!flg(TICK_TITLE, SIGINT),
		!flg(SIGINT, TICK_TOTAL),
		!flg(TICK_TOTAL, SIGINT),
		!flg(SIGINT, TICKING),
		!flg(TICKING, SIGINT),
{
	assert forall|f: u8| (#[trigger] (f & SIGINT) == SIGINT) <==> flg(f, SIGINT) by { assert((f & SIGINT == SIGINT) <==> f & SIGINT != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, SIGINT) <==> flg(f, SIGINT) && flg(m, SIGINT) by { assert((f & m) & SIGINT != 0 <==> f & SIGINT != 0 && m & SIGINT != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, SIGINT) <==> !flg(m, SIGINT) by { assert((!m) & SIGINT != 0 <==> m & SIGINT == 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & (SIGINT | TICKING)) == TICKING) <==> flg(f, TICKING) && !flg(f, SIGINT) by { assert((f & (SIGINT | TICKING)) == TICKING <==> f & TICKING != 0 && f & SIGINT == 0) by(bit_vector); }
	assert(0u8 & SIGINT == 0) by(bit_vector);
	assert(SIGINT & SIGINT != 0) by(bit_vector);
	assert(TICK_RESIZED & SIGINT == 0) by(bit_vector);
	assert(TICK_RESIZED & TICK_BAR != 0) by(bit_vector);
	assert(TICK_RESIZED & TICKING == 0) by(bit_vector);
	assert(TICK_RESIZED & TICK_DONE == 0) by(bit_vector);
	assert(TICK_RESIZED & TICK_TOTAL == 0) by(bit_vector);
	assert(SIGINT & TICK_BAR == 0) by(bit_vector);
	assert(TICK_BAR & SIGINT == 0) by(bit_vector);
	assert(SIGINT & TICK_DOING == 0) by(bit_vector);
	assert(TICK_DOING & SIGINT == 0) by(bit_vector);
	assert(SIGINT & TICK_DONE == 0) by(bit_vector);
	assert(TICK_DONE & SIGINT == 0) by(bit_vector);
	assert(SIGINT & TICK_TITLE == 0) by(bit_vector);
	assert(TICK_TITLE & SIGINT == 0) by(bit_vector);
	assert(SIGINT & TICK_TOTAL == 0) by(bit_vector);
	assert(TICK_TOTAL & SIGINT == 0) by(bit_vector);
	assert(SIGINT & TICKING == 0) by(bit_vector);
	assert(TICKING & SIGINT == 0) by(bit_vector);
}
/// The title after an interrupt.
pub open spec fn early(m: Option<Msg>) -> bool {
	m is Some && m->0.wf() && m->0.parts() == newparts(m->0.parts().len(), kprefix(MsgKind::Warning), "Early shutdown in progress."@, seq![])
}
/// What an interrupt seen by a ticker changes.
pub open spec fn interrupted(s0: &ProglessInner, s1: &ProglessInner) -> bool {
	&&& s1.inv() && s1.st() == s0.st() && s1.buf == s0.buf && s1.last_size == s0.last_size
	&&& s0.run() && !s0.fl(SIGINT) ==> early(s1.title) && s1.fl(SIGINT) && s1.fl(TICK_TITLE)
	&&& !(s0.run() && !s0.fl(SIGINT)) ==> *s1 == *s0
}
/// What a look at the size changes.
pub open spec fn resized(s0: &ProglessInner, s1: &ProglessInner, w: &World) -> bool {
	&&& s1.inv() && s1.same(s0) && s1.buf == s0.buf && s1.fl(SIGINT) == s0.fl(SIGINT)
	&&& s0.run() && usable(w.size()) is Some ==> (usable(w.size())->0) == (s1.w(), s1.h()) && (s1.last_size != s0.last_size ==> !s1.calm())
	&&& !(s0.run() && usable(w.size()) is Some) ==> *s1 == *s0
}
/// C22: the tick after an interrupt draws the warning as title.
pub proof fn thm_c22_title(s0: &ProglessInner, s1: &ProglessInner, s2: &ProglessInner, w0: &World, w1: &World, force: bool)
	requires s0.run(), !s0.fl(SIGINT), interrupted(s0, s1), ticked(s1, s2, w0, w1, force), s1.w() >= 40, s1.h() > 0
	ensures early(s2.title), wrote(w0, w1, true, full_frame(title_of(s2.title), s2.doing.view(), s2.buf.elapsed.secs(), s2.done(), s2.total(), s1.w(), s1.h()))
{ assert(s1.run()); }
/// C22: the tick after a resize is seen draws for the new size, and each tick for the size known last.
pub proof fn thm_c22_resize(s0: &ProglessInner, s1: &ProglessInner, s2: &ProglessInner, w: &World, w0: &World, w1: &World, force: bool)
	requires s0.run(), resized(s0, s1, w), ticked(s1, s2, w0, w1, force), usable(w.size()) is Some, (usable(w.size())->0).0 > 0, (usable(w.size())->0).1 > 0
	ensures ({
		let (c, r) = usable(w.size())->0;
		||| wrote(w0, w1, true, s2.draws(c, r))
		||| *w1 == *w0 && (s0.w(), s0.h()) == (c, r)
	})
{ assert(s1.run()); }
/// C22: whatever else a bar is asked to do, the interrupt is marked until it is reset.
pub proof fn thm_c22_once(s0: &ProglessInner, s1: &ProglessInner)
	requires interrupted(s0, s1), s0.fl(SIGINT)
	ensures *s1 == *s0
{}
}
@end
@fn ProglessInner::tick_set_size
+props C22 C09 C10
+ret r
+params Tracked(w): Tracked<&World>
+sig
ensures
	match tick_size(self, w) { Some((c, h)) => r is Some && ((r->0).0)@ == c && ((r->0).1)@ == h, None => r is None },
+begin
proof { lemma_flags(); lemma_sigint(); }
@fn ProglessInner::tick_resize
+props C22
+ret r
+mutself
+params Tracked(w): Tracked<&World>
+callargs term_size Tracked(w)
+sig
requires old(self).inv(),
ensures r == old(self).run(), resized(old(self), final(self), w),
+begin
proof { lemma_flags(); lemma_sigint(); }
@fn ProglessInner::sigint
+props C22
+ret r
+mutself
+sig
requires old(self).inv(),
ensures r == old(self).run(), interrupted(old(self), final(self)),
+begin
proof { lemma_flags(); lemma_sigint(); }
