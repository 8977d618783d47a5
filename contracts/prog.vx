# Progress, without signals: a tick asks for the size, and draws nothing right after a change of it.
@include prog_body.vx
@raw
pub use vgs::*;
pub mod vgs {
use vstd::prelude::*;
use super::*;
pub open spec fn tick_size(s: &ProglessInner, w: &World) -> Option<(int, int)> {
	match usable(w.size()) {
		Some((c, r)) if s.w() == c && s.h() == r => Some((c, r)),
		_ => None,
	}
}
}
@end
@fn ProglessInner::tick_set_size
+props C09 C10
+ret r
+mutself
+params Tracked(w): Tracked<&World>
+callargs term_size Tracked(w)
+sig
requires old(self).inv(),
ensures
	final(self).inv(), final(self).same(old(self)), final(self).buf == old(self).buf,
	usable(w.size()) is None || (usable(w.size())->0) != (old(self).w(), old(self).h()) ==> r is None,
	usable(w.size()) == Some((old(self).w(), old(self).h())) ==> *final(self) == *old(self) && r is Some && ((r->0).0)@ == old(self).w() && ((r->0).1)@ == old(self).h(),
+begin
proof { lemma_flags(); }
