# The escape-sequence grammar, from the property statements.
@include strings.vx
@broadcast lemma_csi_end lemma_osc_end lemma_seq_end lemma_nv lemma_nv_step
@raw
pub use va::*;
pub mod va {
use vstd::prelude::*;
use vstd::utf8::*;
use super::vs::*;
/// Where a CSI sequence ends whose introducer ends at `k`: after the first final byte.
pub open spec fn csi_end(s: Seq<char>, k: int) -> int decreases s.len() - k {
	if k >= s.len() { s.len() as int }
	else if '\x40' <= s[k] && s[k] <= '\x7e' { k + 1 }
	else { csi_end(s, k + 1) }
}
/// Where an OSC sequence ends whose introducer ends at `k`: after BEL, oe, or ESC backslash.
pub open spec fn osc_end(s: Seq<char>, k: int) -> int decreases s.len() - k {
	if k >= s.len() { s.len() as int }
	else if s[k] == '\x07' || s[k] == '\u{153}' { k + 1 }
	else if s[k] == '\x1b' && k + 1 < s.len() && s[k + 1] == '\\' { k + 2 }
	else { osc_end(s, k + 1) }
}
/// Does an escape sequence start at `k`?
pub open spec fn is_seq(s: Seq<char>, k: int) -> bool {
	0 <= k && k + 1 < s.len() && s[k] == '\x1b' && (s[k + 1] == '[' || s[k + 1] == ']')
}
/// Where the escape sequence that starts at `k` ends.
pub open spec fn seq_end(s: Seq<char>, k: int) -> int {
	if s[k + 1] == '[' { csi_end(s, k + 2) } else { osc_end(s, k + 2) }
}
/// The next visible character at or after `k`.
#[verifier::opaque]
pub open spec fn nv(s: Seq<char>, k: int) -> int decreases s.len() - k {
	if is_seq(s, k) && k < seq_end(s, k) <= s.len() { nv(s, seq_end(s, k)) } else { k }
}
/// The visible characters from `k`.
pub open spec fn vis(s: Seq<char>, k: int) -> Seq<char> decreases s.len() - k {
	if k >= s.len() { seq![] }
	else if is_seq(s, k) && k < seq_end(s, k) <= s.len() { vis(s, seq_end(s, k)) }
	else { seq![s[k]] + vis(s, k + 1) }
}
/// The escape sequences from `k`, joined.
pub open spec fn esc(s: Seq<char>, k: int) -> Seq<char> decreases s.len() - k {
	if k >= s.len() { seq![] }
	else if is_seq(s, k) && k < seq_end(s, k) <= s.len() { s.subrange(k, seq_end(s, k)) + esc(s, seq_end(s, k)) }
	else { esc(s, k + 1) }
}
pub broadcast proof fn lemma_csi_end(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures k <= #[trigger] csi_end(s, k) <= s.len()
	decreases s.len() - k
{ if k < s.len() { lemma_csi_end(s, k + 1); } }
pub broadcast proof fn lemma_osc_end(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures k <= #[trigger] osc_end(s, k) <= s.len()
	decreases s.len() - k
{ if k < s.len() { lemma_osc_end(s, k + 1); } }
pub broadcast proof fn lemma_seq_end(s: Seq<char>, k: int)
	requires is_seq(s, k)
	ensures k + 2 <= #[trigger] seq_end(s, k) <= s.len()
{ lemma_csi_end(s, k + 2); lemma_osc_end(s, k + 2); }
pub broadcast proof fn lemma_nv(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		k <= #[trigger] nv(s, k) <= s.len(), !is_seq(s, nv(s, k)),
		bpos(s, k) <= bpos(s, nv(s, k)),
	decreases s.len() - k
{
	reveal(nv);
	if is_seq(s, k) { lemma_seq_end(s, k); lemma_bpos_mono(s, k, seq_end(s, k)); }
	if is_seq(s, k) { lemma_seq_end(s, k); lemma_nv(s, seq_end(s, k)); }
}
pub broadcast proof fn lemma_nv_step(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		#![trigger nv(s, k), s[k]]
		k <= nv(s, k) <= s.len(), !is_seq(s, nv(s, k)),
		is_seq(s, k) ==> nv(s, k) == nv(s, seq_end(s, k)),
		!is_seq(s, k) ==> nv(s, k) == k,
{
	reveal(nv);
	lemma_nv(s, k);
	if is_seq(s, k) { lemma_seq_end(s, k); }
}
/// The first escape sequence at or after `k`.
#[verifier::opaque]
pub open spec fn fs(s: Seq<char>, k: int) -> int decreases s.len() - k {
	if k >= s.len() { s.len() as int } else if is_seq(s, k) { k } else { fs(s, k + 1) }
}
pub proof fn lemma_fs(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		k <= fs(s, k) <= s.len(), fs(s, k) < s.len() ==> is_seq(s, fs(s, k)),
		forall|j: int| k <= j < fs(s, k) ==> !is_seq(s, j),
	decreases s.len() - k
{
	reveal(fs);
	if k < s.len() && !is_seq(s, k) { lemma_fs(s, k + 1); }
}
pub proof fn lemma_fs_is(s: Seq<char>, k: int, e: int)
	requires 0 <= k <= e <= s.len(), e < s.len() ==> is_seq(s, e), forall|j: int| k <= j < e ==> !is_seq(s, j),
	ensures fs(s, k) == e
{
	lemma_fs(s, k);
	if fs(s, k) < e { assert(is_seq(s, fs(s, k))); }
}
/// Does the two-byte introducer stand at byte `i`?
pub open spec fn intro(b: Seq<u8>, i: int) -> bool { b[i] == 0x1bu8 && (b[i + 1] == 0x5bu8 || b[i + 1] == 0x5du8) }
pub proof fn lemma_intro_seq(s: Seq<char>, k: int)
	requires is_seq(s, k)
	ensures bpos(s, k) + 2 <= encode_utf8(s).len(), intro(encode_utf8(s), bpos(s, k) as int)
{ lemma_ascii_char(s, k); lemma_ascii_char(s, k + 1); }
pub proof fn lemma_intro_at(s: Seq<char>, i: int) -> (k: int)
	requires 0 <= i, i + 2 <= encode_utf8(s).len(), intro(encode_utf8(s), i)
	ensures is_seq(s, k), bpos(s, k) == i
{
	let k = lemma_ascii_byte(s, i);
	let l = lemma_ascii_byte(s, i + 1);
	lemma_bpos_step(s, k);
	if l < k + 1 { lemma_bpos_mono(s, l, k + 1); } else { lemma_bpos_mono(s, k + 1, l); }
	k
}
/// The first introducer is the first sequence.
pub proof fn lemma_intro_first(s: Seq<char>, i: int) -> (k: int)
	requires 0 <= i, i + 2 <= encode_utf8(s).len(), intro(encode_utf8(s), i), forall|j: int| 0 <= j < i ==> !intro(encode_utf8(s), j),
	ensures is_seq(s, k), bpos(s, k) == i, fs(s, 0) == k,
{
	let k = lemma_intro_at(s, i);
	assert forall|j: int| 0 <= j < k implies !is_seq(s, j) by {
		if is_seq(s, j) { lemma_intro_seq(s, j); lemma_bpos_mono(s, j, k); }
	}
	lemma_fs_is(s, 0, k);
	k
}
pub proof fn lemma_intro_none(s: Seq<char>)
	requires forall|j: int| 0 <= j && j + 2 <= encode_utf8(s).len() ==> !intro(encode_utf8(s), j),
	ensures fs(s, 0) == s.len(),
{
	assert forall|j: int| 0 <= j < s.len() implies !is_seq(s, j) by {
		if is_seq(s, j) { lemma_intro_seq(s, j); }
	}
	lemma_fs_is(s, 0, s.len() as int);
}
/// Sequence ends are the same in a suffix.
pub proof fn lemma_csi_skip(s: Seq<char>, a: int, k: int)
	requires 0 <= a <= s.len(), 0 <= k <= s.len() - a
	ensures csi_end(s.skip(a), k) + a == csi_end(s, a + k)
	decreases s.len() - a - k
{ if k < s.len() - a { lemma_csi_skip(s, a, k + 1); } }
pub proof fn lemma_osc_skip(s: Seq<char>, a: int, k: int)
	requires 0 <= a <= s.len(), 0 <= k <= s.len() - a
	ensures osc_end(s.skip(a), k) + a == osc_end(s, a + k)
	decreases s.len() - a - k
{
	if k < s.len() - a { lemma_osc_skip(s, a, k + 1); }
}
pub proof fn lemma_seq_skip(s: Seq<char>, a: int, k: int)
	requires 0 <= a <= s.len(), 0 <= k
	ensures
		is_seq(s.skip(a), k) == is_seq(s, a + k),
		is_seq(s.skip(a), k) ==> seq_end(s.skip(a), k) + a == seq_end(s, a + k),
{
	if is_seq(s, a + k) { lemma_csi_skip(s, a, k + 2); lemma_osc_skip(s, a, k + 2); }
}
/// What comes before the next visible character does not change what is visible.
pub proof fn lemma_vis_nv(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		k <= nv(s, k) <= s.len(),
		nv(s, k) == s.len() ==> vis(s, k) == Seq::<char>::empty() && esc(s, k) == s.subrange(k, s.len() as int),
		nv(s, k) < s.len() ==> vis(s, k) == seq![s[nv(s, k)]] + vis(s, nv(s, k) + 1) && esc(s, k) == s.subrange(k, nv(s, k)) + esc(s, nv(s, k) + 1),
	decreases s.len() - k
{
	lemma_nv_step(s, k);
	if is_seq(s, k) {
		lemma_seq_end(s, k);
		let e = seq_end(s, k);
		lemma_vis_nv(s, e);
		assert(s.subrange(k, e) + s.subrange(e, nv(s, k)) =~= s.subrange(k, nv(s, k)));
		assert((s.subrange(k, e) + s.subrange(e, nv(s, k))) + esc(s, nv(s, k) + 1) =~= s.subrange(k, e) + (s.subrange(e, nv(s, k)) + esc(s, nv(s, k) + 1)));
	} else {
		assert(s.subrange(k, k) =~= Seq::<char>::empty());
		assert(s.subrange(k, k) + esc(s, k + 1) =~= esc(s, k + 1));
	}
}
}
@end
@path UnicodeWidthChar::width vx_cwidth
@raw
pub use vw::*;
/// Trusted: unicode_width::UnicodeWidthChar::width. (Bounds validated for every char by the harness.)
#[verifier::external_body]
pub fn vx_cwidth(c: char) -> (r: Option<usize>)
	ensures (match r { Some(n) => n as nat, None => 0 }) == cw(c)
{ unicode_width_stub(c) }
fn unicode_width_stub(c: char) -> Option<usize> { None }
pub mod vw {
use vstd::prelude::*;
use super::vs::*;
use super::va::*;
pub uninterp spec fn cw(c: char) -> nat;
/// Trusted: no character is wider than it is long.
pub broadcast axiom fn axiom_cw(c: char)
	ensures #[trigger] cw(c) <= clen(c), cw(c) <= 3;
pub open spec fn wid(s: Seq<char>) -> nat decreases s.len() {
	if s.len() == 0 { 0 } else { cw(s[0]) + wid(s.drop_first()) }
}
/// Display width of the visible characters from `k`.
#[verifier::opaque]
pub open spec fn vwid(s: Seq<char>, k: int) -> nat { wid(vis(s, k)) }
pub broadcast proof fn lemma_vwid_step(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		#![trigger vwid(s, k), nv(s, k)]
		nv(s, k) == s.len() ==> vwid(s, k) == 0,
		nv(s, k) < s.len() ==> vwid(s, k) == cw(s[nv(s, k)]) + vwid(s, nv(s, k) + 1),
{
	reveal(vwid);
	lemma_vis_nv(s, k);
	if nv(s, k) < s.len() {
		assert(vis(s, k).drop_first() =~= vis(s, nv(s, k) + 1));
	}
}
/// Where the first visible character from `k` is that does not fit into `max - w` columns.
pub open spec fn cut(s: Seq<char>, k: int, w: int, max: int) -> int decreases s.len() - k {
	if k < 0 || nv(s, k) < k || nv(s, k) >= s.len() { s.len() as int }
	else if w + cw(s[nv(s, k)]) > max { nv(s, k) }
	else { cut(s, nv(s, k) + 1, w + cw(s[nv(s, k)]), max) }
}
pub proof fn lemma_cut(s: Seq<char>, k: int, w: int, max: int)
	requires 0 <= k <= s.len()
	ensures k <= cut(s, k, w, max) <= s.len()
	decreases s.len() - k
{
	lemma_nv(s, k);
	if nv(s, k) < s.len() { lemma_cut(s, nv(s, k) + 1, w + cw(s[nv(s, k)]), max); }
}
}
@end
@item const ANSI_ESCAPE
@item const ANSI_BELL
@item const ANSI_OE
@method extend vx_extend
@item struct NoAnsi
@raw
impl<'a> VxIter for NoAnsi<'a> {}
impl<'a> VxIter for OnlyAnsi<'a> {}
impl<'a> NoAnsi<'a> {
	pub open spec fn src(&self) -> Seq<char> { self.iter.src() }
	/// The index of the next character to look at.
	pub open spec fn k(&self) -> int { self.iter.at() - (if self.buf is Some { 1int } else { 0int }) }
	pub open spec fn inner_wf(&self) -> bool {
		&&& bpos(self.src(), self.src().len() as int) <= isize::MAX
		&&& 0 <= self.k() && self.iter.at() <= self.src().len()
		&&& self.buf is Some ==> self.buf->0 == self.src()[self.k()]
		&&& self.pos == bpos(self.src(), self.k())
	}
	pub open spec fn wf(&self) -> bool { self.inner_wf() }
}
@end
@fn NoAnsi::new
+props C04 C05 C06 C11
+ret r
+sig
ensures r.src() == src@, r.k() == 0, r.wf(), r.pos == 0,
@fn NoAnsi::byte_pos
+props C05 C06 C10
+ret r
+sig
ensures r == self.pos,
@fn NoAnsi::drain_osc
+props C04 C05 C06 C11
+sig
requires old(self).wf(),
ensures
	final(self).src() == old(self).src(), final(self).wf(),
	final(self).k() == osc_end(old(self).src(), old(self).k()),
	final(self).buf is None,
+loop 0
invariant_except_break
	osc_end(self.src(), self.k()) == osc_end(old(self).src(), old(self).k()),
invariant
	self.src() == old(self).src(), self.wf(),
ensures
	self.src() == old(self).src(), self.wf(), self.buf is None,
	self.k() == osc_end(old(self).src(), old(self).k()),
decreases self.src().len() - self.k(),
@fn NoAnsi as Iterator::next
+props C04 C05 C06 C11
+ret r
+sig
requires old(self).wf(),
ensures
	final(self).src() == old(self).src(), final(self).wf(),
	r is None <==> nv(old(self).src(), old(self).k()) == old(self).src().len(),
	r is None ==> final(self).k() == old(self).src().len(),
	r is Some ==> r->0 == old(self).src()[nv(old(self).src(), old(self).k())] && final(self).k() == nv(old(self).src(), old(self).k()) + 1,
+loop 0
invariant
	self.src() == old(self).src(), self.wf(),
	nv(self.src(), self.k()) == nv(old(self).src(), old(self).k()),
ensures
	self.src() == old(self).src(), self.wf(),
	self.k() == self.src().len(), nv(old(self).src(), old(self).k()) == self.src().len(),
decreases self.src().len() - self.k(),
+loopbegin 0
let ghost vx_k = self.k();
+loop 1
invariant_except_break
	nv(self.src(), csi_end(self.src(), self.k())) == nv(old(self).src(), old(self).k()),
invariant
	self.src() == old(self).src(), self.wf(), self.buf is None, self.k() >= vx_k,
ensures
	self.src() == old(self).src(), self.wf(), self.buf is None, self.k() >= vx_k,
	nv(self.src(), self.k()) == nv(old(self).src(), old(self).k()),
decreases self.src().len() - self.k(),
@fn length_width
+props C05 C06 C10
+ret r
+sig
ensures
	r == bpos(src@, cut(src@, 0, 0, max_width as int)),
	0 <= cut(src@, 0, 0, max_width as int) <= src@.len(),
+begin
broadcast use axiom_cw;
proof { lemma_cut(src@, 0, 0, max_width as int); }
+loop 0
invariant
	iter.src() == src@, iter.wf(), width <= max_width,
	width <= iter.pos,
	cut(src@, iter.k(), width as int, max_width as int) == cut(src@, 0, 0, max_width as int),
decreases src@.len() - iter.k(),
@fn next_ansi
+props C03 C06
+ret r
+sig
ensures
	r is None <==> fs(src@, 0) == src@.len(),
	r is Some ==> is_seq(src@, fs(src@, 0)) && (r->0).start == bpos(src@, fs(src@, 0)) && (r->0).end == bpos(src@, seq_end(src@, fs(src@, 0))),
+loop 0
invariant_except_break
	vx_it0.at() == vx_k0, vx_acc0 is None,
invariant
	vx_it0.src() == encode_utf8(src@), vx_it0.size() == 2,
	vx_k0 <= vx_it0.src().len(), vx_it0.src().len() <= isize::MAX,
	forall|j: int| 0 <= j < vx_k0 ==> !intro(encode_utf8(src@), j),
ensures
	vx_acc0 is None ==> (forall|j: int| 0 <= j && j + 2 <= encode_utf8(src@).len() ==> !intro(encode_utf8(src@), j)),
	vx_acc0 is Some ==> vx_acc0->0 + 2 <= encode_utf8(src@).len() && intro(encode_utf8(src@), vx_acc0->0 as int)
		&& (forall|j: int| 0 <= j < vx_acc0->0 ==> !intro(encode_utf8(src@), j)),
decreases vx_it0.src().len() - vx_it0.at(),
+afterloop 0
proof { if vx_acc0 is None { lemma_intro_none(src@); } }
+before get#0
let ghost vx_g = lemma_intro_first(src@, start as int);
let ghost vx_s = src@.skip(vx_g);
proof {
	lemma_bnd(src@, vx_g);
	lemma_seq_skip(src@, vx_g, 0);
	lemma_seq_end(vx_s, 0);
	lemma_bpos_step(vx_s, 0); lemma_bpos_step(vx_s, 1);
	assert(vx_s =~= src@.subrange(vx_g, src@.len() as int));
	lemma_blen_sub(src@, vx_g, src@.len() as int);
	lemma_bpos_sub(src@, vx_g, src@.len() as int, seq_end(vx_s, 0));
}
+loop 1
invariant_except_break
	seq_end(vx_s, 0) == csi_end(vx_s, chars.at()),
	vx_acc1 is None,
invariant
	is_seq(vx_s, 0), blen(vx_s) <= isize::MAX,
	chars.src() == vx_s, 0 <= chars.at() <= vx_s.len(),
ensures
	vx_acc1 is None ==> seq_end(vx_s, 0) == vx_s.len(),
	vx_acc1 is Some ==> vx_acc1->0 == bpos(vx_s, seq_end(vx_s, 0)),
decreases vx_s.len() - chars.at(),
+loop 2
invariant_except_break
	seq_end(vx_s, 0) == osc_end(vx_s, chars.at() - (if buf is Some { 1int } else { 0int })),
	end is None,
invariant
	is_seq(vx_s, 0), blen(vx_s) <= isize::MAX,
	chars.src() == vx_s, 0 <= chars.at() <= vx_s.len(),
	buf is Some ==> chars.at() >= 1 && (buf->0).1 == vx_s[chars.at() - 1] && (buf->0).0 == bpos(vx_s, chars.at() - 1),
ensures
	end is None ==> seq_end(vx_s, 0) == vx_s.len(),
	end is Some ==> end->0 == bpos(vx_s, seq_end(vx_s, 0)),
decreases vx_s.len() - chars.at() + (if buf is Some { 1int } else { 0int }),
@item struct OnlyAnsi
@fn OnlyAnsi::new
+props C06
+ret r
+sig
ensures r.0@ == src@,
@fn OnlyAnsi as Iterator::next
+props C06
+ret r
+sig
ensures
	r is None <==> fs(old(self).0@, 0) == old(self).0@.len(),
	r is None ==> final(self).0@ == old(self).0@,
	r is Some ==> r->0@ == old(self).0@.subrange(fs(old(self).0@, 0), seq_end(old(self).0@, fs(old(self).0@, 0)))
		&& final(self).0@ == old(self).0@.skip(seq_end(old(self).0@, fs(old(self).0@, 0))),
+begin
broadcast use {lemma_bnd, lemma_seq_end};
let ghost vx_s = self.0@;
let ghost vx_f = fs(vx_s, 0);
proof { lemma_fs(vx_s, 0); if is_seq(vx_s, vx_f) { lemma_seq_end(vx_s, vx_f); lemma_bpos_mono(vx_s, vx_f, seq_end(vx_s, vx_f)); } }
@raw
pub use vf::*;
pub mod vf {
use vstd::prelude::*;
use super::vs::*;
use super::va::*;
use super::vw::*;
/// Trusted: line breaks have no width.
pub axiom fn axiom_cw_break()
	ensures cw('\n') == 0, cw('\r') == 0;
pub proof fn lemma_esc_step(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		k == s.len() ==> esc(s, k) == Seq::<char>::empty(),
		k < s.len() && !is_seq(s, k) ==> esc(s, k) == esc(s, k + 1),
		is_seq(s, k) ==> esc(s, k) == s.subrange(k, seq_end(s, k)) + esc(s, seq_end(s, k)),
{ if is_seq(s, k) { lemma_seq_end(s, k); } }
pub proof fn lemma_esc_skip(s: Seq<char>, a: int, k: int)
	requires 0 <= a <= s.len(), 0 <= k <= s.len() - a
	ensures esc(s.skip(a), k) == esc(s, a + k)
	decreases s.len() - a - k
{
	let t = s.skip(a);
	lemma_seq_skip(s, a, k);
	lemma_esc_step(t, k); lemma_esc_step(s, a + k);
	if is_seq(t, k) {
		lemma_seq_end(t, k);
		lemma_esc_skip(s, a, seq_end(t, k));
		assert(t.subrange(k, seq_end(t, k)) =~= s.subrange(a + k, seq_end(s, a + k)));
	} else if k < t.len() { lemma_esc_skip(s, a, k + 1); }
}
/// The escape sequences from the first one on.
pub proof fn lemma_esc_fs(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures
		fs(s, k) == s.len() ==> esc(s, k) == Seq::<char>::empty(),
		fs(s, k) < s.len() ==> is_seq(s, fs(s, k)) && esc(s, k) == s.subrange(fs(s, k), seq_end(s, fs(s, k))) + esc(s.skip(seq_end(s, fs(s, k))), 0),
	decreases s.len() - k
{
	lemma_fs(s, k); lemma_esc_step(s, k);
	reveal(fs);
	if k < s.len() {
		if is_seq(s, k) { lemma_seq_end(s, k); lemma_esc_skip(s, seq_end(s, k), 0); }
		else { lemma_esc_fs(s, k + 1); }
	}
}
/// The line break that ends `s`.
pub open spec fn term(s: Seq<char>) -> Seq<char> {
	if s.len() >= 1 && s.last() == '\n' {
		if s.len() >= 2 && s[s.len() - 2] == '\r' { seq!['\r', '\n'] } else { seq!['\n'] }
	} else { seq![] }
}
/// The fitted form of a line.
#[verifier::opaque]
pub open spec fn fit_line(s: Seq<char>, w: int) -> Seq<char> {
	let c = cut(s, 0, 0, w);
	if c == s.len() { s }
	else { s.take(c) + esc(s.subrange(c, s.len() - term(s).len()), 0) + term(s) }
}
/// The fitted form of the lines from `k`.
#[verifier::opaque]
pub open spec fn fit(s: Seq<char>, w: int, k: int) -> Seq<char> decreases s.len() - k {
	if k < 0 || k >= s.len() || !(k < line_end(s, '\n', k) <= s.len()) { seq![] }
	else { fit_line(s.subrange(k, line_end(s, '\n', k)), w) + fit(s, w, line_end(s, '\n', k)) }
}
pub broadcast proof fn lemma_line_end(s: Seq<char>, c: char, k: int)
	requires 0 <= k <= s.len()
	ensures k <= #[trigger] line_end(s, c, k) <= s.len(), k < s.len() ==> k < line_end(s, c, k)
	decreases s.len() - k
{ if k < s.len() && s[k] != c { lemma_line_end(s, c, k + 1); } }
/// The cut character has a width, so it is no part of the line break.
pub proof fn lemma_cut_wide(s: Seq<char>, k: int, w: int, max: int)
	requires 0 <= k <= s.len(), w <= max
	ensures
		k <= cut(s, k, w, max) <= s.len(),
		cut(s, k, w, max) < s.len() ==> cw(s[cut(s, k, w, max)]) > 0,
	decreases s.len() - k
{
	lemma_nv(s, k);
	if nv(s, k) < s.len() && w + cw(s[nv(s, k)]) <= max { lemma_cut_wide(s, nv(s, k) + 1, w + cw(s[nv(s, k)]), max); }
}
pub proof fn lemma_cut_term(s: Seq<char>, w: int)
	requires w >= 0
	ensures
		0 <= cut(s, 0, 0, w) <= s.len(),
		cut(s, 0, 0, w) < s.len() ==> cut(s, 0, 0, w) <= s.len() - term(s).len(),
{
	lemma_cut_wide(s, 0, 0, w); axiom_cw_break();
}
/// What is short enough in bytes fits.
pub proof fn lemma_cut_short(s: Seq<char>, k: int, w: int, max: int)
	requires 0 <= k <= s.len(), w <= bpos(s, k), blen(s) <= max
	ensures cut(s, k, w, max) == s.len()
	decreases s.len() - k
{
	lemma_nv(s, k);
	let n = nv(s, k);
	lemma_bpos_len(s);
	if n < s.len() {
		axiom_cw(s[n]);
		lemma_bpos_step(s, n);
		lemma_bpos_max(s, n + 1);
		lemma_cut_short(s, n + 1, w + cw(s[n]), max);
	}
}
pub proof fn lemma_fit_short(s: Seq<char>, w: int, k: int)
	requires 0 <= k <= s.len(), blen(s) <= w
	ensures fit(s, w, k) == s.skip(k)
	decreases s.len() - k
{
	reveal(fit); reveal(fit_line);
	lemma_line_end(s, '\n', k);
	if k < s.len() {
		let e = line_end(s, '\n', k);
		let l = s.subrange(k, e);
		lemma_blen_sub(s, k, e); lemma_bpos_len(s); lemma_bpos_max(s, e); lemma_bpos_max(s, k);
		lemma_bpos_zero(l);
		lemma_cut_short(l, 0, 0, w);
		lemma_fit_short(s, w, e);
		assert(l + s.skip(e) =~= s.skip(k));
	} else { assert(s.skip(k) =~= Seq::<char>::empty()); }
}
pub proof fn lemma_fit_step(s: Seq<char>, w: int, k: int, e: int, o: Seq<char>)
	requires 0 <= k < s.len(), e == line_end(s, '\n', k), o + fit(s, w, k) == fit(s, w, 0)
	ensures k < e <= s.len(), (o + fit_line(s.subrange(k, e), w)) + fit(s, w, e) == fit(s, w, 0)
{
	reveal(fit);
	lemma_line_end(s, '\n', k);
	let l = fit_line(s.subrange(k, e), w);
	assert((o + l) + fit(s, w, e) =~= o + (l + fit(s, w, e)));
}
pub proof fn lemma_fit_line(s: Seq<char>, w: int)
	requires w >= 0
	ensures
		({
			let c = cut(s, 0, 0, w);
			let t = term(s);
			&&& 0 <= c <= s.len()
			&&& bpos(s, c) == blen(s) <==> c == s.len()
			&&& c == s.len() ==> fit_line(s, w) == s
			&&& c < s.len() ==> is_bnd(s, bpos(s, c) as int) && cidx(s, bpos(s, c) as int) == c
				&& t.len() <= s.skip(c).len() && s.skip(c).skip(s.skip(c).len() - t.len()) == t
				&& fit_line(s, w) == s.take(c) + esc(s.skip(c).take(s.skip(c).len() - t.len()), 0) + t
		})
{
	reveal(fit_line);
	lemma_cut_term(s, w);
	let c = cut(s, 0, 0, w);
	lemma_bpos_max(s, c); lemma_bpos_len(s); lemma_bnd(s, c);
	if c < s.len() {
		let t = term(s);
		assert(s.skip(c).skip(s.skip(c).len() - t.len()) =~= t);
		assert(s.skip(c).take(s.skip(c).len() - t.len()) =~= s.subrange(c, s.len() - t.len()));
	}
}
/// The last byte of a text is a line break (or carriage return) if its last character is one.
pub proof fn lemma_last(s: Seq<char>, b: int)
	requires 0 <= b <= 1, b < s.len(), b == 1 ==> s.last() == '\n'
	ensures
		blen(s) >= b + 1,
		s.len() == 1 && ascii(s[0]) ==> blen(s) == 1,
		vstd::utf8::encode_utf8(s).len() == blen(s),
		vstd::utf8::encode_utf8(s)[blen(s) - 1 - b] < 0x80u8 <==> ascii(s[s.len() - 1 - b]),
		ascii(s[s.len() - 1 - b]) ==> vstd::utf8::encode_utf8(s)[blen(s) - 1 - b] == s[s.len() - 1 - b] as u8,
{
	let k = s.len() - 1 - b;
	lemma_bpos_len(s);
	lemma_enc_at(s, k);
	lemma_enc_at(s, s.len() - 1);
	lemma_bpos_zero(s); lemma_bpos_step(s, 0);
	if ascii(s[k]) { lemma_ascii_char(s, k); }
	if vstd::utf8::encode_utf8(s)[blen(s) - 1 - b] < 0x80u8 {
		let j = lemma_ascii_byte(s, blen(s) - 1 - b);
		if j < k { lemma_bpos_mono(s, j, k); lemma_bpos_step(s, j); lemma_bpos_mono(s, j + 1, k); }
		if j > k { lemma_bpos_mono(s, k + 1, j); }
	}
}
}
pub trait VxExtend { fn vx_extend<'a>(&mut self, it0: OnlyAnsi<'a>) where Self: Sized; }
impl VxExtend for String {
	/// Extend<&str> for String: push_str for each item.
	fn vx_extend<'a>(&mut self, it0: OnlyAnsi<'a>)
		ensures final(self)@ == old(self)@ + esc(it0.0@, 0)
	{
		let mut it = it0;
		let ghost s0 = self@;
		let ghost e0 = esc(it.0@, 0);
		assert(s0 + e0 =~= s0 + esc(it.0@, 0));
		proof { lemma_esc_fs(it.0@, 0); lemma_fs(it.0@, 0); if is_seq(it.0@, fs(it.0@, 0)) { lemma_seq_end(it.0@, fs(it.0@, 0)); } }
		while let Some(x) = it.next()
			invariant
				self@ + esc(it.0@, 0) == s0 + e0,
				fs(it.0@, 0) == it.0@.len() ==> esc(it.0@, 0) == Seq::<char>::empty(),
				fs(it.0@, 0) < it.0@.len() ==> is_seq(it.0@, fs(it.0@, 0)) && 0 <= fs(it.0@, 0)
					&& esc(it.0@, 0) == it.0@.subrange(fs(it.0@, 0), seq_end(it.0@, fs(it.0@, 0))) + esc(it.0@.skip(seq_end(it.0@, fs(it.0@, 0))), 0)
					&& fs(it.0@, 0) < seq_end(it.0@, fs(it.0@, 0)) <= it.0@.len(),
				fs(it.0@, 0) <= it.0@.len(),
			ensures self@ == s0 + e0,
			decreases it.0@.len(),
		{
			let ghost a = self@;
			self.push_str(x);
			proof {
				assert((a + x@) + esc(it.0@, 0) =~= a + (x@ + esc(it.0@, 0)));
				lemma_esc_fs(it.0@, 0); lemma_fs(it.0@, 0);
				if is_seq(it.0@, fs(it.0@, 0)) { lemma_seq_end(it.0@, fs(it.0@, 0)); }
				if fs(it.0@, 0) == it.0@.len() { assert(self@ + esc(it.0@, 0) =~= self@); }
			}
		}
	}
}
@end
@fn width
+props C04
+ret r
+sig
ensures r == vwid(src@, 0),
+begin
broadcast use {axiom_cw, lemma_vwid_step};
+loop 0
invariant
	vx_it0.src() == src@, vx_it0.wf(), vx_acc0 <= vx_it0.pos,
	vx_acc0 + vwid(src@, vx_it0.k()) == vwid(src@, 0),
decreases src@.len() - vx_it0.k(),
@fn fit_to_width::terminator
+props C06
+ret r
+sig
ensures r@ =~= term(src@),
+begin
proof {
	if src@.len() > 0 { lemma_last(src@, 0); }
	if src@.len() > 1 && src@.last() == '\n' { lemma_last(src@, 1); }
}
@fn fit_to_width
+props C06 C10
+ret r
+sig
ensures
	width > 0 ==> r.view() == fit(src@, width as int, 0),
	width == 0 ==> r.view() == Seq::<char>::empty(),
+begin
proof {
	if blen(src@) <= width { lemma_fit_short(src@, width as int, 0); }
	assert(src@.skip(0) =~= src@);
	assert(src@.take(0) + fit(src@, width as int, 0) =~= fit(src@, width as int, 0));
	if width > 0 && src@.len() == 0 { lemma_fit_short(src@, width as int, 0); }
}
+loop 0
invariant_except_break
	fit(src@, width as int, 0) == src@.take(lines.at()) + fit(src@, width as int, lines.at()),
	split == bpos(src@, lines.at()),
	lines.at() == src@.len() ==> src@.take(lines.at()) + fit(src@, width as int, lines.at()) == src@,
invariant
	lines.src() == src@, lines.sep() == '\n', 0 <= lines.at() <= src@.len(),
	width > 0, blen(src@) <= isize::MAX,
ensures
	fit(src@, width as int, 0) == src@,
decreases src@.len() - lines.at(),
+loopbegin 0
proof {
	lemma_fit_step(src@, width as int, lines.prev(), lines.at(), src@.take(lines.prev()));
	lemma_fit_line(line@, width as int);
	lemma_blen_sub(src@, lines.prev(), lines.at()); lemma_bnd(src@, lines.prev());
	lemma_bpos_mono(src@, lines.prev(), lines.at());
	assert(src@.take(lines.prev()) + line@ =~= src@.take(lines.at()));
	assert(lines.at() == src@.len() ==> src@.take(lines.at()) + fit(src@, width as int, lines.at()) =~= src@) by { reveal(fit); }
}
+after push_str#2
proof {
	assert(out@ =~= src@.take(lines.prev()) + fit_line(line@, width as int));
	assert(lines.at() == src@.len() ==> out@ + fit(src@, width as int, lines.at()) =~= out@) by { reveal(fit); }
}
+loop 1
invariant
	vx_it1.src() == src@, vx_it1.sep() == '\n', 0 <= vx_it1.at() <= src@.len(),
	width > 0, blen(src@) <= isize::MAX,
	fit(src@, width as int, 0) == out@ + fit(src@, width as int, vx_it1.at()),
	vx_it1.at() == src@.len() ==> out@ + fit(src@, width as int, vx_it1.at()) == out@,
ensures
	fit(src@, width as int, 0) == out@,
decreases src@.len() - vx_it1.at(),
+loopbegin 1
let ghost vx_o = out@;
proof {
	lemma_fit_step(src@, width as int, vx_it1.prev(), vx_it1.at(), out@);
	lemma_fit_line(line@, width as int);
}
+loopend 1
proof {
	assert(out@ =~= vx_o + fit_line(line@, width as int));
	assert(vx_it1.at() == src@.len() ==> out@ + fit(src@, width as int, vx_it1.at()) =~= out@) by { reveal(fit); }
}
