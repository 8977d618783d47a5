# Progress: what the units about it have in common.
@include frame.vx
@include print.vx
@include trim.vx
@flag erase_arc
@broadcast axiom_set lemma_out axiom_ws axiom_nz128
@path Instant VxInstant
@path Duration VxDuration
@path drop vx_drop
@path u16::from_le_bytes vx_le16
@path u16::to_le_bytes vx_to_le16
@method trim_end vx_trim_end
@method to_le_bytes vx_le_bytes
@item const TICK_BAR
@item const TICK_DOING
@item const TICK_DONE
@item const TICK_TITLE
@item const TICK_TOTAL
@item const TICKING
@item const TICK_NEW
@item const TICK_PERCENT
@item const TICK_RESET
@item const TICK_RESIZED
@item const TICK_DRAWABLE
@item const MIN_DRAW_WIDTH
@raw
pub trait VxOptRef<T> { fn vx_as_ref<'a>(&'a self) -> Option<&'a T>; }
impl<T> VxOptRef<T> for Option<T> {
	fn vx_as_ref<'a>(&'a self) -> (r: Option<&'a T>) ensures *self is Some <==> r is Some, r is Some ==> *(r->0) == (*self)->0 { self.as_ref() }
}
pub fn vx_drop<T>(x: T) {}
/// Trusted: clocks.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxInstant { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxDuration { x: u8 }
impl VxInstant {
	#[verifier::external_body]
	pub fn now() -> VxInstant { unimplemented!() }
	#[verifier::external_body]
	pub fn elapsed(&self) -> VxDuration { unimplemented!() }
}
impl VxDuration {
	#[verifier::external_body]
	pub fn as_secs(&self) -> u64 { unimplemented!() }
}
/// Trusted: the size of the terminal.
pub struct Width(pub u16);
pub struct Height(pub u16);
#[verifier::external_body]
pub fn terminal_size_of(s: VxStream, Tracked(w): Tracked<&World>) -> (r: Option<(Width, Height)>)
	ensures r is Some <==> w.size() is Some, r is Some ==> (r->0).0.0 == (w.size()->0).0 && (r->0).1.0 == (w.size()->0).1
{ unimplemented!() }
pub fn vx_le16(a: [u8; 2]) -> (r: u16) ensures r == a@[0] + 256 * a@[1] { a[0] as u16 + 256 * (a[1] as u16) }
pub fn vx_to_le16(x: u16) -> (r: [u8; 2]) ensures r@[0] as int == x as int % 256, r@[1] as int == x as int / 256 { [(x % 256) as u8, (x / 256) as u8] }
pub trait VxLe { fn vx_le_bytes(self) -> [u8; 2]; }
impl VxLe for u16 { fn vx_le_bytes(self) -> (r: [u8; 2]) ensures r@[0] as int == self as int % 256, r@[1] as int == self as int / 256 { vx_to_le16(self) } }
pub assume_specification[ char::is_control ](c: char) -> (r: bool) ensures r == ctl(c);
/// Trusted: a shared handle, and the ticker that has it: it does nothing but tick.
pub struct VxShared { pub x: u8 }
pub fn vx_share<T>(t: &T) -> VxShared { VxShared { x: 0 } }
pub struct ProglessSteady { pub x: u8 }
impl ProglessSteady {
	pub fn from(s: VxShared) -> ProglessSteady { ProglessSteady { x: 0 } }
	pub fn start(&self, s: VxShared) {}
	pub fn stop(&self, Tracked(w): Tracked<&mut World>) ensures *final(w) == *old(w) {}
}
pub trait VxKey { spec fn text(&self) -> Seq<char>; }
impl VxKey for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxKey for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl VxSet<String> {
	#[verifier::external_body]
	pub fn default() -> (r: Self) ensures r.view().len() == 0 { unimplemented!() }
	pub fn new() -> (r: Self) ensures r.view().len() == 0 { Self::default() }
	#[verifier::external_body]
	pub fn clear(&mut self) ensures final(self).view().len() == 0, final(self).set() == Set::<Seq<char>>::empty() { unimplemented!() }
	#[verifier::external_body]
	pub fn insert(&mut self, s: String) -> (r: bool)
		ensures
			r <==> !old(self).view().contains(s@), !r ==> *final(self) == *old(self),
			final(self).set() == old(self).set().insert(s@),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn remove<Q: VxKey + ?Sized>(&mut self, q: &Q) -> (r: bool)
		ensures
			r <==> old(self).view().contains(q.text()), !r ==> *final(self) == *old(self),
			final(self).set() == old(self).set().remove(q.text()),
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn contains<Q: VxKey + ?Sized>(&self, q: &Q) -> (r: bool) ensures r <==> self.view().contains(q.text()) { unimplemented!() }
}
pub use vgb::*;
pub mod vgb {
use vstd::prelude::*;
use super::*;
/// char::is_control
pub uninterp spec fn ctl(c: char) -> bool;
pub broadcast axiom fn axiom_ws(c: char) ensures #[trigger] ctl(c) <==> (c as u32) < 0x20 || 0x7f <= (c as u32) < 0xa0;
pub broadcast axiom fn axiom_nz128(x: NonZeroU128) ensures #[trigger] x@ != 0;
/// Trusted: the order of strings, by their bytes.
pub open spec fn sorted(d: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> #[trigger] bytes_cmp(encode_utf8(d[i]), encode_utf8(d[j])) is Less }
pub broadcast axiom fn axiom_set(s: &VxSet<String>) ensures (#[trigger] sview(s)).no_duplicates(), sorted(sview(s));
pub open spec fn flg(f: u8, b: u8) -> bool { f & b != 0 }
/// The flags are single bits of their own.
pub proof fn lemma_flags()
	ensures
		forall|f: u8, a: u8, b: u8| #[trigger] flg(f | a, b) <==> flg(f, b) || flg(a, b),
		forall|f: u8, a: u8, b: u8| #[trigger] (f & (a | b)) != 0 <==> flg(f, a) || flg(f, b),
		forall|f: u8, a: u8, b: u8| #[trigger] flg(f, a | b) <==> flg(f, a) || flg(f, b),
		forall|f: u8| (#[trigger] (f & TICK_BAR) == TICK_BAR) <==> flg(f, TICK_BAR),
		forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_BAR) <==> flg(f, TICK_BAR) && flg(m, TICK_BAR),
		forall|m: u8| #[trigger] flg(!m, TICK_BAR) <==> !flg(m, TICK_BAR),
		forall|f: u8| (#[trigger] (f & TICK_DOING) == TICK_DOING) <==> flg(f, TICK_DOING),
		forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_DOING) <==> flg(f, TICK_DOING) && flg(m, TICK_DOING),
		forall|m: u8| #[trigger] flg(!m, TICK_DOING) <==> !flg(m, TICK_DOING),
		forall|f: u8| (#[trigger] (f & TICK_DONE) == TICK_DONE) <==> flg(f, TICK_DONE),
		forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_DONE) <==> flg(f, TICK_DONE) && flg(m, TICK_DONE),
		forall|m: u8| #[trigger] flg(!m, TICK_DONE) <==> !flg(m, TICK_DONE),
		forall|f: u8| (#[trigger] (f & TICK_TITLE) == TICK_TITLE) <==> flg(f, TICK_TITLE),
		forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_TITLE) <==> flg(f, TICK_TITLE) && flg(m, TICK_TITLE),
		forall|m: u8| #[trigger] flg(!m, TICK_TITLE) <==> !flg(m, TICK_TITLE),
		forall|f: u8| (#[trigger] (f & TICK_TOTAL) == TICK_TOTAL) <==> flg(f, TICK_TOTAL),
		forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_TOTAL) <==> flg(f, TICK_TOTAL) && flg(m, TICK_TOTAL),
		forall|m: u8| #[trigger] flg(!m, TICK_TOTAL) <==> !flg(m, TICK_TOTAL),
		forall|f: u8| (#[trigger] (f & TICKING) == TICKING) <==> flg(f, TICKING),
		forall|f: u8, m: u8| #[trigger] flg(f & m, TICKING) <==> flg(f, TICKING) && flg(m, TICKING),
		forall|m: u8| #[trigger] flg(!m, TICKING) <==> !flg(m, TICKING),
		!flg(0, TICK_BAR),
		!flg(0, TICK_DOING),
		!flg(0, TICK_DONE),
		!flg(0, TICK_TITLE),
		!flg(0, TICK_TOTAL),
		!flg(0, TICKING),
		flg(TICK_BAR, TICK_BAR),
		!flg(TICK_BAR, TICK_DOING),
		!flg(TICK_BAR, TICK_DONE),
		!flg(TICK_BAR, TICK_TITLE),
		!flg(TICK_BAR, TICK_TOTAL),
		!flg(TICK_BAR, TICKING),
		!flg(TICK_DOING, TICK_BAR),
		flg(TICK_DOING, TICK_DOING),
		!flg(TICK_DOING, TICK_DONE),
		!flg(TICK_DOING, TICK_TITLE),
		!flg(TICK_DOING, TICK_TOTAL),
		!flg(TICK_DOING, TICKING),
		!flg(TICK_DONE, TICK_BAR),
		!flg(TICK_DONE, TICK_DOING),
		flg(TICK_DONE, TICK_DONE),
		!flg(TICK_DONE, TICK_TITLE),
		!flg(TICK_DONE, TICK_TOTAL),
		!flg(TICK_DONE, TICKING),
		!flg(TICK_TITLE, TICK_BAR),
		!flg(TICK_TITLE, TICK_DOING),
		!flg(TICK_TITLE, TICK_DONE),
		flg(TICK_TITLE, TICK_TITLE),
		!flg(TICK_TITLE, TICK_TOTAL),
		!flg(TICK_TITLE, TICKING),
		!flg(TICK_TOTAL, TICK_BAR),
		!flg(TICK_TOTAL, TICK_DOING),
		!flg(TICK_TOTAL, TICK_DONE),
		!flg(TICK_TOTAL, TICK_TITLE),
		flg(TICK_TOTAL, TICK_TOTAL),
		!flg(TICK_TOTAL, TICKING),
		!flg(TICKING, TICK_BAR),
		!flg(TICKING, TICK_DOING),
		!flg(TICKING, TICK_DONE),
		!flg(TICKING, TICK_TITLE),
		!flg(TICKING, TICK_TOTAL),
		flg(TICKING, TICKING),
{
	assert forall|f: u8, a: u8, b: u8| #[trigger] flg(f | a, b) <==> flg(f, b) || flg(a, b) by { assert((f | a) & b != 0 <==> f & b != 0 || a & b != 0) by(bit_vector); }
	assert forall|f: u8, a: u8, b: u8| #[trigger] (f & (a | b)) != 0 <==> flg(f, a) || flg(f, b) by { assert(f & (a | b) != 0 <==> f & a != 0 || f & b != 0) by(bit_vector); }
	assert forall|f: u8, a: u8, b: u8| #[trigger] flg(f, a | b) <==> flg(f, a) || flg(f, b) by { assert(f & (a | b) != 0 <==> f & a != 0 || f & b != 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & TICK_BAR) == TICK_BAR) <==> flg(f, TICK_BAR) by { assert((f & TICK_BAR == TICK_BAR) <==> f & TICK_BAR != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_BAR) <==> flg(f, TICK_BAR) && flg(m, TICK_BAR) by { assert((f & m) & TICK_BAR != 0 <==> f & TICK_BAR != 0 && m & TICK_BAR != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, TICK_BAR) <==> !flg(m, TICK_BAR) by { assert((!m) & TICK_BAR != 0 <==> m & TICK_BAR == 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & TICK_DOING) == TICK_DOING) <==> flg(f, TICK_DOING) by { assert((f & TICK_DOING == TICK_DOING) <==> f & TICK_DOING != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_DOING) <==> flg(f, TICK_DOING) && flg(m, TICK_DOING) by { assert((f & m) & TICK_DOING != 0 <==> f & TICK_DOING != 0 && m & TICK_DOING != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, TICK_DOING) <==> !flg(m, TICK_DOING) by { assert((!m) & TICK_DOING != 0 <==> m & TICK_DOING == 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & TICK_DONE) == TICK_DONE) <==> flg(f, TICK_DONE) by { assert((f & TICK_DONE == TICK_DONE) <==> f & TICK_DONE != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_DONE) <==> flg(f, TICK_DONE) && flg(m, TICK_DONE) by { assert((f & m) & TICK_DONE != 0 <==> f & TICK_DONE != 0 && m & TICK_DONE != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, TICK_DONE) <==> !flg(m, TICK_DONE) by { assert((!m) & TICK_DONE != 0 <==> m & TICK_DONE == 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & TICK_TITLE) == TICK_TITLE) <==> flg(f, TICK_TITLE) by { assert((f & TICK_TITLE == TICK_TITLE) <==> f & TICK_TITLE != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_TITLE) <==> flg(f, TICK_TITLE) && flg(m, TICK_TITLE) by { assert((f & m) & TICK_TITLE != 0 <==> f & TICK_TITLE != 0 && m & TICK_TITLE != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, TICK_TITLE) <==> !flg(m, TICK_TITLE) by { assert((!m) & TICK_TITLE != 0 <==> m & TICK_TITLE == 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & TICK_TOTAL) == TICK_TOTAL) <==> flg(f, TICK_TOTAL) by { assert((f & TICK_TOTAL == TICK_TOTAL) <==> f & TICK_TOTAL != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, TICK_TOTAL) <==> flg(f, TICK_TOTAL) && flg(m, TICK_TOTAL) by { assert((f & m) & TICK_TOTAL != 0 <==> f & TICK_TOTAL != 0 && m & TICK_TOTAL != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, TICK_TOTAL) <==> !flg(m, TICK_TOTAL) by { assert((!m) & TICK_TOTAL != 0 <==> m & TICK_TOTAL == 0) by(bit_vector); }
	assert forall|f: u8| (#[trigger] (f & TICKING) == TICKING) <==> flg(f, TICKING) by { assert((f & TICKING == TICKING) <==> f & TICKING != 0) by(bit_vector); }
	assert forall|f: u8, m: u8| #[trigger] flg(f & m, TICKING) <==> flg(f, TICKING) && flg(m, TICKING) by { assert((f & m) & TICKING != 0 <==> f & TICKING != 0 && m & TICKING != 0) by(bit_vector); }
	assert forall|m: u8| #[trigger] flg(!m, TICKING) <==> !flg(m, TICKING) by { assert((!m) & TICKING != 0 <==> m & TICKING == 0) by(bit_vector); }
	assert(0u8 & TICK_BAR == 0) by(bit_vector);
	assert(0u8 & TICK_DOING == 0) by(bit_vector);
	assert(0u8 & TICK_DONE == 0) by(bit_vector);
	assert(0u8 & TICK_TITLE == 0) by(bit_vector);
	assert(0u8 & TICK_TOTAL == 0) by(bit_vector);
	assert(0u8 & TICKING == 0) by(bit_vector);
	assert(TICK_BAR & TICK_BAR != 0) by(bit_vector);
	assert(TICK_BAR & TICK_DOING == 0) by(bit_vector);
	assert(TICK_BAR & TICK_DONE == 0) by(bit_vector);
	assert(TICK_BAR & TICK_TITLE == 0) by(bit_vector);
	assert(TICK_BAR & TICK_TOTAL == 0) by(bit_vector);
	assert(TICK_BAR & TICKING == 0) by(bit_vector);
	assert(TICK_DOING & TICK_BAR == 0) by(bit_vector);
	assert(TICK_DOING & TICK_DOING != 0) by(bit_vector);
	assert(TICK_DOING & TICK_DONE == 0) by(bit_vector);
	assert(TICK_DOING & TICK_TITLE == 0) by(bit_vector);
	assert(TICK_DOING & TICK_TOTAL == 0) by(bit_vector);
	assert(TICK_DOING & TICKING == 0) by(bit_vector);
	assert(TICK_DONE & TICK_BAR == 0) by(bit_vector);
	assert(TICK_DONE & TICK_DOING == 0) by(bit_vector);
	assert(TICK_DONE & TICK_DONE != 0) by(bit_vector);
	assert(TICK_DONE & TICK_TITLE == 0) by(bit_vector);
	assert(TICK_DONE & TICK_TOTAL == 0) by(bit_vector);
	assert(TICK_DONE & TICKING == 0) by(bit_vector);
	assert(TICK_TITLE & TICK_BAR == 0) by(bit_vector);
	assert(TICK_TITLE & TICK_DOING == 0) by(bit_vector);
	assert(TICK_TITLE & TICK_DONE == 0) by(bit_vector);
	assert(TICK_TITLE & TICK_TITLE != 0) by(bit_vector);
	assert(TICK_TITLE & TICK_TOTAL == 0) by(bit_vector);
	assert(TICK_TITLE & TICKING == 0) by(bit_vector);
	assert(TICK_TOTAL & TICK_BAR == 0) by(bit_vector);
	assert(TICK_TOTAL & TICK_DOING == 0) by(bit_vector);
	assert(TICK_TOTAL & TICK_DONE == 0) by(bit_vector);
	assert(TICK_TOTAL & TICK_TITLE == 0) by(bit_vector);
	assert(TICK_TOTAL & TICK_TOTAL != 0) by(bit_vector);
	assert(TICK_TOTAL & TICKING == 0) by(bit_vector);
	assert(TICKING & TICK_BAR == 0) by(bit_vector);
	assert(TICKING & TICK_DOING == 0) by(bit_vector);
	assert(TICKING & TICK_DONE == 0) by(bit_vector);
	assert(TICKING & TICK_TITLE == 0) by(bit_vector);
	assert(TICKING & TICK_TOTAL == 0) by(bit_vector);
	assert(TICKING & TICKING != 0) by(bit_vector);
}
/// Done and total of the packed form.
pub open spec fn hi(x: u64) -> int { (x >> 32) as int }
pub open spec fn lo(x: u64) -> int { (x & 0x0000_0000_FFFF_FFFF_u64) as int }
pub proof fn lemma_packed(x: u64)
	ensures 0 <= hi(x) < 0x1_0000_0000, 0 <= lo(x) < 0x1_0000_0000
{
	assert(x >> 32 < 0x1_0000_0000) by(bit_vector);
	assert(x & 0x0000_0000_FFFF_FFFF_u64 < 0x1_0000_0000) by(bit_vector);
}
pub broadcast proof fn lemma_pack(d: u64, t: u64)
	requires d < 0x1_0000_0000, t < 0x1_0000_0000
	ensures hi(#[trigger] vx_or(d << 32, t)) == d, lo(vx_or(d << 32, t)) == t
{
	assert(((d << 32) | t) >> 32 == d) by(bit_vector) requires d < 0x1_0000_0000, t < 0x1_0000_0000;
	assert(((d << 32) | t) & 0x0000_0000_FFFF_FFFF_u64 == t) by(bit_vector) requires d < 0x1_0000_0000, t < 0x1_0000_0000;
}
pub open spec fn vx_or(a: u64, b: u64) -> u64 { a | b }
pub proof fn lemma_packs()
	ensures
		forall|d: u64, t: u64| d < 0x1_0000_0000 && t < 0x1_0000_0000 ==> hi(#[trigger] ((d << 32) | t)) == d && lo((d << 32) | t) == t,
		forall|t: u64| t < 0x1_0000_0000 ==> #[trigger] hi(t) == 0 && lo(t) == t,
{
	assert forall|d: u64, t: u64| d < 0x1_0000_0000 && t < 0x1_0000_0000 implies hi(#[trigger] ((d << 32) | t)) == d && lo((d << 32) | t) == t by { lemma_pack(d, t); }
	assert forall|t: u64| t < 0x1_0000_0000 implies #[trigger] hi(t) == 0 && lo(t) == t by {
		assert(t >> 32 == 0) by(bit_vector) requires t < 0x1_0000_0000;
		assert(t & 0x0000_0000_FFFF_FFFF_u64 == t) by(bit_vector) requires t < 0x1_0000_0000;
	}
}
pub proof fn lemma_all_packed()
	ensures forall|x: u64| 0 <= #[trigger] hi(x) < 0x1_0000_0000, forall|x: u64| 0 <= #[trigger] lo(x) < 0x1_0000_0000
{
	assert forall|x: u64| 0 <= #[trigger] hi(x) < 0x1_0000_0000 by { lemma_packed(x); }
	assert forall|x: u64| 0 <= #[trigger] lo(x) < 0x1_0000_0000 by { lemma_packed(x); }
}
/// A task label as stored.
pub open spec fn clean(s: Seq<char>) -> Seq<char> decreases s.len() {
	if s.len() == 0 { seq![] }
	else {
		let p = clean(s.drop_last());
		if ws(s.last()) { p.push(' ') } else if !ctl(s.last()) { p.push(s.last()) } else { p }
	}
}
pub open spec fn stored(s: Seq<char>) -> Seq<char> { clean(vis(rtrim(s), 0)) }
pub open spec fn label(s: Seq<char>) -> Option<Seq<char>> { if stored(s).len() == 0 { None } else { Some(stored(s)) } }
pub proof fn lemma_clean(s: Seq<char>)
	ensures forall|i: int| 0 <= i < clean(s).len() ==> #[trigger] clean(s)[i] != '\n'
	decreases s.len()
{
	broadcast use axiom_ws;
	assert(('\n' as u32) == 10u32);
	assert(ctl('\n'));
	if s.len() > 0 {
		lemma_clean(s.drop_last());
		let p = clean(s.drop_last());
		assert forall|i: int| 0 <= i < clean(s).len() implies #[trigger] clean(s)[i] != '\n' by {
			if i < p.len() { assert(clean(s)[i] == p[i]); }
		}
	}
}
pub proof fn lemma_clean_none()
	ensures clean(seq![]) == Seq::<char>::empty()
{}
pub proof fn lemma_label_none(s: Seq<char>)
	ensures rtrim(s).len() == 0 ==> stored(s).len() == 0
{}
pub proof fn lemma_clean_push(s: Seq<char>, c: char)
	ensures clean(s.push(c)) == (if ws(c) { clean(s).push(' ') } else if !ctl(c) { clean(s).push(c) } else { clean(s) })
{ assert(s.push(c).drop_last() =~= s); }
/// The next visible character.
pub broadcast proof fn lemma_next_vis(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures #[trigger] nv(s, k) < s.len() ==> vis(s, k) == seq![s[nv(s, k)]] + vis(s, nv(s, k) + 1), nv(s, k) >= s.len() ==> vis(s, k) == Seq::<char>::empty(),
	decreases s.len() - k
{
	reveal_with_fuel(nv, 2);
	if is_seq(s, k) { lemma_seq_end(s, k); lemma_next_vis(s, seq_end(s, k)); }
	assert(vis(s, s.len() as int) =~= Seq::<char>::empty());
}
pub proof fn lemma_rtrim2(s: Seq<char>)
	ensures rtrim(rtrim(s)) == rtrim(s)
	decreases s.len()
{ if s.len() > 0 { lemma_rtrim2(s.drop_last()); } }
pub proof fn lemma_stored(t: Seq<char>)
	ensures forall|i: int| 0 <= i < stored(t).len() ==> #[trigger] stored(t)[i] != '\n'
{ lemma_clean(vis(rtrim(t), 0)); }
pub proof fn lemma_reset_flags()
	ensures flg(TICK_RESET, TICKING), flg(TICK_RESET, TICK_DONE), flg(TICK_RESET, TICK_TOTAL), flg(TICK_RESET, TICK_BAR), flg(TICK_RESET, TICK_TITLE), flg(TICK_RESET, TICK_DOING)
{
	assert(TICK_RESET & TICKING != 0) by(bit_vector);
	assert(TICK_RESET & TICK_DONE != 0) by(bit_vector);
	assert(TICK_RESET & TICK_TOTAL != 0) by(bit_vector);
	assert(TICK_RESET & TICK_BAR != 0) by(bit_vector);
	assert(TICK_RESET & TICK_TITLE != 0) by(bit_vector);
	assert(TICK_RESET & TICK_DOING != 0) by(bit_vector);
}impl VxSet<String> {
	pub open spec fn set(&self) -> Set<Seq<char>> { self.view().to_set() }
}
}
@end
