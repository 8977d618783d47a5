# Progress frames: the buffer, and what is written.
@include msg.vx
@include ansi_thm.vx
@include world.vx
@broadcast axiom_fdiv_req axiom_fdiv axiom_f32 axiom_unice axiom_upct axiom_uclock lemma_out
@path BTreeSet VxSet
@path IoSlice VxIoSlice
@path ErrorKind VxErrorKind
@path NiceU32 VxNiceU32
@path NicePercent VxNicePct
@path NiceClock VxNiceClock
@path u8::saturating_from vx_sat_u8
@path u32::saturating_from vx_sat_u32
@path f64::from vx_f64
@item struct ProglessBuffer
@item static BAR_DONE exec ensures forall|i: int| 0 <= i < 256 ==> BAR_DONE@[i] == 35u8
@item static BAR_UNDONE exec ensures forall|i: int| 0 <= i < 256 ==> BAR_UNDONE@[i] == 45u8
@table CLOSE &'static [u8] | r@ == close({i}) | assert(r@ =~= close({i})); | C10
@raw
pub use std::num::{NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128};
/// Any integer.
pub trait VxNum: Sized { spec fn num(&self) -> int; }
impl VxNum for u8 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for u16 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for u32 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for u64 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for usize { open spec fn num(&self) -> int { *self as int } }
impl VxNum for u128 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for i8 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for i16 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for i32 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for i64 { open spec fn num(&self) -> int { *self as int } }
impl VxNum for isize { open spec fn num(&self) -> int { *self as int } }
impl VxNum for i128 { open spec fn num(&self) -> int { *self as int } }
pub open spec fn clamp(n: int, max: int) -> int { if n < 0 { 0 } else if n > max { max } else { n } }
/// Trusted: dactyl's saturating conversions.
#[verifier::external_body]
pub fn vx_sat_u8<T: VxNum>(t: T) -> (r: u8) ensures r == clamp(t.num(), 255) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sat_u32<T: VxNum>(t: T) -> (r: u32) ensures r == clamp(t.num(), 0xffff_ffff) { unimplemented!() }
pub assume_specification[ u64::wrapping_div ](a: u64, b: u64) -> (r: u64) requires b != 0 ensures r == a / b;
pub assume_specification[ u32::wrapping_div ](a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a / b;
pub assume_specification[ <usize as core::convert::From<bool>>::from ](b: bool) -> (r: usize) ensures r == if b { 1usize } else { 0usize };
/// Trusted: dactyl's number formats.
#[verifier::external_body]
pub struct VxNiceU32 { x: u8 }
#[verifier::external_body]
pub struct VxNicePct { x: u8 }
#[verifier::external_body]
pub struct VxNiceClock { x: u8 }
impl VxNiceU32 {
	pub uninterp spec fn bytes(&self) -> Seq<u8>;
	#[verifier::external_body]
	pub exec const MIN: Self ensures Self::MIN.bytes() == unice(0) { VxNiceU32 { x: 0 } }
	#[verifier::external_body]
	pub fn replace(&mut self, n: u32) ensures final(self).bytes() == unice(n as int) { unimplemented!() }
	#[verifier::external_body]
	pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r <= 13 { unimplemented!() }
	#[verifier::external_body]
	pub fn from(n: u32) -> (r: Self) ensures r.bytes() == unice(n as int) { unimplemented!() }
}
impl VxNicePct {
	pub uninterp spec fn bytes(&self) -> Seq<u8>;
	#[verifier::external_body]
	pub exec const MIN: Self ensures Self::MIN.bytes() == upct(0.0f32) { VxNicePct { x: 0 } }
	#[verifier::external_body]
	pub fn replace(&mut self, n: f32) ensures final(self).bytes() == upct(n) { unimplemented!() }
	#[verifier::external_body]
	pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r <= 7 { unimplemented!() }
	#[verifier::external_body]
	pub fn from(n: f32) -> (r: Self) ensures r.bytes() == upct(n) { unimplemented!() }
}
impl VxNiceClock {
	pub uninterp spec fn secs(&self) -> int;
	pub open spec fn bytes(&self) -> Seq<u8> { uclock(self.secs()) }
	#[verifier::external_body]
	pub exec const MIN: Self ensures Self::MIN.secs() == 0 { VxNiceClock { x: 0 } }
	#[verifier::external_body]
	pub fn replace(&mut self, n: u32) ensures final(self).secs() == n { unimplemented!() }
	#[verifier::external_body]
	pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), r == 8 { unimplemented!() }
	#[verifier::external_body]
	pub fn from(n: u32) -> (r: Self) ensures r.secs() == n { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_f64(a: u32) -> (r: f64) ensures r == ufloat(a as int) { unimplemented!() }
pub use vfr::*;
pub mod vfr {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::float::*;
use super::*;
/// The members of a set of strings, in order.
pub uninterp spec fn sview(s: &VxSet<String>) -> Seq<Seq<char>>;
/// dactyl: a number with separators, a ratio as percentage, seconds as HH:MM:SS.
pub uninterp spec fn unice(n: int) -> Seq<u8>;
pub uninterp spec fn upct(n: f32) -> Seq<u8>;
pub uninterp spec fn uclock(n: int) -> Seq<u8>;
pub open spec fn graphic(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> 0x20 < #[trigger] b[i] < 0x7f }
pub broadcast axiom fn axiom_unice(n: int) ensures graphic(#[trigger] unice(n)), 1 <= unice(n).len() <= 13;
pub broadcast axiom fn axiom_upct(n: f32) ensures graphic(#[trigger] upct(n)), 5 <= upct(n).len() <= 7;
pub broadcast axiom fn axiom_uclock(n: int) ensures graphic(#[trigger] uclock(n)), uclock(n).len() == 8;
/// Machine floats, opaque.
pub uninterp spec fn ufloat(n: int) -> f64;
pub uninterp spec fn uquot(a: f64, b: f64) -> f64;
pub uninterp spec fn unarrow(a: f64) -> f32;
pub broadcast axiom fn axiom_fdiv_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn axiom_fdiv(a: f64, b: f64, c: f64) ensures #[trigger] div_ensures::<f64>(a, b, c) ==> c == uquot(a, b);
pub broadcast axiom fn axiom_f32(a: f64, b: f32) ensures #[trigger] float_cast_spec(a, b) ==> b == unarrow(a);
/// The ratio of `done` and `total`.
pub open spec fn ratio(done: int, total: int) -> f32 {
	if done == 0 || total == 0 { 0.0f32 } else if done >= total { 1.0f32 } else { unarrow(uquot(ufloat(done), ufloat(total))) }
}
pub open spec fn rep(c: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| c) }
pub open spec fn bdigit(d: int) -> u8 { (48 + d) as u8 }
pub open spec fn bdec3(n: int) -> Seq<u8> {
	if n < 10 { seq![bdigit(n)] } else if n < 100 { seq![bdigit(n / 10), bdigit(n % 10)] } else { seq![bdigit(n / 100), bdigit(n / 10 % 10), bdigit(n % 10)] }
}
/// Reset, carriage return, and `n` lines up.
pub open spec fn close(n: int) -> Seq<u8> { if n <= 0 { seq![27u8, 91, 48, 109, 13] } else { seq![27u8, 91, 48, 109, 13, 27, 91] + bdec3(n) + seq![65u8] } }
/// Clear to the end of the screen.
pub open spec fn cls() -> Seq<u8> { seq![27u8, 91, 74] }
/// The room for the bar.
pub open spec fn bar_space(width: int, done: int, total: int) -> int {
	let s = width - (19 + unice(done).len() + unice(total).len() + upct(ratio(done, total)).len());
	if total == 0 || s < 10 { 0 } else { s }
}
pub open spec fn bar_filled(width: int, done: int, total: int) -> int { if total == 0 { 0 } else { bar_space(width, done, total) * done / total } }
/// The status line.
pub open spec fn status_text(clock: Seq<u8>, on: Seq<u8>, off: Seq<u8>, done: Seq<u8>, total: Seq<u8>, pct: Seq<u8>) -> Seq<u8> {
	encode_utf8("\u{1b}[0;2m[\u{1b}[0;1m"@) + clock + encode_utf8("\u{1b}[0;2m]  [\u{1b}[0;1;96m"@) + on + encode_utf8("\u{1b}[34m"@) + off
		+ encode_utf8("\u{1b}[0;2m]\u{1b}[0;1;96m  "@) + done + encode_utf8("\u{1b}[0;2m/\u{1b}[0;1;34m"@) + total + encode_utf8("\u{1b}[39m  "@) + pct
		+ encode_utf8("\u{1b}[0;35m"@)
}
/// The arrow in front of a task.
pub open spec fn arrow() -> Seq<u8> { seq![10u8, 32, 32, 32, 32, 226, 134, 179, 32] }
/// The line of a task, cut to the width; none if nothing of it fits.
pub open spec fn task_line(t: Seq<char>, w: int) -> Seq<u8> {
	if cut(t, 0, 0, w) == 0 { seq![] } else { arrow() + encode_utf8(t.take(cut(t, 0, 0, w))) }
}
pub open spec fn task_lines(d: Seq<Seq<char>>, w: int) -> Seq<u8> decreases d.len() {
	if d.len() == 0 { seq![] } else { task_lines(d.drop_last(), w) + task_line(d.last(), w) }
}
pub open spec fn task_count(d: Seq<Seq<char>>, w: int) -> int decreases d.len() {
	if d.len() == 0 { 0 } else { task_count(d.drop_last(), w) + (if cut(d.last(), 0, 0, w) == 0 { 0int } else { 1 }) }
}
/// Is there room for the tasks?
pub open spec fn tasks_fit(n: int, titled: bool, w: int, h: int) -> bool { w >= 14 && (if titled { 1int } else { 0 }) + 1 + n <= h }
pub open spec fn tasks_text(d: Seq<Seq<char>>, titled: bool, w: int, h: int) -> Seq<u8> { if tasks_fit(d.len() as int, titled, w, h) { task_lines(d, w - 12) } else { seq![] } }
pub open spec fn tasks_drawn(d: Seq<Seq<char>>, titled: bool, w: int, h: int) -> int { if tasks_fit(d.len() as int, titled, w, h) { task_count(d, w - 12) } else { 0 } }
pub proof fn lemma_task_count(d: Seq<Seq<char>>, w: int) ensures 0 <= task_count(d, w) <= d.len() decreases d.len() { if d.len() > 0 { lemma_task_count(d.drop_last(), w); } }
/// Up to the first line break.
pub open spec fn first_line(s: Seq<u8>) -> Seq<u8> decreases s.len() {
	if s.len() == 0 || s[0] == 10 { seq![] } else { seq![s[0]] + first_line(s.drop_first()) }
}
pub proof fn lemma_first_line(s: Seq<u8>, n: int)
	requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] != 10, n < s.len() ==> s[n] == 10
	ensures first_line(s) == s.take(n)
	decreases n
{
	if n > 0 {
		assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s.drop_first()[i] != 10 by { assert(s[i + 1] != 10); }
		lemma_first_line(s.drop_first(), n - 1);
		assert(s.take(n) =~= seq![s[0]] + s.drop_first().take(n - 1));
	} else { assert(s.take(0) =~= seq![]); }
}
/// The title line: the first line of the fitted title.
pub open spec fn title_text(t: Option<Seq<char>>, w: int, h: int) -> Seq<u8> {
	match t {
		Some(t) if h >= 2 && first_line(encode_utf8(fit(t, w, 0))).len() > 0 => first_line(encode_utf8(fit(t, w, 0))) + seq![10u8],
		_ => seq![],
	}
}
pub proof fn lemma_bar(s: int, done: int, total: int)
	requires 0 <= s <= 255, 0 <= done <= total, 0 < total < 0x1_0000_0000
	ensures
		s * done == done * s, 0 <= s * done <= 255 * 0x1_0000_0000, 0 <= s * done / total <= s,
		done == 0 ==> s * done / total == 0,
		done == total ==> s * done / total == s,
		done < total && s > 0 ==> s * done / total < s,
{
	assert(s * done == done * s && 0 <= s * done <= 255 * 0x1_0000_0000 && 0 <= s * done <= s * total && (done < total && s > 0 ==> s * done < s * total)) by(nonlinear_arith)
		requires 0 <= s <= 255, 0 <= done <= total, 0 < total < 0x1_0000_0000;
	vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s * done, total);
	vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s, total);
	assert(s * total == total * s) by(nonlinear_arith);
	let q = s * done / total;
	assert(q >= 0 && q <= s && (done < total && s > 0 ==> q < s)) by(nonlinear_arith)
		requires s * done == total * q + (s * done) % total, 0 <= (s * done) % total < total, 0 <= s * done <= s * total, done < total && s > 0 ==> s * done < s * total, 0 < total;
	if done == 0 { assert(s * done == 0) by(nonlinear_arith) requires done == 0; }
}
pub proof fn lemma_tasks_step(d: Seq<Seq<char>>, i: int, w: int)
	requires 0 <= i < d.len()
	ensures
		task_lines(d.take(i + 1), w) == task_lines(d.take(i), w) + task_line(d[i], w),
		task_count(d.take(i + 1), w) == task_count(d.take(i), w) + (if cut(d[i], 0, 0, w) == 0 { 0int } else { 1 }),
		0 <= task_count(d.take(i), w) <= i,
{
	assert(d.take(i + 1).drop_last() =~= d.take(i));
	lemma_task_count(d.take(i), w);
}
pub proof fn lemma_enc_take(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures encode_utf8(s).take(bpos(s, k) as int) == encode_utf8(s.take(k)), bpos(s, k) <= encode_utf8(s).len()
{
	assert(s.take(k) + s.skip(k) =~= s);
	lemma_enc_add(s.take(k), s.skip(k));
	lemma_bpos_take(s, k);
	lemma_bpos_max(s, k); lemma_bpos_len(s); lemma_enc_len(s);
	lemma_enc_len(s.take(k));
	assert(encode_utf8(s).take(bpos(s, k) as int) =~= encode_utf8(s.take(k)));
}
/// A frame.
pub open spec fn frame_small(pct: Seq<u8>) -> Seq<u8> { encode_utf8("\u{1b}[J \u{1b}[0;1;96m\u{bb} \u{1b}[39m"@) + pct + encode_utf8("\u{1b}[0m\r"@) }
pub open spec fn frame_full(title: Seq<u8>, status: Seq<u8>, tasks: Seq<u8>, n: int) -> Seq<u8> { cls() + title + status + tasks + close(n) }
}
impl ProglessBuffer {
	pub open spec fn lines(&self) -> int { clamp(self.lines_doing + (if self.title@.len() == 0 { 0int } else { 1 }), 255) }
	pub open spec fn status(&self) -> Seq<u8> { status_text(self.elapsed.bytes(), self.bar_done@, self.bar_undone@, self.done.bytes(), self.total.bytes(), self.percent.bytes()) }
	pub open spec fn text(&self, w: int) -> Seq<u8> {
		if w < 40 { frame_small(self.percent.bytes()) } else { frame_full(self.title@, self.status(), self.doing@, self.lines()) }
	}
}
pub proof fn lemma_text()
	ensures
		forall|p: Seq<u8>| #[trigger] frame_small(p).len() > 0,
		forall|t: Seq<u8>, s: Seq<u8>, k: Seq<u8>, n: int| #[trigger] frame_full(t, s, k, n).len() > 0,
{
	lemma_enc_len("\u{1b}[0m\r"@);
	reveal_strlit("\u{1b}[0m\r");
	lemma_blen_ge("\u{1b}[0m\r"@);
}
/// Trusted: std::collections::BTreeSet<String>, in order (of UTF-8).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxSet<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub struct VxSetIter<'a> { x: std::marker::PhantomData<&'a u8> }
impl VxSet<String> {
	pub open spec fn view(&self) -> Seq<Seq<char>> { sview(self) }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == self.view().len(), r <= isize::MAX / 8 { unimplemented!() }
	#[verifier::external_body]
	pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
	#[verifier::external_body]
	pub fn iter<'a>(&'a self) -> (r: VxSetIter<'a>) ensures r.src() == self.view(), r.at() == 0 { unimplemented!() }
}
impl<'a> VxSetIter<'a> {
	pub uninterp spec fn src(&self) -> Seq<Seq<char>>;
	pub uninterp spec fn at(&self) -> int;
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<&'a String>)
		ensures
			final(self).src() == old(self).src(), 0 <= old(self).at() <= old(self).src().len(),
			r is None <==> old(self).at() == old(self).src().len(),
			r is None ==> final(self).at() == old(self).at(),
			r is Some ==> r->0@ == old(self).src()[old(self).at()] && final(self).at() == old(self).at() + 1,
	{ unimplemented!() }
}
impl<'a> VxIter for VxSetIter<'a> {}
impl<'a> VxIntoIter for &'a VxSet<String> {
	type It = VxSetIter<'a>;
	open spec fn it_ok(&self, r: VxSetIter<'a>) -> bool { r.src() == (*self).view() && r.at() == 0 }
	fn vx_into_it(self) -> (r: VxSetIter<'a>) { self.iter() }
}
/// Trusted: str::bytes and its take(n).
#[verifier::external_body]
pub struct VxByteIter<'a> { x: std::marker::PhantomData<&'a u8> }
impl<'a> VxByteIter<'a> {
	pub uninterp spec fn rest(&self) -> Seq<u8>;
	#[verifier::external_body]
	pub fn take(self, n: usize) -> (r: VxByteIter<'a>) ensures r.rest() == self.rest().take(clamp(n as int, self.rest().len() as int)) { unimplemented!() }
	#[verifier::external_body]
	pub fn copied(self) -> (r: VxByteIter<'a>) ensures r == self { unimplemented!() }
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<u8>)
		ensures
			r is None <==> old(self).rest().len() == 0,
			r is None ==> final(self).rest() == old(self).rest(),
			r is Some ==> r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
	{ unimplemented!() }
}
impl<'a> VxIter for VxByteIter<'a> {}
pub trait VxStrBytes { fn vx_bytes<'a>(&'a self) -> VxByteIter<'a>; }
impl VxStrBytes for str {
	#[verifier::external_body]
	fn vx_bytes<'a>(&'a self) -> (r: VxByteIter<'a>) ensures r.rest() == encode_utf8(self@) { unimplemented!() }
}
impl VxStrBytes for String {
	#[verifier::external_body]
	fn vx_bytes<'a>(&'a self) -> (r: VxByteIter<'a>) ensures r.rest() == encode_utf8(self@) { unimplemented!() }
}
pub trait VxSliceBytes { fn vx_iter<'a>(&'a self) -> VxByteIter<'a>; }
impl VxSliceBytes for [u8] {
	#[verifier::external_body]
	fn vx_iter<'a>(&'a self) -> (r: VxByteIter<'a>) ensures r.rest() == self@, self@.len() <= isize::MAX { unimplemented!() }
}
pub trait VxExtendBytes { fn vx_extend_bytes<'a>(&mut self, it: VxByteIter<'a>); }
impl VxExtendBytes for Vec<u8> {
	#[verifier::external_body]
	fn vx_extend_bytes<'a>(&mut self, it: VxByteIter<'a>) ensures final(self)@ == old(self)@ + it.rest() { unimplemented!() }
}
impl<'a> VxCow<'a, str> {
	#[verifier::external_body]
	pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
	#[verifier::external_body]
	pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.view()), r@.len() <= isize::MAX { unimplemented!() }
	#[verifier::external_body]
	pub fn as_str(&self) -> (r: &str) ensures r@ == self.view() { unimplemented!() }
}
impl<const N: usize> VxSlice<std::ops::RangeTo<usize>> for [u8; N] {
	type Out = [u8];
	open spec fn slice_ok(&self, i: std::ops::RangeTo<usize>) -> bool { i.end <= N }
	#[verifier::external_body]
	fn vx_slice<'a>(&'a self, i: std::ops::RangeTo<usize>) -> (r: &'a [u8]) ensures r@ == self@.take(i.end as int) { &self[i] }
}
/// Trusted: std::io::IoSlice, as the bytes left to write.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxParts<'a> { x: std::marker::PhantomData<&'a u8> }
impl<'a> VxParts<'a> {
	pub uninterp spec fn rest(&self) -> Seq<u8>;
	pub uninterp spec fn n(&self) -> nat;
	#[verifier::external_body]
	pub fn new() -> (r: Self) ensures r.rest() == Seq::<u8>::empty(), r.n() == 0 { unimplemented!() }
	#[verifier::external_body]
	pub fn with(self, b: &'a [u8]) -> (r: Self) ensures r.rest() == self.rest() + b@, r.n() == self.n() + 1 { unimplemented!() }
	#[verifier::external_body]
	pub fn is_empty(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
}
pub struct VxIoSlice { pub x: u8 }
impl VxIoSlice {
	/// Panics beyond the end. Empty parts in front are removed.
	#[verifier::external_body]
	pub fn advance_slices<'a>(p: &mut VxParts<'a>, n: usize)
		requires n <= old(p).rest().len()
		ensures final(p).rest() == old(p).rest().skip(n as int), final(p).n() == 0 <==> final(p).rest().len() == 0
	{ unimplemented!() }
}
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum VxErrorKind { Interrupted, WouldBlock, Other }
impl VxIoError {
	pub uninterp spec fn ekind(&self) -> VxErrorKind;
	#[verifier::external_body]
	pub fn kind(&self) -> (r: VxErrorKind) ensures r == self.ekind() { unimplemented!() }
}
impl VxStream {
	/// Writes some of it (some, if there is any), or is interrupted.
	#[verifier::external_body]
	pub fn write_vectored(&mut self, p: VxParts<'_>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, VxIoError>)
		ensures
			*final(self) == *old(self), final(w).up() == old(w).up(),
			final(w).pend(!final(self).err) == old(w).pend(!final(self).err),
			r is Ok ==> r->Ok_0 <= p.rest().len(),
			old(w).up() ==> {
				&&& final(w).log() == old(w).log()
				&&& r is Ok ==> (p.rest().len() > 0 ==> r->Ok_0 > 0) && final(w).pend(final(self).err) == old(w).pend(final(self).err) + p.rest().take(r->Ok_0 as int)
				&&& r is Err ==> r->Err_0.ekind() == VxErrorKind::Interrupted && final(w).pend(final(self).err) == old(w).pend(final(self).err)
			},
	{ unimplemented!() }
}
@end
@fn ProglessBuffer::print
+props C09 C10 C19
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs write_vectored Tracked(w)
+callargs flush Tracked(w)
+attrs #[verifier::exec_allows_no_decreases_clause]
+sig
requires old(handle).err,
ensures
	*final(handle) == *old(handle),
	wrote(old(w), final(w), true, self.text(width@ as int)),
	old(w).up() ==> r,
+begin
let ghost vx_w0 = *w;
let ghost vx_all = self.text(width@ as int);
+after advance_slices#0
proof { lemma_text(); assert(parts.rest() =~= vx_all); assert(vx_all.skip(0) =~= vx_all); assert(vx_all.take(0) =~= seq![]); assert(vx_w0.pend(true) + seq![] =~= vx_w0.pend(true)); }
+loop 0
invariant_except_break
	handle.err, *handle == *old(handle), w.up() == vx_w0.up(), vx_w0 == *old(w), vx_all == self.text(width@ as int),
	vx_w0.up() ==> {
		&&& w.log() == vx_w0.log() && w.pend(false) == vx_w0.pend(false)
		&&& parts.rest().len() <= vx_all.len() && parts.rest() == vx_all.skip(vx_all.len() - parts.rest().len())
		&&& w.pend(true) == vx_w0.pend(true) + vx_all.take(vx_all.len() - parts.rest().len())
		&&& parts.rest().len() > 0 && parts.n() > 0
	},
ensures
	handle.err, *handle == *old(handle), w.up() == vx_w0.up(), vx_w0 == *old(w), vx_all == self.text(width@ as int),
	vx_w0.up() ==> w.log() == vx_w0.log() && w.pend(false) == vx_w0.pend(false) && w.pend(true) == vx_w0.pend(true) + vx_all,
+loopbegin 0
let ghost vx_a = vx_all.len() - parts.rest().len();
+loopend 0
proof { assert(vx_w0.up() ==> parts.rest().len() > 0); }
+before is_empty#1
proof {
	if vx_w0.up() {
		let n = vx_all.len() - parts.rest().len();
		assert(parts.rest() =~= vx_all.skip(n));
		assert(w.pend(true) =~= vx_w0.pend(true) + vx_all.take(n));
		if parts.rest().len() == 0 { assert(vx_all.take(n) =~= vx_all); }
	}
}
@fn ProglessBuffer::set_bars
+props C09
+sig
requires done <= total,
ensures
	*final(self) == (ProglessBuffer { bar_done: final(self).bar_done, bar_undone: final(self).bar_undone, ..*old(self) }),
	({
		let s = width@ - (19 + old(self).done.bytes().len() + old(self).total.bytes().len() + old(self).percent.bytes().len());
		let s = if total == 0 || s < 10 { 0 } else { s };
		let f = if total == 0 { 0 } else { s * done / (total as int) };
		final(self).bar_done@ == rep(35, f) && final(self).bar_undone@ == rep(45, s - f)
	}),
+begin
proof {
	let s = width@ - (19 + self.done.bytes().len() + self.total.bytes().len() + self.percent.bytes().len());
	if total > 0 && 0 <= s <= 255 { lemma_bar(s, done as int, total as int); }
}
+end
proof {
	let s = width@ - (19 + self.done.bytes().len() + self.total.bytes().len() + self.percent.bytes().len());
	let s = if total == 0 || s < 10 { 0 } else { s };
	let f = if total == 0 { 0 } else { s * done / (total as int) };
	assert(self.bar_done@ =~= rep(35, f));
	assert(self.bar_undone@ =~= rep(45, s - f));
}
@fn ProglessBuffer::set_doing
+props C10
+method extend vx_extend_bytes
+method bytes vx_bytes
+sig
ensures
	*final(self) == (ProglessBuffer { doing: final(self).doing, lines_doing: final(self).lines_doing, ..*old(self) }),
	final(self).doing@ == tasks_text(doing.view(), old(self).title@.len() > 0, width@ as int, height@ as int),
	final(self).lines_doing == tasks_drawn(doing.view(), old(self).title@.len() > 0, width@ as int, height@ as int),
+loop 0
invariant
	self.title == old(self).title, self.elapsed == old(self).elapsed, self.bar_done == old(self).bar_done, self.bar_undone == old(self).bar_undone, self.done == old(self).done, self.total == old(self).total, self.percent == old(self).percent,
	vx_it0.src() == doing.view(), 0 <= vx_it0.at() <= doing.view().len() < 255,
	self.doing@ == task_lines(doing.view().take(vx_it0.at()), width as int),
	self.lines_doing == task_count(doing.view().take(vx_it0.at()), width as int),
decreases doing.view().len() - vx_it0.at(),
+loopend 0
proof {
	let i = vx_it0.at() - 1;
	let s = doing.view()[i];
	lemma_tasks_step(doing.view(), i, width as int);
	lemma_cut(s, 0, 0, width as int);
	lemma_enc_take(s, cut(s, 0, 0, width as int));
	assert(self.doing@ =~= task_lines(doing.view().take(i), width as int) + task_line(s, width as int));
}
+afterloop 0
proof { assert(doing.view().take(vx_it0.at()) =~= doing.view()); }
+loopbegin 0
proof { lemma_tasks_step(doing.view(), vx_it0.at() - 1, width as int); }
@fn ProglessBuffer::set_title
+props C10
+method iter vx_iter
+sig
ensures
	*final(self) == (ProglessBuffer { title: final(self).title, ..*old(self) }),
	final(self).title@ == title_text(match title { Some(t) => Some(t.text()), None => None }, width@ as int, height@ as int),
+loop 0
invariant_except_break
	vx_acc0 is None,
	vx_k0 <= slice@.len() <= isize::MAX,
	vx_it0.rest() == slice@.skip(vx_k0 as int),
	forall|i: int| 0 <= i < vx_k0 ==> #[trigger] slice@[i] != 10,
ensures
	vx_acc0 is None ==> forall|i: int| 0 <= i < slice@.len() ==> #[trigger] slice@[i] != 10,
	vx_acc0 is Some ==> vx_acc0->0 < slice@.len() && slice@[vx_acc0->0 as int] == 10 && forall|i: int| 0 <= i < vx_acc0->0 ==> #[trigger] slice@[i] != 10,
decreases vx_it0.rest().len(),
+after unwrap_or#0
proof { lemma_first_line(slice@, end as int); }
