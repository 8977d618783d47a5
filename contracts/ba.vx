# Sizes before and after.
@include msg.vx
@path NiceU64 VxNiceU64
@path NicePercent VxNicePercent
@method div_float vx_div_float
@item struct BeforeAfter #[derive(Clone, Copy)]
@raw
pub use std::num::NonZeroU64;
/// Trusted: dactyl. The quotient, if finite.
pub uninterp spec fn fdiv(a: int, b: int) -> f64;
pub trait VxDiv: Sized {
	spec fn num(&self) -> int;
	fn vx_div_float(self, b: Self) -> (r: Option<f64>) ensures b.num() != 0 ==> r == Some(fdiv(self.num(), b.num()));
}
impl VxDiv for u64 {
	open spec fn num(&self) -> int { *self as int }
	#[verifier::external_body]
	fn vx_div_float(self, b: u64) -> (r: Option<f64>) { unimplemented!() }
}
/// Trusted: dactyl. A number with thousands separators, a ratio as percentage.
pub uninterp spec fn nice(n: int) -> Seq<char>;
pub uninterp spec fn nice_per(n: f64) -> Seq<char>;
#[verifier::external_body]
pub struct VxNiceU64 { x: u8 }
impl VxNiceU64 {
	pub uninterp spec fn text(&self) -> Seq<char>;
	#[verifier::external_body]
	pub fn from(n: NonZeroU64) -> (r: Self) ensures r.text() == nice(n@ as int) { unimplemented!() }
	#[verifier::external_body]
	pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == blen(self.text()), r <= 32 { unimplemented!() }
}
#[verifier::external_body]
pub struct VxNicePercent { x: u8 }
impl VxNicePercent {
	pub uninterp spec fn text(&self) -> Seq<char>;
	#[verifier::external_body]
	pub fn from(n: f64) -> (r: Self) ensures r.text() == nice_per(n) { unimplemented!() }
	#[verifier::external_body]
	pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == blen(self.text()), r <= 32 { unimplemented!() }
}
/// An optional size: nothing and zero are the same.
pub open spec fn sz(n: Option<NonZeroU64>) -> int { match n { Some(n) => n@ as int, None => 0 } }
impl BeforeAfter {
	pub open spec fn b(&self) -> int { sz(self.before) }
	pub open spec fn a(&self) -> int { sz(self.after) }
	/// Are both sizes known?
	pub open spec fn known(&self) -> bool { self.a() != 0 && self.b() != 0 }
	pub open spec fn saved(&self) -> int { if self.known() && self.a() < self.b() { self.b() - self.a() } else { 0 } }
	pub open spec fn grown(&self) -> int { if self.known() && self.b() < self.a() { self.a() - self.b() } else { 0 } }
}
/// The suffix of a message with sizes.
pub open spec fn saved_suffix(s: BeforeAfter) -> Seq<char> {
	if s.saved() > 0 { " \x1b[2m(Saved "@ + nice(s.saved()) + " bytes, "@ + nice_per(fdiv(s.saved(), s.b())) + ".)\x1b[0m"@ }
	else { " \x1b[2m(No savings.)\x1b[0m"@ }
}
@end
@fn BeforeAfter as From<(u64,u64)>::from
+props C12
+ret r
+impl impl BeforeAfter
+as from_tuple
+sig
ensures r.b() == src.0, r.a() == src.1,
@fn BeforeAfter::start
+props C12
+ret r
+sig
ensures r.b() == before, r.a() == 0,
@fn BeforeAfter::stop
+props C12
+sig
ensures final(self).b() == old(self).b(), final(self).a() == after,
@fn BeforeAfter::before
+props C12
+ret r
+sig
ensures r is None <==> self.b() == 0, sz(r) == self.b(),
@fn BeforeAfter::after
+props C12
+ret r
+sig
ensures r is None <==> self.a() == 0, sz(r) == self.a(),
@fn BeforeAfter::less
+props C12
+ret r
+sig
ensures r is None <==> self.saved() == 0, sz(r) == self.saved(),
@fn BeforeAfter::more
+props C12
+ret r
+sig
ensures r is None <==> self.grown() == 0, sz(r) == self.grown(),
@fn BeforeAfter::less_percent
+props C12
+ret r
+sig
ensures r == (if self.saved() == 0 { None } else { Some(fdiv(self.saved(), self.b())) }),
@fn BeforeAfter::more_percent
+props C12
+ret r
+sig
ensures r == (if self.grown() == 0 { None } else { Some(fdiv(self.grown(), self.b())) }),
@fn Msg::with_bytes_saved
+props C12 C01
+ret r
+sig
requires self.wf(),
ensures
	r.wf(),
	r.parts() == self.parts().update(TocId::Suffix as int, saved_suffix(state)),
@raw
/// C12: with both sizes known, savings and growth are the difference, one way or the other; otherwise there are none.
pub proof fn thm_c12(s: BeforeAfter)
	ensures
		!s.known() ==> s.saved() == 0 && s.grown() == 0,
		s.known() ==> s.saved() - s.grown() == s.b() - s.a() && s.saved() >= 0 && s.grown() >= 0 && (s.saved() == 0 || s.grown() == 0),
{}
@end
