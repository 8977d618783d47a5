# The colours: number, name, escape sequence.
@include strings.vx
@path Self::from_u8 AnsiColor::from_u8
@path fmt::Formatter VxFormatter
@path fmt::Result VxFmtResult
@ufcs <strasfmt::Display>::fmt => vx_str_fmt
@raw
/// Trusted: core::fmt::Formatter, what was written to it, and whether it has padding or truncation set.
#[verifier::external_body]
pub struct VxFormatter<'a> { f: std::marker::PhantomData<&'a ()> }
pub type VxFmtResult = Result<(), ()>;
impl<'a> VxFormatter<'a> {
	pub uninterp spec fn out(&self) -> Seq<char>;
	pub uninterp spec fn plain(&self) -> bool;
	/// Can more be written to it?
	pub uninterp spec fn ok(&self) -> bool;
	#[verifier::external_body]
	pub fn write_str(&mut self, s: &str) -> (r: VxFmtResult) ensures final(self).plain() == old(self).plain(), r is Ok <==> old(self).ok(), r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
	#[verifier::external_body]
	pub fn pad(&mut self, s: &str) -> (r: VxFmtResult) ensures final(self).plain() == old(self).plain(), r is Ok <==> old(self).ok(), r is Ok && old(self).plain() ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_fmt(s: &str, f: &mut VxFormatter<'_>) -> (r: VxFmtResult) ensures final(f).plain() == old(f).plain(), r is Ok <==> old(f).ok(), r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + s@ { unimplemented!() }
pub use vc::*;
pub mod vc {
use vstd::prelude::*;
pub open spec fn digit(d: int) -> char {
	if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
	else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
/// A number below 1000 in decimal.
pub open spec fn dec3(n: int) -> Seq<char> {
	if n < 10 { seq![digit(n)] }
	else if n < 100 { seq![digit(n / 10), digit(n % 10)] }
	else { seq![digit(n / 100), digit(n / 10 % 10), digit(n % 10)] }
}
/// The code of colour `n`, from the documentation.
pub open spec fn col_code(n: int) -> Seq<char> {
	if n < 8 { seq!['3', digit(n)] }
	else if n < 16 { seq!['9', digit(n - 8)] }
	else { seq!['3', '8', ';', '5', ';'] + dec3(n) }
}
pub open spec fn col_seq(n: int) -> Seq<char> { seq!['\x1b', '['] + col_code(n) + seq!['m'] }
/// C18: distinct colours have distinct sequences.
pub proof fn thm_c18_distinct(a: int, b: int)
	requires 0 <= a < 256, 0 <= b < 256, col_seq(a) == col_seq(b)
	ensures a == b
{
	let x = col_seq(a); let y = col_seq(b);
	assert(x.len() == 2 + col_code(a).len() + 1); assert(y.len() == 2 + col_code(b).len() + 1);
	assert forall|i: int| 0 <= i < col_code(a).len() implies col_code(a)[i] == x[i + 2] by {}
	assert forall|i: int| 0 <= i < col_code(b).len() implies col_code(b)[i] == y[i + 2] by {}
	assert(col_code(a) =~= col_code(b));
	let c = col_code(a); let d = col_code(b);
	assert(c[0] == d[0]); assert(c[1] == d[1]);
	if a >= 16 && b >= 16 {
		assert(c.len() == 5 + dec3(a).len()); assert(d.len() == 5 + dec3(b).len());
		assert forall|i: int| 0 <= i < dec3(a).len() implies dec3(a)[i] == dec3(b)[i] by { assert(c[i + 5] == d[i + 5]); }
		if a >= 100 { assert(dec3(a)[0] == dec3(b)[0] && dec3(a)[1] == dec3(b)[1] && dec3(a)[2] == dec3(b)[2]); }
		else { assert(dec3(a)[0] == dec3(b)[0] && dec3(a)[1] == dec3(b)[1]); }
	}
}
pub open spec fn bold_seq(n: int) -> Seq<char> { seq!['\x1b', '[', '1', ';'] + col_code(n) + seq!['m'] }
}
@end
@item enum AnsiColor #[derive(Clone, Copy)] #[repr(u8)]
@assoc AnsiColor RESET
@fn AnsiColor::from_u8
+props C02 C18
+ret r
+sig
ensures r as int == num,
@fn AnsiColor::as_str
+props C18
+ret r
+sig
ensures r@ =~= col_seq(self as int),
@fn AnsiColor::as_str_bold
+props C02 C18
+ret r
+sig
ensures r@ =~= bold_seq(self as int),
@fn AnsiColor as From<u8>::from
+free
+as color_from
+props C18
+ret r
+sig
ensures r as int == num,
@fn AnsiColor as PartialEq<u8>::eq
+free
+as color_eq_u8
+props C18
+ret r
+sig
ensures r <==> *vx_self as int == *other,
@fn u8 as PartialEq<AnsiColor>::eq
+free
+as u8_eq_color
+props C18
+ret r
+sig
ensures r <==> *vx_self == *other as int,
@fn AnsiColor as Display::fmt
+free
+as color_fmt
+props C18
+ret r
+sig
ensures r is Ok <==> old(f).ok(), r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + col_seq(*vx_self as int),
