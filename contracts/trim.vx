# White space.
@include strings.vx
@raw
pub use vtr::*;
pub mod vtr {
use vstd::prelude::*;
/// char::is_whitespace
pub open spec fn ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { ltrim(s.drop_first()) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn strim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
}
pub trait VxTrimEnd { fn vx_trim_end<'a>(&'a self) -> &'a str; }
impl VxTrimEnd for str {
	#[verifier::external_body]
	fn vx_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == rtrim(self@) { unimplemented!() }
}
@end
