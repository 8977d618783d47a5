# Messages, with timestamps.
@include msg.vx
@path FmtUtc2k VxUtc
@raw
/// Trusted: utc2k::FmtUtc2k, a date and time as text.
#[verifier::external_body]
pub struct VxUtc { x: u8 }
/// Is this the text of a date and time?
pub uninterp spec fn is_date(s: Seq<char>) -> bool;
impl VxUtc {
	pub uninterp spec fn text(&self) -> Seq<char>;
	#[verifier::external_body]
	pub fn now_local() -> (r: Self) ensures is_date(r.text()) { unimplemented!() }
	#[verifier::external_body]
	pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
	#[verifier::external_body]
	pub fn len(&self) -> (r: usize) ensures r == blen(self.text()), r <= 32 { unimplemented!() }
}
/// Is this the rendering of a timestamp?
pub open spec fn is_stamp(s: Seq<char>) -> bool {
	exists|d: Seq<char>| #[trigger] is_date(d) && s == seq!['\x1b', '[', '2', 'm', '[', '\x1b', '[', '0', ';', '3', '4', 'm'] + d + seq!['\x1b', '[', '0', ';', '2', 'm', ']', '\x1b', '[', '0', 'm', ' ']
}
/// C01: the timestamp is between indentation and prefix.
pub proof fn thm_c01_ts_order()
	ensures TocId::Timestamp as int == TocId::Indent as int + 1, TocId::Prefix as int == TocId::Timestamp as int + 1,
{}
@end
@fn Msg::set_timestamp
+props C01
+sig
requires old(self).wf(),
ensures
	final(self).wf(),
	final(self).parts() == old(self).parts().update(TocId::Timestamp as int, final(self).parts()[TocId::Timestamp as int]),
	!enabled ==> final(self).parts()[TocId::Timestamp as int] == Seq::<char>::empty(),
	enabled ==> is_stamp(final(self).parts()[TocId::Timestamp as int]),
+before replace_part#0
proof {
	let d = now.text();
	assert(out@ =~= seq!['\x1b', '[', '2', 'm', '[', '\x1b', '[', '0', ';', '3', '4', 'm'] + d + seq!['\x1b', '[', '0', ';', '2', 'm', ']', '\x1b', '[', '0', 'm', ' ']);
}
+end
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn Msg::with_timestamp
+props C01
+ret r
+sig
requires self.wf(),
ensures
	r.wf(),
	r.parts() == self.parts().update(TocId::Timestamp as int, r.parts()[TocId::Timestamp as int]),
	!enabled ==> r.parts()[TocId::Timestamp as int] == Seq::<char>::empty(),
	enabled ==> is_stamp(r.parts()[TocId::Timestamp as int]),
