# Message kinds: names, command words, colours, prefixes. The tables are from the documentation.
@include color.vx
@method trim_ascii vx_trim_ascii
@broadcast lemma_blen_ascii
@raw
pub use vk::*;
pub mod vk {
use vstd::prelude::*;
use super::*;
/// The displayed name.
pub open spec fn kname(k: MsgKind) -> Seq<char> {
	match k {
		MsgKind::Aborted => seq!['A', 'b', 'o', 'r', 't', 'e', 'd'],
		MsgKind::Confirm => seq!['C', 'o', 'n', 'f', 'i', 'r', 'm'],
		MsgKind::Crunched => seq!['C', 'r', 'u', 'n', 'c', 'h', 'e', 'd'],
		MsgKind::Debug => seq!['D', 'e', 'b', 'u', 'g'],
		MsgKind::Done => seq!['D', 'o', 'n', 'e'],
		MsgKind::Error => seq!['E', 'r', 'r', 'o', 'r'],
		MsgKind::Found => seq!['F', 'o', 'u', 'n', 'd'],
		MsgKind::Info => seq!['I', 'n', 'f', 'o'],
		MsgKind::Notice => seq!['N', 'o', 't', 'i', 'c', 'e'],
		MsgKind::Review => seq!['R', 'e', 'v', 'i', 'e', 'w'],
		MsgKind::Skipped => seq!['S', 'k', 'i', 'p', 'p', 'e', 'd'],
		MsgKind::Success => seq!['S', 'u', 'c', 'c', 'e', 's', 's'],
		MsgKind::Task => seq!['T', 'a', 's', 'k'],
		MsgKind::Warning => seq!['W', 'a', 'r', 'n', 'i', 'n', 'g'],
		_ => seq![],
	}
}
/// The colour number.
pub open spec fn kcolor(k: MsgKind) -> int {
	match k {
		MsgKind::Aborted => 9,
		MsgKind::Confirm => 208,
		MsgKind::Crunched => 10,
		MsgKind::Debug => 14,
		MsgKind::Done => 10,
		MsgKind::Error => 9,
		MsgKind::Found => 10,
		MsgKind::Info => 13,
		MsgKind::Notice => 13,
		MsgKind::Review => 14,
		MsgKind::Skipped => 11,
		MsgKind::Success => 10,
		MsgKind::Task => 199,
		MsgKind::Warning => 11,
		_ => 0,
	}
}
/// Has the kind no prefix?
pub open spec fn kempty(k: MsgKind) -> bool { k is None || k is Blank || k is Custom }
/// A text with the bold colour `n`, as a prefix.
pub open spec fn colored(n: int, s: Seq<char>) -> Seq<char> {
	if s.len() == 0 { s } else { bold_seq(n) + s + seq![':', '\x1b', '[', '0', 'm', ' '] }
}
pub open spec fn plain(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { s + seq![':', ' '] } }
/// The whole prefix of a kind.
#[verifier::opaque]
pub open spec fn kprefix(k: MsgKind) -> Seq<char> { colored(kcolor(k), kname(k)) }
pub proof fn lemma_colored(n: int, s: Seq<char>)
	requires 0 <= n < 256
	ensures blen(colored(n, s)) == (if s.len() == 0 { 0 } else { bold_seq(n).len() + blen(s) + 6 }), blen(bold_seq(n)) == bold_seq(n).len(), bold_seq(n).len() <= 16,
{
	lemma_blen_ascii(bold_seq(n));
	lemma_blen_ascii(seq![':', '\x1b', '[', '0', 'm', ' ']);
	lemma_blen_add(bold_seq(n), s);
	lemma_blen_add(bold_seq(n) + s, seq![':', '\x1b', '[', '0', 'm', ' ']);
}
/// The same, spelled out.
pub open spec fn klit(k: MsgKind) -> Seq<char> {
	match k {
		MsgKind::Aborted => seq!['\x1b', '[', '1', ';', '9', '1', 'm', 'A', 'b', 'o', 'r', 't', 'e', 'd', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Confirm => seq!['\x1b', '[', '1', ';', '3', '8', ';', '5', ';', '2', '0', '8', 'm', 'C', 'o', 'n', 'f', 'i', 'r', 'm', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Crunched => seq!['\x1b', '[', '1', ';', '9', '2', 'm', 'C', 'r', 'u', 'n', 'c', 'h', 'e', 'd', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Debug => seq!['\x1b', '[', '1', ';', '9', '6', 'm', 'D', 'e', 'b', 'u', 'g', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Done => seq!['\x1b', '[', '1', ';', '9', '2', 'm', 'D', 'o', 'n', 'e', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Error => seq!['\x1b', '[', '1', ';', '9', '1', 'm', 'E', 'r', 'r', 'o', 'r', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Found => seq!['\x1b', '[', '1', ';', '9', '2', 'm', 'F', 'o', 'u', 'n', 'd', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Info => seq!['\x1b', '[', '1', ';', '9', '5', 'm', 'I', 'n', 'f', 'o', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Notice => seq!['\x1b', '[', '1', ';', '9', '5', 'm', 'N', 'o', 't', 'i', 'c', 'e', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Review => seq!['\x1b', '[', '1', ';', '9', '6', 'm', 'R', 'e', 'v', 'i', 'e', 'w', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Skipped => seq!['\x1b', '[', '1', ';', '9', '3', 'm', 'S', 'k', 'i', 'p', 'p', 'e', 'd', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Success => seq!['\x1b', '[', '1', ';', '9', '2', 'm', 'S', 'u', 'c', 'c', 'e', 's', 's', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Task => seq!['\x1b', '[', '1', ';', '3', '8', ';', '5', ';', '1', '9', '9', 'm', 'T', 'a', 's', 'k', ':', '\x1b', '[', '0', 'm', ' '],
		MsgKind::Warning => seq!['\x1b', '[', '1', ';', '9', '3', 'm', 'W', 'a', 'r', 'n', 'i', 'n', 'g', ':', '\x1b', '[', '0', 'm', ' '],
		_ => seq![],
	}
}
pub proof fn lemma_kprefix(k: MsgKind)
	ensures kprefix(k) == klit(k), blen(kprefix(k)) == klit(k).len(),
{
	reveal(kprefix);
	assert(kprefix(k) =~= klit(k));
	lemma_blen_ascii(klit(k));
}
/// The command word.
pub open spec fn kword(k: MsgKind) -> Seq<char> {
	match k {
		MsgKind::Aborted => seq!['a', 'b', 'o', 'r', 't', 'e', 'd'],
		MsgKind::Confirm => seq!['c', 'o', 'n', 'f', 'i', 'r', 'm'],
		MsgKind::Crunched => seq!['c', 'r', 'u', 'n', 'c', 'h', 'e', 'd'],
		MsgKind::Debug => seq!['d', 'e', 'b', 'u', 'g'],
		MsgKind::Done => seq!['d', 'o', 'n', 'e'],
		MsgKind::Error => seq!['e', 'r', 'r', 'o', 'r'],
		MsgKind::Found => seq!['f', 'o', 'u', 'n', 'd'],
		MsgKind::Info => seq!['i', 'n', 'f', 'o'],
		MsgKind::Notice => seq!['n', 'o', 't', 'i', 'c', 'e'],
		MsgKind::Review => seq!['r', 'e', 'v', 'i', 'e', 'w'],
		MsgKind::Skipped => seq!['s', 'k', 'i', 'p', 'p', 'e', 'd'],
		MsgKind::Success => seq!['s', 'u', 'c', 'c', 'e', 's', 's'],
		MsgKind::Task => seq!['t', 'a', 's', 'k'],
		MsgKind::Warning => seq!['w', 'a', 'r', 'n', 'i', 'n', 'g'],
		MsgKind::Blank => seq!['b', 'l', 'a', 'n', 'k'],
		MsgKind::Custom => seq!['p', 'r', 'i', 'n', 't'],
		MsgKind::None => seq![],
	}
}
/// The kind of a command word.
pub open spec fn kind_of(t: Seq<u8>) -> MsgKind {
	if t =~= seq![97u8, 98u8, 111u8, 114u8, 116u8, 101u8, 100u8] { MsgKind::Aborted }
	else if t =~= seq![99u8, 111u8, 110u8, 102u8, 105u8, 114u8, 109u8] { MsgKind::Confirm }
	else if t =~= seq![99u8, 114u8, 117u8, 110u8, 99u8, 104u8, 101u8, 100u8] { MsgKind::Crunched }
	else if t =~= seq![100u8, 101u8, 98u8, 117u8, 103u8] { MsgKind::Debug }
	else if t =~= seq![100u8, 111u8, 110u8, 101u8] { MsgKind::Done }
	else if t =~= seq![101u8, 114u8, 114u8, 111u8, 114u8] { MsgKind::Error }
	else if t =~= seq![102u8, 111u8, 117u8, 110u8, 100u8] { MsgKind::Found }
	else if t =~= seq![105u8, 110u8, 102u8, 111u8] { MsgKind::Info }
	else if t =~= seq![110u8, 111u8, 116u8, 105u8, 99u8, 101u8] { MsgKind::Notice }
	else if t =~= seq![114u8, 101u8, 118u8, 105u8, 101u8, 119u8] { MsgKind::Review }
	else if t =~= seq![115u8, 107u8, 105u8, 112u8, 112u8, 101u8, 100u8] { MsgKind::Skipped }
	else if t =~= seq![115u8, 117u8, 99u8, 99u8, 101u8, 115u8, 115u8] { MsgKind::Success }
	else if t =~= seq![116u8, 97u8, 115u8, 107u8] { MsgKind::Task }
	else if t =~= seq![119u8, 97u8, 114u8, 110u8, 105u8, 110u8, 103u8] { MsgKind::Warning }
	else if t =~= seq![98u8, 108u8, 97u8, 110u8, 107u8] { MsgKind::Blank }
	else if t =~= seq![112u8, 114u8, 105u8, 110u8, 116u8] { MsgKind::Custom }
	else if t =~= seq![112u8, 114u8, 111u8, 109u8, 112u8, 116u8] { MsgKind::Confirm }
	else { MsgKind::None }
}
pub open spec fn ascii_ws(b: u8) -> bool { b == 9 || b == 10 || b == 12 || b == 13 || b == 32 }
/// Without the ASCII whitespace at both ends.
pub open spec fn trim(s: Seq<u8>) -> Seq<u8> decreases s.len() {
	if s.len() == 0 { s }
	else if ascii_ws(s[0]) { trim(s.drop_first()) }
	else if ascii_ws(s.last()) { trim(s.drop_last()) }
	else { s }
}
/// The bytes of an ASCII text.
pub open spec fn abytes(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
/// C15: every command word selects its kind, surrounding whitespace or not; "prompt" is a synonym.
pub proof fn thm_c15_words(k: MsgKind, pre: Seq<u8>, post: Seq<u8>)
	requires forall|i: int| 0 <= i < pre.len() ==> ascii_ws(#[trigger] pre[i]), forall|i: int| 0 <= i < post.len() ==> ascii_ws(#[trigger] post[i]),
	ensures
		kind_of(trim(pre + abytes(kword(k)) + post)) == k,
		kind_of(trim(pre + seq![112u8, 114, 111, 109, 112, 116] + post)) == MsgKind::Confirm,
{
	let w = abytes(kword(k));
	lemma_trim(pre, w, post);
	lemma_trim(pre, seq![112u8, 114, 111, 109, 112, 116], post);
	assert(w.len() == kword(k).len());
	assert(kind_of(w) == k) by {
		if k is Aborted { assert(w =~= seq![97u8, 98u8, 111u8, 114u8, 116u8, 101u8, 100u8]); }
		if k is Confirm { assert(w =~= seq![99u8, 111u8, 110u8, 102u8, 105u8, 114u8, 109u8]); }
		if k is Crunched { assert(w =~= seq![99u8, 114u8, 117u8, 110u8, 99u8, 104u8, 101u8, 100u8]); }
		if k is Debug { assert(w =~= seq![100u8, 101u8, 98u8, 117u8, 103u8]); }
		if k is Done { assert(w =~= seq![100u8, 111u8, 110u8, 101u8]); }
		if k is Error { assert(w =~= seq![101u8, 114u8, 114u8, 111u8, 114u8]); }
		if k is Found { assert(w =~= seq![102u8, 111u8, 117u8, 110u8, 100u8]); }
		if k is Info { assert(w =~= seq![105u8, 110u8, 102u8, 111u8]); }
		if k is Notice { assert(w =~= seq![110u8, 111u8, 116u8, 105u8, 99u8, 101u8]); }
		if k is Review { assert(w =~= seq![114u8, 101u8, 118u8, 105u8, 101u8, 119u8]); }
		if k is Skipped { assert(w =~= seq![115u8, 107u8, 105u8, 112u8, 112u8, 101u8, 100u8]); }
		if k is Success { assert(w =~= seq![115u8, 117u8, 99u8, 99u8, 101u8, 115u8, 115u8]); }
		if k is Task { assert(w =~= seq![116u8, 97u8, 115u8, 107u8]); }
		if k is Warning { assert(w =~= seq![119u8, 97u8, 114u8, 110u8, 105u8, 110u8, 103u8]); }
		if k is Blank { assert(w =~= seq![98u8, 108u8, 97u8, 110u8, 107u8]); }
		if k is Custom { assert(w =~= seq![112u8, 114u8, 105u8, 110u8, 116u8]); }
		if k is None { assert(w.len() == 0); }
	}
}
proof fn lemma_trim(pre: Seq<u8>, w: Seq<u8>, post: Seq<u8>)
	requires
		forall|i: int| 0 <= i < pre.len() ==> ascii_ws(#[trigger] pre[i]), forall|i: int| 0 <= i < post.len() ==> ascii_ws(#[trigger] post[i]),
		w.len() > 0 ==> !ascii_ws(w[0]) && !ascii_ws(w.last()),
	ensures trim(pre + w + post) == w
	decreases pre.len() + post.len()
{
	let s = pre + w + post;
	if pre.len() > 0 {
		assert(s.drop_first() =~= pre.drop_first() + w + post);
		lemma_trim(pre.drop_first(), w, post);
	}
	else if post.len() > 0 {
		if w.len() == 0 {
			assert(s.drop_first() =~= pre + w + post.drop_first());
			assert(s[0] == post[0]);
			lemma_trim(pre, w, post.drop_first());
		} else {
			assert(s.drop_last() =~= pre + w + post.drop_last());
			assert(s[0] == w[0]); assert(s.last() == post.last());
			lemma_trim(pre, w, post.drop_last());
		}
	}
	else { assert(s =~= w); }
}
}
impl VxTrim for [u8] {
	#[verifier::external_body]
	fn vx_trim_ascii<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == trim(self@) { self.trim_ascii() }
}
pub trait VxTrim { fn vx_trim_ascii<'a>(&'a self) -> &'a [u8]; }
@end
@item enum MsgKind #[derive(Clone, Copy)]
@fn MsgKind as From<&[u8]>::from
+as kind_from
+props C14 C15
+ret r
+sig
ensures r == kind_of(trim(src@)),
@fn MsgKind::as_str
+props C15
+ret r
+sig
ensures r@ =~= kname(self),
@fn MsgKind::command
+props C15
+ret r
+sig
ensures r@ =~= kword(self),
@fn MsgKind::is_empty
+props C02
+ret r
+sig
ensures r == kempty(self),
@fn MsgKind::prefix_color
+props C02
+ret r
+sig
ensures
	r is None <==> kempty(self),
	r is Some ==> r->0 as int == kcolor(self),
@fn MsgKind::as_str_prefix
+props C01 C02
+ret r
+sig
ensures r@ =~= kprefix(self),
+begin
proof { reveal(kprefix); }
@fn MsgKind as Display::fmt
+free
+as kind_fmt
+props C15
+ret r
+sig
ensures r is Ok <==> old(f).ok(), r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + kname(*vx_self),
