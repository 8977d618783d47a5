# Printing and prompts.
@include msg.vx
@include print.vx
@include trim.vx
@method truncate vx_truncate
@method to_lowercase vx_to_lowercase
@method trim vx_trim
@raw
/// Trusted: standard input.
pub struct VxStdin { pub x: u8 }
pub fn stdin() -> VxStdin { VxStdin { x: 0 } }
impl VxStdin {
	/// Appends a line, or fails; whatever was read then is in the string.
	#[verifier::external_body]
	pub fn read_line(&self, s: &mut String, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, VxIoError>)
		ensures
			final(w).up() == old(w).up(), final(w).pend(true) == old(w).pend(true), final(w).pend(false) == old(w).pend(false),
			final(w).log().len() > 0, final(w).log().last() is Read,
			exists|l: Option<Seq<char>>| #[trigger] read_as(old(w).log(), final(w).log(), l) && (l is Some <==> r is Ok) && (l is Some ==> final(s)@ == old(s)@ + l->0),
	{ unimplemented!() }
}
pub open spec fn read_as(l0: Seq<Ev>, l1: Seq<Ev>, l: Option<Seq<char>>) -> bool { l1 == l0.push(Ev::Read(l)) }
pub trait VxTruncate { spec fn trunc_ok(&self, n: usize) -> bool; fn vx_truncate(&mut self, n: usize) requires old(self).trunc_ok(n); }
impl VxTruncate for String {
	/// Panics inside of a character.
	open spec fn trunc_ok(&self, n: usize) -> bool { n == 0 || n > blen(self@) || is_bnd(self@, n as int) }
	#[verifier::external_body]
	fn vx_truncate(&mut self, n: usize) ensures final(self)@ == (if n == 0 { Seq::<char>::empty() } else if n > blen(old(self)@) { old(self)@ } else { old(self)@.take(cidx(old(self)@, n as int)) }) { unimplemented!() }
}
pub trait VxFold { fn vx_to_lowercase(&self) -> String; fn vx_trim<'a>(&'a self) -> &'a str; }
impl VxFold for str {
	#[verifier::external_body]
	fn vx_to_lowercase(&self) -> (r: String) ensures exists|m: Seq<Seq<char>>| #[trigger] lower_map(self@, m) && r@ == flat(m) { unimplemented!() }
	#[verifier::external_body]
	fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == strim(self@) { unimplemented!() }
}
pub use vy::*;
pub mod vy {
use vstd::prelude::*;
use super::*;
pub open spec fn upc(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn lwc(c: char) -> bool { 'a' <= c <= 'z' }
/// Trusted: the lower case of a character, in some context. No other character folds to (text with) one of the five letters y, e, s, n, o.
pub open spec fn lower_char(c: char, x: Seq<char>) -> bool {
	&&& x.len() >= 1
	&&& upc(c) ==> x == seq![((c as u32) + 32) as char]
	&&& ascii(c) && !upc(c) ==> x == seq![c]
	&&& ws(c) ==> x == seq![c]
	&&& !ws(c) ==> forall|i: int| 0 <= i < x.len() ==> !ws(#[trigger] x[i])
	&&& !ascii(c) ==> forall|i: int| 0 <= i < x.len() ==> !yesno(#[trigger] x[i])
}
pub open spec fn yesno(c: char) -> bool { c == 'y' || c == 'e' || c == 's' || c == 'n' || c == 'o' }
pub open spec fn lower_map(s: Seq<char>, m: Seq<Seq<char>>) -> bool {
	m.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> lower_char(s[i], #[trigger] m[i])
}
/// Equal but for the case of ASCII letters.
pub open spec fn eqi(s: Seq<char>, w: Seq<char>) -> bool {
	s.len() == w.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] == w[i] || (lwc(w[i]) && s[i] == ((w[i] as u32) - 32) as char))
}
proof fn lemma_flat_first(p: Seq<Seq<char>>)
	requires p.len() > 0
	ensures flat(p) == p[0] + flat(p.drop_first())
	decreases p.len()
{
	if p.len() > 1 {
		lemma_flat_first(p.drop_last());
		assert(p.drop_last().drop_first() =~= p.drop_first().drop_last());
		assert(flat(p) =~= p[0] + flat(p.drop_first()));
	} else {
		assert(p.drop_last() =~= Seq::<Seq<char>>::empty());
		assert(p.drop_first() =~= Seq::<Seq<char>>::empty());
		assert(flat(p.drop_last()) =~= Seq::<char>::empty());
		assert(flat(p.drop_first()) =~= Seq::<char>::empty());
		assert(flat(p) =~= p[0] + flat(p.drop_first()));
	}
}
proof fn lemma_ltrim(s: Seq<char>, m: Seq<Seq<char>>) -> (n: Seq<Seq<char>>)
	requires lower_map(s, m)
	ensures lower_map(ltrim(s), n), ltrim(flat(m)) == flat(n)
	decreases s.len()
{
	if s.len() == 0 { m }
	else {
		lemma_flat_first(m);
		assert(lower_char(s[0], m[0]));
		if ws(s[0]) {
			assert(flat(m).drop_first() =~= flat(m.drop_first()));
			assert(flat(m)[0] == s[0]);
			assert(lower_map(s.drop_first(), m.drop_first()));
			lemma_ltrim(s.drop_first(), m.drop_first())
		} else {
			assert(flat(m)[0] == m[0][0]);
			m
		}
	}
}
proof fn lemma_rtrim(s: Seq<char>, m: Seq<Seq<char>>) -> (n: Seq<Seq<char>>)
	requires lower_map(s, m)
	ensures lower_map(rtrim(s), n), rtrim(flat(m)) == flat(n)
	decreases s.len()
{
	if s.len() == 0 { m }
	else {
		assert(lower_char(s[s.len() - 1], m[s.len() - 1]));
		if ws(s.last()) {
			assert(flat(m).drop_last() =~= flat(m.drop_last()));
			assert(flat(m).last() == s.last());
			assert(lower_map(s.drop_last(), m.drop_last()));
			lemma_rtrim(s.drop_last(), m.drop_last())
		} else {
			assert(flat(m).last() == m.last().last());
			m
		}
	}
}
proof fn lemma_eqi(t: Seq<char>, m: Seq<Seq<char>>, w: Seq<char>)
	requires lower_map(t, m), forall|i: int| 0 <= i < w.len() ==> yesno(#[trigger] w[i]),
	ensures flat(m) == w <==> eqi(t, w)
	decreases t.len()
{
	if t.len() == 0 { assert(flat(m) =~= Seq::<char>::empty()); if eqi(t, w) { assert(flat(m) =~= w); } }
	else {
		let k = t.len() - 1;
		assert(lower_char(t[k], m[k]));
		assert(flat(m).last() == m[k].last());
		assert(flat(m).len() > 0);
		if w.len() > 0 && ascii(t[k]) {
			assert(yesno(w[w.len() - 1]));
			lemma_eqi(t.drop_last(), m.drop_last(), w.drop_last());
			assert(flat(m) =~= flat(m.drop_last()) + m[k]);
			assert(m[k].len() == 1);
			assert(flat(m).drop_last() =~= flat(m.drop_last()));
			if flat(m) == w {
				assert(m[k][0] == w.last());
				assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] == w[i] || (lwc(w[i]) && t[i] == ((w[i] as u32) - 32) as char)) by {
					if i < k { assert(t.drop_last()[i] == t[i]); assert(w.drop_last()[i] == w[i]); }
				}
			}
			if eqi(t, w) {
				assert(t[k] == w[k] || (lwc(w[k]) && t[k] == ((w[k] as u32) - 32) as char));
				assert forall|i: int| 0 <= i < k implies (#[trigger] t.drop_last()[i] == w.drop_last()[i] || (lwc(w.drop_last()[i]) && t.drop_last()[i] == ((w.drop_last()[i] as u32) - 32) as char)) by { assert(t.drop_last()[i] == t[i]); }
				assert(m[k][0] == w[k]);
				assert(flat(m) =~= w.drop_last().push(w.last()));
				assert(w =~= w.drop_last().push(w.last()));
			}
		} else if w.len() > 0 {
			assert(yesno(w[w.len() - 1]));
			if flat(m) == w { assert(yesno(m[k].last())); }
			if eqi(t, w) { assert(t[k] == w[k] || (lwc(w[k]) && t[k] == ((w[k] as u32) - 32) as char)); }
		}
	}
}
/// Folding and trimming, in whichever order, tells whether an answer is `w`.
pub proof fn lemma_answer(s: Seq<char>, m: Seq<Seq<char>>, w: Seq<char>)
	requires lower_map(s, m), forall|i: int| 0 <= i < w.len() ==> yesno(#[trigger] w[i]),
	ensures strim(flat(m)) == w <==> eqi(strim(s), w)
{
	let a = lemma_ltrim(s, m);
	let b = lemma_rtrim(ltrim(s), a);
	lemma_eqi(strim(s), b, w);
}
/// No answer means both.
pub open spec fn yes_or_no(t: Seq<char>) -> bool {
	!((eqi(t, seq!['n']) || eqi(t, seq!['n', 'o'])) && (eqi(t, seq!['y']) || eqi(t, seq!['y', 'e', 's'])))
}
proof fn lemma_yes_or_no(t: Seq<char>)
	ensures yes_or_no(t)
{
	if t.len() > 0 {
		let c = t[0];
		assert(seq!['n'][0] == 'n' && seq!['y'][0] == 'y' && seq!['n', 'o'][0] == 'n' && seq!['y', 'e', 's'][0] == 'y');
		assert(eqi(t, seq!['n']) ==> t.len() == 1 && (t[0] == 'n' || t[0] == 'N'));
		assert(eqi(t, seq!['y']) ==> t.len() == 1 && (t[0] == 'y' || t[0] == 'Y'));
		assert(eqi(t, seq!['n', 'o']) ==> t.len() == 2);
		assert(eqi(t, seq!['y', 'e', 's']) ==> t.len() == 3);
	}
}
/// The words that matter.
pub proof fn lemma_words(s: Seq<char>)
	ensures
	yes_or_no(strim(s)),
	forall|m: Seq<Seq<char>>| #[trigger] lower_map(s, m) ==> {
		&&& (strim(flat(m)) == ""@ <==> strim(s).len() == 0)
		&&& (strim(flat(m)) == "n"@ <==> eqi(strim(s), seq!['n']))
		&&& (strim(flat(m)) == "no"@ <==> eqi(strim(s), seq!['n', 'o']))
		&&& (strim(flat(m)) == "y"@ <==> eqi(strim(s), seq!['y']))
		&&& (strim(flat(m)) == "yes"@ <==> eqi(strim(s), seq!['y', 'e', 's']))
	}
{
	lemma_yes_or_no(strim(s));
	reveal_strlit(""); reveal_strlit("n"); reveal_strlit("no"); reveal_strlit("y"); reveal_strlit("yes");
	assert(""@ =~= seq![]); assert("n"@ =~= seq!['n']); assert("no"@ =~= seq!['n', 'o']); assert("y"@ =~= seq!['y']); assert("yes"@ =~= seq!['y', 'e', 's']);
	assert forall|m: Seq<Seq<char>>| #[trigger] lower_map(s, m) implies {
		&&& (strim(flat(m)) == ""@ <==> strim(s).len() == 0)
		&&& (strim(flat(m)) == "n"@ <==> eqi(strim(s), seq!['n']))
		&&& (strim(flat(m)) == "no"@ <==> eqi(strim(s), seq!['n', 'o']))
		&&& (strim(flat(m)) == "y"@ <==> eqi(strim(s), seq!['y']))
		&&& (strim(flat(m)) == "yes"@ <==> eqi(strim(s), seq!['y', 'e', 's']))
	} by {
		lemma_answer(s, m, seq![]); lemma_answer(s, m, seq!['n']); lemma_answer(s, m, seq!['n', 'o']);
		lemma_answer(s, m, seq!['y']); lemma_answer(s, m, seq!['y', 'e', 's']);
	}
}
/// The decision of an answer.
pub open spec fn decide(s: Option<Seq<char>>, default: bool) -> Option<bool> {
	match s {
		None => None,
		Some(s) =>
			if strim(s).len() == 0 { Some(default) }
			else if eqi(strim(s), seq!['n']) || eqi(strim(s), seq!['n', 'o']) { Some(false) }
			else if eqi(strim(s), seq!['y']) || eqi(strim(s), seq!['y', 'e', 's']) { Some(true) }
			else { None },
	}
}
/// The log of a dialogue: question and answer, with an error in front of each question but the first.
pub open spec fn dialogue(l: Seq<Ev>, err: bool, pend: Seq<u8>, q: Seq<u8>, e: Seq<u8>, a: Seq<Option<Seq<char>>>) -> Seq<Ev> decreases a.len() {
	if a.len() == 0 { l }
	else if a.len() == 1 { out(l, err, pend + q).push(Ev::Read(a[0])) }
	else { out(out(dialogue(l, err, pend, q, e, a.drop_last()), err, e), err, q).push(Ev::Read(a.last())) }
}
/// All answers but the last are invalid.
pub open spec fn decided(a: Seq<Option<Seq<char>>>, default: bool, r: bool) -> bool {
	a.len() > 0 && decide(a.last(), default) == Some(r) && forall|i: int| 0 <= i < a.len() - 1 ==> decide(#[trigger] a[i], default) is None
}
/// The hint, with the default underlined.
pub open spec fn hint(default: bool) -> Seq<char> {
	if default { " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m "@ } else { " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m "@ }
}
/// The question.
pub open spec fn question(p: Seq<Seq<char>>, default: bool) -> Seq<char> {
	flat(p.update(TocId::Suffix as int, hint(default)).update(TocId::Newline as int, seq![]))
}
pub open spec fn complaint(n: nat) -> Seq<char> {
	flat(newparts(n, kprefix(MsgKind::Error), "Invalid input; enter \x1b[91mN\x1b[0m or \x1b[92mY\x1b[0m."@, seq!['\n']))
}
/// The whole of a prompt.
pub open spec fn prompted(w0: &World, w1: &World, m: &Msg, default: bool, err: bool, r: bool) -> bool {
	&&& w1.up() == w0.up()
	&&& w0.up() ==> exists|a: Seq<Option<Seq<char>>>| #![trigger decided(a, default, r)] {
		&&& decided(a, default, r)
		&&& w1.log() == dialogue(w0.log(), err, w0.pend(err), encode_utf8(question(m.parts(), default)), encode_utf8(complaint(m.parts().len())), a)
		&&& w1.pend(!err) == w0.pend(!err)
	}
}
}
@end
@fn Msg::prompt__
+props C16 C14
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs print Tracked(w)
+callargs eprint Tracked(w)
+callargs read_line Tracked(w)
+attrs #[verifier::exec_allows_no_decreases_clause]
+sig
requires self.wf(),
ensures prompted(old(w), final(w), self, default, stderr, r),
+begin
let ghost vx_w0 = *w;
let ghost mut vx_a: Seq<Option<Seq<char>>> = seq![];
+before new#0
proof { lemma_flat(q.inner@, q.toc.0@); reveal_strlit(""); assert(q.text() =~= question(self.parts(), default)); }
+loop 0
invariant
	result@ =~= Seq::<char>::empty(),
	forall|i: int| 0 <= i < vx_a.len() ==> decide(#[trigger] vx_a[i], default) is None,
	vx_w0.up() ==> {
		&&& vx_a.len() == 0 ==> w.log() == vx_w0.log() && w.pend(stderr) == vx_w0.pend(stderr)
		&&& vx_a.len() > 0 ==> w.log() == out(dialogue(vx_w0.log(), stderr, vx_w0.pend(stderr), encode_utf8(q.text()), encode_utf8(complaint(self.parts().len())), vx_a), stderr, encode_utf8(complaint(self.parts().len()))) && w.pend(stderr).len() == 0
	},
	q.text() == question(self.parts(), default),
	w.up() == vx_w0.up(),
	vx_w0.up() ==> w.pend(!stderr) == vx_w0.pend(!stderr),
+before read_line#0
let ghost vx_l1 = w.log();
+before return#0
proof {
	let l = w.log().last()->Read_0;
	lemma_words(result@);
	let a = vx_a.push(l);
	assert(a.drop_last() =~= vx_a);
	assert(decided(a, default, res));
	if vx_w0.up() {
		broadcast use lemma_out;
		assert(Seq::<u8>::empty() + encode_utf8(q.text()) =~= encode_utf8(q.text()));
		assert(w.log() =~= dialogue(vx_w0.log(), stderr, vx_w0.pend(stderr), encode_utf8(question(self.parts(), default)), encode_utf8(complaint(self.parts().len())), a));
	}
}
+before error#0
proof {
	let l = w.log().last()->Read_0;
	if l is Some { lemma_words(l->0); }
	assert(vx_a.push(l).drop_last() =~= vx_a);
	vx_a = vx_a.push(l);
	if vx_w0.up() { assert(Seq::<u8>::empty() + encode_utf8(q.text()) =~= encode_utf8(q.text())); }
}
+loopend 0
proof {
	lemma_flat(err.inner@, err.toc.0@);
	if vx_w0.up() { assert(Seq::<u8>::empty() + encode_utf8(err.text()) =~= encode_utf8(err.text())); }
}
@fn Msg::prompt
+props C16
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs prompt_with_default Tracked(w)
+sig
requires self.wf(),
ensures prompted(old(w), final(w), self, false, false, r),
@fn Msg::prompt_with_default
+props C16
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs prompt__ Tracked(w)
+sig
requires self.wf(),
ensures prompted(old(w), final(w), self, default, false, r),
@fn Msg::eprompt
+props C16
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs eprompt_with_default Tracked(w)
+sig
requires self.wf(),
ensures prompted(old(w), final(w), self, false, true, r),
@fn Msg::eprompt_with_default
+props C16
+ret r
+params Tracked(w): Tracked<&mut World>
+callargs prompt__ Tracked(w)
+sig
requires self.wf(),
ensures prompted(old(w), final(w), self, default, true, r),
