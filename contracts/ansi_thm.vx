# C05 and C06 as theorems over the contracts of length_width and fit_to_width.
@include ansi.vx
@raw
pub mod vt {
use vstd::prelude::*;
use super::vs::*;
use super::va::*;
use super::vw::*;
use super::vf::*;
/// A scan from `k` stops at `c`.
pub open spec fn reach(s: Seq<char>, k: int, c: int) -> bool decreases s.len() - k {
	if k >= c { k == c } else if k < 0 || c > s.len() { false }
	else if is_seq(s, k) && k < seq_end(s, k) <= s.len() { reach(s, seq_end(s, k), c) }
	else { reach(s, k + 1, c) }
}
/// The visible characters and sequences between `k` and `c`.
pub open spec fn visto(s: Seq<char>, k: int, c: int) -> Seq<char> decreases s.len() - k {
	if k >= c || k < 0 || c > s.len() { seq![] }
	else if is_seq(s, k) && k < seq_end(s, k) <= s.len() { visto(s, seq_end(s, k), c) }
	else { seq![s[k]] + visto(s, k + 1, c) }
}
pub open spec fn escto(s: Seq<char>, k: int, c: int) -> Seq<char> decreases s.len() - k {
	if k >= c || k < 0 || c > s.len() { seq![] }
	else if is_seq(s, k) && k < seq_end(s, k) <= s.len() { s.subrange(k, seq_end(s, k)) + escto(s, seq_end(s, k), c) }
	else { escto(s, k + 1, c) }
}
pub proof fn lemma_split(s: Seq<char>, k: int, c: int)
	requires reach(s, k, c), 0 <= k <= c <= s.len()
	ensures vis(s, k) == visto(s, k, c) + vis(s, c), esc(s, k) == escto(s, k, c) + esc(s, c)
	decreases s.len() - k
{
	if k == c {
		assert(visto(s, k, c) + vis(s, c) =~= vis(s, c)); assert(escto(s, k, c) + esc(s, c) =~= esc(s, c));
	} else if is_seq(s, k) {
		lemma_seq_end(s, k);
		let e = seq_end(s, k);
		assert(e <= c) by { if e > c { assert(!reach(s, e, c)); } }
		lemma_split(s, e, c);
		assert(s.subrange(k, e) + (escto(s, e, c) + esc(s, c)) =~= (s.subrange(k, e) + escto(s, e, c)) + esc(s, c));
	} else {
		lemma_split(s, k + 1, c);
		assert(seq![s[k]] + (visto(s, k + 1, c) + vis(s, c)) =~= (seq![s[k]] + visto(s, k + 1, c)) + vis(s, c));
	}
}
pub open spec fn agree(s: Seq<char>, u: Seq<char>, e: int) -> bool {
	e <= s.len() && e <= u.len() && forall|i: int| 0 <= i < e ==> s[i] == #[trigger] u[i]
}
pub proof fn lemma_csi_agree(s: Seq<char>, u: Seq<char>, k: int, e: int)
	requires 0 <= k <= e < s.len(), agree(s, u, e), csi_end(s, k) <= e
	ensures csi_end(u, k) == csi_end(s, k)
	decreases e - k
{
	if k == e { lemma_csi_end(s, k + 1); } else if '\x40' <= s[k] && s[k] <= '\x7e' { } else { lemma_csi_agree(s, u, k + 1, e); }
}
pub proof fn lemma_osc_agree(s: Seq<char>, u: Seq<char>, k: int, e: int)
	requires 0 <= k <= e < s.len(), agree(s, u, e), osc_end(s, k) <= e
	ensures osc_end(u, k) == osc_end(s, k)
	decreases e - k
{
	if k == e { lemma_osc_end(s, k + 1); }
	else if s[k] == '\x07' || s[k] == '\u{153}' { }
	else if s[k] == '\x1b' && k + 1 < s.len() && s[k + 1] == '\\' { }
	else { lemma_osc_end(s, k + 1); if k + 1 == e { assert(osc_end(s, e) > e) by { lemma_osc_end(s, e + 1); } } lemma_osc_agree(s, u, k + 1, e); }
}
pub proof fn lemma_seq_agree(s: Seq<char>, u: Seq<char>, k: int, e: int)
	requires is_seq(s, k), seq_end(s, k) <= e < s.len(), agree(s, u, e)
	ensures is_seq(u, k), seq_end(u, k) == seq_end(s, k)
{
	lemma_seq_end(s, k);
	assert(s[k] == u[k] && s[k + 1] == u[k + 1]);
	if s[k + 1] == '[' { lemma_csi_agree(s, u, k + 2, e); } else { lemma_osc_agree(s, u, k + 2, e); }
}
pub proof fn lemma_vis_skip(s: Seq<char>, a: int, k: int)
	requires 0 <= a <= s.len(), 0 <= k <= s.len() - a
	ensures vis(s.skip(a), k) == vis(s, a + k)
	decreases s.len() - a - k
{
	let t = s.skip(a);
	lemma_seq_skip(s, a, k);
	if is_seq(t, k) { lemma_seq_end(t, k); lemma_seq_end(s, a + k); lemma_vis_skip(s, a, seq_end(t, k)); }
	else if k < t.len() { lemma_vis_skip(s, a, k + 1); }
}
/// Something else appended at `c` is scanned by itself.
pub proof fn lemma_graft(s: Seq<char>, c: int, b: Seq<char>, k: int)
	requires reach(s, k, c), 0 <= k <= c < s.len(), b.len() > 0 ==> b[0] != '[' && b[0] != ']'
	ensures
		vis(s.take(c) + b, k) == visto(s, k, c) + vis(b, 0),
		esc(s.take(c) + b, k) == escto(s, k, c) + esc(b, 0),
	decreases s.len() - k
{
	let u = s.take(c) + b;
	assert(agree(s, u, c));
	if k == c {
		assert(u.skip(c) =~= b);
		lemma_vis_skip(u, c, 0); lemma_esc_skip(u, c, 0);
		assert(visto(s, k, c) + vis(b, 0) =~= vis(b, 0)); assert(escto(s, k, c) + esc(b, 0) =~= esc(b, 0));
	} else if is_seq(s, k) {
		lemma_seq_end(s, k);
		let e = seq_end(s, k);
		assert(e <= c) by { if e > c { assert(!reach(s, e, c)); } }
		lemma_seq_agree(s, u, k, c);
		lemma_graft(s, c, b, e);
		assert(u.subrange(k, e) =~= s.subrange(k, e));
		assert(s.subrange(k, e) + (escto(s, e, c) + esc(b, 0)) =~= (s.subrange(k, e) + escto(s, e, c)) + esc(b, 0));
	} else {
		assert(!is_seq(u, k)) by { assert(u[k] == s[k]); if k + 1 < c { assert(u[k + 1] == s[k + 1]); } else if b.len() > 0 { assert(u[k + 1] == b[0]); } }
		assert(u[k] == s[k]);
		lemma_graft(s, c, b, k + 1);
		assert(seq![s[k]] + (visto(s, k + 1, c) + vis(b, 0)) =~= (seq![s[k]] + visto(s, k + 1, c)) + vis(b, 0));
	}
}
pub proof fn lemma_wid_cons(c: char, b: Seq<char>)
	ensures wid(seq![c] + b) == cw(c) + wid(b)
{ assert((seq![c] + b).drop_first() =~= b); }
pub proof fn lemma_wid_add(a: Seq<char>, b: Seq<char>)
	ensures wid(a + b) == wid(a) + wid(b)
	decreases a.len()
{
	if a.len() == 0 { assert(a + b =~= b); }
	else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_wid_add(a.drop_first(), b); }
}
/// Up to the next visible character there is none.
pub proof fn lemma_reach_nv(s: Seq<char>, k: int, c: int)
	requires 0 <= k <= nv(s, k) <= c <= s.len(), nv(s, k) < c ==> reach(s, nv(s, k) + 1, c)
	ensures
		reach(s, k, c),
		nv(s, k) == c ==> visto(s, k, c) == Seq::<char>::empty(),
		nv(s, k) < c ==> visto(s, k, c) == seq![s[nv(s, k)]] + visto(s, nv(s, k) + 1, c),
	decreases s.len() - k
{
	lemma_nv_step(s, k);
	if is_seq(s, k) { lemma_seq_end(s, k); lemma_nv(s, seq_end(s, k)); lemma_reach_nv(s, seq_end(s, k), c); }
}
pub proof fn lemma_cut_reach(s: Seq<char>, k: int, w: int, max: int)
	requires 0 <= k <= s.len(), 0 <= w <= max
	ensures ({
		let c = cut(s, k, w, max);
		&&& k <= c <= s.len() && reach(s, k, c)
		&&& w + wid(visto(s, k, c)) <= max
		&&& c < s.len() ==> !is_seq(s, c) && w + wid(visto(s, k, c)) + cw(s[c]) > max
	})
	decreases s.len() - k
{
	let c = cut(s, k, w, max);
	lemma_nv(s, k);
	let n = nv(s, k);
	if n < s.len() && w + cw(s[n]) <= max {
		lemma_cut_reach(s, n + 1, w + cw(s[n]), max);
		lemma_reach_nv(s, k, c);
		lemma_wid_cons(s[n], visto(s, n + 1, c));
	} else { lemma_reach_nv(s, k, c); }
}
/// C05.
pub proof fn thm_c05(s: Seq<char>, max: nat)
	ensures ({
		let c = cut(s, 0, 0, max as int);
		&&& 0 <= c <= s.len()
		// The text before it fits.
		&&& vwid(s.take(c), 0) <= max
		// Maximal.
		&&& c == s.len() <==> vwid(s, 0) <= max
		&&& c < s.len() ==> vis(s, 0) == vis(s.take(c), 0) + seq![s[c]] + vis(s, c + 1) && vwid(s.take(c), 0) + cw(s[c]) > max
	})
{
	reveal(vwid);
	let c = cut(s, 0, 0, max as int);
	lemma_cut_reach(s, 0, 0, max as int);
	lemma_split(s, 0, c);
	if c < s.len() {
		let e = Seq::<char>::empty();
		lemma_graft(s, c, e, 0);
		assert(s.take(c) + e =~= s.take(c));
		assert(visto(s, 0, c) + vis(e, 0) =~= visto(s, 0, c));
		assert(vis(s, 0) =~= vis(s.take(c), 0) + seq![s[c]] + vis(s, c + 1));
		lemma_wid_add(vis(s.take(c), 0), vis(s, c));
		lemma_wid_cons(s[c], vis(s, c + 1));
	} else {
		assert(s.take(c) =~= s);
		assert(visto(s, 0, c) + vis(s, c) =~= visto(s, 0, c));
	}
}
pub open spec fn breaks(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == '\n' || t[i] == '\r' }
pub proof fn lemma_csi_breaks(s: Seq<char>, t: Seq<char>, k: int)
	requires 0 <= k <= s.len(), breaks(t), csi_end(s, k) == s.len()
	ensures csi_end(s + t, k) == s.len() || csi_end(s + t, k) == s.len() + t.len()
	decreases s.len() + t.len() - k
{
	let u = s + t;
	if k < s.len() { assert(u[k] == s[k]); if !('\x40' <= s[k] && s[k] <= '\x7e') { lemma_csi_breaks(s, t, k + 1); } }
	else { lemma_csi_all(u, k, s.len() as int); }
}
pub proof fn lemma_csi_all(u: Seq<char>, k: int, from: int)
	requires 0 <= from <= k <= u.len(), forall|i: int| from <= i < u.len() ==> #[trigger] u[i] == '\n' || u[i] == '\r'
	ensures csi_end(u, k) == u.len(), osc_end(u, k) == u.len()
	decreases u.len() - k
{ if k < u.len() { lemma_csi_all(u, k + 1, from); } }
pub proof fn lemma_osc_breaks(s: Seq<char>, t: Seq<char>, k: int)
	requires 0 <= k <= s.len(), breaks(t), osc_end(s, k) == s.len()
	ensures osc_end(s + t, k) == s.len() || osc_end(s + t, k) == s.len() + t.len()
	decreases s.len() + t.len() - k
{
	let u = s + t;
	if k < s.len() {
		assert(u[k] == s[k]);
		if k + 1 < s.len() { assert(u[k + 1] == s[k + 1]); }
		if s[k] == '\x07' || s[k] == '\u{153}' { }
		else if s[k] == '\x1b' && k + 1 < s.len() && s[k + 1] == '\\' { }
		else { lemma_osc_breaks(s, t, k + 1); }
	}
	else { lemma_csi_all(u, k, s.len() as int); }
}
/// The sequences of a line, with its line break behind them.
pub proof fn lemma_tail(m: Seq<char>, t: Seq<char>)
	requires breaks(t)
	ensures
		esc(esc(m, 0) + t, 0) == esc(m + t, 0),
		vis(esc(m, 0) + t, 0) == t || vis(esc(m, 0) + t, 0) == Seq::<char>::empty(),
		esc(m, 0).len() > 0 ==> esc(m, 0)[0] == '\x1b',
		forall|c: char| !m.contains(c) ==> !#[trigger] esc(m, 0).contains(c),
	decreases m.len()
{
	let q = m + t;
	let f = fs(m, 0);
	lemma_fs(m, 0); lemma_esc_fs(m, 0);
	if f == m.len() {
		assert(esc(m, 0) + t =~= t);
		assert forall|j: int| 0 <= j < q.len() implies !is_seq(q, j) by {
			if j + 1 < m.len() { assert(q[j] == m[j] && q[j + 1] == m[j + 1]); assert(!is_seq(m, j)); }
			else if j + 1 < q.len() { assert(q[j + 1] == t[j + 1 - m.len()]); }
		}
		lemma_fs_is(q, 0, q.len() as int);
		lemma_esc_fs(q, 0);
		lemma_breaks(t, 0);
	} else {
		lemma_seq_end(m, f);
		let e = seq_end(m, f);
		let sq = m.subrange(f, e);
		let m2 = m.skip(e);
		let e2 = esc(m2, 0);
		lemma_tail(m2, t);
		assert(esc(m, 0) == sq + e2);
		assert(esc(m, 0)[0] == m[f]);
		assert forall|c: char| !m.contains(c) implies !#[trigger] esc(m, 0).contains(c) by {
			assert(!sq.contains(c)) by { if sq.contains(c) { let i = choose|i: int| 0 <= i < sq.len() && sq[i] == c; assert(m[f + i] == c); } }
			assert(!m2.contains(c)) by { if m2.contains(c) { let i = choose|i: int| 0 <= i < m2.len() && m2[i] == c; assert(m[e + i] == c); } }
			assert(!e2.contains(c));
			if (sq + e2).contains(c) {
				let i = choose|i: int| 0 <= i < (sq + e2).len() && (sq + e2)[i] == c;
				if i < sq.len() { assert(sq[i] == c); } else { assert(e2[i - sq.len()] == c); }
			}
		}
		// The same first sequence in q.
		assert(q[f] == m[f] && q[f + 1] == m[f + 1]);
		assert forall|j: int| 0 <= j < f implies !is_seq(q, j) by { assert(q[j] == m[j] && q[j + 1] == m[j + 1]); assert(!is_seq(m, j)); }
		lemma_fs_is(q, 0, f);
		lemma_esc_fs(q, 0);
		lemma_seq_end(q, f);
		let y = (sq + e2) + t;
		assert(y[0] == m[f] && y[1] == m[f + 1]);
		lemma_seq_end(y, 0);
		lemma_esc_step(y, 0);
		let sf = m.skip(f);
		lemma_seq_skip(m, f, 0);
		lemma_seq_skip(q, f, 0);
		if e < m.len() {
			assert(agree(sf, y, e - f));
			lemma_seq_agree(sf, y, 0, e - f);
			assert(agree(m, q, e));
			lemma_seq_agree(m, q, f, e);
			assert(y.skip(e - f) =~= e2 + t);
			assert(q.skip(e) =~= m2 + t);
			lemma_esc_skip(y, e - f, 0); lemma_vis_skip(y, e - f, 0);
			assert(y.subrange(0, e - f) =~= sq); assert(q.subrange(f, e) =~= sq);
		} else {
			assert(m2 =~= Seq::<char>::empty());
			assert(e2 =~= Seq::<char>::empty());
			assert(sf =~= sq);
			assert(q.skip(f) =~= y);
			if sf[1] == '[' { lemma_csi_breaks(sf, t, 2); } else { lemma_osc_breaks(sf, t, 2); }
			assert(sf + t =~= y);
			let ye = seq_end(y, 0);
			assert(seq_end(q, f) == f + ye);
			assert(q.skip(f + ye) =~= y.skip(ye));
			assert(q.subrange(f, f + ye) =~= y.subrange(0, ye));
			lemma_esc_skip(y, ye, 0); lemma_vis_skip(y, ye, 0);
			if ye == sf.len() { assert(y.skip(ye) =~= t); lemma_breaks(t, 0); } else { assert(vis(y, ye) =~= Seq::<char>::empty()); }
		}
		assert(esc(m, 0) + t =~= y);
	}
}
pub proof fn lemma_breaks(t: Seq<char>, k: int)
	requires breaks(t), 0 <= k <= t.len()
	ensures vis(t, k) == t.skip(k), esc(t, k) == Seq::<char>::empty(), wid(t.skip(k)) == 0, vis(t, 0) == t || k > 0
	decreases t.len() - k
{
	if k < t.len() {
		lemma_breaks(t, k + 1);
		axiom_cw_break();
		assert(t[k] == '\n' || t[k] == '\r');
		assert(seq![t[k]] + t.skip(k + 1) =~= t.skip(k));
		lemma_wid_cons(t[k], t.skip(k + 1));
	} else { assert(t.skip(k) =~= Seq::<char>::empty()); }
	assert(t.skip(0) =~= t);
}
/// A line has a line break at its end only.
pub open spec fn is_line(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] != '\n' }
/// C06, for a line `s` and its fitted form `o`.
pub open spec fn fitted(s: Seq<char>, o: Seq<char>, w: nat) -> bool {
	// No wider than the width.
	&&& vwid(o, 0) <= w
	// The same line break behind it (a lone CR is a visible character), and no other.
	&&& term(s).len() <= o.len() && o.skip(o.len() - term(s).len()) == term(s)
	&&& is_line(o)|| o.len() == 0
	&&& o.len() > 0 && o.last() == '\n' <==> s.last() == '\n'
	// Every escape sequence, in order.
	&&& esc(o, 0) == esc(s, 0)
	// Unchanged if it fits.
	&&& vwid(s, 0) <= w ==> o == s
	// Otherwise the longest fitting prefix of the visible characters, then the line break (unless a sequence hides it).
	&&& vwid(s, 0) > w ==> exists|p: Seq<char>, c: char, r: Seq<char>| {
		&&& vis(s, 0) == #[trigger] (p + seq![c] + r)
		&&& wid(p) <= w && wid(p) + cw(c) > w
		&&& vis(o, 0) == p || vis(o, 0) == p + term(s)
	}
}
/// C06, one line.
pub proof fn thm_c06_line(s: Seq<char>, w: nat)
	requires is_line(s)
	ensures fitted(s, fit_line(s, w as int), w)
{
	reveal(fit_line); reveal(vwid);
	let c = cut(s, 0, 0, w as int);
	let o = fit_line(s, w as int);
	thm_c05(s, w);
	lemma_cut_term(s, w as int);
	if c == s.len() {
		lemma_breaks(term(s), 0);
		assert(s.skip(s.len() - term(s).len()) =~= term(s));
	}
	if c < s.len() {
		let t = term(s);
		let m = s.subrange(c, s.len() - t.len());
		let e = esc(m, 0);
		let a = s.take(c);
		assert(breaks(t));
		lemma_tail(m, t);
		lemma_breaks(t, 0);
		let b = e + t;
		if e.len() > 0 { assert(b[0] == e[0]); } else if t.len() > 0 { assert(b[0] == t[0]); }
		lemma_cut_reach(s, 0, 0, w as int);
		lemma_graft(s, c, b, 0);
		assert(o =~= a + b);
		lemma_split(s, 0, c);
		assert(m + t =~= s.skip(c));
		lemma_esc_skip(s, c, 0);
		// Visible.
		let p = visto(s, 0, c);
		lemma_graft(s, c, Seq::<char>::empty(), 0);
		assert(a + Seq::<char>::empty() =~= a);
		assert(p + vis(Seq::<char>::empty(), 0) =~= p);
		assert(p + seq![s[c]] + vis(s, c + 1) == vis(s, 0));
		lemma_wid_add(p, vis(b, 0));
		assert(t.skip(0) =~= t);
		if vis(b, 0) =~= Seq::<char>::empty() { assert(p + vis(b, 0) =~= p); }
		// Breaks.
		let n = s.len() - t.len();
		assert(!a.contains('\n')) by { if a.contains('\n') { let i = choose|i: int| 0 <= i < a.len() && a[i] == '\n'; assert(s[i] == '\n'); } }
		assert(!m.contains('\n')) by { if m.contains('\n') { let i = choose|i: int| 0 <= i < m.len() && m[i] == '\n'; assert(s[c + i] == '\n'); } }
		assert(!e.contains('\n'));
		let ae = a + e;
		assert forall|i: int| 0 <= i < ae.len() implies #[trigger] ae[i] != '\n' by {
			if i < a.len() { assert(a[i] == ae[i]); assert(a.contains(a[i])); } else { assert(e[i - a.len()] == ae[i]); assert(e.contains(ae[i])); }
		}
		assert(o =~= ae + t);
		if t.len() == 0 { if o.len() > 0 { assert(o.last() == ae[ae.len() - 1]); } }
		else { assert(o.last() == t.last()); }
		assert(o.skip(o.len() - t.len()) =~= t);
		assert forall|i: int| 0 <= i < o.len() - 1 implies #[trigger] o[i] != '\n' by { if i < ae.len() { assert(o[i] == ae[i]); } else { assert(o[i] == t[i - ae.len()]); } }
	}
}
/// C06, for a text, line by line.
pub open spec fn fitted_all(s: Seq<char>, k: int, o: Seq<char>, w: nat) -> bool decreases s.len() - k {
	let e = line_end(s, '\n', k);
	if k < 0 || k >= s.len() || !(k < e <= s.len()) { o == Seq::<char>::empty() }
	else {
		// The first lines correspond (a last line without break may be fitted to nothing).
		let x = line_end(o, '\n', 0);
		fitted(s.subrange(k, e), o.take(x), w) && fitted_all(s, e, o.skip(x), w)
	}
}
pub proof fn lemma_line_at(s: Seq<char>, k: int, i: int)
	requires 0 <= k <= i < s.len(), s[i] == '\n', forall|j: int| k <= j < i ==> #[trigger] s[j] != '\n'
	ensures line_end(s, '\n', k) == i + 1
	decreases i - k
{ if k < i { lemma_line_at(s, k + 1, i); } }
pub proof fn lemma_line_none(s: Seq<char>, k: int)
	requires 0 <= k <= s.len(), forall|j: int| k <= j < s.len() ==> #[trigger] s[j] != '\n'
	ensures line_end(s, '\n', k) == s.len()
	decreases s.len() - k
{ if k < s.len() { lemma_line_none(s, k + 1); } }
pub proof fn lemma_line_is(s: Seq<char>, k: int)
	requires 0 <= k < s.len()
	ensures ({
		let e = line_end(s, '\n', k);
		&&& k < e <= s.len()
		&&& is_line(s.subrange(k, e))
		&&& s[e - 1] == '\n' || e == s.len()
	})
	decreases s.len() - k
{
	let e = line_end(s, '\n', k);
	lemma_line_end(s, '\n', k);
	if s[k] != '\n' && k + 1 < s.len() {
		lemma_line_is(s, k + 1);
		let a = s.subrange(k, e); let b = s.subrange(k + 1, e);
		assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a[i] != '\n' by { if i > 0 { assert(b[i - 1] == a[i]); } }
	}
}
pub proof fn thm_c06(s: Seq<char>, k: int, w: nat)
	requires 0 <= k <= s.len(), w > 0
	ensures fitted_all(s, k, fit(s, w as int, k), w)
	decreases s.len() - k
{
	reveal(fit);
	let o = fit(s, w as int, k);
	if k < s.len() {
		lemma_line_is(s, k);
		let e = line_end(s, '\n', k);
		let l = s.subrange(k, e);
		let f = fit_line(l, w as int);
		let rest = fit(s, w as int, e);
		thm_c06_line(l, w);
		thm_c06(s, e, w);
		assert(o == f + rest);
		let x = line_end(o, '\n', 0);
		if l.last() == '\n' {
			assert(f.len() > 0 && f.last() == '\n');
			assert(is_line(f));
			assert forall|j: int| 0 <= j < f.len() - 1 implies #[trigger] o[j] != '\n' by { assert(f[j] == o[j]); }
			lemma_line_at(o, 0, f.len() - 1);
		} else {
			assert(e == s.len());
			assert(rest =~= Seq::<char>::empty());
			assert(o =~= f);
			assert forall|j: int| 0 <= j < o.len() implies #[trigger] o[j] != '\n' by { assert(f[j] == o[j]); if j == f.len() - 1 { assert(f.last() == o[j]); } }
			lemma_line_none(o, 0);
		}
		assert(x == f.len());
		assert(o.take(x) =~= f); assert(o.skip(x) =~= rest);
	}
}
}
@end
