# The properties of frames, from the contracts of what draws them.
@include frame.vx
@raw
pub mod vft {
use vstd::prelude::*;
use super::*;
use super::vt::*;
/// The columns of ASCII text with colour sequences (`e`: within one).
pub open spec fn sw(b: Seq<u8>, e: bool) -> int decreases b.len() {
	if b.len() == 0 { 0 }
	else if e { sw(b.drop_first(), b[0] != 109) }
	else if b[0] == 27 { sw(b.drop_first(), true) }
	else { 1 + sw(b.drop_first(), false) }
}
pub open spec fn se(b: Seq<u8>, e: bool) -> bool decreases b.len() {
	if b.len() == 0 { e } else { se(b.drop_first(), if e { b[0] != 109 } else { b[0] == 27 }) }
}
proof fn lemma_sw_add(a: Seq<u8>, b: Seq<u8>, e: bool)
	ensures sw(a + b, e) == sw(a, e) + sw(b, se(a, e)), se(a + b, e) == se(b, se(a, e))
	decreases a.len()
{
	if a.len() == 0 { assert(a + b =~= b); }
	else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_sw_add(a.drop_first(), b, if e { a[0] != 109 } else { a[0] == 27 }); }
}
proof fn lemma_sw_graphic(b: Seq<u8>)
	requires graphic(b)
	ensures sw(b, false) == b.len(), !se(b, false)
	decreases b.len()
{
	if b.len() > 0 {
		assert forall|i: int| 0 <= i < b.len() - 1 implies 0x20 < #[trigger] b.drop_first()[i] < 0x7f by { assert(b[i + 1] > 0x20); }
		lemma_sw_graphic(b.drop_first());
	}
}
proof fn lemma_enc_ascii(s: Seq<char>)
	requires forall|i: int| 0 <= i < s.len() ==> ascii(#[trigger] s[i])
	ensures encode_utf8(s) =~= Seq::new(s.len(), |i: int| s[i] as u8)
{
	lemma_blen_ascii(s); lemma_enc_len(s);
	assert forall|i: int| 0 <= i < s.len() implies encode_utf8(s)[i] == s[i] as u8 by {
		lemma_ascii_char(s, i);
		assert forall|j: int| 0 <= j < i implies ascii(#[trigger] s.take(i)[j]) by { assert(ascii(s[j])); }
		lemma_bpos_take(s, i); lemma_blen_ascii(s.take(i));
	}
}
/// Text without line breaks.
pub open spec fn flat(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 10 }
pub open spec fn breaks_in(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { (if b[0] == 10 { 1int } else { 0 }) + breaks_in(b.drop_first()) } }
proof fn lemma_breaks_add(a: Seq<u8>, b: Seq<u8>)
	ensures breaks_in(a + b) == breaks_in(a) + breaks_in(b)
	decreases a.len()
{ if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_breaks_add(a.drop_first(), b); } }
proof fn lemma_flat(b: Seq<u8>)
	requires flat(b)
	ensures breaks_in(b) == 0
	decreases b.len()
{
	if b.len() > 0 {
		assert forall|i: int| 0 <= i < b.len() - 1 implies #[trigger] b.drop_first()[i] != 10 by { assert(b[i + 1] != 10); }
		lemma_flat(b.drop_first());
	}
}
/// Flat text of `w` columns that ends outside of a sequence.
pub open spec fn piece(b: Seq<u8>, w: int) -> bool { sw(b, false) == w && !se(b, false) && flat(b) }
proof fn lemma_piece_add(a: Seq<u8>, b: Seq<u8>, v: int, w: int)
	requires piece(a, v), piece(b, w)
	ensures piece(a + b, v + w)
{ lemma_sw_add(a, b, false); }
proof fn lemma_graphic(b: Seq<u8>)
	requires graphic(b)
	ensures piece(b, b.len() as int)
{ lemma_sw_graphic(b); }
proof fn lemma_lits()
	ensures
		piece(encode_utf8("\u{1b}[0;2m[\u{1b}[0;1m"@), 1), piece(encode_utf8("\u{1b}[0;2m]  [\u{1b}[0;1;96m"@), 4), piece(encode_utf8("\u{1b}[34m"@), 0),
		piece(encode_utf8("\u{1b}[0;2m]\u{1b}[0;1;96m  "@), 3), piece(encode_utf8("\u{1b}[0;2m/\u{1b}[0;1;34m"@), 1), piece(encode_utf8("\u{1b}[39m  "@), 2),
		piece(encode_utf8("\u{1b}[0;35m"@), 0),
{
	reveal_strlit("\u{1b}[0;2m[\u{1b}[0;1m"); reveal_strlit("\u{1b}[0;2m]  [\u{1b}[0;1;96m"); reveal_strlit("\u{1b}[34m");
	reveal_strlit("\u{1b}[0;2m]\u{1b}[0;1;96m  "); reveal_strlit("\u{1b}[0;2m/\u{1b}[0;1;34m"); reveal_strlit("\u{1b}[39m  "); reveal_strlit("\u{1b}[0;35m");
	lemma_lit("\u{1b}[0;2m[\u{1b}[0;1m"@, seq![27u8, 91, 48, 59, 50, 109, 91, 27, 91, 48, 59, 49, 109]);
	lemma_lit("\u{1b}[0;2m]  [\u{1b}[0;1;96m"@, seq![27u8, 91, 48, 59, 50, 109, 93, 32, 32, 91, 27, 91, 48, 59, 49, 59, 57, 54, 109]);
	lemma_lit("\u{1b}[34m"@, seq![27u8, 91, 51, 52, 109]);
	lemma_lit("\u{1b}[0;2m]\u{1b}[0;1;96m  "@, seq![27u8, 91, 48, 59, 50, 109, 93, 27, 91, 48, 59, 49, 59, 57, 54, 109, 32, 32]);
	lemma_lit("\u{1b}[0;2m/\u{1b}[0;1;34m"@, seq![27u8, 91, 48, 59, 50, 109, 47, 27, 91, 48, 59, 49, 59, 51, 52, 109]);
	lemma_lit("\u{1b}[39m  "@, seq![27u8, 91, 51, 57, 109, 32, 32]);
	lemma_lit("\u{1b}[0;35m"@, seq![27u8, 91, 48, 59, 51, 53, 109]);
	assert(sw(seq![27u8, 91, 48, 59, 50, 109, 91, 27, 91, 48, 59, 49, 109], false) == 1 && !se(seq![27u8, 91, 48, 59, 50, 109, 91, 27, 91, 48, 59, 49, 109], false)) by(compute);
	assert(sw(seq![27u8, 91, 48, 59, 50, 109, 93, 32, 32, 91, 27, 91, 48, 59, 49, 59, 57, 54, 109], false) == 4 && !se(seq![27u8, 91, 48, 59, 50, 109, 93, 32, 32, 91, 27, 91, 48, 59, 49, 59, 57, 54, 109], false)) by(compute);
	assert(sw(seq![27u8, 91, 51, 52, 109], false) == 0 && !se(seq![27u8, 91, 51, 52, 109], false)) by(compute);
	assert(sw(seq![27u8, 91, 48, 59, 50, 109, 93, 27, 91, 48, 59, 49, 59, 57, 54, 109, 32, 32], false) == 3 && !se(seq![27u8, 91, 48, 59, 50, 109, 93, 27, 91, 48, 59, 49, 59, 57, 54, 109, 32, 32], false)) by(compute);
	assert(sw(seq![27u8, 91, 48, 59, 50, 109, 47, 27, 91, 48, 59, 49, 59, 51, 52, 109], false) == 1 && !se(seq![27u8, 91, 48, 59, 50, 109, 47, 27, 91, 48, 59, 49, 59, 51, 52, 109], false)) by(compute);
	assert(sw(seq![27u8, 91, 51, 57, 109, 32, 32], false) == 2 && !se(seq![27u8, 91, 51, 57, 109, 32, 32], false)) by(compute);
	assert(sw(seq![27u8, 91, 48, 59, 51, 53, 109], false) == 0 && !se(seq![27u8, 91, 48, 59, 51, 53, 109], false)) by(compute);
}
proof fn lemma_lit(s: Seq<char>, b: Seq<u8>)
	requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> ascii(#[trigger] s[i]) && s[i] as u8 == b[i]
	ensures encode_utf8(s) == b
{ lemma_enc_ascii(s); assert(encode_utf8(s) =~= b); }
/// C09: the status line fills the width exactly if the bar is drawn, and is flat text.
pub proof fn thm_c09_width(secs: int, done: int, total: int, width: int)
	requires 0 <= done <= total < 0x1_0000_0000, 40 <= width <= 255
	ensures ({
		let s = bar_space(width, done, total);
		let f = bar_filled(width, done, total);
		let line = status_text(uclock(secs), rep(35, f), rep(45, s - f), unice(done), unice(total), upct(ratio(done, total)));
		&&& s == 0 || s >= 10
		&&& 0 <= f <= s
		&&& s > 0 ==> sw(line, false) == width
		&&& flat(line) && !se(line, false)
	})
{
	let s = bar_space(width, done, total);
	let f = bar_filled(width, done, total);
	if total > 0 { lemma_bar(s, done, total); }
	let (c, d, t, p) = (uclock(secs), unice(done), unice(total), upct(ratio(done, total)));
	axiom_uclock(secs); axiom_unice(done); axiom_unice(total); axiom_upct(ratio(done, total));
	lemma_status(c, f, s - f, d, t, p);
}
proof fn lemma_status(c: Seq<u8>, f: int, g: int, d: Seq<u8>, t: Seq<u8>, p: Seq<u8>)
	requires graphic(c), graphic(d), graphic(t), graphic(p), 0 <= f, 0 <= g
	ensures piece(status_text(c, rep(35, f), rep(45, g), d, t, p), 11 + c.len() + f + g + d.len() + t.len() + p.len())
{
	lemma_lits();
	let (on, off) = (rep(35, f), rep(45, g));
	lemma_graphic(c); lemma_graphic(d); lemma_graphic(t); lemma_graphic(p); lemma_graphic(on); lemma_graphic(off);
	let x = encode_utf8("\u{1b}[0;2m[\u{1b}[0;1m"@); let n = 1int;
	lemma_piece_add(x, c, n, c.len() as int); let x = x + c; let n = n + c.len();
	lemma_piece_add(x, encode_utf8("\u{1b}[0;2m]  [\u{1b}[0;1;96m"@), n, 4); let x = x + encode_utf8("\u{1b}[0;2m]  [\u{1b}[0;1;96m"@); let n = n + 4;
	lemma_piece_add(x, on, n, f); let x = x + on; let n = n + f;
	lemma_piece_add(x, encode_utf8("\u{1b}[34m"@), n, 0); let x = x + encode_utf8("\u{1b}[34m"@);
	lemma_piece_add(x, off, n, g); let x = x + off; let n = n + g;
	lemma_piece_add(x, encode_utf8("\u{1b}[0;2m]\u{1b}[0;1;96m  "@), n, 3); let x = x + encode_utf8("\u{1b}[0;2m]\u{1b}[0;1;96m  "@); let n = n + 3;
	lemma_piece_add(x, d, n, d.len() as int); let x = x + d; let n = n + d.len();
	lemma_piece_add(x, encode_utf8("\u{1b}[0;2m/\u{1b}[0;1;34m"@), n, 1); let x = x + encode_utf8("\u{1b}[0;2m/\u{1b}[0;1;34m"@); let n = n + 1;
	lemma_piece_add(x, t, n, t.len() as int); let x = x + t; let n = n + t.len();
	lemma_piece_add(x, encode_utf8("\u{1b}[39m  "@), n, 2); let x = x + encode_utf8("\u{1b}[39m  "@); let n = n + 2;
	lemma_piece_add(x, p, n, p.len() as int); let x = x + p; let n = n + p.len();
	lemma_piece_add(x, encode_utf8("\u{1b}[0;35m"@), n, 0);
}
/// C09: the filled length is in proportion, empty at zero, and full only at the total.
pub proof fn thm_c09_bar(done: int, total: int, width: int)
	requires 0 <= done <= total < 0x1_0000_0000, 40 <= width <= 255, bar_space(width, done, total) > 0
	ensures ({
		let s = bar_space(width, done, total);
		let f = bar_filled(width, done, total);
		&&& f * total <= s * done < (f + 1) * total
		&&& done == 0 ==> f == 0
		&&& f == s <==> done == total
	})
{
	let s = bar_space(width, done, total);
	let f = bar_filled(width, done, total);
	lemma_bar(s, done, total);
	vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s * done, total);
	assert(f * total <= s * done < (f + 1) * total) by(nonlinear_arith)
		requires s * done == total * f + (s * done) % total, 0 <= (s * done) % total < total;
}
/// Line breaks behind a text never make it wider.
proof fn lemma_wid_breaks(s: Seq<char>, t: Seq<char>, k: int)
	requires 0 <= k <= s.len(), breaks(t)
	ensures wid(vis(s + t, k)) == wid(vis(s, k))
	decreases s.len() - k
{
	let u = s + t;
	lemma_breaks(t, 0);
	assert(u.skip(s.len() as int) =~= t);
	assert(t.skip(0) =~= t);
	super::vt::lemma_vis_skip(u, s.len() as int, 0);
	assert(wid(vis(u, s.len() as int)) == 0);
	if k < s.len() {
		assert(u[k] == s[k]);
		if is_seq(s, k) {
			assert(u[k + 1] == s[k + 1]);
			lemma_seq_end(s, k); lemma_seq_end(u, k);
			let e = seq_end(s, k);
			if e < s.len() { lemma_seq_agree(s, u, k, e); lemma_wid_breaks(s, t, e); }
			else {
				assert(vis(s, e) =~= Seq::<char>::empty());
				lemma_seq_long(s, t, k);
				assert(vis(u, u.len() as int) =~= Seq::<char>::empty());
				assert(vis(u, k) == vis(u, seq_end(u, k)));
				assert(vis(s, k) == vis(s, e));
				assert(wid(Seq::<char>::empty()) == 0);
			}
		} else {
			assert(!is_seq(u, k)) by { if k + 1 < s.len() { assert(u[k + 1] == s[k + 1]); } else if t.len() > 0 { assert(u[k + 1] == t[0]); } }
			lemma_wid_breaks(s, t, k + 1);
			lemma_wid_cons(s[k], vis(s, k + 1)); lemma_wid_cons(s[k], vis(u, k + 1));
		}
	}
}
proof fn lemma_seq_long(s: Seq<char>, t: Seq<char>, k: int)
	requires is_seq(s, k), breaks(t), seq_end(s, k) == s.len()
	ensures seq_end(s + t, k) == s.len() || seq_end(s + t, k) == s.len() + t.len()
{
	let u = s + t;
	assert(u[k] == s[k] && u[k + 1] == s[k + 1]);
	if s[k + 1] == '[' { lemma_csi_breaks(s, t, k + 2); } else { lemma_osc_breaks(s, t, k + 2); }
}
/// The first line, as text.
proof fn lemma_first_text(s: Seq<char>, x: int)
	requires 0 <= x <= s.len(), forall|i: int| 0 <= i < x ==> #[trigger] s[i] != '\n', x < s.len() ==> s[x] == '\n'
	ensures first_line(encode_utf8(s)) == encode_utf8(s.take(x)), flat(encode_utf8(s.take(x)))
{
	let b = encode_utf8(s);
	lemma_enc_take(s, x);
	let n = bpos(s, x) as int;
	assert forall|i: int| 0 <= i < n implies #[trigger] b[i] != 10 by {
		if b[i] == 10 {
			let k = lemma_ascii_byte(s, i);
			assert(s[k] == '\n');
			if k >= x { lemma_bpos_mono(s, x, k); }
		}
	}
	if x < s.len() { lemma_ascii_char(s, x); } else { lemma_bpos_len(s); lemma_enc_len(s); }
	lemma_first_line(b, n);
}
proof fn lemma_line_pos(s: Seq<char>, k: int) -> (x: int)
	requires 0 <= k <= s.len()
	ensures k <= x <= s.len(), forall|i: int| k <= i < x ==> #[trigger] s[i] != '\n', x < s.len() ==> s[x] == '\n', line_end(s, '\n', k) == if x < s.len() { x + 1 } else { x }
	decreases s.len() - k
{ if k == s.len() || s[k] == '\n' { k } else { lemma_line_pos(s, k + 1) } }
/// C10: the title is one line, no wider than the screen.
pub proof fn thm_c10_title(t: Option<Seq<char>>, w: int, h: int)
	requires w > 0
	ensures ({
		let b = title_text(t, w, h);
		&&& b.len() > 0 ==> h >= 2 && t is Some
		&&& b.len() > 0 ==> exists|l: Seq<char>| b == #[trigger] encode_utf8(l) + seq![10u8] && flat(encode_utf8(l)) && l.len() > 0 && vwid(l, 0) <= w
		&&& breaks_in(b) == if b.len() > 0 { 1int } else { 0 }
	})
{
	let b = title_text(t, w, h);
	if b.len() > 0 {
		let s = t->0;
		let o = fit(s, w, 0);
		thm_c06(s, 0, w as nat);
		let x = lemma_line_pos(o, 0);
		lemma_first_text(o, x);
		let l = o.take(x);
		if s.len() == 0 {
			assert(o =~= Seq::<char>::empty());
			lemma_enc_len(o); assert(encode_utf8(o).len() == 0);
		} else {
			lemma_line_end(s, '\n', 0);
			let le = line_end(o, '\n', 0);
			assert(vwid(o.take(le), 0) <= w);
			reveal(vwid);
			if x < o.len() {
				assert(o.take(le) =~= l + seq!['\n']);
				lemma_wid_breaks(l, seq!['\n'], 0);
			}
		}
		lemma_enc_len(l); 
		if l.len() == 0 { lemma_blen_ge(l); }
		assert(b == encode_utf8(l) + seq![10u8]);
		lemma_breaks_add(encode_utf8(l), seq![10u8]);
		lemma_flat(encode_utf8(l));
		assert(seq![10u8].drop_first() =~= seq![]);
		assert(breaks_in(seq![10u8]) == 1) by { reveal_with_fuel(breaks_in, 2); }
	}
}
/// C10: a task takes one line, cut to the width at a character boundary.
pub proof fn thm_c10_task(t: Seq<char>, w: nat)
	requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\n'
	ensures ({
		let c = cut(t, 0, 0, w as int);
		&&& 0 <= c <= t.len() && vwid(t.take(c), 0) <= w
		&&& vwid(t, 0) <= w ==> c == t.len()
		&&& task_line(t, w as int) == (if c == 0 { seq![] } else { arrow() + encode_utf8(t.take(c)) })
		&&& breaks_in(task_line(t, w as int)) == if c == 0 { 0int } else { 1 }
	})
{
	let c = cut(t, 0, 0, w as int);
	thm_c05(t, w);
	if c != 0 {
		let l = t.take(c);
		assert(l.take(c) =~= l);
		lemma_first_text(l, c);
		lemma_breaks_add(arrow(), encode_utf8(l));
		lemma_flat(encode_utf8(l));
		assert(breaks_in(arrow()) == 1) by {
			let r = seq![32u8, 32, 32, 32, 226, 134, 179, 32];
			assert(arrow().drop_first() =~= r);
			lemma_flat(r);
		}
	}
}
pub open spec fn no_breaks(d: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].len() ==> #[trigger] d[i][j] != '\n' }
proof fn lemma_tasks_breaks(d: Seq<Seq<char>>, w: nat)
	requires no_breaks(d)
	ensures breaks_in(task_lines(d, w as int)) == task_count(d, w as int)
	decreases d.len()
{
	if d.len() > 0 {
		let p = d.drop_last();
		assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p[i].len() implies #[trigger] p[i][j] != '\n' by { assert(p[i] == d[i]); }
		lemma_tasks_breaks(p, w);
		thm_c10_task(d.last(), w);
		lemma_breaks_add(task_lines(p, w as int), task_line(d.last(), w as int));
	}
}
/// C10: a frame ends by going up as many lines as it has line breaks, and fits the screen.
pub proof fn thm_c10_cursor(t: Option<Seq<char>>, d: Seq<Seq<char>>, secs: int, done: int, total: int, w: int, h: int)
	requires 0 <= done <= total < 0x1_0000_0000, 40 <= w <= 255, 1 <= h <= 254, no_breaks(d)
	ensures ({
		let title = title_text(t, w, h);
		let tasks = tasks_text(d, title.len() > 0, w, h);
		let s = bar_space(w, done, total);
		let f = bar_filled(w, done, total);
		let line = status_text(uclock(secs), rep(35, f), rep(45, s - f), unice(done), unice(total), upct(ratio(done, total)));
		let n = clamp(tasks_drawn(d, title.len() > 0, w, h) + (if title.len() == 0 { 0int } else { 1 }), 255);
		let b = cls() + title + line + tasks;
		&&& frame_full(title, line, tasks, n) == b + close(n)
		&&& breaks_in(b) == n
		&&& n + 1 <= h
		&&& breaks_in(b + close(n)) == n
	})
{
	let title = title_text(t, w, h);
	let titled = title.len() > 0;
	let tasks = tasks_text(d, titled, w, h);
	let s = bar_space(w, done, total);
	let f = bar_filled(w, done, total);
	let line = status_text(uclock(secs), rep(35, f), rep(45, s - f), unice(done), unice(total), upct(ratio(done, total)));
	let n = clamp(tasks_drawn(d, titled, w, h) + (if title.len() == 0 { 0int } else { 1 }), 255);
	thm_c09_width(secs, done, total, w);
	thm_c10_title(t, w, h);
	lemma_flat(line); lemma_flat(cls());
	lemma_breaks_add(cls(), title);
	lemma_breaks_add(cls() + title, line);
	lemma_breaks_add(cls() + title + line, tasks);
	if tasks_fit(d.len() as int, titled, w, h) { lemma_tasks_breaks(d, (w - 12) as nat); lemma_task_count(d, w - 12); } else { assert(breaks_in(tasks) == 0) by { lemma_flat(tasks); } }
	lemma_breaks_add(cls() + title + line + tasks, close(n));
	lemma_flat(close(n));
}
}
@end
