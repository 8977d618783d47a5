@flag macros
@raw
// The style macros (fyi_ansi) as functions from tokens to text; vx translates them
// from their current definitions, the generated keyword table included.
//
// P: punctuation, W: a keyword or number, G: a delimited group (0: parentheses),
// E: an expression given as content, by the text it stands for.
#[verifier::ext_equal]
pub enum Tok { P(int), W(int), G(int, Seq<Tok>), E(Seq<char>) }
pub open spec fn cat(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> {
	match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None }
}
pub open spec fn shown(t: Tok) -> Option<Seq<char>> { match t { Tok::E(s) => Some(s), _ => None } }
pub open spec fn shown_all(ts: Seq<Tok>) -> Option<Seq<char>>
	decreases ts.len(),
{
	if ts.len() == 0 { Some(Seq::empty()) } else { cat(shown(ts[0]), shown_all(ts.drop_first())) }
}
pub open spec fn cat_all(s: Seq<Option<Seq<char>>>) -> Option<Seq<char>>
	decreases s.len(),
{
	if s.len() == 0 { Some(Seq::empty()) } else { cat(s[0], cat_all(s.drop_first())) }
}
pub open spec fn tokens_all(s: Seq<Seq<Tok>>, sep: Seq<Tok>) -> Seq<Tok>
	decreases s.len(),
{
	if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { s[0] + sep + tokens_all(s.drop_first(), sep) }
}
pub open spec fn exprs(ts: Seq<Tok>) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]) is E }
/// One token each, with separators between, and one at the end if that may be.
pub open spec fn listed(ts: Seq<Tok>, sep: Tok, trail: bool) -> bool {
	&&& ts.len() >= 1
	&&& ts.len() % 2 == 1 || trail
	&&& forall|i: int| 0 <= i < ts.len() / 2 ==> (#[trigger] ts[2 * i + 1]) == sep
}
pub open spec fn items(ts: Seq<Tok>) -> Seq<Tok> { Seq::new(((ts.len() + 1) / 2) as nat, |i: int| ts[2 * i]) }
pub open spec fn joined(ts: Seq<Tok>, sep: Tok) -> Seq<Tok> {
	if ts.len() == 0 { Seq::empty() } else { Seq::new((2 * ts.len() - 1) as nat, |i: int| if i % 2 == 0 { ts[i / 2] } else { sep }) }
}
pub proof fn lemma_joined(ts: Seq<Tok>, sep: Tok, trail: bool)
	requires ts.len() >= 1,
	ensures
		listed(joined(ts, sep), sep, trail),
		items(joined(ts, sep)) =~= ts,
		listed(joined(ts, sep).push(sep), sep, true),
		items(joined(ts, sep).push(sep)) =~= ts,
{}

// What a caller writes: keywords, each of them perhaps negated.
pub struct Kw { pub neg: bool, pub w: int }
pub open spec fn kt(k: Kw) -> Seq<Tok> { if k.neg { seq![Tok::P(33int), Tok::W(k.w)] } else { seq![Tok::W(k.w)] } }
pub open spec fn flat(ks: Seq<Kw>) -> Seq<Tok>
	decreases ks.len(),
{
	if ks.len() == 0 { Seq::empty() } else if ks.len() == 1 { kt(ks[0]) } else { kt(ks[0]) + seq![Tok::P(44int)] + flat(ks.drop_first()) }
}
/// Contents, with or without a comma at the end.
pub open spec fn contents(cs: Seq<Seq<char>>, trail: bool) -> Seq<Tok> {
	let l = joined(texts(cs), Tok::P(44int));
	if trail { l.push(Tok::P(44int)) } else { l }
}
pub open spec fn texts(cs: Seq<Seq<char>>) -> Seq<Tok> { Seq::new(cs.len(), |i: int| Tok::E(cs[i])) }
pub open spec fn all(cs: Seq<Seq<char>>) -> Seq<char>
	decreases cs.len(),
{
	if cs.len() == 0 { Seq::empty() } else { cs[0] + all(cs.drop_first()) }
}
pub proof fn lemma_all(cs: Seq<Seq<char>>)
	ensures shown_all(texts(cs)) == Some(all(cs)),
	decreases cs.len(),
{
	if cs.len() > 0 { lemma_all(cs.drop_first()); assert(texts(cs).drop_first() =~= texts(cs.drop_first())); }
}
pub proof fn lemma_contents(cs: Seq<Seq<char>>, trail: bool)
	requires cs.len() >= 1,
	ensures
		listed(contents(cs, trail), Tok::P(44int), true),
		!trail ==> listed(contents(cs, trail), Tok::P(44int), false),
		items(contents(cs, trail)) == texts(cs),
		exprs(texts(cs)),
		shown_all(texts(cs)) == Some(all(cs)),
		contents(cs, trail).len() >= 1,
{
	lemma_joined(texts(cs), Tok::P(44int), true);
	lemma_joined(texts(cs), Tok::P(44int), false);
	lemma_all(cs);
}

// What it means (the documentation of csi!).
pub open spec fn digit(n: int) -> char {
	if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub open spec fn colour(n: int) -> Seq<char> {
	if n < 8 { seq!['3', digit(n)] }
	else if n < 16 { seq!['9', digit(n - 8)] }
	else if n < 100 { seq!['3', '8', ';', '5', ';', digit(n / 10), digit(n % 10)] }
	else { seq!['3', '8', ';', '5', ';', digit(n / 100), digit(n / 10 % 10), digit(n % 10)] }
}
/// The style's own digit; 0: not a style.
pub open spec fn style(w: int) -> int {
	if w == WORD!(bold) { 1 } else if w == WORD!(dim) { 2 } else if w == WORD!(italic) { 3 } else if w == WORD!(underline) { 4 } else if w == WORD!(blink) { 5 } else if w == WORD!(strike) { 9 } else { 0 }
}
/// The colour's number, by number or name; -1: not a colour.
pub open spec fn number(w: int) -> int {
	if 0 <= w < 256 { w } else
	if w == WORD!(black) { 0 } else
	if w == WORD!(red) { 1 } else
	if w == WORD!(green) { 2 } else
	if w == WORD!(yellow) { 3 } else
	if w == WORD!(blue) { 4 } else
	if w == WORD!(magenta) { 5 } else
	if w == WORD!(cyan) { 6 } else
	if w == WORD!(light_grey) { 7 } else
	if w == WORD!(dark_grey) { 8 } else
	if w == WORD!(light_red) { 9 } else
	if w == WORD!(light_green) { 10 } else
	if w == WORD!(light_yellow) { 11 } else
	if w == WORD!(light_blue) { 12 } else
	if w == WORD!(light_magenta) { 13 } else
	if w == WORD!(light_cyan) { 14 } else
	if w == WORD!(white) { 15 } else
	if w == WORD!(navy_blue) { 17 } else
	if w == WORD!(dark_blue) { 18 } else
	if w == WORD!(dark_green) { 22 } else
	if w == WORD!(dark_cyan) { 36 } else
	if w == WORD!(light_sea_green) { 37 } else
	if w == WORD!(dark_turquoise) { 44 } else
	if w == WORD!(medium_spring_green) { 49 } else
	if w == WORD!(blue_violet) { 57 } else
	if w == WORD!(royal_blue) { 63 } else
	if w == WORD!(steel_blue) { 67 } else
	if w == WORD!(cornflower_blue) { 69 } else
	if w == WORD!(medium_turquoise) { 80 } else
	if w == WORD!(light_slate_grey) { 103 } else
	if w == WORD!(medium_purple) { 104 } else
	if w == WORD!(light_slate_blue) { 105 } else
	if w == WORD!(dark_sea_green) { 108 } else
	if w == WORD!(medium_violet_red) { 126 } else
	if w == WORD!(dark_goldenrod) { 136 } else
	if w == WORD!(rosy_brown) { 138 } else
	if w == WORD!(dark_khaki) { 143 } else
	if w == WORD!(light_steel_blue) { 147 } else
	if w == WORD!(green_yellow) { 154 } else
	if w == WORD!(orchid) { 170 } else
	if w == WORD!(violet) { 177 } else
	if w == WORD!(tan) { 180 } else
	if w == WORD!(honeydew) { 194 } else
	if w == WORD!(orange_red) { 201 } else
	if w == WORD!(dark_orange) { 208 } else
	if w == WORD!(salmon) { 209 } else
	if w == WORD!(light_coral) { 210 } else
	if w == WORD!(sandy_brown) { 215 } else
	if w == WORD!(cornsilk) { 230 } else
	{ -1 }
}
pub open spec fn code(k: Kw) -> Option<Seq<char>> {
	if k.w == WORD!(reset) { Some(seq!['0']) }
	else if k.w == WORD!(fg) { if k.neg { Some(seq!['3', '9']) } else { None } }
	else if style(k.w) != 0 { if k.neg { Some(seq!['2', digit(style(k.w))]) } else { Some(seq![digit(style(k.w))]) } }
	else if number(k.w) >= 0 { if k.neg { Some(seq!['3', '9']) } else { Some(colour(number(k.w))) } }
	else { None }
}
/// All of them are among the words of this file.
pub proof fn lemma_words(w: int)
	requires code(Kw { neg: true, w }) is Some,
	ensures 0 <= w < 256 || 1000 <= w < 1000 + WORDS!(),
{}
pub open spec fn valid(ks: Seq<Kw>) -> bool { ks.len() >= 1 && forall|i: int| 0 <= i < ks.len() ==> code(#[trigger] ks[i]) is Some }
pub open spec fn codes(ks: Seq<Kw>) -> Seq<char>
	decreases ks.len(),
{
	if ks.len() == 0 { Seq::empty() } else if ks.len() == 1 { code(ks[0])->0 } else { code(ks[0])->0 + seq![';'] + codes(ks.drop_first()) }
}
/// The sequence for these keywords.
pub open spec fn escape(ks: Seq<Kw>) -> Seq<char> { seq!['\u{1b}', '['] + codes(ks) + seq!['m'] }
pub open spec fn full_reset() -> Seq<char> { seq!['\u{1b}', '[', '0', 'm'] }
pub open spec fn wrapped(ks: Seq<Kw>, cs: Seq<Seq<char>>) -> Seq<char> { escape(ks) + all(cs) + full_reset() }
pub open spec fn only(w: int) -> Seq<Kw> { seq![Kw { neg: false, w }] }
@end
@fn macro csi_code
+props C20
+begin
/// The keyword `w`, both ways.
pub open spec fn row(w: int) -> bool {
	&&& code(Kw { neg: false, w }) is None || m_csi_code(1, kt(Kw { neg: false, w })) == code(Kw { neg: false, w })
	&&& code(Kw { neg: true, w }) is None || m_csi_code(1, kt(Kw { neg: true, w })) == code(Kw { neg: true, w })
}
pub open spec fn rows(a: int, n: nat) -> bool
	decreases n,
{
	n == 0 || row(a) && rows(a + 1, (n - 1) as nat)
}
pub proof fn c_rows()
	ensures rows(0, 256), rows(1000, WORDS!() as nat),
{
	assert(rows(0, 256)) by (compute_only);
	assert(rows(1000, WORDS!() as nat)) by (compute_only);
}
pub proof fn c_csi_code(k: Kw, n: nat)
	requires code(k) is Some, n >= 1,
	ensures m_csi_code(n, kt(k)) == code(k),
{
	c_rows();
	assert(m_csi_code(n, kt(k)) == m_csi_code(1, kt(k)));
	lemma_words(k.w);
	if k.w < 256 { lemma_rows(0, 256, k.w); } else { lemma_rows(1000, WORDS!() as nat, k.w); }
	assert(k == (Kw { neg: k.neg, w: k.w }));
	assert(row(k.w));
}
pub proof fn lemma_rows(a: int, n: nat, w: int)
	requires rows(a, n), a <= w < a + n,
	ensures row(w),
	decreases n,
{
	if w != a { lemma_rows(a + 1, (n - 1) as nat, w); }
}
@fn macro ansi_merge
+props C20
+begin
pub proof fn c_ansi_merge(ks: Seq<Kw>, n: nat)
	requires valid(ks), n >= ks.len() + 1,
	ensures m_ansi_merge(n, flat(ks)) == Some(codes(ks)), flat(ks).len() >= 1,
	decreases ks.len(),
{
	hide(m_csi_code);
	hide(code);
	let t = flat(ks);
	c_csi_code(ks[0], (n - 1) as nat);
	if ks.len() > 1 {
		let r = ks.drop_first();
		assert(valid(r)) by { assert forall|i: int| 0 <= i < r.len() implies code(#[trigger] r[i]) is Some by { assert(r[i] == ks[i + 1]); } }
		c_ansi_merge(r, (n - 1) as nat);
		assert(t == kt(ks[0]) + seq![Tok::P(44int)] + flat(r));
		assert(t.skip(if ks[0].neg { 3int } else { 2int }) =~= flat(r));
	}
	assert(seq![Tok::P(33int)] + seq![Tok::W(ks[0].w)] =~= seq![Tok::P(33int), Tok::W(ks[0].w)]);
	assert(codes(ks) =~= if ks.len() == 1 { code(ks[0])->0 } else { code(ks[0])->0 + (seq![';'] + codes(ks.drop_first())) });
}
@fn macro csi
+props C20
+begin
pub proof fn c_csi(ks: Seq<Kw>, n: nat)
	requires valid(ks), n >= ks.len() + 2,
	ensures m_csi(n, flat(ks)) == Some(escape(ks)), m_csi(n, Seq::empty()) == Some(full_reset()),
{
	hide(m_csi_code);
	hide(code);
	c_ansi_merge(ks, (n - 1) as nat);
	assert(seq!['\u{1b}', '['] + (codes(ks) + seq!['m']) =~= escape(ks));
	if let Some(x) = m_csi(n, Seq::empty()) { assert(x =~= full_reset()); }
}
@fn macro ansi
+props C20
+begin
pub proof fn c_ansi(ks: Seq<Kw>, cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires valid(ks), cs.len() >= 1, n >= ks.len() + 3,
	ensures m_ansi(n, seq![Tok::G(0int, flat(ks))] + contents(cs, trail)) == Some(wrapped(ks, cs)),
{
	hide(m_csi_code);
	hide(code);
	let t = seq![Tok::G(0int, flat(ks))] + contents(cs, trail);
	assert(t.skip(1) =~= contents(cs, trail));
	assert(t.len() >= 2);
	lemma_contents(cs, trail);
	c_csi(ks, (n - 1) as nat);
	c_ansi_merge(ks, n);
	assert(flat(ks).skip(0) =~= flat(ks));
	assert(escape(ks) + (all(cs) + full_reset()) =~= wrapped(ks, cs));
}
@fn macro blink
+props C20
+begin
pub proof fn c_blink(cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8,
	ensures m_blink(n, contents(cs, trail)) == Some(wrapped(only(WORD!(blink)), cs)),
{
	hide(m_csi_code);
	broadcast use lemma_behind;
	lemma_wrapper(WORD!(blink), cs, trail);
	lemma_wrapper(WORD!(blink), cs, false);
	about_ansi(WORD!(blink), cs, trail, n);
}
@fn macro bold
+props C20
+begin
pub proof fn c_bold(cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8,
	ensures m_bold(n, contents(cs, trail)) == Some(wrapped(only(WORD!(bold)), cs)),
{
	hide(m_csi_code);
	broadcast use lemma_behind;
	lemma_wrapper(WORD!(bold), cs, trail);
	lemma_wrapper(WORD!(bold), cs, false);
	about_ansi(WORD!(bold), cs, trail, n);
}
@fn macro dim
+props C20
+begin
pub proof fn c_dim(cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8,
	ensures m_dim(n, contents(cs, trail)) == Some(wrapped(only(WORD!(dim)), cs)),
{
	hide(m_csi_code);
	broadcast use lemma_behind;
	lemma_wrapper(WORD!(dim), cs, trail);
	lemma_wrapper(WORD!(dim), cs, false);
	about_ansi(WORD!(dim), cs, trail, n);
}
@fn macro italic
+props C20
+begin
pub proof fn c_italic(cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8,
	ensures m_italic(n, contents(cs, trail)) == Some(wrapped(only(WORD!(italic)), cs)),
{
	hide(m_csi_code);
	broadcast use lemma_behind;
	lemma_wrapper(WORD!(italic), cs, trail);
	lemma_wrapper(WORD!(italic), cs, false);
	about_ansi(WORD!(italic), cs, trail, n);
}
@fn macro strike
+props C20
+begin
pub proof fn c_strike(cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8,
	ensures m_strike(n, contents(cs, trail)) == Some(wrapped(only(WORD!(strike)), cs)),
{
	hide(m_csi_code);
	broadcast use lemma_behind;
	lemma_wrapper(WORD!(strike), cs, trail);
	lemma_wrapper(WORD!(strike), cs, false);
	about_ansi(WORD!(strike), cs, trail, n);
}
@fn macro underline
+props C20
+begin
pub proof fn c_underline(cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8,
	ensures m_underline(n, contents(cs, trail)) == Some(wrapped(only(WORD!(underline)), cs)),
{
	hide(m_csi_code);
	broadcast use lemma_behind;
	lemma_wrapper(WORD!(underline), cs, trail);
	lemma_wrapper(WORD!(underline), cs, false);
	about_ansi(WORD!(underline), cs, trail, n);
}
@raw
/// What a wrapper may build on.
pub proof fn about_ansi(w: int, cs: Seq<Seq<char>>, trail: bool, n: nat)
	requires cs.len() >= 1, n >= 8, style(w) != 0,
	ensures
		forall|t: bool, k: nat| n - 3 <= k ==> #[trigger] m_ansi(k, seq![Tok::G(0int, seq![Tok::W(w)])] + contents(cs, t)) == Some(wrapped(only(w), cs)),
		forall|k: nat| n - 3 <= k ==> #[trigger] m_csi(k, seq![Tok::W(w)]) == Some(escape(only(w))),
		forall|k: nat| n - 3 <= k ==> #[trigger] m_csi(k, seq![Tok::W(WORD!(reset))]) == Some(full_reset()),
		forall|k: nat| n - 3 <= k ==> #[trigger] m_csi(k, Seq::empty()) == Some(full_reset()),
		shown_all(texts(cs)) == Some(all(cs)),
		items(contents(cs, trail)) == texts(cs),
		wrapped(only(w), cs) == escape(only(w)) + (all(cs) + full_reset()),
{
	lemma_all(cs);
	lemma_wrapper(w, cs, trail);
	let r = WORD!(reset);
	lemma_wrapper(r, cs, trail);
	assert(codes(only(r)) =~= seq!['0']);
	assert(escape(only(r)) =~= full_reset());
	lemma_contents(cs, trail);
	assert(wrapped(only(w), cs) =~= escape(only(w)) + (all(cs) + full_reset()));
	assert forall|t: bool, k: nat| n - 3 <= k implies #[trigger] m_ansi(k, seq![Tok::G(0int, seq![Tok::W(w)])] + contents(cs, t)) == Some(wrapped(only(w), cs)) by { c_ansi(only(w), cs, t, k); }
	assert forall|k: nat| n - 3 <= k implies #[trigger] m_csi(k, seq![Tok::W(w)]) == Some(escape(only(w))) by { c_csi(only(w), k); }
	assert forall|k: nat| n - 3 <= k implies #[trigger] m_csi(k, seq![Tok::W(r)]) == Some(full_reset()) by { c_csi(only(r), k); }
	assert forall|k: nat| n - 3 <= k implies #[trigger] m_csi(k, Seq::empty()) == Some(full_reset()) by { c_csi(only(r), k); }
}
/// A helper may be given the contents behind something else.
pub broadcast proof fn lemma_behind(p: Seq<Tok>, c: Seq<Tok>, n: int)
	requires n == p.len(),
	ensures #[trigger] (p + c).skip(n) == c,
{
	assert((p + c).skip(n) =~= c);
}
pub proof fn lemma_wrapper(w: int, cs: Seq<Seq<char>>, trail: bool)
	requires cs.len() >= 1, code(Kw { neg: false, w }) is Some,
	ensures
		listed(contents(cs, trail), Tok::P(44int), true),
		!trail ==> listed(contents(cs, trail), Tok::P(44int), false),
		exprs(items(contents(cs, trail))),
		joined(items(contents(cs, trail)), Tok::P(44int)) == contents(cs, false),
		flat(only(w)) == seq![Tok::W(w)],
		valid(only(w)),
		contents(cs, trail).len() >= 1,
		contents(cs, trail).skip(0) == contents(cs, trail),
{
	lemma_contents(cs, trail);
	assert(contents(cs, trail).skip(0) =~= contents(cs, trail));
	assert(flat(only(w)) =~= seq![Tok::W(w)]);
	assert(code(only(w)[0]) is Some);
}
@end
