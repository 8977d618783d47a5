# Strings at the level of characters. `blen` is the UTF-8 length.
@path Chars VxChars
@path CharIndices VxCharIndices
@method chars vx_chars
@method char_indices vx_char_indices
@method get 1 vx_get
@path Cow VxCow
@method split_inclusive vx_split_inclusive
@method strip_suffix vx_strip_suffix
@method split_at_checked vx_split_at_checked
@method windows vx_windows
@method replace_range vx_replace_range
@broadcast lemma_enc_len axiom_str_max lemma_blen_push lemma_blen_add lemma_bpos_len lemma_bpos_step lemma_bpos_max lemma_bpos_zero
@raw
pub use vstd::utf8::*;
pub use vstd::string::*;
pub use vs::*;
pub use std::ops::Range;
pub mod vs {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;

pub open spec fn clen(c: char) -> nat {
	let n = c as u32;
	if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}
/// UTF-8 length.
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
	if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.drop_first()) }
}
/// Byte position of character `k`.
#[verifier::opaque]
pub open spec fn bpos(s: Seq<char>, k: int) -> nat decreases k {
	if k <= 0 { 0 } else { bpos(s, k - 1) + clen(s[k - 1]) }
}
/// Is `b` the byte position of a character boundary of `s`?
#[verifier::opaque]
pub open spec fn is_bnd(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && b == #[trigger] bpos(s, k) }
/// The character index of byte position `b`.
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && b == #[trigger] bpos(s, k) }

pub broadcast proof fn lemma_enc_len(s: Seq<char>)
	ensures #[trigger] encode_utf8(s).len() == blen(s)
	decreases s.len()
{
	if s.len() > 0 { lemma_enc_len(s.drop_first()); }
}
/// Trusted: no text takes more than a sixteenth of the address space.
pub broadcast axiom fn axiom_str_max(s: &str)
	ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX / 8;
pub broadcast axiom fn axiom_string_max(s: String)
	ensures blen(#[trigger] s@) <= isize::MAX / 8;

pub broadcast proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
	ensures #[trigger] blen(a + b) == blen(a) + blen(b)
	decreases a.len()
{
	if a.len() == 0 { assert(a + b =~= b); }
	else {
		assert((a + b).drop_first() =~= a.drop_first() + b);
		lemma_blen_add(a.drop_first(), b);
	}
}
pub proof fn lemma_blen_one(c: char)
	ensures blen(seq![c]) == clen(c)
{ reveal_with_fuel(blen, 2); }
pub broadcast proof fn lemma_blen_push(s: Seq<char>, c: char)
	ensures #[trigger] blen(s.push(c)) == blen(s) + clen(c)
{
	assert(s.push(c) =~= s + seq![c]);
	lemma_blen_add(s, seq![c]);
	lemma_blen_one(c);
}
pub broadcast proof fn lemma_blen_ge(s: Seq<char>)
	ensures s.len() <= #[trigger] blen(s) <= 4 * s.len()
	decreases s.len()
{
	if s.len() > 0 { lemma_blen_ge(s.drop_first()); }
}
/// ASCII text is as long in bytes as in characters.
pub broadcast proof fn lemma_blen_ascii(s: Seq<char>)
	requires forall|i: int| 0 <= i < s.len() ==> ascii(#[trigger] s[i])
	ensures #[trigger] blen(s) == s.len()
	decreases s.len()
{
	if s.len() > 0 {
		assert(forall|i: int| 0 <= i < s.drop_first().len() ==> s.drop_first()[i] == s[i + 1]);
		lemma_blen_ascii(s.drop_first());
	}
}
pub proof fn lemma_bpos_take(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures bpos(s, k) == blen(s.take(k))
	decreases k
{
	reveal(bpos);
	if k > 0 {
		lemma_bpos_take(s, k - 1);
		assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
		lemma_blen_push(s.take(k - 1), s[k - 1]);
	}
}
pub broadcast proof fn lemma_bpos_len(s: Seq<char>)
	ensures #[trigger] bpos(s, s.len() as int) == blen(s)
{
	lemma_bpos_take(s, s.len() as int);
	assert(s.take(s.len() as int) =~= s);
}
pub broadcast proof fn lemma_bpos_mono(s: Seq<char>, i: int, j: int)
	requires 0 <= i <= j
	ensures
		#![trigger bpos(s, i), bpos(s, j)]
		bpos(s, i) + (j - i) <= bpos(s, j) <= bpos(s, i) + 4 * (j - i),
		j == i + 1 ==> bpos(s, j) == bpos(s, i) + clen(s[i]),
		j == i + 2 ==> bpos(s, j) == bpos(s, i) + clen(s[i]) + clen(s[i + 1]),
	decreases j
{
	reveal(bpos);
	if i < j { lemma_bpos_mono(s, i, j - 1); }
}
pub broadcast proof fn lemma_bpos_step(s: Seq<char>, k: int)
	requires 0 <= k
	ensures
		#![trigger bpos(s, k), s[k]]
		bpos(s, k + 1) == bpos(s, k) + clen(s[k])
{ reveal(bpos); }
pub broadcast proof fn lemma_bpos_max(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures k <= #[trigger] bpos(s, k), bpos(s, k) + (s.len() - k) <= bpos(s, s.len() as int)
{ lemma_bpos_mono(s, 0, k); lemma_bpos_mono(s, k, s.len() as int); lemma_bpos_zero(s); }
pub broadcast proof fn lemma_bpos_zero(s: Seq<char>)
	ensures #[trigger] bpos(s, 0) == 0
{ reveal(bpos); }
pub broadcast proof fn lemma_bnd(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures #![trigger bpos(s, k)] is_bnd(s, bpos(s, k) as int), cidx(s, bpos(s, k) as int) == k, bpos(s, k) <= blen(s)
{
	reveal(is_bnd); reveal(cidx);
	let b = bpos(s, k) as int;
	let c = cidx(s, b);
	lemma_bpos_len(s);
	lemma_bpos_mono(s, k, s.len() as int);
	assert(0 <= k <= s.len() && b == bpos(s, k));
	if c < k { lemma_bpos_mono(s, c, k); } else { lemma_bpos_mono(s, k, c); }
}
pub broadcast proof fn lemma_bnd_inv(s: Seq<char>, b: int)
	requires #[trigger] is_bnd(s, b)
	ensures 0 <= cidx(s, b) <= s.len(), bpos(s, cidx(s, b)) == b, 0 <= b <= blen(s)
{
	reveal(is_bnd); reveal(cidx);
	let k = choose|k: int| 0 <= k <= s.len() && b == #[trigger] bpos(s, k);
	lemma_bpos_len(s);
	lemma_bpos_mono(s, cidx(s, b), s.len() as int);
}
/// Positions within the first part of a concatenation.
pub proof fn lemma_bpos_add(a: Seq<char>, b: Seq<char>, k: int)
	requires 0 <= k <= a.len() + b.len()
	ensures
		k <= a.len() ==> bpos(a + b, k) == bpos(a, k),
		k >= a.len() ==> bpos(a + b, k) == blen(a) + bpos(b, k - a.len()),
	decreases k
{
	reveal(bpos);
	if k > 0 { lemma_bpos_add(a, b, k - 1); }
	lemma_bpos_len(a);
}
/// Positions within a slice.
pub proof fn lemma_bpos_sub(s: Seq<char>, i: int, j: int, k: int)
	requires 0 <= i <= j <= s.len(), 0 <= k <= j - i
	ensures bpos(s.subrange(i, j), k) == bpos(s, i + k) - bpos(s, i)
	decreases k
{
	reveal(bpos);
	if k > 0 { lemma_bpos_sub(s, i, j, k - 1); }
}
pub proof fn lemma_blen_sub(s: Seq<char>, i: int, j: int)
	requires 0 <= i <= j <= s.len()
	ensures blen(s.subrange(i, j)) == bpos(s, j) - bpos(s, i)
{
	lemma_bpos_sub(s, i, j, j - i);
	lemma_bpos_len(s.subrange(i, j));
}
/// UTF-8: bytes below 0x80 are exactly the ASCII characters.
pub proof fn lemma_scalar(c: char)
	ensures
		encode_scalar(c as u32).len() == clen(c),
		(c as u32) < 0x80 ==> encode_scalar(c as u32) == seq![c as u8],
		(c as u32) >= 0x80 ==> forall|i: int| 0 <= i < clen(c) ==> #[trigger] encode_scalar(c as u32)[i] >= 0x80u8,
{
	let n = c as u32;
	assert(forall|n: u32| n < 0x80 ==> #[trigger] (n & 0x7f) == n) by(bit_vector);
	assert(forall|x: u8| #[trigger] (x | 0x80) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (x | 0xC0) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (x | 0xE0) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (x | 0xF0) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (0x80 | x) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (0xC0 | x) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (0xE0 | x) >= 0x80) by(bit_vector);
	assert(forall|x: u8| #[trigger] (0xF0 | x) >= 0x80) by(bit_vector);
}
pub proof fn lemma_enc_add(a: Seq<char>, b: Seq<char>)
	ensures encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b)
	decreases a.len()
{
	if a.len() == 0 { assert(a + b =~= b); assert(encode_utf8(a) + encode_utf8(b) =~= encode_utf8(b)); }
	else {
		lemma_enc_add(a.drop_first(), b);
		assert((a + b).drop_first() =~= a.drop_first() + b);
		assert((a + b)[0] == a[0]);
		assert(encode_utf8(a + b) =~= encode_scalar(a[0] as u32) + (encode_utf8(a.drop_first()) + encode_utf8(b)));
		assert(encode_utf8(a + b) =~= (encode_scalar(a[0] as u32) + encode_utf8(a.drop_first())) + encode_utf8(b));
	}
}
/// The bytes of character `k`.
pub proof fn lemma_enc_at(s: Seq<char>, k: int)
	requires 0 <= k < s.len()
	ensures
		encode_utf8(s).len() == blen(s),
		bpos(s, k) + clen(s[k]) == bpos(s, k + 1) <= blen(s),
		encode_utf8(s).subrange(bpos(s, k) as int, bpos(s, k + 1) as int) == encode_scalar(s[k] as u32),
{
	broadcast use {lemma_enc_len, lemma_bpos_mono, lemma_bpos_len};
	let a = s.take(k); let m = seq![s[k]]; let b = s.skip(k + 1);
	assert(s =~= (a + m) + b);
	lemma_enc_add(a + m, b); lemma_enc_add(a, m);
	lemma_bpos_take(s, k);
	assert(m.drop_first() =~= Seq::<char>::empty());
	reveal_with_fuel(encode_utf8, 2);
	assert(encode_utf8(m) =~= encode_scalar(s[k] as u32));
	lemma_scalar(s[k]);
	assert(bpos(s, k + 1) <= bpos(s, s.len() as int));
	assert(encode_utf8(s).subrange(bpos(s, k) as int, bpos(s, k + 1) as int) =~= encode_scalar(s[k] as u32));
}
/// The character that byte `i` belongs to.
pub proof fn lemma_char_at(s: Seq<char>, i: int) -> (k: int)
	requires 0 <= i < blen(s)
	ensures 0 <= k < s.len(), bpos(s, k) <= i < bpos(s, k + 1)
{
	broadcast use {lemma_bpos_len};
	lemma_char_at_rec(s, i, s.len() as int)
}
proof fn lemma_char_at_rec(s: Seq<char>, i: int, n: int) -> (k: int)
	requires 0 <= i < bpos(s, n), 0 <= n <= s.len()
	ensures 0 <= k < n, bpos(s, k) <= i < bpos(s, k + 1)
	decreases n
{
	reveal(bpos);
	if i < bpos(s, n - 1) { lemma_char_at_rec(s, i, n - 1) } else { n - 1 }
}
/// The end of the line that starts at `k`.
pub open spec fn line_end(s: Seq<char>, c: char, k: int) -> int decreases s.len() - k {
	if k >= s.len() { s.len() as int } else if s[k] == c { k + 1 } else { line_end(s, c, k + 1) }
}
pub open spec fn ascii(c: char) -> bool { (c as u32) < 0x80 }
/// A byte below 0x80 is a character.
pub proof fn lemma_ascii_byte(s: Seq<char>, i: int) -> (k: int)
	requires 0 <= i < encode_utf8(s).len(), encode_utf8(s)[i] < 0x80
	ensures 0 <= k < s.len(), bpos(s, k) == i, ascii(s[k]), s[k] as u8 == encode_utf8(s)[i]
{
	broadcast use {lemma_enc_len};
	let k = lemma_char_at(s, i);
	lemma_enc_at(s, k); lemma_scalar(s[k]);
	assert(encode_utf8(s).subrange(bpos(s, k) as int, bpos(s, k + 1) as int)[i - bpos(s, k)] == encode_utf8(s)[i]);
	k
}
pub proof fn lemma_ascii_char(s: Seq<char>, k: int)
	requires 0 <= k < s.len(), ascii(s[k])
	ensures bpos(s, k) < encode_utf8(s).len(), encode_utf8(s)[bpos(s, k) as int] == s[k] as u8, bpos(s, k + 1) == bpos(s, k) + 1
{
	lemma_enc_at(s, k); lemma_scalar(s[k]);
	assert(encode_utf8(s).subrange(bpos(s, k) as int, bpos(s, k + 1) as int)[0] == encode_utf8(s)[bpos(s, k) as int]);
}
}
// ---- std wrappers (trusted contracts) ----
pub fn vx_assert(b: bool) requires b {}
/// IntoIterator::into_iter: iterators are their own.
pub trait VxIter {}
pub trait VxIntoIter: Sized { type It; spec fn it_ok(&self, r: Self::It) -> bool; fn vx_into_it(self) -> (r: Self::It) ensures self.it_ok(r); }
impl<T: VxIter> VxIntoIter for T { type It = T; open spec fn it_ok(&self, r: T) -> bool { r == *self } fn vx_into_it(self) -> (r: T) { self } }
pub fn vx_into_iter<T: VxIntoIter>(t: T) -> (r: T::It) ensures t.it_ok(r) { t.vx_into_it() }
impl<'a> VxIter for VxChars<'a> {}
impl<'a> VxIter for VxCharIndices<'a> {}
impl<'a> VxIter for VxLines<'a> {}
impl<'a> VxIter for VxWindows<'a> {}
impl<T: Copy, const N: usize> VxIter for VxArray<T, N> {}

/// str::chars: the string, and the index of the next character.
#[verifier::external_body]
pub struct VxChars<'a> { it: std::str::Chars<'a> }
impl<'a> VxChars<'a> {
	pub uninterp spec fn src(&self) -> Seq<char>;
	pub uninterp spec fn at(&self) -> int;
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<char>)
		ensures
			final(self).src() == old(self).src(),
			0 <= old(self).at() <= old(self).src().len(),
			r is None <==> old(self).at() == old(self).src().len(),
			r is None ==> final(self).at() == old(self).at(),
			r is Some ==> r->0 == old(self).src()[old(self).at()] && final(self).at() == old(self).at() + 1,
	{ self.it.next() }
}
pub trait VxStr {
	fn vx_chars<'a>(&'a self) -> VxChars<'a>;
	fn vx_char_indices<'a>(&'a self) -> VxCharIndices<'a>;
	fn vx_split_inclusive<'a>(&'a self, c: char) -> VxLines<'a>;
	fn vx_split_at_checked<'a>(&'a self, mid: usize) -> Option<(&'a str, &'a str)>;
	fn vx_strip_suffix<'a>(&'a self, x: &str) -> Option<&'a str>;
}
impl VxStr for str {
	#[verifier::external_body]
	fn vx_chars<'a>(&'a self) -> (r: VxChars<'a>) ensures r.src() == self@, r.at() == 0, blen(self@) <= isize::MAX { VxChars { it: self.chars() } }
	#[verifier::external_body]
	fn vx_char_indices<'a>(&'a self) -> (r: VxCharIndices<'a>)
		ensures r.src() == self@, r.at() == 0, blen(self@) <= isize::MAX
	{ VxCharIndices { it: self.char_indices() } }
	#[verifier::external_body]
	fn vx_split_inclusive<'a>(&'a self, c: char) -> (r: VxLines<'a>)
		ensures r.src() == self@, r.at() == 0, r.sep() == c
	{ unimplemented!() }
	#[verifier::external_body]
	fn vx_split_at_checked<'a>(&'a self, mid: usize) -> (r: Option<(&'a str, &'a str)>)
		ensures
			r is Some <==> is_bnd(self@, mid as int),
			r is Some ==> (r->0).0@ == self@.take(cidx(self@, mid as int)) && (r->0).1@ == self@.skip(cidx(self@, mid as int)),
	{ self.split_at_checked(mid) }
	#[verifier::external_body]
	fn vx_strip_suffix<'a>(&'a self, x: &str) -> (r: Option<&'a str>)
		ensures
			r is Some <==> (x@.len() <= self@.len() && self@.skip(self@.len() - x@.len()) == x@),
			r is Some ==> r->0@ == self@.take(self@.len() - x@.len()),
	{ self.strip_suffix(x) }
}
/// str::char_indices and its skip(n): the string, and the index of the next character.
#[verifier::external_body]
pub struct VxCharIndices<'a> { it: std::str::CharIndices<'a> }
impl<'a> VxCharIndices<'a> {
	pub uninterp spec fn src(&self) -> Seq<char>;
	pub uninterp spec fn at(&self) -> int;
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<(usize, char)>)
		ensures
			final(self).src() == old(self).src(),
			0 <= old(self).at() <= old(self).src().len(),
			r is None <==> old(self).at() == old(self).src().len(),
			r is None ==> final(self).at() == old(self).at(),
			r is Some ==> (r->0).1 == old(self).src()[old(self).at()] && (r->0).0 == bpos(old(self).src(), old(self).at())
				&& final(self).at() == old(self).at() + 1,
	{ self.it.next() }
	#[verifier::external_body]
	pub fn skip(self, n: usize) -> (r: VxCharIndices<'a>)
		ensures
			r.src() == self.src(),
			r.at() == (if self.at() + n <= self.src().len() { self.at() + n } else { self.src().len() as int }),
	{ unimplemented!() }
}
/// str::split_inclusive(c): the text, and the index where the next line starts.
#[verifier::external_body]
pub struct VxLines<'a> { it: std::marker::PhantomData<&'a str> }
impl<'a> VxLines<'a> {
	pub uninterp spec fn src(&self) -> Seq<char>;
	pub uninterp spec fn at(&self) -> int;
	pub uninterp spec fn sep(&self) -> char;
	/// Where the latest line started.
	pub uninterp spec fn prev(&self) -> int;
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<&'a str>)
		ensures
			final(self).src() == old(self).src(), final(self).sep() == old(self).sep(), final(self).prev() == old(self).at(),
			0 <= old(self).at() <= old(self).src().len(),
			r is None <==> old(self).at() == old(self).src().len(),
			r is None ==> final(self).at() == old(self).at(),
			r is Some ==> final(self).at() == line_end(old(self).src(), old(self).sep(), old(self).at())
				&& r->0@ == old(self).src().subrange(old(self).at(), final(self).at()),
	{ unimplemented!() }
}
pub trait VxGet<I> { fn vx_get<'a>(&'a self, i: I) -> Option<&'a str>; }
impl VxGet<std::ops::Range<usize>> for str {
	#[verifier::external_body]
	fn vx_get<'a>(&'a self, i: std::ops::Range<usize>) -> (r: Option<&'a str>)
		ensures
			r is Some <==> (i.start <= i.end && is_bnd(self@, i.start as int) && is_bnd(self@, i.end as int)),
			r is Some ==> r->0@ == self@.subrange(cidx(self@, i.start as int) as int, cidx(self@, i.end as int)),
	{ self.get(i) }
}
impl VxGet<std::ops::RangeFrom<usize>> for str {
	#[verifier::external_body]
	fn vx_get<'a>(&'a self, i: std::ops::RangeFrom<usize>) -> (r: Option<&'a str>)
		ensures
			r is Some <==> is_bnd(self@, i.start as int),
			r is Some ==> r->0@ == self@.skip(cidx(self@, i.start as int)),
	{ self.get(i) }
}
impl VxGet<std::ops::RangeTo<usize>> for str {
	#[verifier::external_body]
	fn vx_get<'a>(&'a self, i: std::ops::RangeTo<usize>) -> (r: Option<&'a str>)
		ensures
			r is Some <==> is_bnd(self@, i.end as int),
			r is Some ==> r->0@ == self@.take(cidx(self@, i.end as int)),
	{ self.get(i) }
}
pub trait VxSlice<I> {
	type Out: ?Sized;
	spec fn slice_ok(&self, i: I) -> bool;
	fn vx_slice<'a>(&'a self, i: I) -> (r: &'a Self::Out) requires self.slice_ok(i);
}
impl VxSlice<std::ops::RangeTo<usize>> for str {
	type Out = str;
	open spec fn slice_ok(&self, i: std::ops::RangeTo<usize>) -> bool { is_bnd(self@, i.end as int) }
	#[verifier::external_body]
	fn vx_slice<'a>(&'a self, i: std::ops::RangeTo<usize>) -> (r: &'a str)
		ensures r@ == self@.take(cidx(self@, i.end as int)),
	{ &self[i] }
}
impl VxSlice<std::ops::RangeTo<usize>> for [u8] {
	type Out = [u8];
	open spec fn slice_ok(&self, i: std::ops::RangeTo<usize>) -> bool { i.end <= self@.len() }
	#[verifier::external_body]
	fn vx_slice<'a>(&'a self, i: std::ops::RangeTo<usize>) -> (r: &'a [u8])
		ensures r@ == self@.take(i.end as int),
	{ &self[i] }
}
/// slice::windows(n): the slice, the size, and the index of the next one.
#[verifier::external_body]
pub struct VxWindows<'a> { it: std::slice::Windows<'a, u8> }
impl<'a> VxWindows<'a> {
	pub uninterp spec fn src(&self) -> Seq<u8>;
	pub uninterp spec fn at(&self) -> int;
	pub uninterp spec fn size(&self) -> int;
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<&'a [u8]>)
		ensures
			final(self).src() == old(self).src(), final(self).size() == old(self).size(), 0 <= old(self).at(),
			r is Some <==> old(self).at() + old(self).size() <= old(self).src().len(),
			r is None ==> final(self).at() == old(self).at(),
			r is Some ==> r->0@ == old(self).src().subrange(old(self).at(), old(self).at() + old(self).size()) && final(self).at() == old(self).at() + 1,
	{ self.it.next() }
}
pub trait VxBytes { fn vx_windows<'a>(&'a self, n: usize) -> (r: VxWindows<'a>) requires n > 0; }
impl VxBytes for [u8] {
	#[verifier::external_body]
	fn vx_windows<'a>(&'a self, n: usize) -> (r: VxWindows<'a>)
		ensures r.src() == self@, r.at() == 0, r.size() == n, self@.len() <= isize::MAX
	{ VxWindows { it: self.windows(n) } }
}
#[verifier::external_body]
pub fn vx_seq(a: &str, b: &str) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
#[verifier::external_body]
pub fn vx_beq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
pub assume_specification<T> [ Option::<T>::replace ](o: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(t);
pub assume_specification<T> [ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification [ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// std::borrow::Cow for text.
pub enum VxCow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
impl<'a> VxCow<'a, str> {
	pub open spec fn view(&self) -> Seq<char> { match self { VxCow::Borrowed(s) => s@, VxCow::Owned(s) => s@ } }
}
@end
@raw
/// An array by value, as an iterator.
pub struct VxArray<T, const N: usize> { pub a: [T; N], pub i: usize }
impl<T: Copy, const N: usize> VxArray<T, N> {
	pub fn new(a: [T; N]) -> (r: Self) ensures r.a == a, r.i == 0 { VxArray { a, i: 0 } }
	pub fn next(&mut self) -> (r: Option<T>)
		ensures
			final(self).a == old(self).a,
			r is Some <==> old(self).i < old(self).a@.len(),
			r is None ==> final(self).i == old(self).i,
			r is Some ==> r->0 == old(self).a@[old(self).i as int] && final(self).i == old(self).i + 1,
	{ if self.i < N { let x = self.a[self.i]; self.i += 1; Some(x) } else { None } }
}
@end
