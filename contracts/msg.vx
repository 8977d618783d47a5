# Messages: text and parts.
@include ansi.vx
@include kind.vx
@broadcast lemma_parts_len axiom_bytes_eq
@path AsRef VxAsRef
@path crate::msg::Toc Toc
@path Clone::clone vx_clone
@path Default::default vx_default
@method as_ref vx_as_ref
@path Self::from Msg::from_string
@method into_owned vx_into_owned
@item enum TocId #[derive(Clone, Copy, PartialEq, Eq)] #[repr(u8)]
@item struct Toc #[derive(Clone, Copy)]
@item struct Msg
@raw
pub use std::num::NonZeroUsize;
pub use std::cmp::Ordering;
pub assume_specification [ String::len ](s: &String) -> (r: usize) ensures r == blen(s@), r <= isize::MAX / 8;
pub assume_specification [ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@);
pub assume_specification [ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
/// AsRef<str>: any implementation that always gives the same text.
pub trait VxAsRef<T: View<V = Seq<char>> + ?Sized> {
	spec fn text(&self) -> Seq<char>;
	fn vx_as_ref<'a>(&'a self) -> (r: &'a T) ensures r@ == self.text();
}
/// Default and Clone of the types that messages consist of.
pub trait VxDefault: Sized { spec fn is_default(&self) -> bool; fn vx_def() -> (r: Self) ensures r.is_default(); }
impl VxDefault for String {
	open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() }
	#[verifier::external_body]
	fn vx_def() -> (r: Self) { String::new() }
}
impl VxDefault for Toc {
	open spec fn is_default(&self) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> self.0@[i] == 0 }
	#[verifier::external_body]
	fn vx_def() -> (r: Self) { unimplemented!() }
}
pub fn vx_default<T: VxDefault>() -> (r: T) ensures r.is_default() { T::vx_def() }
pub trait VxClone: Sized { spec fn same(&self, o: &Self) -> bool; fn vx_cl(&self) -> (r: Self) ensures self.same(&r); }
impl VxClone for String { open spec fn same(&self, o: &Self) -> bool { self@ == o@ } fn vx_cl(&self) -> (r: Self) { self.clone() } }
impl VxClone for Toc { open spec fn same(&self, o: &Self) -> bool { *self == *o } fn vx_cl(&self) -> (r: Self) { *self } }
pub fn vx_clone<T: VxClone>(t: &T) -> (r: T) ensures t.same(&r) { t.vx_cl() }
impl<'a> VxCow<'a, str> {
	#[verifier::external_body]
	pub fn vx_into_owned(self) -> (r: String) ensures r@ == self.view() { unimplemented!() }
}
pub trait VxReplace {
	spec fn rep_ok(&self, r: std::ops::Range<usize>) -> bool;
	fn vx_replace_range(&mut self, r: std::ops::Range<usize>, w: &str) requires old(self).rep_ok(r);
}
pub use vm::*;
pub mod vm {
use vstd::prelude::*;
use super::*;
/// Is `t` a table of contents of `s`: nondecreasing character boundaries from start to end?
#[verifier::opaque]
pub open spec fn toc_ok(s: Seq<char>, t: Seq<usize>) -> bool {
	&&& t.len() >= 2 && t[0] == 0 && t[t.len() - 1] == blen(s)
	&&& forall|i: int| 0 <= i < t.len() ==> is_bnd(s, #[trigger] t[i] as int)
	&&& forall|i: int, j: int| 0 <= i <= j < t.len() ==> t[i] <= t[j]
}
/// The parts of `s` by the table `t`.
#[verifier::opaque]
pub open spec fn parts(s: Seq<char>, t: Seq<usize>) -> Seq<Seq<char>> {
	Seq::new((t.len() - 1) as nat, |i: int| s.subrange(cidx(s, t[i] as int), cidx(s, t[i + 1] as int)))
}
pub open spec fn flat(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() {
	if p.len() == 0 { seq![] } else { flat(p.drop_last()) + p.last() }
}
pub broadcast proof fn lemma_parts_len(s: Seq<char>, t: Seq<usize>)
	requires t.len() >= 1
	ensures (#[trigger] parts(s, t)).len() == t.len() - 1
{ reveal(parts); }
/// The table is ordered and within the text.
pub proof fn lemma_toc(s: Seq<char>, t: Seq<usize>)
	requires toc_ok(s, t)
	ensures
		t.len() >= 2, t[0] == 0, t[t.len() - 1] == blen(s),
		forall|i: int| 0 <= i < t.len() ==> is_bnd(s, #[trigger] t[i] as int),
		forall|i: int, j: int| 0 <= i <= j < t.len() ==> t[i] <= t[j],
		forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] <= blen(s),
{ reveal(toc_ok); }
/// A table given by character indices.
pub proof fn lemma_cut_toc(s: Seq<char>, t: Seq<usize>, k: Seq<int>)
	requires
		t.len() >= 2, k.len() == t.len(), k[0] == 0, k[k.len() - 1] == s.len(),
		forall|i: int, j: int| 0 <= i <= j < k.len() ==> k[i] <= k[j],
		forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == bpos(s, k[i]),
	ensures
		toc_ok(s, t),
		parts(s, t) == Seq::new((t.len() - 1) as nat, |i: int| s.subrange(k[i], k[i + 1])),
{
	reveal(toc_ok); reveal(parts);
	assert forall|i: int| 0 <= i < t.len() implies is_bnd(s, #[trigger] t[i] as int) && cidx(s, t[i] as int) == k[i] && 0 <= k[i] <= s.len() by {
		assert(k[0] <= k[i] <= k[k.len() - 1]);
		lemma_bnd(s, k[i]);
	}
	assert forall|i: int, j: int| 0 <= i <= j < t.len() implies t[i] <= t[j] by {
		lemma_bpos_mono(s, k[i], k[j]);
	}
	lemma_bpos_zero(s); lemma_bpos_len(s);
	assert(parts(s, t) =~= Seq::new((t.len() - 1) as nat, |i: int| s.subrange(k[i], k[i + 1])));
}
/// The character indices of a table.
pub open spec fn cuts(s: Seq<char>, t: Seq<usize>) -> Seq<int> { Seq::new(t.len(), |i: int| cidx(s, t[i] as int)) }
pub proof fn lemma_cuts(s: Seq<char>, t: Seq<usize>)
	requires toc_ok(s, t)
	ensures
		t.len() >= 2, parts(s, t).len() == t.len() - 1, cuts(s, t)[0] == 0, cuts(s, t)[t.len() - 1] == s.len(),
		forall|i: int, j: int| 0 <= i <= j < t.len() ==> cuts(s, t)[i] <= cuts(s, t)[j],
		forall|i: int| 0 <= i < t.len() ==> 0 <= #[trigger] cuts(s, t)[i] <= s.len() && bpos(s, cuts(s, t)[i]) == t[i],
		forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] parts(s, t)[i] == s.subrange(cuts(s, t)[i], cuts(s, t)[i + 1]),
		forall|i: int| 0 <= i < t.len() - 1 ==> blen(#[trigger] parts(s, t)[i]) == t[i + 1] - t[i],
{
	reveal(toc_ok); reveal(parts);
	let k = cuts(s, t);
	assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] k[i] <= s.len() && bpos(s, k[i]) == t[i] by {
		assert(is_bnd(s, t[i] as int));
		lemma_bnd_inv(s, t[i] as int);
	}
	assert forall|i: int, j: int| 0 <= i <= j < t.len() implies k[i] <= k[j] by {
		assert(t[i] <= t[j]);
		assert(0 <= k[i] <= s.len() && 0 <= k[j] <= s.len());
		if k[j] < k[i] { lemma_bpos_mono(s, k[j], k[i]); }
	}
	lemma_bpos_zero(s); lemma_bpos_len(s);
	assert(0 <= k[0] <= s.len());
	if k[0] > 0 { lemma_bpos_mono(s, 0, k[0]); }
	let n = t.len() - 1;
	assert(0 <= k[n] <= s.len());
	if k[n] < s.len() { lemma_bpos_mono(s, k[n], s.len() as int); }
	assert forall|i: int| 0 <= i < t.len() - 1 implies blen(#[trigger] parts(s, t)[i]) == t[i + 1] - t[i] by {
		assert(k[i] <= k[i + 1]); assert(0 <= k[i] && k[i + 1] <= s.len());
		lemma_blen_sub(s, k[i], k[i + 1]);
	}
}
/// The text is its parts in order.
pub proof fn lemma_flat(s: Seq<char>, t: Seq<usize>)
	requires toc_ok(s, t)
	ensures flat(parts(s, t)) == s
{
	lemma_cuts(s, t);
	lemma_flat_to(s, t, t.len() - 1);
	assert(parts(s, t).take(t.len() - 1) =~= parts(s, t));
	assert(s.take(s.len() as int) =~= s);
}
proof fn lemma_flat_to(s: Seq<char>, t: Seq<usize>, n: int)
	requires toc_ok(s, t), 0 <= n <= t.len() - 1
	ensures flat(parts(s, t).take(n)) == s.take(cuts(s, t)[n])
	decreases n
{
	lemma_cuts(s, t);
	let p = parts(s, t);
	if n > 0 {
		lemma_flat_to(s, t, n - 1);
		assert(p.take(n).drop_last() =~= p.take(n - 1));
		assert(p.take(n).last() == p[n - 1]);
		assert(cuts(s, t)[n - 1] <= cuts(s, t)[n]);
		assert(s.take(cuts(s, t)[n - 1]) + s.subrange(cuts(s, t)[n - 1], cuts(s, t)[n]) =~= s.take(cuts(s, t)[n]));
	} else {
		assert(p.take(0) =~= Seq::<Seq<char>>::empty());
		assert(s.take(0) =~= Seq::<char>::empty());
	}
}
/// The table after part `id` got the length `n`.
pub open spec fn toc_with(t: Seq<usize>, u: Seq<usize>, id: int, n: int) -> bool {
	&&& u.len() == t.len()
	&&& forall|i: int| 0 <= i <= id ==> #[trigger] u[i] == t[i]
	&&& forall|i: int| id < i < t.len() ==> #[trigger] u[i] == t[i] - (t[id + 1] - t[id]) + n
}
/// Replacing a part in the text and in the table replaces exactly that part.
pub proof fn lemma_replace(s: Seq<char>, t: Seq<usize>, id: int, c: Seq<char>, u: Seq<usize>)
	requires toc_ok(s, t), 0 <= id < t.len() - 1, toc_with(t, u, id, blen(c) as int),
	ensures
		({
			let s2 = s.take(cuts(s, t)[id]) + c + s.skip(cuts(s, t)[id + 1]);
			toc_ok(s2, u) && parts(s2, u) == parts(s, t).update(id, c)
		})
{
	lemma_cuts(s, t);
	let k = cuts(s, t);
	let a = k[id]; let b = k[id + 1];
	assert(0 <= a <= b <= s.len());
	let s1 = s.take(a) + c;
	let s2 = s1 + s.skip(b);
	let k2 = Seq::new(t.len(), |i: int| if i <= id { k[i] } else { k[i] - b + a + c.len() });
	assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == bpos(s2, k2[i]) by {
		assert(0 <= k[i] <= s.len());
		if i <= id {
			assert(k[i] <= a);
			lemma_bpos_add(s1, s.skip(b), k[i]);
			lemma_bpos_add(s.take(a), c, k[i]);
			lemma_bpos_add(s.take(a), s.skip(a), k[i]);
			assert(s.take(a) + s.skip(a) =~= s);
		} else {
			assert(b <= k[i]);
			lemma_bpos_add(s1, s.skip(b), k2[i]);
			lemma_bpos_add(s.take(b), s.skip(b), k[i]);
			assert(s.take(b) + s.skip(b) =~= s);
			lemma_blen_add(s.take(a), c);
			lemma_bpos_take(s, a); lemma_bpos_take(s, b);
		}
	}
	assert forall|i: int, j: int| 0 <= i <= j < k2.len() implies k2[i] <= k2[j] by {
		assert(k[i] <= k[j]);
		if i <= id { assert(k[i] <= a); }
		if j > id { assert(b <= k[j]); }
	}
	lemma_cut_toc(s2, u, k2);
	let p2 = Seq::new((u.len() - 1) as nat, |i: int| s2.subrange(k2[i], k2[i + 1]));
	assert forall|i: int| 0 <= i < p2.len() implies #[trigger] p2[i] == parts(s, t).update(id, c)[i] by {
		assert(parts(s, t)[i] == s.subrange(k[i], k[i + 1]));
		assert(k[i] <= k[i + 1]);
		if i < id {
			assert(k[i + 1] <= a);
			assert(p2[i] =~= s.subrange(k[i], k[i + 1]));
		} else if i == id {
			assert(p2[i] =~= c);
		} else {
			assert(b <= k[i]);
			assert(k[i + 1] <= s.len()) by { assert(0 <= k[i + 1] <= s.len()); }
			assert(p2[i] =~= s.subrange(k[i], k[i + 1]));
		}
	}
	assert(p2 =~= parts(s, t).update(id, c));
}
/// The table of a text made of consecutive pieces.
pub proof fn lemma_build(p: Seq<Seq<char>>, t: Seq<usize>)
	requires
		p.len() >= 1, t.len() == p.len() + 1, t[0] == 0,
		forall|i: int| 0 <= i < p.len() ==> t[i + 1] == t[i] + blen(#[trigger] p[i]),
	ensures toc_ok(flat(p), t), parts(flat(p), t) == p,
{
	let k = Seq::new(t.len(), |i: int| flat(p.take(i)).len() as int);
	let s = flat(p);
	assert(p.take(p.len() as int) =~= p);
	assert(p.take(0) =~= Seq::<Seq<char>>::empty());
	assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == bpos(s, k[i]) by {
		lemma_build_len(p, t, i);
		lemma_flat_prefix(p, i);
		let f = flat(p.take(i));
		lemma_bpos_add(f, s.skip(k[i]), k[i]);
		assert(f + s.skip(k[i]) =~= s);
		lemma_bpos_len(f);
	}
	assert forall|i: int, j: int| 0 <= i <= j < k.len() implies k[i] <= k[j] by {
		lemma_flat_prefix(p.take(j), i);
		assert(p.take(j).take(i) =~= p.take(i));
	}
	lemma_cut_toc(s, t, k);
	assert forall|i: int| 0 <= i < p.len() implies #[trigger] parts(s, t)[i] == p[i] by {
		lemma_flat_prefix(p, i + 1);
		assert(p.take(i + 1).drop_last() =~= p.take(i));
		assert(p.take(i + 1).last() == p[i]);
		assert(parts(s, t)[i] == s.subrange(k[i], k[i + 1]));
		assert(s.subrange(k[i], k[i + 1]) =~= flat(p.take(i + 1)).skip(k[i]));
		assert(flat(p.take(i + 1)).skip(k[i]) =~= p[i]);
	}
	assert(parts(s, t) =~= p);
}
proof fn lemma_build_len(p: Seq<Seq<char>>, t: Seq<usize>, i: int)
	requires
		t.len() == p.len() + 1, t[0] == 0, 0 <= i <= p.len(),
		forall|i: int| 0 <= i < p.len() ==> t[i + 1] == t[i] + blen(#[trigger] p[i]),
	ensures t[i] == blen(flat(p.take(i)))
	decreases i
{
	if i > 0 {
		lemma_build_len(p, t, i - 1);
		assert(p.take(i).drop_last() =~= p.take(i - 1));
		assert(p.take(i).last() == p[i - 1]);
		assert(t[i - 1 + 1] == t[i - 1] + blen(p[i - 1]));
		lemma_blen_add(flat(p.take(i - 1)), p[i - 1]);
	} else { assert(p.take(0) =~= Seq::<Seq<char>>::empty()); }
}
proof fn lemma_flat_prefix(p: Seq<Seq<char>>, i: int)
	requires 0 <= i <= p.len()
	ensures flat(p.take(i)).len() <= flat(p).len(), flat(p).take(flat(p.take(i)).len() as int) == flat(p.take(i))
	decreases p.len()
{
	if i == p.len() { assert(p.take(i) =~= p); assert(flat(p).take(flat(p).len() as int) =~= flat(p)); }
	else {
		lemma_flat_prefix(p.drop_last(), i);
		assert(p.drop_last().take(i) =~= p.take(i));
		let n = flat(p.take(i)).len() as int;
		assert(flat(p).take(n) =~= flat(p.drop_last()).take(n));
	}
}
}
impl VxReplace for String {
	/// Panics unless the range is ordered and on character boundaries.
	open spec fn rep_ok(&self, r: std::ops::Range<usize>) -> bool { r.start <= r.end && is_bnd(self@, r.start as int) && is_bnd(self@, r.end as int) }
	#[verifier::external_body]
	fn vx_replace_range(&mut self, r: std::ops::Range<usize>, w: &str)
		ensures
			final(self)@ == old(self)@.take(cidx(old(self)@, r.start as int)) + w@ + old(self)@.skip(cidx(old(self)@, r.end as int)),
			blen(final(self)@) <= isize::MAX,
	{ unimplemented!() }
}
impl Msg {
	pub open spec fn text(&self) -> Seq<char> { self.inner@ }
	pub open spec fn wf(&self) -> bool { toc_ok(self.inner@, self.toc.0@) && self.toc.0@.len() == TocId::Newline as int + 2 }
	/// The parts, by TocId.
	pub open spec fn parts(&self) -> Seq<Seq<char>> { parts(self.inner@, self.toc.0@) }
}
@end
@assoc Toc SIZE exec ensures Toc::SIZE == TocId::Newline as int + 2
@fn Toc::part_len
+props C01
+ret r
+sig
requires self.0@[id as int] <= self.0@[id as int + 1],
ensures
	r is None <==> self.0@[id as int] == self.0@[id as int + 1],
	r is Some ==> r->0@ == self.0@[id as int + 1] - self.0@[id as int],
@fn Toc::part_rng
+props C01
+ret r
+sig
ensures r.start == self.0@[id as int], r.end == self.0@[id as int + 1],
@fn Toc::resize_part
+props C01
+sig
requires
	old(self).0@[id as int] <= old(self).0@[id as int + 1],
	forall|i: int| (id as int) < i < old(self).0@.len() ==> #[trigger] old(self).0@[i] >= old(self).0@[id as int + 1]
		&& old(self).0@[i] - (old(self).0@[id as int + 1] - old(self).0@[id as int]) + new_len <= usize::MAX,
ensures toc_with(old(self).0@, final(self).0@, id as int, new_len as int),
+loop 0
invariant
	id as int + 1 <= vx_i0 <= self.0@.len(), diff == new_len - old_len, old_len == old(self).0@[id as int + 1] - old(self).0@[id as int],
	forall|i: int| 0 <= i <= id as int ==> #[trigger] self.0@[i] == old(self).0@[i],
	forall|i: int| (id as int) < i < vx_i0 ==> #[trigger] self.0@[i] == old(self).0@[i] + diff,
	forall|i: int| vx_i0 <= i < self.0@.len() ==> #[trigger] self.0@[i] == old(self).0@[i],
decreases self.0@.len() - vx_i0,
+loop 1
invariant
	id as int + 1 <= vx_i1 <= self.0@.len(), diff == old_len - new_len, old_len == old(self).0@[id as int + 1] - old(self).0@[id as int],
	forall|i: int| 0 <= i <= id as int ==> #[trigger] self.0@[i] == old(self).0@[i],
	forall|i: int| (id as int) < i < vx_i1 ==> #[trigger] self.0@[i] == old(self).0@[i] - diff,
	forall|i: int| vx_i1 <= i < self.0@.len() ==> #[trigger] self.0@[i] == old(self).0@[i],
decreases self.0@.len() - vx_i1,
@fn Msg::replace_part
+props C01
+sig
requires old(self).wf(),
ensures final(self).wf(), final(self).parts() == old(self).parts().update(id as int, content@),
+begin
let ghost vx_s = self.inner@;
let ghost vx_t = self.toc.0@;
proof { lemma_toc(vx_s, vx_t); lemma_cuts(vx_s, vx_t); axiom_str_max(content); lemma_bpos_len(vx_s); axiom_string_max(self.inner); assert(blen(vx_s) <= isize::MAX / 8); }
+before resize_part#0
proof {
	let k = cuts(vx_s, vx_t);
	lemma_bpos_take(vx_s, k[id as int]);
	lemma_blen_sub(vx_s, k[id as int + 1], vx_s.len() as int);
	assert(vx_s.skip(k[id as int + 1]) =~= vx_s.subrange(k[id as int + 1], vx_s.len() as int));
	lemma_bpos_len(vx_s);
	assert forall|i: int| 0 <= i < vx_t.len() implies #[trigger] vx_t[i] <= vx_t[vx_t.len() - 1] by {}
}
+end
proof { lemma_replace(vx_s, vx_t, id as int, content@, self.toc.0@); }
@raw
pub mod vp {
use vstd::prelude::*;
use super::*;
/// The parts of a new message.
pub open spec fn newparts(n: nat, p: Seq<char>, m: Seq<char>, nl: Seq<char>) -> Seq<Seq<char>> {
	Seq::new(n, |i: int| if i == TocId::Prefix as int { p } else if i == TocId::Message as int { m } else if i == TocId::Newline as int { nl } else { seq![] })
}
pub proof fn lemma_new(s: Seq<char>, t: Seq<usize>, p: Seq<char>, m: Seq<char>, nl: Seq<char>)
	requires
		t.len() == TocId::Newline as int + 2, TocId::Message as int == TocId::Prefix as int + 1,
		0 < TocId::Prefix as int, TocId::Message as int + 2 == TocId::Newline as int,
		s == p + m + nl,
		forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == (if i <= TocId::Prefix as int { 0 } else if i == TocId::Message as int { blen(p) } else if i <= TocId::Newline as int { blen(p) + blen(m) } else { blen(p) + blen(m) + blen(nl) }),
	ensures toc_ok(s, t), parts(s, t) == newparts((t.len() - 1) as nat, p, m, nl),
{
	let k = Seq::new(t.len(), |i: int| if i <= TocId::Prefix as int { 0 } else if i == TocId::Message as int { p.len() as int } else if i <= TocId::Newline as int { (p.len() + m.len()) as int } else { s.len() as int });
	assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == bpos(s, k[i]) by {
		lemma_bpos_zero(s); lemma_bpos_len(s); lemma_bpos_len(p); lemma_bpos_len(p + m);
		lemma_bpos_add(p + m, nl, p.len() as int); lemma_bpos_add(p, m, p.len() as int); lemma_bpos_add(p + m, nl, (p.len() + m.len()) as int);
		lemma_blen_add(p, m); lemma_blen_add(p + m, nl);
	}
	lemma_cut_toc(s, t, k);
	assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] parts(s, t)[i] == newparts((t.len() - 1) as nat, p, m, nl)[i] by {
		assert(parts(s, t)[i] == s.subrange(k[i], k[i + 1]));
		assert(s.subrange(k[i], k[i + 1]) =~= newparts((t.len() - 1) as nat, p, m, nl)[i]);
	}
	assert(parts(s, t) =~= newparts((t.len() - 1) as nat, p, m, nl));
}
/// The indentation for a number of tabs.
pub open spec fn spaces(tabs: int) -> Seq<char> { Seq::new(if tabs <= 8 { (4 * tabs) as nat } else { 32 }, |i: int| ' ') }
pub proof fn lemma_ascii_bnd(s: Seq<char>)
	requires forall|i: int| 0 <= i < s.len() ==> ascii(#[trigger] s[i])
	ensures forall|b: int| #[trigger] is_bnd(s, b) <==> 0 <= b <= s.len(), forall|b: int| 0 <= b <= s.len() ==> #[trigger] cidx(s, b) == b,
{
	assert forall|b: int| 0 <= b <= s.len() implies #[trigger] bpos(s, b) == b by {
		lemma_bpos_take(s, b);
		lemma_blen_ascii(s.take(b));
	}
	assert forall|b: int| #[trigger] is_bnd(s, b) <==> 0 <= b <= s.len() by {
		if 0 <= b <= s.len() { assert(bpos(s, b) == b); lemma_bnd(s, b); }
		if is_bnd(s, b) { lemma_bnd_inv(s, b); assert(bpos(s, cidx(s, b)) == cidx(s, b)); }
	}
	assert forall|b: int| 0 <= b <= s.len() implies #[trigger] cidx(s, b) == b by { assert(bpos(s, b) == b); lemma_bnd(s, b); }
}
/// C01: a text is its parts in their order, whatever the number of parts.
pub proof fn thm_c01_text(m: &Msg)
	requires m.wf()
	ensures m.text() == flat(m.parts()), m.parts().len() == TocId::Newline as int + 1,
{ lemma_flat(m.inner@, m.toc.0@); lemma_parts_len(m.inner@, m.toc.0@); }
/// C01: indentation comes first, then prefix, body, suffix and line break.
pub proof fn thm_c01_order()
	ensures TocId::Indent as int == 0, 0 < TocId::Prefix as int, TocId::Prefix as int + 1 == TocId::Message as int, TocId::Message as int + 1 == TocId::Suffix as int, TocId::Suffix as int + 1 == TocId::Newline as int,
{}
}
pub use vp::*;
@end
@assoc AnsiColor RESET_PREFIX exec ensures AnsiColor::RESET_PREFIX@ =~= seq![':', '\x1b', '[', '0', 'm', ' ']
# Prefix sources.
@raw
impl<'a> std::ops::Deref for VxCow<'a, str> {
	type Target = str;
	fn deref(&self) -> (r: &str) ensures r@ == self.view() { match self { VxCow::Borrowed(s) => s, VxCow::Owned(s) => s.as_str() } }
}
pub trait IntoMsgPrefix {
	/// The rendered prefix.
	spec fn pfx(&self) -> Seq<char>;
	fn prefix_len(&self) -> (r: usize) ensures r == blen(self.pfx()), r <= isize::MAX / 4;
	fn prefix_push(&self, dst: &mut String) ensures final(dst)@ == old(dst)@ + self.pfx();
@end
@fn trait IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+ret r
+sig
ensures r.view() == self.pfx(),
@raw
}
impl IntoMsgPrefix for MsgKind {
	open spec fn pfx(&self) -> Seq<char> { kprefix(*self) }
@end
@fn MsgKind as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
@fn MsgKind as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn MsgKind as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for &str {
	open spec fn pfx(&self) -> Seq<char> { plain(self.view()) }
@end
@fn &str as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_blen_add(self.view(), seq![':', ' ']); }
@fn &str as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn &str as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (&str, AnsiColor) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (&str,AnsiColor) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (&str,AnsiColor) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (&str,AnsiColor) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (&str, u8) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (&str,u8) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (&str,u8) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (&str,u8) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for &String {
	open spec fn pfx(&self) -> Seq<char> { plain(self.view()) }
@end
@fn &String as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_blen_add(self.view(), seq![':', ' ']); }
@fn &String as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn &String as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (&String, AnsiColor) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (&String,AnsiColor) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (&String,AnsiColor) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (&String,AnsiColor) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (&String, u8) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (&String,u8) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (&String,u8) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (&String,u8) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for String {
	open spec fn pfx(&self) -> Seq<char> { plain(self.view()) }
@end
@fn String as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_blen_add(self.view(), seq![':', ' ']); }
@fn String as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn String as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (String, AnsiColor) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (String,AnsiColor) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (String,AnsiColor) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (String,AnsiColor) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (String, u8) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (String,u8) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (String,u8) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (String,u8) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for &VxCow<'_, str> {
	open spec fn pfx(&self) -> Seq<char> { plain(self.view()) }
@end
@fn &Cow<str> as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_blen_add(self.view(), seq![':', ' ']); }
@fn &Cow<str> as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn &Cow<str> as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (&VxCow<'_, str>, AnsiColor) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (&Cow<str>,AnsiColor) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (&Cow<str>,AnsiColor) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (&Cow<str>,AnsiColor) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (&VxCow<'_, str>, u8) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (&Cow<str>,u8) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (&Cow<str>,u8) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (&Cow<str>,u8) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for VxCow<'_, str> {
	open spec fn pfx(&self) -> Seq<char> { plain(self.view()) }
@end
@fn Cow<str> as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_blen_add(self.view(), seq![':', ' ']); }
@fn Cow<str> as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn Cow<str> as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (VxCow<'_, str>, AnsiColor) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (Cow<str>,AnsiColor) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (Cow<str>,AnsiColor) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (Cow<str>,AnsiColor) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
impl IntoMsgPrefix for (VxCow<'_, str>, u8) {
	open spec fn pfx(&self) -> Seq<char> { colored(self.1 as int, self.0.view()) }
@end
@fn (Cow<str>,u8) as IntoMsgPrefix::prefix_len
+bare
+props C01 C02
+ret r
+begin
proof { lemma_colored(self.1 as int, self.0.view()); }
@fn (Cow<str>,u8) as IntoMsgPrefix::prefix_push
+bare
+props C01 C02
@fn (Cow<str>,u8) as IntoMsgPrefix::prefix_str
+bare
+props C01 C02
+optional
+ret r
@raw
}
@end
# Construction.
@fn Msg as Default::default
+props C01
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), seq![], seq![], seq![]),
+end
proof { lemma_new(vx_ret.inner@, vx_ret.toc.0@, seq![], seq![], seq![]); }
@fn Msg as Clone::clone
+props C01 C16 C17
+ret r
+sig
ensures r.inner@ == self.inner@, r.toc == self.toc,
@fn Msg as From<String>::from
+as from_string
+props C01
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), seq![], src@, seq![]),
+begin
let ghost vx_s = src@;
+end
proof { lemma_new(vx_ret.inner@, vx_ret.toc.0@, seq![], vx_s, seq![]); }
@fn Msg as From<&str>::from
+as from_str
+props C01
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), seq![], src.view(), seq![]),
@fn Msg as From<&String>::from
+as from_ref_string
+props C01
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), seq![], src.view(), seq![]),
@fn Msg as From<Cow<str>>::from
+as from_cow
+props C01
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), seq![], src.view(), seq![]),
@fn Msg::new
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), prefix.pfx(), msg.text(), seq![]),
+begin
let ghost vx_m = msg.text();
+end
proof { lemma_new(vx_ret.inner@, vx_ret.toc.0@, prefix.pfx(), vx_m, seq![]); }
@fn MsgKind::into_msg
+props C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(self), msg.text(), seq![]),
@fn Msg::aborted
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Aborted), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Aborted); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Aborted) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Aborted), vx_m, seq!['\n']);
}
@fn Msg::crunched
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Crunched), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Crunched); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Crunched) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Crunched), vx_m, seq!['\n']);
}
@fn Msg::debug
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Debug), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Debug); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Debug) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Debug), vx_m, seq!['\n']);
}
@fn Msg::done
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Done), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Done); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Done) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Done), vx_m, seq!['\n']);
}
@fn Msg::error
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Error), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Error); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Error) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Error), vx_m, seq!['\n']);
}
@fn Msg::found
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Found), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Found); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Found) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Found), vx_m, seq!['\n']);
}
@fn Msg::info
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Info), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Info); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Info) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Info), vx_m, seq!['\n']);
}
@fn Msg::notice
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Notice), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Notice); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Notice) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Notice), vx_m, seq!['\n']);
}
@fn Msg::review
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Review), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Review); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Review) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Review), vx_m, seq!['\n']);
}
@fn Msg::skipped
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Skipped), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Skipped); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Skipped) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Skipped), vx_m, seq!['\n']);
}
@fn Msg::success
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Success), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Success); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Success) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Success), vx_m, seq!['\n']);
}
@fn Msg::task
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Task), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Task); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Task) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Task), vx_m, seq!['\n']);
}
@fn Msg::warning
+props C01 C02
+ret r
+sig
ensures r.wf(), r.parts() == newparts(r.parts().len(), kprefix(MsgKind::Warning), msg.text(), seq!['\n']),
+begin
let ghost vx_m = msg.text();
proof { lemma_kprefix(MsgKind::Warning); }
+end
proof {
	assert(vx_ret.inner@ =~= kprefix(MsgKind::Warning) + vx_m + seq!['\n']);
	lemma_new(vx_ret.inner@, vx_ret.toc.0@, kprefix(MsgKind::Warning), vx_m, seq!['\n']);
}
# Setters.
@fn Msg::set_indent
+props C01
+sig
requires old(self).wf(),
ensures final(self).wf(), final(self).parts() == old(self).parts().update(TocId::Indent as int, spaces(tabs as int)),
+begin
proof { lemma_ascii_bnd(spaces(8)); }
+before replace_part#0
proof { assert(SPACES@ =~= spaces(8)); assert(spaces(8).take(if tabs <= 8 { 4 * tabs } else { 32 }) =~= spaces(tabs as int)); }
@fn Msg::set_msg
+props C01
+sig
requires old(self).wf(),
ensures final(self).wf(), final(self).parts() == old(self).parts().update(TocId::Message as int, msg.text()),
@fn Msg::set_newline
+props C01
+sig
requires old(self).wf(),
ensures final(self).wf(), final(self).parts() == old(self).parts().update(TocId::Newline as int, (if enabled { seq!['\n'] } else { seq![] })),
+end
proof { assert(out@ =~= (if enabled { seq!['\n'] } else { seq![] })); }
@fn Msg::set_prefix
+props C01 C02
+sig
requires old(self).wf(),
ensures final(self).wf(), final(self).parts() == old(self).parts().update(TocId::Prefix as int, prefix.pfx()),
@fn Msg::set_suffix
+props C01
+sig
requires old(self).wf(),
ensures final(self).wf(), final(self).parts() == old(self).parts().update(TocId::Suffix as int, suffix.text()),
@fn Msg::with_indent
+props C01
+ret r
+sig
requires self.wf(),
ensures r.wf(), r.parts() == self.parts().update(TocId::Indent as int, spaces(tabs as int)),
@fn Msg::with_msg
+props C01
+ret r
+sig
requires self.wf(),
ensures r.wf(), r.parts() == self.parts().update(TocId::Message as int, msg.text()),
@fn Msg::with_newline
+props C01
+ret r
+sig
requires self.wf(),
ensures r.wf(), r.parts() == self.parts().update(TocId::Newline as int, (if enabled { seq!['\n'] } else { seq![] })),
@fn Msg::with_prefix
+props C01 C02
+ret r
+sig
requires self.wf(),
ensures r.wf(), r.parts() == self.parts().update(TocId::Prefix as int, prefix.pfx()),
@fn Msg::with_suffix
+props C01
+ret r
+sig
requires self.wf(),
ensures r.wf(), r.parts() == self.parts().update(TocId::Suffix as int, suffix.text()),
# Stripping.
@raw
/// The length of a range, or of a text.
pub trait VxLen { spec fn count(&self) -> int; fn vx_len(&self) -> (n: usize) ensures n == self.count(); }
impl VxLen for std::ops::Range<usize> {
	open spec fn count(&self) -> int { if self.start <= self.end { self.end - self.start } else { 0 } }
	fn vx_len(&self) -> (n: usize) { if self.start <= self.end { self.end - self.start } else { 0 } }
}
impl VxLen for str { open spec fn count(&self) -> int { blen(self@) as int } fn vx_len(&self) -> (n: usize) { self.len() } }
impl VxLen for String { open spec fn count(&self) -> int { blen(self@) as int } fn vx_len(&self) -> (n: usize) { self.len() } }
pub use vz::*;
pub mod vz {
use vstd::prelude::*;
use super::*;
/// Parts without the escape sequences of those that may have any.
pub open spec fn stripped(p: Seq<Seq<char>>) -> Seq<Seq<char>> {
	Seq::new(p.len(), |i: int| if 0 < i < TocId::Newline as int { vis(p[i], 0) } else { p[i] })
}
/// Is part `i` one of the first `n` of the list?
pub open spec fn among(a: Seq<TocId>, n: int, i: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] a[j]) as int == i }
pub open spec fn strip_some(p: Seq<Seq<char>>, a: Seq<TocId>, n: int) -> Seq<Seq<char>> {
	Seq::new(p.len(), |i: int| if among(a, n, i) { vis(p[i], 0) } else { p[i] })
}
/// Does the list have each part that may have sequences, exactly once?
pub open spec fn ansi_ids(a: Seq<TocId>) -> bool {
	&&& forall|j: int| 0 <= j < a.len() ==> 0 < (#[trigger] a[j]) as int && ((a[j] as int) < TocId::Newline as int)
	&&& forall|j: int, k: int| 0 <= j < k < a.len() ==> a[j] != a[k]
	&&& forall|i: int| 0 < i < TocId::Newline as int ==> #[trigger] among(a, a.len() as int, i)
}
pub proof fn lemma_vis_fs(s: Seq<char>)
	ensures
		0 <= fs(s, 0) <= s.len(),
		fs(s, 0) == s.len() ==> vis(s, 0) == s,
		fs(s, 0) < s.len() ==> is_seq(s, fs(s, 0)) && fs(s, 0) + 2 <= seq_end(s, fs(s, 0)) <= s.len() && vis(s, 0) == s.take(fs(s, 0)) + vis(s.skip(seq_end(s, fs(s, 0))), 0),
{
	lemma_fs(s, 0);
	lemma_vis_to(s, 0, fs(s, 0));
	assert(s.subrange(0, fs(s, 0)) =~= s.take(fs(s, 0)));
	assert(s.take(s.len() as int) =~= s);
	let f = fs(s, 0);
	if f < s.len() {
		lemma_seq_end(s, f);
		let e = seq_end(s, f);
		lemma_vis_skip(s, e, 0);
		assert(vis(s, f) == vis(s, e));
	} else { assert(vis(s, f) =~= Seq::<char>::empty()); assert(s + Seq::<char>::empty() =~= s); }
}
proof fn lemma_vis_to(s: Seq<char>, k: int, f: int)
	requires 0 <= k <= f <= s.len(), forall|j: int| k <= j < f ==> !is_seq(s, j)
	ensures vis(s, k) == s.subrange(k, f) + vis(s, f)
	decreases f - k
{
	if k < f {
		lemma_vis_to(s, k + 1, f);
		assert(!is_seq(s, k));
		assert(seq![s[k]] + (s.subrange(k + 1, f) + vis(s, f)) =~= s.subrange(k, f) + vis(s, f));
	} else { assert(s.subrange(k, f) + vis(s, f) =~= vis(s, f)); }
}
pub proof fn lemma_vis_skip(s: Seq<char>, a: int, k: int)
	requires 0 <= a <= s.len(), 0 <= k <= s.len() - a
	ensures vis(s.skip(a), k) == vis(s, a + k)
	decreases s.len() - a - k
{
	lemma_seq_skip(s, a, k);
	if k < s.len() - a {
		if is_seq(s.skip(a), k) { lemma_seq_end(s.skip(a), k); lemma_vis_skip(s, a, seq_end(s.skip(a), k)); }
		else { lemma_vis_skip(s, a, k + 1); }
	}
}
pub proof fn lemma_vis_len(s: Seq<char>, k: int)
	requires 0 <= k <= s.len()
	ensures vis(s, k).len() <= s.len() - k, vis(s, k) == s.skip(k) || vis(s, k).len() < s.len() - k
	decreases s.len() - k
{
	if k >= s.len() { assert(vis(s, k) =~= s.skip(k)); }
	else if is_seq(s, k) { lemma_seq_end(s, k); lemma_vis_len(s, seq_end(s, k)); }
	else { lemma_vis_len(s, k + 1); if vis(s, k + 1) == s.skip(k + 1) { assert(vis(s, k) =~= s.skip(k)); } }
}
/// The middle of a text.
pub proof fn lemma_mid(x: Seq<char>, m: Seq<char>, z: Seq<char>)
	ensures
		is_bnd(x + m + z, blen(x) as int), is_bnd(x + m + z, (blen(x) + blen(m)) as int),
		cidx(x + m + z, blen(x) as int) == x.len(), cidx(x + m + z, (blen(x) + blen(m)) as int) == x.len() + m.len(),
		(x + m + z).subrange(x.len() as int, (x.len() + m.len()) as int) == m,
		(x + m + z).take(x.len() as int) == x,
		(x + m + z).skip((x.len() + m.len()) as int) == z,
		blen(x + m + z) == blen(x) + blen(m) + blen(z),
{
	let s = x + m + z;
	lemma_bpos_add(x + m, z, x.len() as int); lemma_bpos_add(x, m, x.len() as int); lemma_bpos_len(x);
	lemma_bpos_add(x + m, z, (x.len() + m.len()) as int); lemma_bpos_len(x + m);
	lemma_blen_add(x, m); lemma_blen_add(x + m, z);
	lemma_bnd(s, x.len() as int); lemma_bnd(s, (x.len() + m.len()) as int);
	assert(s.subrange(x.len() as int, (x.len() + m.len()) as int) =~= m);
	assert(s.take(x.len() as int) =~= x);
	assert(s.skip((x.len() + m.len()) as int) =~= z);
}
/// While stripping part `o`: `d` is done, `r` is left, `x` and `z` are around it.
#[verifier::opaque]
pub open spec fn sinv(t: Seq<char>, start: int, stop: int, x: Seq<char>, d: Seq<char>, r: Seq<char>, z: Seq<char>, o: Seq<char>) -> bool {
	&&& t == x + d + r + z
	&&& start == blen(x + d) && stop == start + blen(r)
	&&& d + vis(r, 0) == vis(o, 0)
	&&& blen(d) + blen(r) == blen(o) ==> d + r == o
	&&& blen(d) + blen(r) <= blen(o)
}
/// What is left is between start and stop.
pub proof fn lemma_sinv(t: Seq<char>, start: int, stop: int, x: Seq<char>, d: Seq<char>, r: Seq<char>, z: Seq<char>, o: Seq<char>)
	requires sinv(t, start, stop, x, d, r, z, o)
	ensures
		is_bnd(t, start), is_bnd(t, stop), t.subrange(cidx(t, start), cidx(t, stop)) == r,
		stop - start == blen(r), start >= 0, stop <= blen(t), blen(d) + blen(r) <= blen(o),
{
	reveal(sinv);
	lemma_mid(x + d, r, z);
}
pub proof fn lemma_sinv_init(t: Seq<char>, x: Seq<char>, z: Seq<char>, o: Seq<char>)
	requires t == x + o + z
	ensures sinv(t, blen(x) as int, (blen(x) + blen(o)) as int, x, seq![], o, z, o)
{
	reveal(sinv);
	let d = Seq::<char>::empty();
	assert(x + d =~= x); assert(d + vis(o, 0) =~= vis(o, 0)); assert(d + o =~= o); assert(blen(d) == 0);
}
pub proof fn lemma_sinv_step(t: Seq<char>, start: int, stop: int, x: Seq<char>, d: Seq<char>, r: Seq<char>, z: Seq<char>, o: Seq<char>)
	requires sinv(t, start, stop, x, d, r, z, o), fs(r, 0) < r.len()
	ensures
		({
			let f = fs(r, 0);
			let e = seq_end(r, f);
			let a = start + bpos(r, f);
			let b = start + bpos(r, e);
			&&& is_bnd(t, a) && is_bnd(t, b) && start <= a < b <= stop
			&&& sinv(t.take(cidx(t, a)) + Seq::<char>::empty() + t.skip(cidx(t, b)), a, stop - (b - a), x, d + r.take(f), r.skip(e), z, o)
			&&& blen(r.skip(e)) == blen(r) - bpos(r, e)
			&&& blen(d + r.take(f)) == blen(d) + bpos(r, f)
		}),
{
	reveal(sinv);
	let f = fs(r, 0);
	let e = seq_end(r, f);
	lemma_vis_fs(r);
	let d2 = d + r.take(f);
	let m = r.subrange(f, e);
	let r2 = r.skip(e);
	assert(t =~= (x + d2) + m + (r2 + z));
	lemma_mid(x + d2, m, r2 + z);
	lemma_bpos_take(r, f); lemma_blen_sub(r, f, e); lemma_blen_sub(r, e, r.len() as int);
	assert(r.subrange(e, r.len() as int) =~= r2);
	assert(x + d2 =~= (x + d) + r.take(f));
	lemma_blen_add(x + d, r.take(f)); lemma_blen_add(d, r.take(f));
	lemma_bpos_mono(r, f, e);
	lemma_bpos_len(r); lemma_bpos_mono(r, e, r.len() as int);
	assert(d2 + vis(r2, 0) =~= d + vis(r, 0));
	let a = start + bpos(r, f);
	let b = start + bpos(r, e);
	assert(t.take(cidx(t, a)) + Seq::<char>::empty() + t.skip(cidx(t, b)) =~= x + d2 + r2 + z);
	lemma_bpos_mono(r, 0, f);
}
pub proof fn lemma_sinv_done(t: Seq<char>, start: int, stop: int, x: Seq<char>, d: Seq<char>, r: Seq<char>, z: Seq<char>, o: Seq<char>)
	requires sinv(t, start, stop, x, d, r, z, o), fs(r, 0) == r.len()
	ensures
		t == x + vis(o, 0) + z, blen(vis(o, 0)) == blen(d) + blen(r), blen(vis(o, 0)) <= blen(o),
		blen(vis(o, 0)) == blen(o) <==> vis(o, 0) == o,
{
	reveal(sinv);
	lemma_vis_fs(r);
	lemma_blen_add(d, r);
	assert(x + d + r + z =~= x + vis(o, 0) + z);
}
/// One more part.
pub proof fn lemma_strip_part(s: Seq<char>, t: Seq<usize>, p: Seq<Seq<char>>, a: Seq<TocId>, n: int, s2: Seq<char>, t2: Seq<usize>)
	requires
		toc_ok(s, t), parts(s, t) == strip_some(p, a, n), 0 <= n < a.len(), ansi_ids(a), t.len() == TocId::Newline as int + 2, p.len() == t.len() - 1,
		toc_with(t, t2, a[n] as int, blen(vis(p[a[n] as int], 0)) as int),
		s2 == s.take(cuts(s, t)[a[n] as int]) + vis(p[a[n] as int], 0) + s.skip(cuts(s, t)[a[n] as int + 1]),
	ensures
		toc_ok(s2, t2), parts(s2, t2) == strip_some(p, a, n + 1),
		parts(s2, t2) == parts(s, t) <==> vis(p[a[n] as int], 0) == p[a[n] as int],
		parts(s2, t2)[a[n] as int] == vis(p[a[n] as int], 0),
		parts(s, t) != p ==> parts(s2, t2) != p,
{
	let id = a[n] as int;
	lemma_replace(s, t, id, vis(p[id], 0), t2);
	assert forall|i: int| among(a, n + 1, i) <==> (among(a, n, i) || i == id) by {
		if among(a, n, i) { let j = choose|j: int| 0 <= j < n && (#[trigger] a[j]) as int == i; assert(a[j] as int == i); }
		assert(a[n] as int == id);
	}
	lemma_strip_fresh(p, a, n);
	assert(strip_some(p, a, n + 1) =~= parts(s, t).update(id, vis(p[id], 0)));
	if vis(p[id], 0) == p[id] { assert(parts(s2, t2) =~= parts(s, t)); }
	if parts(s, t) != p {
		if forall|i: int| 0 <= i < p.len() ==> strip_some(p, a, n)[i] == p[i] { assert(strip_some(p, a, n) =~= p); }
		let i = choose|i: int| 0 <= i < p.len() && strip_some(p, a, n)[i] != p[i];
		assert(parts(s2, t2)[i] == strip_some(p, a, n)[i]);
	}
}
pub proof fn lemma_strip_fresh(p: Seq<Seq<char>>, a: Seq<TocId>, n: int)
	requires 0 <= n < a.len(), ansi_ids(a), p.len() == TocId::Newline as int + 1
	ensures strip_some(p, a, n)[a[n] as int] == p[a[n] as int], 0 < a[n] as int, (a[n] as int) < p.len() - 1,
{
	assert(!among(a, n, a[n] as int)) by {
		if among(a, n, a[n] as int) { let j = choose|j: int| 0 <= j < n && (#[trigger] a[j]) as int == a[n] as int; assert(a[j] == a[n]); }
	}
}
pub proof fn lemma_strip_all(p: Seq<Seq<char>>, a: Seq<TocId>)
	requires ansi_ids(a)
	ensures strip_some(p, a, a.len() as int) == stripped(p)
{
	assert forall|i: int| 0 <= i < p.len() implies strip_some(p, a, a.len() as int)[i] == #[trigger] stripped(p)[i] by {
		if 0 < i < TocId::Newline as int { assert(among(a, a.len() as int, i)); }
		if among(a, a.len() as int, i) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]) as int == i; assert(a[j] as int == i); }
	}
	assert(strip_some(p, a, a.len() as int) =~= stripped(p));
}
/// The part `id` in the middle.
pub proof fn lemma_part_mid(s: Seq<char>, t: Seq<usize>, id: int)
	requires toc_ok(s, t), 0 <= id < t.len() - 1
	ensures
		s == s.take(cuts(s, t)[id]) + parts(s, t)[id] + s.skip(cuts(s, t)[id + 1]),
		blen(s.take(cuts(s, t)[id])) == t[id], t[id] <= t[id + 1] <= blen(s), blen(parts(s, t)[id]) == t[id + 1] - t[id],
		forall|i: int| id < i < t.len() ==> #[trigger] t[i] >= t[id + 1],
{
	lemma_toc(s, t); lemma_cuts(s, t);
	assert(cuts(s, t)[id] <= cuts(s, t)[id + 1]);
	assert(s =~= s.take(cuts(s, t)[id]) + parts(s, t)[id] + s.skip(cuts(s, t)[id + 1]));
	lemma_bpos_take(s, cuts(s, t)[id]);
}
}
@end
@assoc TocId ANSI_PARTS exec ensures ansi_ids(TocId::ANSI_PARTS@)
@fn Msg::strip_ansi
+props C03
+method len vx_len
+ret r
+sig
requires old(self).wf(),
ensures
	final(self).wf(), final(self).parts() == stripped(old(self).parts()),
	r <==> final(self).parts() != old(self).parts(),
+begin
let ghost vx_p = self.parts();
proof { assert forall|a: Seq<TocId>| #[trigger] strip_some(vx_p, a, 0) == vx_p by { assert(strip_some(vx_p, a, 0) =~= vx_p); } lemma_parts_len(self.inner@, self.toc.0@); }
+loop 0
invariant_except_break
	self.parts() == strip_some(vx_p, vx_it0.a@, vx_it0.i as int), 0 <= vx_it0.i <= vx_it0.a@.len(),
	changed <==> self.parts() != vx_p,
invariant
	self.wf(), ansi_ids(vx_it0.a@), vx_p.len() == TocId::Newline as int + 1,
ensures
	self.parts() == strip_some(vx_p, vx_it0.a@, vx_it0.a@.len() as int), changed <==> self.parts() != vx_p,
decreases vx_it0.a@.len() - vx_it0.i,
+loopbegin 0
let ghost vx_a = vx_it0.a@;
let ghost vx_n = vx_it0.i as int - 1;
let ghost vx_s = self.inner@;
let ghost vx_t = self.toc.0@;
let ghost vx_x = vx_s.take(cuts(vx_s, vx_t)[id as int]);
let ghost vx_z = vx_s.skip(cuts(vx_s, vx_t)[id as int + 1]);
let ghost vx_o = vx_p[id as int];
let ghost mut vx_d = Seq::<char>::empty();
let ghost mut vx_r = vx_o;
proof {
	assert(vx_a[vx_n] == id);
	lemma_strip_fresh(vx_p, vx_a, vx_n);
	lemma_part_mid(vx_s, vx_t, id as int);
	lemma_sinv_init(vx_s, vx_x, vx_z, vx_o);
	lemma_sinv(vx_s, vx_t[id as int] as int, vx_t[id as int + 1] as int, vx_x, vx_d, vx_r, vx_z, vx_o);
	axiom_string_max(self.inner);
}
+loop 1
invariant_except_break
	is_bnd(self.inner@, start as int), is_bnd(self.inner@, stop as int),
	self.inner@.subrange(cidx(self.inner@, start as int), cidx(self.inner@, stop as int)) == vx_r,
invariant
	self.toc.0@ == vx_t,
	sinv(self.inner@, start as int, stop as int, vx_x, vx_d, vx_r, vx_z, vx_o),
	old_len == blen(vx_o), removed == blen(vx_o) - blen(vx_d) - blen(vx_r), stop - start == blen(vx_r),
	blen(self.inner@) <= isize::MAX / 8, stop <= blen(self.inner@), removed <= old_len,
ensures
	fs(vx_r, 0) == vx_r.len(),
decreases blen(vx_r),
+loopbegin 1
let ghost vx_f = fs(vx_r, 0);
let ghost vx_e = seq_end(vx_r, vx_f);
proof {
	lemma_vis_fs(vx_r);
	lemma_sinv_step(self.inner@, start as int, stop as int, vx_x, vx_d, vx_r, vx_z, vx_o);
}
+loopend 1
proof {
	vx_d = vx_d + vx_r.take(vx_f);
	vx_r = vx_r.skip(vx_e);
	reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
	lemma_sinv(self.inner@, start as int, stop as int, vx_x, vx_d, vx_r, vx_z, vx_o);
	axiom_string_max(self.inner);
}
+afterloop 1
proof {
	lemma_sinv_done(self.inner@, start as int, stop as int, vx_x, vx_d, vx_r, vx_z, vx_o);
}
+loopend 0
proof {
	lemma_strip_part(vx_s, vx_t, vx_p, vx_a, vx_n, self.inner@, self.toc.0@);
}
+afterloop 0
proof { lemma_strip_all(vx_p, vx_it0.a@); }
@fn Msg::without_ansi
+props C03
+ret r
+sig
requires self.wf(),
ensures r.wf(), r.parts() == stripped(self.parts()),
# The text, and comparisons.
@ufcs <MsgasPartialEq<str>>::eq => msg_eq_str
@ufcs <MsgasPartialEq<[u8]>>::eq => msg_eq_bytes
@path hash::Hasher VxHasher
@method hash vx_hash
@raw
pub use vq::*;
pub mod vq {
use vstd::prelude::*;
use super::*;
/// Trusted: comparing byte slices.
pub broadcast axiom fn axiom_bytes_eq(a: &[u8], b: &[u8])
	ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (a@ == b@), <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8]>>::obeys_eq_spec();
/// The order of byte strings.
pub open spec fn bytes_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
	if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
	else if b.len() == 0 { Ordering::Greater }
	else if a[0] < b[0] { Ordering::Less }
	else if a[0] > b[0] { Ordering::Greater }
	else { bytes_cmp(a.drop_first(), b.drop_first()) }
}
/// The state of a hasher after a text; the same for str and String.
pub uninterp spec fn hash_str<H>(h: H, s: Seq<char>) -> H;
/// C17: equal texts, equal messages; equal order; equal hashes.
pub proof fn thm_c17_agree<H>(a: &Msg, b: &Msg, h: H)
	ensures
		encode_utf8(a.text()) == encode_utf8(b.text()) <==> a.text() == b.text(),
		bytes_cmp(encode_utf8(a.text()), encode_utf8(b.text())) == Ordering::Equal <==> a.text() == b.text(),
		a.text() == b.text() ==> hash_str(h, a.text()) == hash_str(h, b.text()),
{
	lemma_cmp_eq(encode_utf8(a.text()), encode_utf8(b.text()));
	lemma_enc_inj(a.text(), b.text());
}
proof fn lemma_cmp_eq(a: Seq<u8>, b: Seq<u8>)
	ensures bytes_cmp(a, b) == Ordering::Equal <==> a == b
	decreases a.len()
{
	if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
		lemma_cmp_eq(a.drop_first(), b.drop_first());
		assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first());
	} else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_enc_inj(a: Seq<char>, b: Seq<char>)
	ensures encode_utf8(a) == encode_utf8(b) <==> a == b
{
	if encode_utf8(a) == encode_utf8(b) {
		vstd::utf8::encode_utf8_decode_utf8(a);
		vstd::utf8::encode_utf8_decode_utf8(b);
	}
}
}
pub trait VxHasher: Sized {}
pub trait VxHash { spec fn htext(&self) -> Seq<char>; fn vx_hash<H: VxHasher>(&self, state: &mut H) ensures *final(state) == hash_str(*old(state), self.htext()); }
impl VxHash for str {
	open spec fn htext(&self) -> Seq<char> { self@ }
	#[verifier::external_body]
	fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
impl VxHash for String {
	open spec fn htext(&self) -> Seq<char> { self@ }
	#[verifier::external_body]
	fn vx_hash<H: VxHasher>(&self, state: &mut H) { unimplemented!() }
}
pub trait VxCmp { spec fn ckey(&self) -> Seq<u8>; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == bytes_cmp(self.ckey(), o.ckey()); }
impl VxCmp for str {
	open spec fn ckey(&self) -> Seq<u8> { encode_utf8(self@) }
	#[verifier::external_body]
	fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp for String {
	open spec fn ckey(&self) -> Seq<u8> { encode_utf8(self@) }
	#[verifier::external_body]
	fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
impl VxCmp for [u8] {
	open spec fn ckey(&self) -> Seq<u8> { self@ }
	#[verifier::external_body]
	fn vx_cmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
/// Cow<[u8]>, read only.
impl<'a> VxCow<'a, [u8]> { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> std::ops::Deref for VxCow<'a, [u8]> {
	type Target = [u8];
	#[verifier::external_body]
	fn deref(&self) -> (r: &[u8]) ensures r@ == self.view() { unimplemented!() }
}
impl VxHash for Msg {
	open spec fn htext(&self) -> Seq<char> { self.text() }
@end
@fn Msg as Hash::hash
+bare
+as vx_hash
+props C17
@raw
}
impl VxCmp for Msg {
	open spec fn ckey(&self) -> Seq<u8> { encode_utf8(self.text()) }
@end
@fn Msg as Ord::cmp
+bare
+as vx_cmp
+method cmp vx_cmp
+props C17
+ret r
@raw
}
@end
@fn Msg as PartialOrd::partial_cmp
+free
+as msg_partial_cmp
+method cmp vx_cmp
+props C17
+ret r
+sig
ensures r == Some(bytes_cmp(encode_utf8(vx_self.text()), encode_utf8(other.text()))),
@fn Msg::as_bytes
+props C17 C16
+ret r
+sig
ensures r@ == encode_utf8(self.text()),
@fn Msg::as_str
+props C17 C19
+ret r
+sig
ensures r@ == self.text(),
@fn Msg::into_bytes
+props C17
+ret r
+sig
ensures r@ == encode_utf8(self.text()),
@fn Msg::into_string
+props C17
+ret r
+sig
ensures r@ == self.text(),
@fn Msg::is_empty
+props C17
+ret r
+sig
ensures r <==> self.text() == Seq::<char>::empty(),
+begin
proof { lemma_blen_ascii(Seq::<char>::empty()); if self.inner@.len() == 0 { assert(self.inner@ =~= Seq::<char>::empty()); } }
@fn Msg::len
+props C17
+ret r
+sig
ensures r == encode_utf8(self.text()).len(),
@fn Msg::fitted
+props C06
+ret r
+sig
ensures
	width > 0 ==> r.view() == fit(self.text(), width as int, 0),
	width == 0 ==> r.view() == Seq::<char>::empty(),
@fn String as From<Msg>::from
+free
+as string_from_msg
+props C17
+ret r
+sig
ensures r@ == src.text(),
@fn Msg as AsRef<[u8]>::as_ref
+free
+as msg_ref_bytes
+props C17
+ret r
+sig
ensures r@ == encode_utf8(vx_self.text()),
@fn Msg as AsRef<str>::as_ref
+free
+as msg_ref_str
+props C17
+ret r
+sig
ensures r@ == vx_self.text(),
@fn Msg as Borrow<str>::borrow
+free
+as msg_borrow
+props C17
+ret r
+sig
ensures r@ == vx_self.text(),
@fn Msg as Display::fmt
+free
+as msg_fmt
+props C17
+ret r
+sig
ensures r is Ok <==> old(f).ok(), r is Ok && old(f).plain() ==> final(f).out() == old(f).out() + vx_self.text(),
@fn Msg as PartialEq::eq
+free
+as msg_eq
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.text(),
@fn Msg as PartialEq<str>::eq
+free
+as msg_eq_str
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn Msg as PartialEq<[u8]>::eq
+free
+as msg_eq_bytes
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn str as PartialEq<Msg>::eq
+free
+as str_eq_msg
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn [u8] as PartialEq<Msg>::eq
+free
+as bytes_eq_msg
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<&str>::eq
+free
+as msg_eq_3
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn &str as PartialEq<Msg>::eq
+free
+as eq_msg_3
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<&String>::eq
+free
+as msg_eq_4
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn &String as PartialEq<Msg>::eq
+free
+as eq_msg_4
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<String>::eq
+free
+as msg_eq_5
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn String as PartialEq<Msg>::eq
+free
+as eq_msg_5
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<&Cow<str>>::eq
+free
+as msg_eq_6
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn &Cow<str> as PartialEq<Msg>::eq
+free
+as eq_msg_6
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<Cow<str>>::eq
+free
+as msg_eq_7
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn Cow<str> as PartialEq<Msg>::eq
+free
+as eq_msg_7
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<&Box<str>>::eq
+free
+as msg_eq_8
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn &Box<str> as PartialEq<Msg>::eq
+free
+as eq_msg_8
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<Box<str>>::eq
+free
+as msg_eq_9
+props C17
+ret r
+sig
ensures r <==> vx_self.text() == other.view(),
@fn Box<str> as PartialEq<Msg>::eq
+free
+as eq_msg_9
+props C17
+ret r
+sig
ensures r <==> other.text() == vx_self.view(),
@fn Msg as PartialEq<&[u8]>::eq
+free
+as msg_eq_10
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn &[u8] as PartialEq<Msg>::eq
+free
+as eq_msg_10
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<&Vec<u8>>::eq
+free
+as msg_eq_11
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn &Vec<u8> as PartialEq<Msg>::eq
+free
+as eq_msg_11
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<Vec<u8>>::eq
+free
+as msg_eq_12
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn Vec<u8> as PartialEq<Msg>::eq
+free
+as eq_msg_12
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<&Cow<[u8]>>::eq
+free
+as msg_eq_13
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn &Cow<[u8]> as PartialEq<Msg>::eq
+free
+as eq_msg_13
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<Cow<[u8]>>::eq
+free
+as msg_eq_14
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn Cow<[u8]> as PartialEq<Msg>::eq
+free
+as eq_msg_14
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<&Box<[u8]>>::eq
+free
+as msg_eq_15
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn &Box<[u8]> as PartialEq<Msg>::eq
+free
+as eq_msg_15
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
@fn Msg as PartialEq<Box<[u8]>>::eq
+free
+as msg_eq_16
+props C17
+ret r
+sig
ensures r <==> encode_utf8(vx_self.text()) == other.view(),
@fn Box<[u8]> as PartialEq<Msg>::eq
+free
+as eq_msg_16
+props C17
+ret r
+sig
ensures r <==> encode_utf8(other.text()) == vx_self.view(),
