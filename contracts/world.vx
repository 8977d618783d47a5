# The world: standard streams.
@path StderrLock VxStream
@path StdoutLock VxStream
@method flush vx_flush
@raw
pub use vwo::*;
pub mod vwo {
use vstd::prelude::*;
/// What is seen of the program: text written to standard output or standard error (`true`), and answers read.
pub ghost enum Ev { Out(bool, Seq<u8>), Read(Option<Seq<char>>) }
/// The log after `b` reached a stream.
pub open spec fn out(l: Seq<Ev>, err: bool, b: Seq<u8>) -> Seq<Ev> {
	if b.len() == 0 { l }
	else if l.len() > 0 && l.last() is Out && l.last()->Out_0 == err { l.drop_last().push(Ev::Out(err, l.last()->Out_1 + b)) }
	else { l.push(Ev::Out(err, b)) }
}
/// Two writes are one.
pub broadcast proof fn lemma_out(l: Seq<Ev>, err: bool, a: Seq<u8>, b: Seq<u8>)
	ensures #[trigger] out(out(l, err, a), err, b) == out(l, err, a + b)
{
	if a.len() == 0 { assert(a + b =~= b); }
	else if b.len() == 0 { assert(a + b =~= a); }
	else {
		let m = out(l, err, a);
		assert(m.last()->Out_1 + b =~= if l.len() > 0 && l.last() is Out && l.last()->Out_0 == err { l.last()->Out_1 + (a + b) } else { a + b });
		assert(m.drop_last() =~= if l.len() > 0 && l.last() is Out && l.last()->Out_0 == err { l.drop_last() } else { l });
	}
}
}
/// Trusted: the world as seen by the program.
#[verifier::external_body]
pub tracked struct World { x: () }
impl World {
	pub uninterp spec fn log(&self) -> Seq<Ev>;
	/// Written, but not flushed.
	pub uninterp spec fn pend(&self, err: bool) -> Seq<u8>;
	/// The columns and rows of the terminal, if any.
	pub uninterp spec fn size(&self) -> Option<(u16, u16)>;
	/// Do the streams accept what is written to them?
	pub uninterp spec fn up(&self) -> bool;
}
/// Trusted: std::io::{Stdout, Stderr} and their locks.
pub struct VxStream { pub err: bool }
#[derive(Debug)]
pub struct VxIoError { pub x: u8 }
pub fn stdout() -> (r: VxStream) ensures !r.err { VxStream { err: false } }
pub fn stderr() -> (r: VxStream) ensures r.err { VxStream { err: true } }
impl VxStream {
	pub fn lock(self) -> (r: VxStream) ensures r == self { self }
	#[verifier::external_body]
	pub fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxIoError>)
		ensures
			*final(self) == *old(self), final(w).up() == old(w).up(),
			final(w).pend(!final(self).err) == old(w).pend(!final(self).err),
			old(w).up() ==> r is Ok && final(w).log() == old(w).log() && final(w).pend(final(self).err) == old(w).pend(final(self).err) + b@,
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn vx_flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxIoError>)
		ensures
			*final(self) == *old(self), final(w).up() == old(w).up(),
			final(w).pend(!final(self).err) == old(w).pend(!final(self).err),
			old(w).up() ==> r is Ok && final(w).log() == out(old(w).log(), final(self).err, old(w).pend(final(self).err)) && final(w).pend(final(self).err) == Seq::<u8>::empty(),
	{ unimplemented!() }
}
/// The world after `b` was written to a stream and flushed.
pub open spec fn wrote(w0: &World, w1: &World, err: bool, b: Seq<u8>) -> bool {
	&&& w1.up() == w0.up()
	&&& w0.up() ==> w1.log() == out(w0.log(), err, w0.pend(err) + b) && w1.pend(err) == Seq::<u8>::empty() && w1.pend(!err) == w0.pend(!err)
}
@end
