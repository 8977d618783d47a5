# Atomics as cells: one thread at a time (the unit `race` is about many).
@path AtomicU8 VxAtomicU8
@path AtomicU16 VxAtomicU16
@path AtomicU32 VxAtomicU32
@path AtomicU64 VxAtomicU64
@path SeqCst VxOrder::SeqCst
@path Ordering::SeqCst VxOrder::SeqCst
@path Ordering::Relaxed VxOrder::Relaxed
@path Ordering::Acquire VxOrder::Acquire
@path Ordering::Release VxOrder::Release
@path Ordering::AcqRel VxOrder::AcqRel
@raw
pub enum VxOrder { SeqCst, Relaxed, Acquire, Release, AcqRel }
pub struct VxAtomicU8 { pub v: u8 }
impl VxAtomicU8 {
	pub fn new(v: u8) -> (r: Self) ensures r.v == v { VxAtomicU8 { v } }
	pub fn load(&self, o: VxOrder) -> (r: u8) ensures r == self.v { self.v }
	pub fn store(&mut self, v: u8, o: VxOrder) ensures final(self).v == v { self.v = v; }
	pub fn swap(&mut self, v: u8, o: VxOrder) -> (r: u8) ensures r == old(self).v, final(self).v == v { let r = self.v; self.v = v; r }
	pub fn fetch_or(&mut self, v: u8, o: VxOrder) -> (r: u8) ensures r == old(self).v, final(self).v == old(self).v | v { let r = self.v; self.v = r | v; r }
	pub fn fetch_and(&mut self, v: u8, o: VxOrder) -> (r: u8) ensures r == old(self).v, final(self).v == old(self).v & v { let r = self.v; self.v = r & v; r }
	pub fn fetch_max(&mut self, v: u8, o: VxOrder) -> (r: u8) ensures r == old(self).v, final(self).v == (if v > old(self).v { v } else { old(self).v }) { let r = self.v; if v > r { self.v = v; } r }
	#[verifier::external_body]
	pub fn fetch_add(&mut self, v: u8, o: VxOrder) -> (r: u8) ensures r == old(self).v, old(self).v + v <= u8::MAX ==> final(self).v == old(self).v + v { unimplemented!() }
	pub fn compare_exchange(&mut self, a: u8, b: u8, o: VxOrder, p: VxOrder) -> (r: Result<u8, u8>)
		ensures old(self).v == a ==> r == Ok::<u8, u8>(a) && final(self).v == b, old(self).v != a ==> r == Err::<u8, u8>(old(self).v) && final(self).v == old(self).v
	{ let r = self.v; if r == a { self.v = b; Ok(r) } else { Err(r) } }
	/// The two halves of fetch_update.
	pub fn vx_fu_load(&self) -> (r: u8) ensures r == self.v { self.v }
	pub fn vx_fu_commit(&mut self, p: u8, v: u8) requires old(self).v == p ensures final(self).v == v { self.v = v; }
}
pub struct VxAtomicU16 { pub v: u16 }
impl VxAtomicU16 {
	pub fn new(v: u16) -> (r: Self) ensures r.v == v { VxAtomicU16 { v } }
	pub fn load(&self, o: VxOrder) -> (r: u16) ensures r == self.v { self.v }
	pub fn store(&mut self, v: u16, o: VxOrder) ensures final(self).v == v { self.v = v; }
	pub fn swap(&mut self, v: u16, o: VxOrder) -> (r: u16) ensures r == old(self).v, final(self).v == v { let r = self.v; self.v = v; r }
	pub fn fetch_or(&mut self, v: u16, o: VxOrder) -> (r: u16) ensures r == old(self).v, final(self).v == old(self).v | v { let r = self.v; self.v = r | v; r }
	pub fn fetch_and(&mut self, v: u16, o: VxOrder) -> (r: u16) ensures r == old(self).v, final(self).v == old(self).v & v { let r = self.v; self.v = r & v; r }
	pub fn fetch_max(&mut self, v: u16, o: VxOrder) -> (r: u16) ensures r == old(self).v, final(self).v == (if v > old(self).v { v } else { old(self).v }) { let r = self.v; if v > r { self.v = v; } r }
	#[verifier::external_body]
	pub fn fetch_add(&mut self, v: u16, o: VxOrder) -> (r: u16) ensures r == old(self).v, old(self).v + v <= u16::MAX ==> final(self).v == old(self).v + v { unimplemented!() }
	pub fn compare_exchange(&mut self, a: u16, b: u16, o: VxOrder, p: VxOrder) -> (r: Result<u16, u16>)
		ensures old(self).v == a ==> r == Ok::<u16, u16>(a) && final(self).v == b, old(self).v != a ==> r == Err::<u16, u16>(old(self).v) && final(self).v == old(self).v
	{ let r = self.v; if r == a { self.v = b; Ok(r) } else { Err(r) } }
	/// The two halves of fetch_update.
	pub fn vx_fu_load(&self) -> (r: u16) ensures r == self.v { self.v }
	pub fn vx_fu_commit(&mut self, p: u16, v: u16) requires old(self).v == p ensures final(self).v == v { self.v = v; }
}
pub struct VxAtomicU32 { pub v: u32 }
impl VxAtomicU32 {
	pub fn new(v: u32) -> (r: Self) ensures r.v == v { VxAtomicU32 { v } }
	pub fn load(&self, o: VxOrder) -> (r: u32) ensures r == self.v { self.v }
	pub fn store(&mut self, v: u32, o: VxOrder) ensures final(self).v == v { self.v = v; }
	pub fn swap(&mut self, v: u32, o: VxOrder) -> (r: u32) ensures r == old(self).v, final(self).v == v { let r = self.v; self.v = v; r }
	pub fn fetch_or(&mut self, v: u32, o: VxOrder) -> (r: u32) ensures r == old(self).v, final(self).v == old(self).v | v { let r = self.v; self.v = r | v; r }
	pub fn fetch_and(&mut self, v: u32, o: VxOrder) -> (r: u32) ensures r == old(self).v, final(self).v == old(self).v & v { let r = self.v; self.v = r & v; r }
	pub fn fetch_max(&mut self, v: u32, o: VxOrder) -> (r: u32) ensures r == old(self).v, final(self).v == (if v > old(self).v { v } else { old(self).v }) { let r = self.v; if v > r { self.v = v; } r }
	#[verifier::external_body]
	pub fn fetch_add(&mut self, v: u32, o: VxOrder) -> (r: u32) ensures r == old(self).v, old(self).v + v <= u32::MAX ==> final(self).v == old(self).v + v { unimplemented!() }
	pub fn compare_exchange(&mut self, a: u32, b: u32, o: VxOrder, p: VxOrder) -> (r: Result<u32, u32>)
		ensures old(self).v == a ==> r == Ok::<u32, u32>(a) && final(self).v == b, old(self).v != a ==> r == Err::<u32, u32>(old(self).v) && final(self).v == old(self).v
	{ let r = self.v; if r == a { self.v = b; Ok(r) } else { Err(r) } }
	/// The two halves of fetch_update.
	pub fn vx_fu_load(&self) -> (r: u32) ensures r == self.v { self.v }
	pub fn vx_fu_commit(&mut self, p: u32, v: u32) requires old(self).v == p ensures final(self).v == v { self.v = v; }
}
pub struct VxAtomicU64 { pub v: u64 }
impl VxAtomicU64 {
	pub fn new(v: u64) -> (r: Self) ensures r.v == v { VxAtomicU64 { v } }
	pub fn load(&self, o: VxOrder) -> (r: u64) ensures r == self.v { self.v }
	pub fn store(&mut self, v: u64, o: VxOrder) ensures final(self).v == v { self.v = v; }
	pub fn swap(&mut self, v: u64, o: VxOrder) -> (r: u64) ensures r == old(self).v, final(self).v == v { let r = self.v; self.v = v; r }
	pub fn fetch_or(&mut self, v: u64, o: VxOrder) -> (r: u64) ensures r == old(self).v, final(self).v == old(self).v | v { let r = self.v; self.v = r | v; r }
	pub fn fetch_and(&mut self, v: u64, o: VxOrder) -> (r: u64) ensures r == old(self).v, final(self).v == old(self).v & v { let r = self.v; self.v = r & v; r }
	pub fn fetch_max(&mut self, v: u64, o: VxOrder) -> (r: u64) ensures r == old(self).v, final(self).v == (if v > old(self).v { v } else { old(self).v }) { let r = self.v; if v > r { self.v = v; } r }
	#[verifier::external_body]
	pub fn fetch_add(&mut self, v: u64, o: VxOrder) -> (r: u64) ensures r == old(self).v, old(self).v + v <= u64::MAX ==> final(self).v == old(self).v + v { unimplemented!() }
	pub fn compare_exchange(&mut self, a: u64, b: u64, o: VxOrder, p: VxOrder) -> (r: Result<u64, u64>)
		ensures old(self).v == a ==> r == Ok::<u64, u64>(a) && final(self).v == b, old(self).v != a ==> r == Err::<u64, u64>(old(self).v) && final(self).v == old(self).v
	{ let r = self.v; if r == a { self.v = b; Ok(r) } else { Err(r) } }
	/// The two halves of fetch_update.
	pub fn vx_fu_load(&self) -> (r: u64) ensures r == self.v { self.v }
	pub fn vx_fu_commit(&mut self, p: u64, v: u64) requires old(self).v == p ensures final(self).v == v { self.v = v; }
}
@end
