@@verbatim
// ---------------------------------------------------------------- cursor: abstract state
/// state of a cursor as a user sees it
pub struct CurV { pub d: Seq<u8>, pub len: int, pub pos: int }

/// `num::NumCast` (assumed: num::cast converts exactly the values that fit).
pub trait NumCast: Sized {
    spec fn vx_fits(v: u64) -> bool;
    spec fn vx_of(v: u64) -> Self;
    spec fn vx_bits() -> nat;
    fn bitsize() -> (r: usize) ensures r == Self::vx_bits();
    fn vx_cast(v: u64) -> (r: Option<Self>) ensures r == (if Self::vx_fits(v) { Some(Self::vx_of(v)) } else { None });
}
pub fn cast<T: NumCast>(v: u64) -> (r: Option<T>) ensures r == (if T::vx_fits(v) { Some(T::vx_of(v)) } else { None }) { T::vx_cast(v) }
impl NumCast for u8 {
    open spec fn vx_fits(v: u64) -> bool { v <= 0xff }
    open spec fn vx_of(v: u64) -> u8 { v as u8 }
    open spec fn vx_bits() -> nat { 8 }
    fn bitsize() -> usize { 8 }
    fn vx_cast(v: u64) -> Option<u8> { if v <= 0xff { Some(v as u8) } else { None } }
}
impl NumCast for u32 {
    open spec fn vx_fits(v: u64) -> bool { v <= 0xffff_ffff }
    open spec fn vx_of(v: u64) -> u32 { v as u32 }
    open spec fn vx_bits() -> nat { 32 }
    fn bitsize() -> usize { 32 }
    fn vx_cast(v: u64) -> Option<u32> { if v <= 0xffff_ffff { Some(v as u32) } else { None } }
}
impl NumCast for u64 {
    open spec fn vx_fits(v: u64) -> bool { true }
    open spec fn vx_of(v: u64) -> u64 { v }
    open spec fn vx_bits() -> nat { 64 }
    fn bitsize() -> usize { 64 }
    fn vx_cast(v: u64) -> Option<u64> { Some(v) }
}

/// a read of n bits is possible at p
pub open spec fn can_read(len: int, p: int, n: int) -> bool { 0 < n < 64 && p + n <= 8 * len }

/// A VBR of width w at p whose first chunk lands at bit `shift` of the result:
/// (value, position after), or None if truncated or continuing past bit 64.
pub open spec fn vbr(d: Seq<u8>, len: int, p: int, w: int, shift: int) -> Option<(nat, int)>
    decreases 8 * len - p
{
    if w < 2 || shift >= 64 || p + w > 8 * len { None } else {
        let c = rd(d, p, w as nat);
        let h = pow2((w - 1) as nat);
        if c >= h {
            match vbr(d, len, p + w, w, shift + w - 1) { None => None, Some((v, e)) => Some((((c - h) * pow2(shift as nat) + v) as nat, e)) }
        } else { Some((c * pow2(shift as nat), p + w)) }
    }
}
pub open spec fn vbr_at(d: Seq<u8>, len: int, p: int, w: int) -> Option<(u64, int)> {
    if 2 <= w <= 32 {
        match vbr(d, len, p, w, 0) { Some((v, e)) => if v <= u64::MAX { Some((v as u64, e)) } else { None }, None => None }
    } else { None }
}
pub open spec fn svbr_val(v: u64) -> int {
    if v % 2 == 0 { (v / 2) as int } else if v == 1 { isize::MIN as int } else { -((v / 2) as int) }
}
pub open spec fn align32_pos(len: int, p: int) -> int {
    let a = (p + 31) / 32 * 32;
    if a <= 8 * len { a } else { 8 * len }
}
pub proof fn lemma_vbr_props(d: Seq<u8>, len: int, p: int, w: int, shift: int)
    requires 0 <= shift
    ensures vbr(d, len, p, w, shift) matches Some((v, e)) ==> p + w <= e <= 8 * len && (w >= 2)
    decreases 8 * len - p
{
    if w >= 2 && shift < 64 && p + w <= 8 * len && rd(d, p, w as nat) >= pow2((w - 1) as nat) { lemma_vbr_props(d, len, p + w, w, shift + w - 1); }
}
/// one more chunk c (as payload y and continuation h) below the bits already collected
pub proof fn lemma_vbr_step(r: u64, c: nat, w: int, shift: int)
    requires 2 <= w <= 32, 0 <= shift < 64, r < pow2(shift as nat), c < pow2(w as nat)
    ensures
        pow2(w as nat) == 2 * pow2((w - 1) as nat),
        ({
            let h = pow2((w - 1) as nat);
            let y = (if c >= h { c - h } else { c as int });
            &&& 0 <= y < h
            &&& r + y * pow2(shift as nat) < pow2((shift + w - 1) as nat)
        })
{
    lemma_pow2_unfold(w as nat);
    let h = pow2((w - 1) as nat);
    let s = pow2(shift as nat);
    let y = (if c >= h { c - h } else { c as int });
    lemma_pow2_adds((w - 1) as nat, shift as nat);
    assert(r + y * s < h * s) by (nonlinear_arith) requires r < s, 0 <= y, y + 1 <= h, s >= 0;
}

#[verifier::external_body]
pub struct IoError { e: std::io::Error }
pub enum IoErrorKind { Unsupported, InvalidInput, InvalidData, UnexpectedEof, Other }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub type IoResult<T> = Result<T, IoError>;
impl IoError {
    #[verifier::external_body]
    pub fn new(k: IoErrorKind, m: &str) -> IoError { unimplemented!() }
}
@@source llvm-bitcursor/src/error.rs Error=CursorError
@@type Error
@@errfrom Error
@@source llvm-bitcursor/src/lib.rs Error=CursorError
@@type BitCursor
@@verbatim
impl<T: VxAsRef> BitCursor<T> {
    pub open spec fn data(&self) -> Seq<u8> { self.inner.vx_view() }
    pub open spec fn len(&self) -> int { self.byte_len as int }
    pub open spec fn pos(&self) -> int { self.byte_pos * 8 - self.bit_index }
    #[verifier::opaque]
    pub open spec fn block_ok(&self) -> bool {
        forall|i: int| 0 <= i < 64 ==> #[trigger] bit64(self.current_block, i) == (i < self.bit_index && dbit(self.data(), self.pos() + i))
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.byte_len <= self.data().len() < 0x1_0000_0000_0000
        &&& self.byte_pos <= self.byte_len
        &&& self.bit_index < 64
        &&& self.bit_index <= self.byte_pos * 8
        &&& self.block_ok()
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.data() == o.data() && self.len() == o.len() }
}
/// with no bits loaded, the state does not depend on the position
pub broadcast proof fn lemma_no_block<T: VxAsRef>(c: &BitCursor<T>)
    requires c.current_block == 0, c.bit_index == 0
    ensures #[trigger] c.block_ok()
{ reveal(BitCursor::block_ok); assert(forall|i: int| 0 <= i < 64 ==> !bit64(0, i)) by { assert forall|i: int| 0 <= i < 64 implies !bit64(0, i) by { bb_zero(i); } } }
@@end
