@@source llvm-support/src/align.rs
@@fn AddressSpace as TryFrom<u32>::try_from
@@as try_from_u32
@@params value
@@spec
    ensures r.is_ok() == (value <= 0x7f_ffff), r matches Ok(w) ==> w.0 == value
@@start
    assert((1u32 << 23) - 1 == 0x7f_ffff) by (bit_vector);
@@fn AddressSpace as TryFrom<u64>::try_from
@@as try_from_u64
@@params value
@@spec
    ensures r.is_ok() == (value <= 0x7f_ffff), r matches Ok(w) ==> w.0 == value
@@start
    assert((1u32 << 23) - 1 == 0x7f_ffff) by (bit_vector);
@@verbatim
impl VxTryFrom<u32> for AddressSpace {
    type VxErr = AddressSpaceError;
    open spec fn vx_trel(a: u32, r: Result<AddressSpace, AddressSpaceError>) -> bool { r.is_ok() == (a <= 0x7f_ffff) && (r matches Ok(w) ==> w.0 == a) }
    fn vx_tconv(a: u32) -> (r: Result<AddressSpace, AddressSpaceError>) { AddressSpace::try_from_u32(a) }
}
impl VxTryFrom<u64> for AddressSpace {
    type VxErr = AddressSpaceError;
    open spec fn vx_trel(a: u64, r: Result<AddressSpace, AddressSpaceError>) -> bool { r.is_ok() == (a <= 0x7f_ffff) && (r matches Ok(w) ==> w.0 == a) }
    fn vx_tconv(a: u64) -> (r: Result<AddressSpace, AddressSpaceError>) { AddressSpace::try_from_u64(a) }
}
@@end
