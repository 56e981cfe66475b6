@@source llvm-mapper/src/block/mod.rs
@@type BlockId
@@verbatim
impl VxFrom<ReservedBlockId> for BlockId {
    open spec fn vx_spec(a: ReservedBlockId) -> BlockId { BlockId::Reserved(a) }
    fn vx_conv(a: ReservedBlockId) -> (r: BlockId) { BlockId::from_reserved(a) }
}
impl VxFrom<IrBlockId> for BlockId {
    open spec fn vx_spec(a: IrBlockId) -> BlockId { BlockId::Ir(a) }
    fn vx_conv(a: IrBlockId) -> (r: BlockId) { BlockId::from_ir(a) }
}
@@end
@@fn BlockId as From<ReservedBlockId>::from
@@as from_reserved
@@params v
@@spec
    ensures r == BlockId::Reserved(v)
@@fn BlockId as From<IrBlockId>::from
@@as from_ir
@@params v
@@spec
    ensures r == BlockId::Ir(v)
@@fn BlockId as From<u64>::from
@@params value
@@spec
    ensures
        value <= 7 ==> (r matches BlockId::Reserved(x) && code_reserved_block_id(x) == value),
        8 <= value <= 26 ==> (r matches BlockId::Ir(x) && code_ir_block_id(x) == value),
        value > 26 ==> r == BlockId::Unknown(value)
