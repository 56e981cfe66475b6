@@source llvm-support/src/lib.rs
@@source llvm-support/src/bitcodes.rs
@@type ReservedBlockId #[derive(Copy, Clone)]
@@derives ReservedBlockId Copy Clone
@@enumtry ReservedBlockId
    ensures r.is_ok() == known_reserved_block_id(vx_p), r matches Ok(x) ==> code_reserved_block_id(x) == vx_p
@@verbatim
pub open spec fn code_reserved_block_id(x: ReservedBlockId) -> int {
    match x {
        ReservedBlockId::BlockInfo => 0,
        ReservedBlockId::Reserved1 => 1,
        ReservedBlockId::Reserved2 => 2,
        ReservedBlockId::Reserved3 => 3,
        ReservedBlockId::Reserved4 => 4,
        ReservedBlockId::Reserved5 => 5,
        ReservedBlockId::Reserved6 => 6,
        ReservedBlockId::Reserved7 => 7,
        _ => -1,
    }
}
pub open spec fn known_reserved_block_id(c: u64) -> bool {
    0 <= c <= 7
}
@@end
@@type IrBlockId #[derive(Copy, Clone)]
@@derives IrBlockId Copy Clone
@@enumtry IrBlockId
    ensures r.is_ok() == known_ir_block_id(vx_p), r matches Ok(x) ==> code_ir_block_id(x) == vx_p
@@verbatim
pub open spec fn code_ir_block_id(x: IrBlockId) -> int {
    match x {
        IrBlockId::Module => 8,
        IrBlockId::ParamAttr => 9,
        IrBlockId::ParamAttrGroup => 10,
        IrBlockId::Constants => 11,
        IrBlockId::Function => 12,
        IrBlockId::Identification => 13,
        IrBlockId::ValueSymtab => 14,
        IrBlockId::Metadata => 15,
        IrBlockId::MetadataAttachment => 16,
        IrBlockId::Type => 17,
        IrBlockId::Uselist => 18,
        IrBlockId::ModuleStrtab => 19,
        IrBlockId::GlobalValSummary => 20,
        IrBlockId::OperandBundleTags => 21,
        IrBlockId::MetadataKind => 22,
        IrBlockId::Strtab => 23,
        IrBlockId::FullLtoGlobalValSummary => 24,
        IrBlockId::Symtab => 25,
        IrBlockId::SyncScopeNames => 26,
        _ => -1,
    }
}
pub open spec fn known_ir_block_id(c: u64) -> bool {
    8 <= c <= 26
}
@@end
