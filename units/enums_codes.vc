@@include enums_blockids.vc
@@source llvm-support/src/bitcodes.rs
@@type ReservedAbbrevId
@@enumtry ReservedAbbrevId
    ensures r.is_ok() == known_reserved_abbrev_id(vx_p), r matches Ok(x) ==> code_reserved_abbrev_id(x) == vx_p
@@verbatim
pub open spec fn code_reserved_abbrev_id(x: ReservedAbbrevId) -> int {
    match x {
        ReservedAbbrevId::EndBlock => 0,
        ReservedAbbrevId::EnterSubBlock => 1,
        ReservedAbbrevId::DefineAbbrev => 2,
        ReservedAbbrevId::UnabbrevRecord => 3,
        _ => -1,
    }
}
pub open spec fn known_reserved_abbrev_id(c: u64) -> bool {
    0 <= c <= 3
}
@@end
@@type AbbrevOpEnc
@@enumtry AbbrevOpEnc
    ensures r.is_ok() == known_abbrev_op_enc(vx_p), r matches Ok(x) ==> code_abbrev_op_enc(x) == vx_p
@@verbatim
pub open spec fn code_abbrev_op_enc(x: AbbrevOpEnc) -> int {
    match x {
        AbbrevOpEnc::Fixed => 1,
        AbbrevOpEnc::Vbr => 2,
        AbbrevOpEnc::Array => 3,
        AbbrevOpEnc::Char6 => 4,
        AbbrevOpEnc::Blob => 5,
        _ => -1,
    }
}
pub open spec fn known_abbrev_op_enc(c: u64) -> bool {
    1 <= c <= 5
}
@@end
@@type BlockInfoCode
@@enumtry BlockInfoCode
    ensures r.is_ok() == known_block_info_code(vx_p), r matches Ok(x) ==> code_block_info_code(x) == vx_p
@@verbatim
pub open spec fn code_block_info_code(x: BlockInfoCode) -> int {
    match x {
        BlockInfoCode::SetBid => 1,
        BlockInfoCode::BlockName => 2,
        BlockInfoCode::SetRecordName => 3,
        _ => -1,
    }
}
pub open spec fn known_block_info_code(c: u64) -> bool {
    1 <= c <= 3
}
@@end
@@type IdentificationCode
@@enumtry IdentificationCode
    ensures r.is_ok() == known_identification_code(vx_p), r matches Ok(x) ==> code_identification_code(x) == vx_p
@@verbatim
pub open spec fn code_identification_code(x: IdentificationCode) -> int {
    match x {
        IdentificationCode::ProducerString => 1,
        IdentificationCode::Epoch => 2,
        _ => -1,
    }
}
pub open spec fn known_identification_code(c: u64) -> bool {
    1 <= c <= 2
}
@@end
@@type ModuleCode
@@enumtry ModuleCode
    ensures r.is_ok() == known_module_code(vx_p), r matches Ok(x) ==> code_module_code(x) == vx_p
@@verbatim
pub open spec fn code_module_code(x: ModuleCode) -> int {
    match x {
        ModuleCode::Version => 1,
        ModuleCode::Triple => 2,
        ModuleCode::DataLayout => 3,
        ModuleCode::Asm => 4,
        ModuleCode::SectionName => 5,
        ModuleCode::DepLib => 6,
        ModuleCode::GlobalVar => 7,
        ModuleCode::Function => 8,
        ModuleCode::AliasOld => 9,
        ModuleCode::GcName => 11,
        ModuleCode::Comdat => 12,
        ModuleCode::VstOffset => 13,
        ModuleCode::Alias => 14,
        ModuleCode::MetadataValuesUnused => 15,
        ModuleCode::SourceFilename => 16,
        ModuleCode::Hash => 17,
        ModuleCode::IFunc => 18,
        _ => -1,
    }
}
pub open spec fn known_module_code(c: u64) -> bool {
    1 <= c <= 9 || 11 <= c <= 18
}
@@end
@@type StrtabCode
@@enumtry StrtabCode
    ensures r.is_ok() == known_strtab_code(vx_p), r matches Ok(x) ==> code_strtab_code(x) == vx_p
@@verbatim
pub open spec fn code_strtab_code(x: StrtabCode) -> int {
    match x {
        StrtabCode::Blob => 1,
        _ => -1,
    }
}
pub open spec fn known_strtab_code(c: u64) -> bool {
    c == 1
}
@@end
@@type SymtabCode
@@enumtry SymtabCode
    ensures r.is_ok() == known_symtab_code(vx_p), r matches Ok(x) ==> code_symtab_code(x) == vx_p
@@verbatim
pub open spec fn code_symtab_code(x: SymtabCode) -> int {
    match x {
        SymtabCode::Blob => 1,
        _ => -1,
    }
}
pub open spec fn known_symtab_code(c: u64) -> bool {
    c == 1
}
@@end
@@type FunctionCode
@@enumtry FunctionCode
    ensures r.is_ok() == known_function_code(vx_p), r matches Ok(x) ==> code_function_code(x) == vx_p
@@verbatim
pub open spec fn code_function_code(x: FunctionCode) -> int {
    match x {
        FunctionCode::DeclareBlocks => 1,
        FunctionCode::InstBinop => 2,
        FunctionCode::InstCast => 3,
        FunctionCode::InstGepOld => 4,
        FunctionCode::InstSelect => 5,
        FunctionCode::InstExtractelt => 6,
        FunctionCode::InstInsertelt => 7,
        FunctionCode::InstShufflevec => 8,
        FunctionCode::InstCmp => 9,
        FunctionCode::InstRet => 10,
        FunctionCode::InstBr => 11,
        FunctionCode::InstSwitch => 12,
        FunctionCode::InstInvoke => 13,
        FunctionCode::InstUnreachable => 15,
        FunctionCode::InstPhi => 16,
        FunctionCode::InstAlloca => 19,
        FunctionCode::InstLoad => 20,
        FunctionCode::InstVaarg => 23,
        FunctionCode::InstStoreOld => 24,
        FunctionCode::InstExtractval => 26,
        FunctionCode::InstInsertval => 27,
        FunctionCode::InstCmp2 => 28,
        FunctionCode::InstVselect => 29,
        FunctionCode::InstInboundsGepOld => 30,
        FunctionCode::InstIndirectbr => 31,
        FunctionCode::DebugLocAgain => 33,
        FunctionCode::InstCall => 34,
        FunctionCode::DebugLoc => 35,
        FunctionCode::InstFence => 36,
        FunctionCode::InstCmpxchgOld => 37,
        FunctionCode::InstAtomicrmwOld => 38,
        FunctionCode::InstResume => 39,
        FunctionCode::InstLandingpadOld => 40,
        FunctionCode::InstLoadatomic => 41,
        FunctionCode::InstStoreatomicOld => 42,
        FunctionCode::InstGep => 43,
        FunctionCode::InstStore => 44,
        FunctionCode::InstStoreatomic => 45,
        FunctionCode::InstCmpxchg => 46,
        FunctionCode::InstLandingpad => 47,
        FunctionCode::InstCleanupret => 48,
        FunctionCode::InstCatchret => 49,
        FunctionCode::InstCatchpad => 50,
        FunctionCode::InstCleanuppad => 51,
        FunctionCode::InstCatchswitch => 52,
        FunctionCode::OperandBundle => 55,
        FunctionCode::InstUnop => 56,
        FunctionCode::Instcallbr => 57,
        FunctionCode::InstFreeze => 58,
        FunctionCode::InstAtomicrmw => 59,
        _ => -1,
    }
}
pub open spec fn known_function_code(c: u64) -> bool {
    1 <= c <= 13 || 15 <= c <= 16 || 19 <= c <= 20 || 23 <= c <= 24 || 26 <= c <= 31 || 33 <= c <= 52 || 55 <= c <= 59
}
@@end
@@type RMWOperation
@@enumtry RMWOperation
    ensures r.is_ok() == known_rmwoperation(vx_p), r matches Ok(x) ==> code_rmwoperation(x) == vx_p
@@verbatim
pub open spec fn code_rmwoperation(x: RMWOperation) -> int {
    match x {
        RMWOperation::Xchg => 0,
        RMWOperation::Add => 1,
        RMWOperation::Sub => 2,
        RMWOperation::And => 3,
        RMWOperation::Nand => 4,
        RMWOperation::Or => 5,
        RMWOperation::Xor => 6,
        RMWOperation::Max => 7,
        RMWOperation::Min => 8,
        RMWOperation::UMax => 9,
        RMWOperation::UMin => 10,
        RMWOperation::FAdd => 11,
        RMWOperation::FSub => 12,
        _ => -1,
    }
}
pub open spec fn known_rmwoperation(c: u64) -> bool {
    0 <= c <= 12
}
@@end
