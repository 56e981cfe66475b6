@@source llvm-support/src/bitcodes.rs
@@type AttributeCode #[derive(PartialEq, Eq, Structural)]
@@derives AttributeCode PartialEq Eq
@@enumtry AttributeCode
    ensures r.is_ok() == known_attribute_code(vx_p), r matches Ok(x) ==> code_attribute_code(x) == vx_p
@@verbatim
pub open spec fn code_attribute_code(x: AttributeCode) -> int {
    match x {
        AttributeCode::EntryOld => 1,
        AttributeCode::Entry => 2,
        AttributeCode::GroupCodeEntry => 3,
        _ => -1,
    }
}
pub open spec fn known_attribute_code(c: u64) -> bool {
    1 <= c <= 3
}
@@end
@@source llvm-support/src/attribute.rs
@@type AttributeKind #[derive(PartialEq, Eq, Structural)]
@@derives AttributeKind PartialEq Eq
@@enumtry AttributeKind
    ensures r.is_ok() == known_attribute_kind(vx_p), r matches Ok(x) ==> code_attribute_kind(x) == vx_p
@@verbatim
pub open spec fn code_attribute_kind(x: AttributeKind) -> int {
    match x {
        AttributeKind::Enum => 0,
        AttributeKind::IntKeyValue => 1,
        AttributeKind::StrKey => 3,
        AttributeKind::StrKeyValue => 4,
        _ => -1,
    }
}
pub open spec fn known_attribute_kind(c: u64) -> bool {
    0 <= c <= 1 || 3 <= c <= 4
}
@@end
@@type AttributeId #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AttributeId Copy Clone PartialEq Eq
@@enumtry AttributeId
    ensures r.is_ok() == known_attribute_id(vx_p), r matches Ok(x) ==> code_attribute_id(x) == vx_p
@@verbatim
pub open spec fn code_attribute_id(x: AttributeId) -> int {
    match x {
        AttributeId::Alignment => 1,
        AttributeId::AlwaysInline => 2,
        AttributeId::ByVal => 3,
        AttributeId::InlineHint => 4,
        AttributeId::InReg => 5,
        AttributeId::MinSize => 6,
        AttributeId::Naked => 7,
        AttributeId::Nest => 8,
        AttributeId::NoAlias => 9,
        AttributeId::NoBuiltin => 10,
        AttributeId::NoCapture => 11,
        AttributeId::NoDuplicate => 12,
        AttributeId::NoImplicitFloat => 13,
        AttributeId::NoInline => 14,
        AttributeId::NonLazyBind => 15,
        AttributeId::NoRedZone => 16,
        AttributeId::NoReturn => 17,
        AttributeId::NoUnwind => 18,
        AttributeId::OptimizeForSize => 19,
        AttributeId::ReadNone => 20,
        AttributeId::ReadOnly => 21,
        AttributeId::Returned => 22,
        AttributeId::ReturnsTwice => 23,
        AttributeId::SExt => 24,
        AttributeId::StackAlignment => 25,
        AttributeId::StackProtect => 26,
        AttributeId::StackProtectReq => 27,
        AttributeId::StackProtectStrong => 28,
        AttributeId::StructRet => 29,
        AttributeId::SanitizeAddress => 30,
        AttributeId::SanitizeThread => 31,
        AttributeId::SanitizeMemory => 32,
        AttributeId::UwTable => 33,
        AttributeId::ZExt => 34,
        AttributeId::Builtin => 35,
        AttributeId::Cold => 36,
        AttributeId::OptimizeNone => 37,
        AttributeId::InAlloca => 38,
        AttributeId::NonNull => 39,
        AttributeId::JumpTable => 40,
        AttributeId::Dereferenceable => 41,
        AttributeId::DereferenceableOrNull => 42,
        AttributeId::Convergent => 43,
        AttributeId::SafeStack => 44,
        AttributeId::ArgMemOnly => 45,
        AttributeId::SwiftSelf => 46,
        AttributeId::SwiftError => 47,
        AttributeId::NoRecurse => 48,
        AttributeId::InaccessiblememOnly => 49,
        AttributeId::InaccessiblememOrArgmemonly => 50,
        AttributeId::AllocSize => 51,
        AttributeId::WriteOnly => 52,
        AttributeId::Speculatable => 53,
        AttributeId::StrictFp => 54,
        AttributeId::SanitizeHwAddress => 55,
        AttributeId::NoCfCheck => 56,
        AttributeId::OptForFuzzing => 57,
        AttributeId::Shadowcallstack => 58,
        AttributeId::SpeculativeLoadHardening => 59,
        AttributeId::ImmArg => 60,
        AttributeId::WillReturn => 61,
        AttributeId::NoFree => 62,
        AttributeId::NoSync => 63,
        AttributeId::SanitizeMemtag => 64,
        AttributeId::Preallocated => 65,
        AttributeId::NoMerge => 66,
        AttributeId::NullPointerIsValid => 67,
        AttributeId::NoUndef => 68,
        AttributeId::ByRef => 69,
        AttributeId::MustProgress => 70,
        AttributeId::NoCallback => 71,
        AttributeId::Hot => 72,
        AttributeId::NoProfile => 73,
        AttributeId::VScaleRange => 74,
        AttributeId::SwiftAsync => 75,
        AttributeId::NoSanitizeCoverage => 76,
        AttributeId::ElementType => 77,
        AttributeId::DisableSanitizerInstrumentation => 78,
        AttributeId::NoSanitizeBounds => 79,
        AttributeId::AllocAlign => 80,
        AttributeId::AllocatedPointer => 81,
        AttributeId::AllocKind => 82,
        AttributeId::PresplitCoroutine => 83,
        AttributeId::FnretthunkExtern => 84,
        AttributeId::SkipProfile => 85,
        AttributeId::Memory => 86,
        _ => -1,
    }
}
pub open spec fn known_attribute_id(c: u64) -> bool {
    1 <= c <= 86
}
@@end
