@@source llvm-support/src/bitcodes.rs
@@type TypeCode
@@enumtry TypeCode
    ensures r.is_ok() == known_type_code(vx_p), r matches Ok(x) ==> code_type_code(x) == vx_p
@@verbatim
pub open spec fn code_type_code(x: TypeCode) -> int {
    match x {
        TypeCode::NumEntry => 1,
        TypeCode::Void => 2,
        TypeCode::Float => 3,
        TypeCode::Double => 4,
        TypeCode::Label => 5,
        TypeCode::Opaque => 6,
        TypeCode::Integer => 7,
        TypeCode::Pointer => 8,
        TypeCode::FunctionOld => 9,
        TypeCode::Half => 10,
        TypeCode::Array => 11,
        TypeCode::Vector => 12,
        TypeCode::X86Fp80 => 13,
        TypeCode::Fp128 => 14,
        TypeCode::PpcFp128 => 15,
        TypeCode::Metadata => 16,
        TypeCode::X86Mmx => 17,
        TypeCode::StructAnon => 18,
        TypeCode::StructName => 19,
        TypeCode::StructNamed => 20,
        TypeCode::Function => 21,
        TypeCode::Token => 22,
        TypeCode::BFloat => 23,
        TypeCode::X86Amx => 24,
        TypeCode::OpaquePointer => 25,
        _ => -1,
    }
}
pub open spec fn known_type_code(c: u64) -> bool {
    1 <= c <= 25
}
@@end
