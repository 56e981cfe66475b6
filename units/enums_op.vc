@@source llvm-support/src/bitcodes.rs
@@type UnaryOpcode
@@enumtry UnaryOpcode
    ensures r.is_ok() == known_unary_opcode(vx_p), r matches Ok(x) ==> code_unary_opcode(x) == vx_p
@@verbatim
pub open spec fn code_unary_opcode(x: UnaryOpcode) -> int {
    match x {
        UnaryOpcode::FNeg => 0,
        _ => -1,
    }
}
pub open spec fn known_unary_opcode(c: u64) -> bool {
    c == 0
}
@@end
@@type BinaryOpcode
@@enumtry BinaryOpcode
    ensures r.is_ok() == known_binary_opcode(vx_p), r matches Ok(x) ==> code_binary_opcode(x) == vx_p
@@verbatim
pub open spec fn code_binary_opcode(x: BinaryOpcode) -> int {
    match x {
        BinaryOpcode::Add => 0,
        BinaryOpcode::Sub => 1,
        BinaryOpcode::Mul => 2,
        BinaryOpcode::UDiv => 3,
        BinaryOpcode::SDiv => 4,
        BinaryOpcode::URem => 5,
        BinaryOpcode::SRem => 6,
        BinaryOpcode::Shl => 7,
        BinaryOpcode::LShr => 8,
        BinaryOpcode::AShr => 9,
        BinaryOpcode::And => 10,
        BinaryOpcode::Or => 11,
        BinaryOpcode::Xor => 12,
        _ => -1,
    }
}
pub open spec fn known_binary_opcode(c: u64) -> bool {
    0 <= c <= 12
}
@@end
