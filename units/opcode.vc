@@source llvm-support/src/opcode.rs
@@type UnaryOp
@@type UnaryOpError
@@errfrom UnaryOpError
@@type BinaryOp
@@type BinaryOpError
@@errfrom BinaryOpError
@@verbatim
impl VxFrom<UnaryOpcode> for UnaryOp {
    open spec fn vx_spec(a: UnaryOpcode) -> UnaryOp { UnaryOp::FNeg }
    fn vx_conv(a: UnaryOpcode) -> (r: UnaryOp) { UnaryOp::from(a) }
}
/// getDecodedBinaryOpcode (BitcodeReader.cpp): the instruction for a code and whether its operands are floating-point
pub open spec fn binop(c: u64, fp: bool) -> Option<BinaryOp> {
    if c == 0 { Some(if fp { BinaryOp::FAdd } else { BinaryOp::Add }) }
    else if c == 1 { Some(if fp { BinaryOp::FSub } else { BinaryOp::Sub }) }
    else if c == 2 { Some(if fp { BinaryOp::FMul } else { BinaryOp::Mul }) }
    else if c == 3 { if fp { None } else { Some(BinaryOp::UDiv) } }
    else if c == 4 { Some(if fp { BinaryOp::FDiv } else { BinaryOp::SDiv }) }
    else if c == 5 { if fp { None } else { Some(BinaryOp::URem) } }
    else if c == 6 { Some(if fp { BinaryOp::FRem } else { BinaryOp::SRem }) }
    else if fp { None }
    else if c == 7 { Some(BinaryOp::Shl) }
    else if c == 8 { Some(BinaryOp::LShr) }
    else if c == 9 { Some(BinaryOp::AShr) }
    else if c == 10 { Some(BinaryOp::And) }
    else if c == 11 { Some(BinaryOp::Or) }
    else if c == 12 { Some(BinaryOp::Xor) }
    else { None }
}
/// the operands are integers, floating-point numbers, or vectors of them
pub open spec fn binop_for(c: u64, t: Type) -> Option<BinaryOp> {
    if t_floating(t_scalar(t)) { binop(c, true) } else if t_scalar(t) is Integer { binop(c, false) } else { None }
}
@@end
@@fn UnaryOp as From<UnaryOpcode>::from
@@spec
    ensures r == UnaryOp::FNeg
@@fn UnaryOp as TryFrom<u64>::try_from
@@params value
@@spec
    ensures r.is_ok() == (value == 0), r matches Ok(x) ==> x == UnaryOp::FNeg
@@fn BinaryOp as TryFrom<(u64,&Type)>::try_from
@@params p
@@spec
    ensures r.is_ok() == (binop_for(p.0, *p.1) is Some), r matches Ok(x) ==> binop_for(p.0, *p.1) == Some(x)
