//! Concrete replay of the encoded enumerations (C15): every code up to 4096, boundaries and random 64-bit codes.
use harness::enumtab::*;
use harness::types::*;
use harness::*;
use llvm_mapper::block::BlockId;
use llvm_support::bitcodes::*;
use llvm_support::*;
use std::convert::TryFrom;
use std::fmt::Debug;

fn known(t: &[(u64, &str)], c: u64) -> Option<String> { t.iter().find(|x| x.0 == c).map(|x| x.1.to_string()) }
fn same<T: Debug>(r: &mut Run, what: &str, c: u64, want: Option<String>, got: impl FnOnce() -> Option<T>) {
    r.case((what, c), || format!("{what} code {c}"), || {
        let g = got().map(|x| format!("{x:?}"));
        ensure!(g == want, "decodes to {g:?}, LLVM's meaning is {want:?}");
        Ok(())
    });
}
fn main() {
    let mut r = Run::from_args();
    let mut cs: Vec<u64> = (0..4096).collect();
    for k in 12..64 { for d in 0..40u64 { cs.push((1u64 << k) + d); } cs.push((1u64 << k) - 1); }
    for d in 0..300 { cs.push(u64::MAX - d); }
    for _ in 0..r.scale(2000) { let c = r.rng.edgy(); cs.push(c); }
    for &c in &cs {
        macro_rules! tf { ($($t:ident $tab:ident),*) => { $( same(&mut r, stringify!($t), c, known($tab, c), || $t::try_from(c).ok()); )* } }
        tf!(Visibility VISIBILITY, DllStorageClass DLL_STORAGE_CLASS, CallingConvention CALLING_CONVENTION, ReservedBlockId RESERVED_BLOCK_ID, IrBlockId IR_BLOCK_ID,
            ReservedAbbrevId RESERVED_ABBREV_ID, AbbrevOpEnc ABBREV_OP_ENC, BlockInfoCode BLOCK_INFO_CODE, IdentificationCode IDENTIFICATION_CODE, ModuleCode MODULE_CODE,
            TypeCode TYPE_CODE, StrtabCode STRTAB_CODE, SymtabCode SYMTAB_CODE, AttributeCode ATTRIBUTE_CODE, FunctionCode FUNCTION_CODE, UnaryOpcode UNARY_OPCODE,
            BinaryOpcode BINARY_OPCODE, RMWOperation RMWOPERATION, AttributeKind ATTRIBUTE_KIND, AttributeId ATTRIBUTE_ID, UnaryOp UNARY_OPCODE);
        macro_rules! fb { ($($t:ident $tab:ident $e:ident),*) => { $( same(&mut r, stringify!($t), c, Some(known($tab, c).unwrap_or($e.to_string())), || Some($t::from(c))); )* } }
        fb!(Linkage LINKAGE LINKAGE_ELSE, ThreadLocalMode THREAD_LOCAL_MODE THREAD_LOCAL_MODE_ELSE, UnnamedAddr UNNAMED_ADDR UNNAMED_ADDR_ELSE, RuntimePreemption RUNTIME_PREEMPTION RUNTIME_PREEMPTION_ELSE);
        let b = if let Some(x) = known(RESERVED_BLOCK_ID, c) { format!("Reserved({x})") } else if let Some(x) = known(IR_BLOCK_ID, c) { format!("Ir({x})") } else { format!("Unknown({c})") };
        same(&mut r, "BlockId", c, Some(b), || Some(BlockId::from(c)));
    }
    for x in 0..27u64 {
        if let Ok(b) = ReservedBlockId::try_from(x) { same(&mut r, "BlockId from reserved", x, Some(format!("Reserved({b:?})")), || Some(BlockId::from(b))); }
        if let Ok(b) = IrBlockId::try_from(x) { same(&mut r, "BlockId from IR", x, Some(format!("Ir({b:?})")), || Some(BlockId::from(b))); }
    }
    // opcodes and operand types
    let mut ts: Vec<T> = (0..13).map(T::S).collect();
    ts.extend([T::Int(1), T::Int(32), T::Ptr(Box::new(T::Int(8)), 0), T::OPtr(0), T::St(None, vec![T::Int(8)], false), T::Fn(Box::new(T::S(8)), vec![], false), T::Arr(2, Box::new(T::S(2))), T::Arr(2, Box::new(T::Int(8)))]);
    let els: Vec<T> = ts.iter().filter(|t| t.vec_el()).cloned().collect();
    for e in els { ts.push(T::FV(4, Box::new(e.clone()))); ts.push(T::SV(2, Box::new(e))); }
    for _ in 0..r.scale(300) { let t = any(&mut r.rng, 3); if t.legal() { ts.push(t); } }
    let mut ops: Vec<u64> = (0..40).collect();
    for k in 5..64 { ops.push((1u64 << k) + (k % 13)); }
    for t in &ts {
        let Some(ty) = t.build() else { continue };
        for &c in &ops {
            let n = known(BINARY_OPCODE, c);
            let (fp, int) = (t.scalar().fp(), matches!(t.scalar(), T::Int(_)));
            let want = n.and_then(|n| match n.as_str() {
                "Add" | "Sub" | "Mul" if fp => Some(format!("F{n}")),
                "SDiv" if fp => Some("FDiv".into()),
                "SRem" if fp => Some("FRem".into()),
                _ if int => Some(n),
                _ => None,
            });
            let ty = &ty;
            r.case((c, t.text()), || format!("binary opcode {c} on {}", t.text()), move || {
                let g = BinaryOp::try_from((c, ty)).ok().map(|x| format!("{x:?}"));
                ensure!(g == want, "decodes to {g:?}, LLVM's instruction is {want:?}");
                Ok(())
            });
        }
    }
    r.finish();
}
