//! Types as plain data, with LLVM's element rules written out independently (C14, C15, C19).
use crate::*;
use llvm_support::*;
use std::convert::TryFrom;

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum T {
    S(u8), // simple types, in SIMPLE order
    Int(u32), Ptr(Box<T>, u32), OPtr(u32), Arr(u64, Box<T>), FV(u64, Box<T>), SV(u64, Box<T>), St(Option<String>, Vec<T>, bool), Fn(Box<T>, Vec<T>, bool),
}
pub const SIMPLE: [&str; 13] = ["Half", "BFloat", "Float", "Double", "Metadata", "X86Fp80", "Fp128", "PpcFp128", "Void", "Label", "X86Mmx", "X86Amx", "Token"];
pub fn simple(i: u8) -> Type {
    match SIMPLE[i as usize] {
        "Half" => Type::Half, "BFloat" => Type::BFloat, "Float" => Type::Float, "Double" => Type::Double, "Metadata" => Type::Metadata, "X86Fp80" => Type::X86Fp80, "Fp128" => Type::Fp128,
        "PpcFp128" => Type::PpcFp128, "Void" => Type::Void, "Label" => Type::Label, "X86Mmx" => Type::X86Mmx, "X86Amx" => Type::X86Amx, _ => Type::Token,
    }
}
impl T {
    fn is(&self, names: &[&str]) -> bool { match self { T::S(i) => names.contains(&SIMPLE[*i as usize]), _ => false } }
    pub fn fp(&self) -> bool { self.is(&["Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"]) }
    pub fn pointee(&self) -> bool { !self.is(&["Void", "Label", "Metadata", "Token", "X86Amx"]) }
    pub fn arr_el(&self) -> bool { self.pointee() && !matches!(self, T::Fn(..) | T::SV(..)) }
    pub fn st_el(&self) -> bool { !self.is(&["Void", "Label", "Metadata", "Token"]) && !matches!(self, T::Fn(..)) }
    pub fn vec_el(&self) -> bool { self.fp() || matches!(self, T::Int(_) | T::Ptr(..) | T::OPtr(_)) }
    pub fn arg(&self) -> bool { !self.is(&["Void"]) && !matches!(self, T::Fn(..)) }
    pub fn ret(&self) -> bool { !self.is(&["Label", "Metadata"]) && !matches!(self, T::Fn(..)) }
    pub fn scalar(&self) -> &T { match self { T::FV(_, e) | T::SV(_, e) => e, t => t } }
    /// legal at the top level, given legal parts
    pub fn legal_here(&self) -> bool {
        match self {
            T::S(_) => true,
            T::Int(w) => *w >= 1 && *w < (1 << 24),
            T::Ptr(p, _) => p.pointee(),
            T::OPtr(_) => true,
            T::Arr(_, e) => e.arr_el(),
            T::FV(n, e) | T::SV(n, e) => *n > 0 && e.vec_el(),
            T::St(_, f, _) => f.iter().all(|t| t.st_el()),
            T::Fn(r, p, _) => r.ret() && p.iter().all(|t| t.arg()),
        }
    }
    pub fn parts(&self) -> Vec<&T> {
        match self { T::Ptr(e, _) | T::Arr(_, e) | T::FV(_, e) | T::SV(_, e) => vec![e], T::St(_, f, _) => f.iter().collect(), T::Fn(r, p, _) => std::iter::once(&**r).chain(p.iter()).collect(), _ => vec![] }
    }
    pub fn legal(&self) -> bool { self.legal_here() && self.parts().iter().all(|p| p.legal()) }
    pub fn depth(&self) -> usize { 1 + self.parts().iter().map(|p| p.depth()).max().unwrap_or(0) }
    /// what Debug prints for the type built from it
    pub fn text(&self) -> String {
        let sp = |a: u32| format!("{:?}", AddressSpace::try_from(a).unwrap());
        let list = |v: &Vec<T>| format!("[{}]", v.iter().map(|t| t.text()).collect::<Vec<_>>().join(", "));
        match self {
            T::S(i) => SIMPLE[*i as usize].to_string(),
            T::Int(w) => format!("Integer(IntegerType {{ bit_width: {w} }})"),
            T::Ptr(p, a) => format!("Pointer(PointerType {{ pointee: {}, address_space: {} }})", p.text(), sp(*a)),
            T::OPtr(a) => format!("OpaquePointer({})", sp(*a)),
            T::Arr(n, e) => format!("Array(ArrayType {{ num_elements: {n}, element_type: {} }})", e.text()),
            T::FV(n, e) => format!("FixedVector(VectorType {{ num_elements: {n}, element_type: {} }})", e.text()),
            T::SV(n, e) => format!("ScalableVector(VectorType {{ num_elements: {n}, element_type: {} }})", e.text()),
            T::St(n, f, p) => format!("Struct(StructType {{ name: {n:?}, fields: {}, is_packed: {p} }})", list(f)),
            T::Fn(r, p, v) => format!("Function(FunctionType {{ return_type: {}, param_types: {}, is_vararg: {v} }})", r.text(), list(p)),
        }
    }
    /// built through the public constructors; None if any of them refuses
    pub fn build(&self) -> Option<Type> {
        let many = |v: &Vec<T>| v.iter().map(|t| t.build()).collect::<Option<Vec<_>>>();
        let sp = |a: u32| AddressSpace::try_from(a).unwrap();
        match self {
            T::S(i) => Some(simple(*i)),
            T::Int(w) => Type::new_integer(*w).ok(),
            T::Ptr(p, a) => Type::new_pointer(p.build()?, sp(*a)).ok(),
            T::OPtr(a) => Some(Type::OpaquePointer(sp(*a))),
            T::Arr(n, e) => Type::new_array(*n, e.build()?).ok(),
            T::FV(n, e) => Type::new_vector(*n, e.build()?).ok(),
            T::SV(n, e) => Type::new_scalable_vector(*n, e.build()?).ok(),
            T::St(n, f, p) => Type::new_struct(n.clone(), many(f)?, *p).ok(),
            T::Fn(r, p, v) => Type::new_function(r.build()?, many(p)?, *v).ok(),
        }
    }
}
/// structural comparison of a built type with its description, not relying on Debug or PartialEq of aggregates
pub fn shape(t: &Type) -> String { format!("{t:?}") }

pub fn any(r: &mut Rng, depth: u32) -> T {
    let sub = |r: &mut Rng| Box::new(any(r, depth - 1));
    if depth == 0 || r.chance(1, 4) {
        return match r.below(8) { 0..=3 => T::S(r.below(13) as u8), 4 => T::OPtr(r.below(4) as u32), 5 => T::Int(*r.pick(&[0u32, 1, 8, 64, 8388607, 8388608, 16777215, 16777216, u32::MAX])), _ => T::Int(1 + r.below(129) as u32) };
    }
    let n = |r: &mut Rng| if r.chance(1, 3) { r.edgy() } else { r.below(5) };
    match r.below(7) {
        0 => T::Ptr(sub(r), r.below(3) as u32),
        1 => { let k = n(r); T::Arr(k, sub(r)) }
        2 => { let k = n(r); T::FV(k, sub(r)) }
        3 => { let k = n(r); T::SV(k, sub(r)) }
        4 | 5 => { let k = r.below(4); let f = (0..k).map(|_| *sub(r)).collect(); T::St(if r.chance(1, 2) { Some(format!("s{}", r.below(9))) } else { None }, f, r.chance(1, 2)) }
        _ => { let k = r.below(4); let p = (0..k).map(|_| *sub(r)).collect(); T::Fn(sub(r), p, r.chance(1, 2)) }
    }
}
