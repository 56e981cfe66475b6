@@source llvm-support/src/ty.rs
@@type Type
@@derives Type Clone
@@type StructType
@@derives StructType Clone
@@type StructTypeError
@@errfrom StructTypeError
@@type IntegerType
@@derives IntegerType Clone
@@type IntegerTypeError
@@errfrom IntegerTypeError
@@type PointerType
@@derives PointerType Clone
@@type PointerTypeError
@@errfrom PointerTypeError
@@type ArrayType
@@derives ArrayType Clone
@@type ArrayTypeError
@@errfrom ArrayTypeError
@@type VectorType
@@derives VectorType Clone
@@type VectorTypeError
@@errfrom VectorTypeError
@@type FunctionType
@@derives FunctionType Clone
@@type FunctionTypeError
@@errfrom FunctionTypeError
@@verbatim
// derived (structural) clone; the derive is checked on every run
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------------------------------------------------------------- LLVM's rules (Type.h, Type.cpp, DerivedTypes.h)
pub open spec fn t_floating(t: Type) -> bool {
    t is Half || t is BFloat || t is Float || t is Double || t is X86Fp80 || t is Fp128 || t is PpcFp128
}
/// void, label, metadata and token are not the type of anything in memory
pub open spec fn t_sized_kind(t: Type) -> bool { !(t is Void || t is Label || t is Metadata || t is Token) }
pub open spec fn t_pointee(t: Type) -> bool { t_sized_kind(t) && !(t is X86Amx) }
pub open spec fn t_array_el(t: Type) -> bool { t_sized_kind(t) && !(t is X86Amx) && !(t is Function) && !(t is ScalableVector) }
pub open spec fn t_struct_el(t: Type) -> bool { t_sized_kind(t) && !(t is Function) }
pub open spec fn t_vector_el(t: Type) -> bool { t_floating(t) || t is Integer || t is Pointer || t is OpaquePointer }
pub open spec fn t_argument(t: Type) -> bool { !(t is Function || t is Void) }
pub open spec fn t_return(t: Type) -> bool { !(t is Function || t is Label || t is Metadata) }
pub open spec fn t_scalar(t: Type) -> Type {
    match t { Type::FixedVector(v) => *v.element_type, Type::ScalableVector(v) => *v.element_type, _ => t }
}
pub open spec fn all_ok(s: Seq<Type>, f: spec_fn(Type) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) }
pub open spec fn t_struct_ok(s: Seq<Type>) -> bool { all_ok(s, |t: Type| t_struct_el(t)) }
pub open spec fn t_params_ok(s: Seq<Type>) -> bool { all_ok(s, |t: Type| t_argument(t)) }
pub open spec fn t_int_ok(w: u32) -> bool { 1 <= w && w <= 0xff_ffff }
@@end
