@@verbatim
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct TryFromPrimitiveError<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_tfpe<T>() -> TryFromPrimitiveError<T> { unimplemented!() }
@@end
