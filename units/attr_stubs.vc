@@verbatim
#[verifier::external_body]
pub struct DataLayout { x: () }
#[verifier::external_body]
pub struct TypeTable { x: () }
#[verifier::external_body]
pub struct Comdat { x: () }
@@end
