@@include prelude.vc
@@include strx.vc
@@include align_api.vc
@@include align_fns.vc
@@verbatim
#[verifier::external_body]
pub struct RecordStringError { x: () }
@@end
@@include dl.vc
