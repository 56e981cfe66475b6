@@include prelude.vc
@@include bits.vc
@@include cursor_api.vc
@@verbatim
broadcast use {bb_group, vstd::std_specs::hash::group_hash_axioms};
@@end
@@include cursor_fns.vc
@@include stdx.vc
@@include tfpe.vc
@@include bs.vc
