@@verbatim
broadcast use vstd::std_specs::hash::group_hash_axioms;
@@end
@@include module_base.vc
@@include module_api.vc
@@include module_fns.vc
