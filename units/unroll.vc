@@include prelude.vc
@@include bits.vc
@@uses cursor_api.vc as bitstream
@@verbatim
broadcast use vstd::std_specs::hash::group_hash_axioms;
@@end
@@uses cursor_fns.vc as bitstream
@@include stdx.vc
@@include tfpe.vc
@@uses bs.vc as bitstream
@@uses module_base.vc as module
@@uses module_api.vc as module
@@uses module_fns.vc as module
@@include unroll_api.vc
@@include unroll_fns.vc
