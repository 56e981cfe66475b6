@@include prelude.vc
@@include stdx.vc
@@include strx.vc
@@include tfpe.vc
@@include align_api.vc
@@include align_fns.vc
@@include enums_blockids.vc
@@include records.vc
@@source llvm-support/src/bitcodes.rs
@@type StrtabCode
@@type SymtabCode
@@type IdentificationCode
@@include strtab.vc
@@verbatim
broadcast use vstd::std_specs::hash::group_hash_axioms;
@@end
@@include attr_stubs.vc
@@include attr_api.vc
@@include attr_fns.vc
