@@include prelude.vc
@@include stdx.vc
@@include strx.vc
@@include tfpe.vc
@@source llvm-support/src/align.rs
@@type AddressSpaceError
@@errfrom AddressSpaceError
@@type AddressSpace #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AddressSpace Copy Clone PartialEq Eq Default
@@verbatim
@@end
@@include space_fns.vc
@@include ty_api.vc
@@include ty_fns.vc
@@include enums_type.vc
@@include enums_blockids.vc
@@include records.vc
@@source llvm-support/src/bitcodes.rs
@@type StrtabCode
@@type SymtabCode
@@type IdentificationCode
@@include strtab.vc
@@include types_api.vc
@@include types_fns.vc
