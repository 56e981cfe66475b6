@@include prelude.vc
@@include tfpe.vc
@@source llvm-support/src/align.rs
@@type AddressSpace #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AddressSpace Copy Clone PartialEq Eq Default
@@include ty_api.vc
@@include ty_fns.vc
@@include enums_sup.vc
@@include enums_codes.vc
@@include enums_type.vc
@@include enums_attr.vc
@@include enums_op.vc
@@include opcode.vc
@@include blockid.vc
