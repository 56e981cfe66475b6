@@include prelude.vc
@@source llvm-support/src/align.rs
@@type AddressSpace #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AddressSpace Copy Clone PartialEq Eq Default
@@include ty_api.vc
@@include ty_fns.vc
