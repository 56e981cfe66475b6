@@include prelude.vc
@@include tfpe.vc
@@include enums_blockids.vc
@@include records.vc
@@source llvm-support/src/bitcodes.rs
@@type StrtabCode
@@type SymtabCode
@@type IdentificationCode
@@include strtab.vc
