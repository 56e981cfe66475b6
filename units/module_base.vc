@@include prelude.vc
@@include stdx.vc
@@include strx.vc
@@include tfpe.vc
@@uses align_api.vc as align
@@uses align_fns.vc as align
@@uses dl.vc as datalayout
@@include enums_codes.vc
@@uses records.vc as rec
@@uses strtab.vc as rec
@@uses blockid.vc as enums
@@uses ty_api.vc as types
@@uses ty_fns.vc as types
@@include enums_type.vc
@@uses types_api.vc as types
@@uses types_fns.vc as types
@@source llvm-mapper/src/record/comdat.rs
@@type SelectionKind
@@enumtry SelectionKind
    ensures r.is_ok() == (1 <= vx_p <= 5), r matches Ok(x) ==> code_selection_kind(x) == vx_p
@@verbatim
pub open spec fn code_selection_kind(x: SelectionKind) -> int {
    match x {
        SelectionKind::Any => 1,
        SelectionKind::ExactMatch => 2,
        SelectionKind::Largest => 3,
        SelectionKind::NoDeduplicate => 4,
        SelectionKind::SameSize => 5,
    }
}
@@end
@@type ComdatError
@@errfrom ComdatError
@@type Comdat
@@uses attr_api.vc as attrs
@@uses attr_fns.vc as attrs
@@uses enums_sup.vc as enums
@@include enums_op.vc
@@uses opcode.vc as enums
