@@source llvm-support/src/lib.rs
@@type Endian #[derive(PartialEq, Eq, Structural)]
@@type Mangling #[derive(PartialEq, Eq, Structural)]
@@source llvm-mapper/src/record/datalayout.rs
@@type DataLayout
@@type DataLayoutError
@@errfrom DataLayoutError
@@verbatim
/// what a data layout says
pub struct DL {
    pub endian: Endian, pub stack: Option<Align>, pub prog: AddressSpace, pub glob: AddressSpace, pub alloca: AddressSpace,
    pub types: Seq<TypeAlignSpec>, pub ptrs: Seq<PointerAlignSpec>, pub fptr: Option<FunctionPointerAlign>, pub mangling: Option<Mangling>,
    pub native: Seq<u32>, pub nonint: Seq<AddressSpace>,
}
impl DataLayout {
    pub open spec fn dl(&self) -> DL {
        DL { endian: self.endianness, stack: self.natural_stack_alignment, prog: self.program_address_space, glob: self.global_variable_address_space,
            alloca: self.alloca_address_space, types: self.type_alignments.0@, ptrs: self.pointer_alignments.0@, fptr: self.function_pointer_alignment,
            mangling: self.mangling, native: self.native_integer_widths@, nonint: self.non_integral_address_spaces@ }
    }
    pub open spec fn wf(&self) -> bool { self.type_alignments.sorted() && self.pointer_alignments.sorted() }
}
pub open spec fn dl_default() -> DL {
    DL { endian: Endian::Big, stack: None, prog: AddressSpace(0), glob: AddressSpace(0), alloca: AddressSpace(0), types: type_defaults(), ptrs: ptr_defaults(),
        fptr: None, mangling: None, native: Seq::empty(), nonint: Seq::empty() }
}
/// all parts, converted in order
pub open spec fn widths(p: Seq<Seq<char>>) -> Option<Seq<u32>>
    decreases p.len()
{
    if p.len() == 0 { Some(Seq::empty()) } else {
        match (widths(p.drop_last()), uint_max(p.last(), u32::MAX as nat)) { (Some(s), Some(v)) => Some(s.push(v as u32)), _ => None }
    }
}
pub open spec fn spaces(p: Seq<Seq<char>>) -> Option<Seq<AddressSpace>>
    decreases p.len()
{
    if p.len() == 0 { Some(Seq::empty()) } else {
        match (spaces(p.drop_last()), num_space(p.last())) { (Some(s), Some(a)) => if a.0 == 0 { None } else { Some(s.push(a)) }, _ => None }
    }
}
pub proof fn lemma_widths_take(p: Seq<Seq<char>>, k: int)
    requires 0 <= k <= p.len(), widths(p.take(k)) is None
    ensures widths(p) is None
    decreases p.len() - k
{
    if k == p.len() { assert(p.take(k) =~= p); } else { assert(p.take(k + 1).drop_last() =~= p.take(k)); lemma_widths_take(p, k + 1); }
}
pub proof fn lemma_spaces_take(p: Seq<Seq<char>>, k: int)
    requires 0 <= k <= p.len(), spaces(p.take(k)) is None
    ensures spaces(p) is None
    decreases p.len() - k
{
    if k == p.len() { assert(p.take(k) =~= p); } else { assert(p.take(k + 1).drop_last() =~= p.take(k)); lemma_spaces_take(p, k + 1); }
}
pub open spec fn mangling_of(c: char) -> Option<Mangling> {
    if c == 'e' { Some(Mangling::Elf) } else if c == 'm' { Some(Mangling::Mips) } else if c == 'o' { Some(Mangling::Macho) }
    else if c == 'x' { Some(Mangling::WindowsX86Coff) } else if c == 'w' { Some(Mangling::WindowsCoff) } else if c == 'a' { Some(Mangling::XCoff) } else { None }
}
/// an alignment specification with more parts than its form has (left unspecified)
pub open spec fn loose(s: Seq<char>) -> bool {
    s.len() > 0 && ((s[0] == 'p' && spec_parts(s).len() > 5) || ((s[0] == 'i' || s[0] == 'v' || s[0] == 'f' || s[0] == 'a') && spec_parts(s).len() > 3))
}
/// one dash-separated specification applied to d
pub open spec fn dl_step(d: DL, s: Seq<char>) -> Option<DL> {
    if s.len() == 0 { None } else {
        let c = s[0];
        let b = s.skip(1);
        if c == 'e' { if b.len() == 0 { Some(DL { endian: Endian::Little, ..d }) } else { None } }
        else if c == 'E' { if b.len() == 0 { Some(DL { endian: Endian::Big, ..d }) } else { None } }
        else if c == 'S' { match num_align(b) { Some(a) => Some(DL { stack: Some(a), ..d }), None => None } }
        else if c == 'P' { match num_space(b) { Some(a) => Some(DL { prog: a, ..d }), None => None } }
        else if c == 'G' { match num_space(b) { Some(a) => Some(DL { glob: a, ..d }), None => None } }
        else if c == 'A' { match num_space(b) { Some(a) => Some(DL { alloca: a, ..d }), None => None } }
        else if c == 'p' { match ptr_spec(s) { Some(x) => Some(DL { ptrs: ptr_upd(d.ptrs, x), ..d }), None => None } }
        else if c == 'i' || c == 'v' || c == 'f' || c == 'a' { match type_spec(s) { Some(x) => Some(DL { types: type_upd(d.types, x), ..d }), None => None } }
        else if c == 'F' {
            if b.len() == 0 { None } else {
                match num_align(b.skip(1)) {
                    None => None,
                    Some(a) => if b[0] == 'i' { Some(DL { fptr: Some(FunctionPointerAlign::Independent { abi_alignment: a }), ..d }) }
                        else if b[0] == 'n' { Some(DL { fptr: Some(FunctionPointerAlign::MultipleOfFunctionAlign { abi_alignment: a }), ..d }) } else { None },
                }
            }
        }
        else if c == 'm' {
            if b.len() == 2 && b[0] == ':' { match mangling_of(b[1]) { Some(m) => Some(DL { mangling: Some(m), ..d }), None => None } } else { None }
        }
        else if c == 'n' {
            if b.len() == 0 { None }
            else if b[0] == 'i' {
                if b.len() < 2 || b[1] != ':' { None } else { match spaces(split_s(b.skip(2), ':')) { Some(v) => Some(DL { nonint: v, ..d }), None => None } }
            }
            else { match widths(split_s(b, ':')) { Some(v) => Some(DL { native: v, ..d }), None => None } }
        }
        else { None }
    }
}
/// the specifications from the i-th on, applied left to right
pub open spec fn dl_run(d: DL, p: Seq<Seq<char>>, i: int) -> Option<DL>
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { Some(d) } else { match dl_step(d, p[i]) { Some(e) => dl_run(e, p, i + 1), None => None } }
}
pub open spec fn dl_loose(p: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < p.len() && loose(#[trigger] p[i]) }
pub open spec fn dl_of(s: Seq<char>) -> Option<DL> {
    if !ascii(s) { None } else if s.len() == 0 { Some(dl_default()) } else { dl_run(dl_default(), split_s(s, '-'), 0) }
}
@@end
@@fn DataLayout as Default::default
@@spec
    ensures r.dl() == dl_default(), r.wf()
@@onret
    proof { assert(vx_ret.native_integer_widths@ =~= Seq::<u32>::empty()); assert(vx_ret.non_integral_address_spaces@ =~= Seq::<AddressSpace>::empty()); }
@@fn DataLayout as FromStr::from_str
@@params value
@@attr #[verifier::spinoff_prover]
@@spec
    ensures
        r matches Ok(d) ==> d.wf(),
        !ascii(value@) || value@.len() == 0 || !dl_loose(split_s(value@, '-')) ==> r.is_ok() == (dl_of(value@) is Some),
        !ascii(value@) || value@.len() == 0 || !dl_loose(split_s(value@, '-')) ==> (r matches Ok(d) ==> dl_of(value@) == Some(d.dl()))
@@start
    hide(type_spec); hide(ptr_spec); hide(dec_of); hide(idx_of);
    let ghost vx_p = split_s(value@, '-');
    let ghost vx_t = dl_of(value@);
    let ghost vx_l = dl_loose(vx_p);
@@loop 0
    invariant
        0 <= vx_i0 <= vx_s0@.len(), strs(vx_s0@) == vx_p, vx_p == split_s(value@, '-'), vx_t == dl_of(value@), vx_l == dl_loose(vx_p), vx_s0@.len() == vx_p.len(), ascii(value@), value@.len() > 0,
        forall|j: int| 0 <= j < vx_s0@.len() ==> (#[trigger] vx_s0@[j])@ == vx_p[j] && ascii(vx_s0@[j]@),
        datalayout.wf(), !vx_l ==> vx_t == dl_run(datalayout.dl(), vx_p, vx_i0 as int)
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    let ghost vx_d = datalayout.dl();
    let ghost vx_w = vx_p[vx_i0 as int];
    proof { assert(!vx_l ==> !loose(vx_w)); assert(vx_s0@[vx_i0 as int]@ == vx_w); assert(!vx_l ==> vx_t == match dl_step(vx_d, vx_w) { Some(e) => dl_run(e, vx_p, vx_i0 + 1), None => None }); }
@@loopend 0
    proof {
        let c = vx_w[0];
        assert(vx_w.len() > 0);
        if c == 'e' || c == 'E' { assert(dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'S' { assert(dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'P' || c == 'G' || c == 'A' { assert(dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'p' { assert(!vx_l ==> dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'i' || c == 'v' || c == 'f' || c == 'a' { assert(!vx_l ==> dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'F' { assert(dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'm' { assert(dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        else if c == 'n' { assert(dl_step(vx_d, vx_w) == Some(datalayout.dl())); }
        assert(!vx_l ==> vx_t == dl_run(datalayout.dl(), vx_p, vx_i0 as int));
    }
@@loop 1
    invariant
        0 <= vx_i1 <= vx_s1@.len(), spaces(strs(vx_s1@).take(vx_i1 as int)) == Some(vx_o1@), vx_i1 == vx_s1@.len() ==> spaces(strs(vx_s1@)) == Some(vx_o1@), vx_p == split_s(value@, '-'), vx_t == dl_of(value@), vx_l == dl_loose(vx_p),
        forall|j: int| 0 <= j < vx_s1@.len() ==> ascii((#[trigger] vx_s1@[j])@),
        !vx_l && spaces(strs(vx_s1@)) is None ==> vx_t is None
    decreases vx_s1@.len() - vx_i1
@@loopstart 1
    proof {
        let q = strs(vx_s1@);
        assert(q.take(vx_i1 + 1).drop_last() =~= q.take(vx_i1 as int));
        assert(q.take(vx_i1 + 1).last() == vx_s1@[vx_i1 as int]@);
        if vx_i1 + 1 == vx_s1@.len() { assert(q.take(vx_i1 + 1) =~= q); }
        if spaces(q.take(vx_i1 + 1)) is None { lemma_spaces_take(q, vx_i1 + 1); }
    }
@@loop 2
    invariant
        0 <= vx_i2 <= vx_s2@.len(), widths(strs(vx_s2@).take(vx_i2 as int)) == Some(vx_o2@), vx_i2 == vx_s2@.len() ==> widths(strs(vx_s2@)) == Some(vx_o2@), vx_p == split_s(value@, '-'), vx_t == dl_of(value@), vx_l == dl_loose(vx_p),
        !vx_l && widths(strs(vx_s2@)) is None ==> vx_t is None
    decreases vx_s2@.len() - vx_i2
@@loopstart 2
    proof {
        let q = strs(vx_s2@);
        assert(q.take(vx_i2 + 1).drop_last() =~= q.take(vx_i2 as int));
        assert(q.take(vx_i2 + 1).last() == vx_s2@[vx_i2 as int]@);
        if vx_i2 + 1 == vx_s2@.len() { assert(q.take(vx_i2 + 1) =~= q); }
        if widths(q.take(vx_i2 + 1)) is None { lemma_widths_take(q, vx_i2 + 1); }
    }
