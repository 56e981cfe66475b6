@@source llvm-mapper/src/map.rs
@@errfrom MapCtxError
@@type MapCtx
@@source llvm-mapper/src/record/alias.rs
@@type AliasError
@@errfrom AliasError
@@type Alias
@@source llvm-mapper/src/record/function.rs FunctionError=FunctionRecordError Function=FunctionRecord
@@type FunctionError
@@errfrom FunctionError
@@type Function
@@source llvm-mapper/src/block/vst.rs
@@verbatim
/// VstError has no variants yet, which Verus cannot declare
#[verifier::external_body]
pub struct VstError { x: () }
@@end
@@type ModuleStyleVst
@@type FunctionStyleVst
@@type Vst
@@verbatim
/// why a slice is not an array of a length
#[verifier::external_body]
pub struct TryFromSliceError { x: () }
/// <[u64; N]>::try_from
#[verifier::external_body]
pub fn vx_array<const N: usize>(s: &[u64]) -> (r: Result<[u64; N], TryFromSliceError>)
    ensures r.is_ok() == (s@.len() == N), r matches Ok(a) ==> a@ == s@
{ unimplemented!() }
@@end
@@source llvm-support/src/bitcodes.rs
@@enuminto FunctionCode code_function_code
@@source llvm-support/src/opcode.rs
@@type CastOp
@@source llvm-mapper/src/block/function/instruction.rs
@@type Instruction
@@source llvm-mapper/src/block/function/basic_block.rs
@@type BasicBlock
@@derives BasicBlock Default
@@verbatim
impl BasicBlock { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
@@end
@@source llvm-mapper/src/block/function/mod.rs Function=FunctionBlock FunctionError=FunctionBlockError
@@type FunctionError
@@errfrom FunctionError
@@type Function
@@source llvm-mapper/src/block/module.rs
@@type ModuleError
@@errfrom ModuleError
@@type Module
@@verbatim
/// &str as a String
pub uninterp spec fn string_of(a: &str) -> String;
pub broadcast axiom fn axiom_string_of(a: &str) ensures (#[trigger] string_of(a))@ == a@;
impl VxFrom<&str> for String {
    open spec fn vx_spec(a: &str) -> String { string_of(a) }
    #[verifier::external_body]
    fn vx_conv(a: &str) -> (r: String) { a.to_string() }
}
impl VxFrom<u64> for ThreadLocalMode { open spec fn vx_spec(a: u64) -> ThreadLocalMode { from_thread_local_mode(a) } fn vx_conv(a: u64) -> (r: ThreadLocalMode) { ThreadLocalMode::from(a) } }
impl VxFrom<u64> for UnnamedAddr { open spec fn vx_spec(a: u64) -> UnnamedAddr { from_unnamed_addr(a) } fn vx_conv(a: u64) -> (r: UnnamedAddr) { UnnamedAddr::from(a) } }
impl VxFrom<u64> for RuntimePreemption { open spec fn vx_spec(a: u64) -> RuntimePreemption { from_runtime_preemption(a) } fn vx_conv(a: u64) -> (r: RuntimePreemption) { RuntimePreemption::from(a) } }
impl VxFrom<u64> for Linkage { open spec fn vx_spec(a: u64) -> Linkage { from_linkage(a) } fn vx_conv(a: u64) -> (r: Linkage) { Linkage::from(a) } }
impl VxTryFrom<(&Block, ModuleStyleVst)> for Vst {
    type VxErr = VstError;
    open spec fn vx_trel(a: (&Block, ModuleStyleVst), r: Result<Vst, VstError>) -> bool { r.is_ok() }
    fn vx_tconv(a: (&Block, ModuleStyleVst)) -> (r: Result<Vst, VstError>) { Vst::try_from(a) }
}
pub open spec fn name_is(s: Seq<char>, t: Seq<u8>, r: Record) -> bool {
    encode_utf8(s) == t.subrange(r.0.fields@[0] as int, r.0.fields@[0] + r.0.fields@[1])
}
/// [strtab offset, strtab size, selection kind], under a string table
pub open spec fn comdat_ok(r: Record, t: Seq<u8>, version: Option<u64>) -> bool {
    let f = r.0.fields@;
    &&& version matches Some(v) && v >= 2
    &&& f.len() == 3
    &&& sref_ok(t, f[0] as int, f[1] as int)
    &&& 1 <= f[2] <= 5
}
pub open spec fn comdat_is(c: Comdat, r: Record, t: Seq<u8>) -> bool {
    name_is(c.name@, t, r) && code_selection_kind(c.selection_kind) == r.0.fields@[2]
}
/// what a function or alias record may refer to: the version, the string table, which types are function types, and the table sizes
pub struct MS { pub v: u64, pub strtab: Seq<u8>, pub fun: Seq<bool>, pub nattr: nat, pub nsec: nat, pub ngc: nat }
pub open spec fn funs(s: Seq<Type>) -> Seq<bool> { s.map_values(|x: Type| x is Function) }
pub open spec fn sfuns(s: Seq<ST>) -> Seq<bool> { s.map_values(|x: ST| x is Fun) }
impl<'a> MapCtx<'a> {
    pub open spec fn ms(&self) -> MS {
        MS { v: self.version, strtab: self.strtab.0@, fun: funs(self.type_table.0@), nattr: self.attributes.0@.len(), nsec: self.section_table@.len(), ngc: self.gc_table@.len() }
    }
}
pub proof fn lemma_funs(x: TypeTable, t: Seq<ST>)
    requires table_is(x, t)
    ensures funs(x.0@) == sfuns(t)
{
    assert forall|i: int| 0 <= i < t.len() implies funs(x.0@)[i] == sfuns(t)[i] by { assert(is_ty(x.0@[i], t, t[i], max_depth())); }
    assert(funs(x.0@) =~= sfuns(t));
}
/// an optional field
pub open spec fn opt(f: Seq<u64>, i: int, d: u64) -> u64 { if i < f.len() { f[i] } else { d } }
/// a 1-based index into a table of n entries, 0 for none
pub open spec fn slot_ok(i: u64, n: nat) -> bool { i <= n }
pub open spec fn slot_is(x: Option<&str>, i: u64, t: Seq<String>) -> bool {
    if i == 0 { x is None } else { x matches Some(s) && 0 < i <= t.len() && s@ == t[i - 1]@ }
}
/// [strtab offset, strtab size, type, address space, aliasee, linkage, visibility?, DLL storage class?, TLS mode?, unnamed_addr?, preemption?]
pub open spec fn alias_ok(r: Record, c: MS) -> bool {
    let f = r.0.fields@;
    &&& c.v >= 2
    &&& f.len() >= 6
    &&& sref_ok(c.strtab, f[0] as int, f[1] as int)
    &&& f[2] < c.fun.len()
    &&& known_visibility(opt(f, 6, 0))
    &&& known_dll_storage_class(opt(f, 7, 0))
}
pub open spec fn alias_is(a: Alias, r: Record, c: MapCtx) -> bool {
    let f = r.0.fields@;
    &&& name_is(a.name@, c.strtab.0@, r)
    &&& *a.ty == c.type_table.0@[f[2] as int]
    &&& a.value_index == f[4]
    &&& a.linkage == from_linkage(f[5])
    &&& code_visibility(a.visibility) == opt(f, 6, 0)
    &&& code_dll_storage_class(a.storage_class) == opt(f, 7, 0)
    &&& a.tls_mode == from_thread_local_mode(opt(f, 8, 0))
    &&& a.unnamed_addr == from_unnamed_addr(opt(f, 9, 0))
    &&& a.preemption_specifier == from_runtime_preemption(opt(f, 10, 0))
}
/// [strtab offset, strtab size, type, calling convention, is prototype, linkage, attributes, alignment, section, visibility, gc?, unnamed_addr?, -, DLL storage class?, ...]
pub open spec fn function_ok(r: Record, c: MS) -> bool {
    let f = r.0.fields@;
    &&& c.v >= 2
    &&& f.len() >= 10
    &&& sref_ok(c.strtab, f[0] as int, f[1] as int)
    &&& f[2] < c.fun.len()
    &&& c.fun[f[2] as int]
    &&& known_calling_convention(f[3])
    &&& f[6] <= c.nattr
    &&& f[7] <= 64
    &&& f[8] <= c.nsec
    &&& known_visibility(f[9])
    &&& opt(f, 10, 0) <= c.ngc
    &&& known_dll_storage_class(opt(f, 13, 0))
}
pub open spec fn function_is(x: FunctionRecord, r: Record, c: MapCtx) -> bool {
    let f = r.0.fields@;
    &&& name_is(x.name@, c.strtab.0@, r)
    &&& Type::Function(*x.ty) == c.type_table.0@[f[2] as int]
    &&& code_calling_convention(x.calling_convention) == f[3]
    &&& x.is_declaration == (f[4] != 0)
    &&& x.linkage == from_linkage(f[5])
    &&& (if f[6] == 0 { x.attributes is None } else { x.attributes matches Some(e) && *e == c.attributes.0@[f[6] - 1] })
    &&& x.alignment.0 == (if f[7] == 0 { None } else { Some(Align((f[7] - 1) as u8)) })
    &&& slot_is(x.section, f[8], c.section_table@)
    &&& code_visibility(x.visibility) == f[9]
    &&& slot_is(x.gc_name, opt(f, 10, 0), c.gc_table@)
    &&& x.unnamed_addr == from_unnamed_addr(opt(f, 11, 0))
    &&& code_dll_storage_class(x.storage_class) == opt(f, 13, 0)
}
/// the text of a record, if it is one
pub open spec fn text_of(r: Record) -> Option<Seq<char>> {
    let f = r.0.fields@;
    if tail_ok(f, 0) && valid_utf8(bytes(f)) { Some(decode_utf8(bytes(f))) } else { None }
}
pub proof fn lemma_text(f: Seq<u64>)
    ensures f.skip(0) == f, forall|s: Seq<char>| #[trigger] encode_utf8(s) == bytes(f) ==> s == decode_utf8(bytes(f))
{
    assert(f.skip(0) =~= f);
    lemma_decode(f);
}
/// the one record that a module may have of a code
pub proof fn lemma_texts(s: Seq<Record>)
    ensures s[0].0.fields@.skip(0) == s[0].0.fields@, forall|x: Seq<char>| #[trigger] encode_utf8(x) == bytes(s[0].0.fields@) ==> x == decode_utf8(bytes(s[0].0.fields@))
{
    lemma_text(s[0].0.fields@);
}
/// what the tables of a context say about what may refer to them
pub proof fn lemma_tables()
    ensures forall|x: TypeTable, t: Seq<ST>| #[trigger] table_is(x, t) ==> funs(x.0@) == sfuns(t),
        forall|g: Map<u32, AttributeGroup>, m: Map<u32, SGroup>| #[trigger] groups_are(g, m) ==> g.dom() == m.dom()
{
    assert forall|x: TypeTable, t: Seq<ST>| #[trigger] table_is(x, t) implies funs(x.0@) == sfuns(t) by { lemma_funs(x, t); }
    assert forall|g: Map<u32, AttributeGroup>, m: Map<u32, SGroup>| #[trigger] groups_are(g, m) implies g.dom() == m.dom() by { assert(g.dom() =~= m.dom()); }
}
/// data layouts whose parts have more fields than specified (see dl)
pub open spec fn text_loose(s: Seq<char>) -> bool { ascii(s) && s.len() > 0 && dl_loose(split_s(s, '-')) }
pub open spec fn record_loose(r: Record) -> bool { text_of(r) matches Some(s) && text_loose(s) }
pub open spec fn layout_of(r: Record) -> Option<DL> { match text_of(r) { Some(s) => dl_of(s), None => None } }
/// the records of a module with a code, and the blocks with an ID
pub open spec fn recs(b: Block, c: ModuleCode) -> Seq<Record> { with_code(b.records.0@, code_module_code(c) as u64) }
pub open spec fn subs(b: Block, id: IrBlockId) -> Seq<Block> { with_id(b.blocks, BlockId::Ir(id)) }
pub open spec fn texts(s: Seq<Record>) -> Seq<Option<Seq<char>>> { s.map_values(|r: Record| text_of(r)) }
pub open spec fn all_text(s: Seq<Record>) -> bool { text_upto(s, s.len() as int) }
pub open spec fn text_upto(s: Seq<Record>, n: int) -> bool { forall|i: int| 0 <= i < n ==> text_of(#[trigger] s[i]) is Some }
/// strings that are the texts of records
pub open spec fn texts_are(v: Seq<String>, s: Seq<Record>) -> bool { v.len() == s.len() && texts_upto(v, s, s.len() as int) }
pub open spec fn texts_upto(v: Seq<String>, s: Seq<Record>, n: int) -> bool { forall|i: int| #![trigger v[i]] #![trigger s[i]] 0 <= i < n ==> text_of(s[i]) == Some(v[i]@) }
pub open spec fn lines_upto(v: Seq<String>, s: Seq<Seq<char>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == s[i] }
pub open spec fn version_of(b: Block) -> Option<u64> {
    let r = recs(b, ModuleCode::Version);
    if r.len() == 1 && r[0].0.fields@.len() > 0 { Some(r[0].0.fields@[0]) } else { None }
}
/// what a module starts from: a string table, and the attribute groups and attributes already known
pub struct C0 { pub strtab: Seq<u8>, pub groups: Set<u32>, pub nattr: nat }
impl PartialMapCtx {
    pub open spec fn c0(&self) -> C0 { C0 { strtab: self.strtab.0@, groups: self.attribute_groups.0@.dom(), nattr: self.attributes.0@.len() } }
}
/// the groups that a module defines, or the ones already known
pub open spec fn group_ids(b: Block, c: C0) -> Set<u32> {
    let g = subs(b, IrBlockId::ParamAttrGroup);
    if g.len() == 0 { c.groups } else { match groups_of(g[0].records.0@) { Some(m) => m.dom(), None => Set::empty() } }
}
/// what the function and alias records of a module refer to
pub open spec fn module_ms(b: Block, c: C0) -> MS {
    let a = subs(b, IrBlockId::ParamAttr);
    MS {
        v: version_of(b)->Some_0, strtab: c.strtab, fun: sfuns(type_block(subs(b, IrBlockId::Type)[0])->Some_0),
        nattr: if a.len() == 0 { c.nattr } else { a[0].records.0@.len() },
        nsec: recs(b, ModuleCode::SectionName).len(), ngc: recs(b, ModuleCode::GcName).len(),
    }
}
pub open spec fn entries_fit(b: Block, g: Set<u32>) -> bool { forall|i: int| 0 <= i < b.records.0@.len() ==> entry_fits(#[trigger] b.records.0@[i], g) }
pub open spec fn comdats_ok(s: Seq<Record>, t: Seq<u8>, v: Option<u64>) -> bool { comdats_ok_upto(s, t, v, s.len() as int) }
pub open spec fn comdats_ok_upto(s: Seq<Record>, t: Seq<u8>, v: Option<u64>, n: int) -> bool { forall|i: int| 0 <= i < n ==> comdat_ok(#[trigger] s[i], t, v) }
pub open spec fn comdats_are(v: Seq<Comdat>, s: Seq<Record>, t: Seq<u8>) -> bool { v.len() == s.len() && comdats_upto(v, s, t, s.len() as int) }
pub open spec fn comdats_upto(v: Seq<Comdat>, s: Seq<Record>, t: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> comdat_is(#[trigger] v[i], s[i], t) }
pub open spec fn functions_ok(s: Seq<Record>, m: MS) -> bool { functions_upto(s, m, s.len() as int) }
pub open spec fn functions_upto(s: Seq<Record>, m: MS, n: int) -> bool { forall|i: int| 0 <= i < n ==> function_ok(#[trigger] s[i], m) }
pub open spec fn aliases_ok(s: Seq<Record>, m: MS) -> bool { aliases_upto(s, m, s.len() as int) }
pub open spec fn aliases_upto(s: Seq<Record>, m: MS, n: int) -> bool { forall|i: int| 0 <= i < n ==> alias_ok(#[trigger] s[i], m) }
/// a data layout whose verdict is not specified
pub open spec fn module_loose(b: Block) -> bool { let d = recs(b, ModuleCode::DataLayout); d.len() == 1 && record_loose(d[0]) }
pub open spec fn opt_text(s: Seq<Record>) -> bool { s.len() == 0 || s.len() == 1 && text_of(s[0]) is Some }
/// the tables of a module
pub open spec fn tables_ok(b: Block, c: C0) -> bool {
    let d = recs(b, ModuleCode::DataLayout);
    let g = subs(b, IrBlockId::ParamAttrGroup);
    let a = subs(b, IrBlockId::ParamAttr);
    &&& version_of(b) is Some
    &&& d.len() == 0 || d.len() == 1 && layout_of(d[0]) is Some
    &&& all_text(recs(b, ModuleCode::SectionName))
    &&& all_text(recs(b, ModuleCode::GcName))
    &&& subs(b, IrBlockId::Type).len() == 1
    &&& type_block(subs(b, IrBlockId::Type)[0]) is Some
    &&& subs(b, IrBlockId::ValueSymtab).len() == 1
    &&& g.len() == 0 || g.len() == 1 && groups_of(g[0].records.0@) is Some
    &&& a.len() == 0 || a.len() == 1 && entries_fit(a[0], group_ids(b, c))
    &&& comdats_ok(recs(b, ModuleCode::Comdat), c.strtab, version_of(b))
}
pub open spec fn module_ok(b: Block, c: C0) -> bool {
    &&& tables_ok(b, c)
    &&& opt_text(recs(b, ModuleCode::Triple))
    &&& opt_text(recs(b, ModuleCode::Asm))
    &&& all_text(recs(b, ModuleCode::DepLib))
    &&& functions_ok(recs(b, ModuleCode::Function), module_ms(b, c))
    &&& subs(b, IrBlockId::Function).len() == 0
    &&& aliases_ok(recs(b, ModuleCode::Alias), module_ms(b, c))
}
pub open spec fn lines_are(v: Seq<String>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && lines_upto(v, s, s.len() as int) }
pub open spec fn module_is(m: Module, b: Block) -> bool {
    let t = recs(b, ModuleCode::Triple);
    let a = recs(b, ModuleCode::Asm);
    &&& Some(m.triple@) == (if t.len() == 0 { Some(target_triple()) } else { text_of(t[0]) })
    &&& lines_are(m.asm@, if a.len() == 0 { Seq::empty() } else { split_s(text_of(a[0])->Some_0, '\n') })
    &&& texts_are(m.deplibs@, recs(b, ModuleCode::DepLib))
}
/// the context that a module leaves behind, but for its comdats
pub open spec fn tables_pre(x: PartialMapCtx, b: Block, c: PartialMapCtx) -> bool {
    let d = recs(b, ModuleCode::DataLayout);
    let g = subs(b, IrBlockId::ParamAttrGroup);
    let a = subs(b, IrBlockId::ParamAttr);
    &&& x.version == version_of(b)
    &&& x.strtab == c.strtab
    &&& if d.len() == 0 { x.datalayout == c.datalayout } else { record_loose(d[0]) || layout_of(d[0]) == Some(x.datalayout.dl()) }
    &&& texts_are(x.section_table@, recs(b, ModuleCode::SectionName))
    &&& texts_are(x.gc_table@, recs(b, ModuleCode::GcName))
    &&& x.type_table matches Some(y) && table_is(y, type_block(subs(b, IrBlockId::Type)[0])->Some_0)
    &&& if g.len() == 0 { x.attribute_groups == c.attribute_groups } else { groups_are(x.attribute_groups.0@, groups_of(g[0].records.0@)->Some_0) }
    &&& if a.len() == 0 { x.attributes == c.attributes } else { entries_are(x.attributes.0@, a[0].records.0@, x.attribute_groups) }
}
pub open spec fn tables_are(x: PartialMapCtx, b: Block, c: PartialMapCtx) -> bool { tables_pre(x, b, c) && comdats_are(x.comdats@, recs(b, ModuleCode::Comdat), c.strtab.0@) }
pub open spec fn entries_are(e: Seq<AttributeEntry>, s: Seq<Record>, g: AttributeGroups) -> bool { e.len() == s.len() && forall|i: int| 0 <= i < e.len() ==> entry_is(#[trigger] e[i], s[i], g) }
@@end
@@source llvm-support/src/bitcodes.rs
@@enuminto ModuleCode code_module_code
@@noinline const:TARGET_TRIPLE
@@verbatim
/// the target triple of the build
#[verifier::external_body]
pub exec const TARGET_TRIPLE: &'static str ensures TARGET_TRIPLE@ == target_triple() { "" }
pub uninterp spec fn target_triple() -> Seq<char>;
@@end
