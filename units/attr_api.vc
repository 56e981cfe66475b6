@@include enums_attr.vc
@@source llvm-mapper/src/block/attributes.rs
@@type AttributeError
@@errfrom AttributeError
@@type EnumAttribute #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives EnumAttribute Copy Clone PartialEq Eq
@@type UwTableVariant #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@enumtry UwTableVariant
    ensures r.is_ok() == (vx_p <= 2), r matches Ok(x) ==> (vx_p == 0 ==> x == UwTableVariant::None) && (vx_p == 1 ==> x == UwTableVariant::Sync) && (vx_p == 2 ==> x == UwTableVariant::Async)
@@type IntAttribute
@@type Attribute
@@type AttributeEntry
@@type Attributes
@@type AttributeGroupDisposition #[derive(Copy, Clone)]
@@type AttributeGroup
@@derives AttributeGroup Clone
@@type AttributeGroups
@@enumtry EnumAttribute
    ensures r.is_ok() == enum_id(vx_p as int), r matches Ok(x) ==> code_enum_attribute(x) == vx_p
@@source llvm-mapper/src/map.rs
@@type PartialMapCtx
@@verbatim
// ---------------------------------------------------------------- attributes, as encoded
pub enum SAttr { Enum(int), Int(int, u64), Str(Seq<u8>), Kv(Seq<u8>, Seq<u8>) }
pub open spec fn code_enum_attribute(x: EnumAttribute) -> int {
    match x {
        EnumAttribute::AlwaysInline => 2,
        EnumAttribute::ByVal => 3,
        EnumAttribute::InlineHint => 4,
        EnumAttribute::InReg => 5,
        EnumAttribute::MinSize => 6,
        EnumAttribute::Naked => 7,
        EnumAttribute::Nest => 8,
        EnumAttribute::NoAlias => 9,
        EnumAttribute::NoBuiltin => 10,
        EnumAttribute::NoCapture => 11,
        EnumAttribute::NoDuplicate => 12,
        EnumAttribute::NoImplicitFloat => 13,
        EnumAttribute::NoInline => 14,
        EnumAttribute::NonLazyBind => 15,
        EnumAttribute::NoRedZone => 16,
        EnumAttribute::NoReturn => 17,
        EnumAttribute::NoUnwind => 18,
        EnumAttribute::OptimizeForSize => 19,
        EnumAttribute::ReadNone => 20,
        EnumAttribute::ReadOnly => 21,
        EnumAttribute::Returned => 22,
        EnumAttribute::ReturnsTwice => 23,
        EnumAttribute::SExt => 24,
        EnumAttribute::StackProtect => 26,
        EnumAttribute::StackProtectReq => 27,
        EnumAttribute::StackProtectStrong => 28,
        EnumAttribute::StructRet => 29,
        EnumAttribute::SanitizeAddress => 30,
        EnumAttribute::SanitizeThread => 31,
        EnumAttribute::SanitizeMemory => 32,
        EnumAttribute::UwTable => 33,
        EnumAttribute::ZExt => 34,
        EnumAttribute::Builtin => 35,
        EnumAttribute::Cold => 36,
        EnumAttribute::OptimizeNone => 37,
        EnumAttribute::InAlloca => 38,
        EnumAttribute::NonNull => 39,
        EnumAttribute::JumpTable => 40,
        EnumAttribute::Convergent => 43,
        EnumAttribute::SafeStack => 44,
        EnumAttribute::ArgMemOnly => 45,
        EnumAttribute::SwiftSelf => 46,
        EnumAttribute::SwiftError => 47,
        EnumAttribute::NoRecurse => 48,
        EnumAttribute::InaccessiblememOnly => 49,
        EnumAttribute::InaccessiblememOrArgmemonly => 50,
        EnumAttribute::WriteOnly => 52,
        EnumAttribute::Speculatable => 53,
        EnumAttribute::StrictFp => 54,
        EnumAttribute::SanitizeHwAddress => 55,
        EnumAttribute::NoCfCheck => 56,
        EnumAttribute::OptForFuzzing => 57,
        EnumAttribute::Shadowcallstack => 58,
        EnumAttribute::SpeculativeLoadHardening => 59,
        EnumAttribute::ImmArg => 60,
        EnumAttribute::WillReturn => 61,
        EnumAttribute::NoFree => 62,
        EnumAttribute::NoSync => 63,
        EnumAttribute::SanitizeMemtag => 64,
        EnumAttribute::Preallocated => 65,
        EnumAttribute::NoMerge => 66,
        EnumAttribute::NullPointerIsValid => 67,
        EnumAttribute::NoUndef => 68,
        EnumAttribute::ByRef => 69,
        EnumAttribute::MustProgress => 70,
        EnumAttribute::NoCallback => 71,
        EnumAttribute::Hot => 72,
        EnumAttribute::NoProfile => 73,
        EnumAttribute::SwiftAsync => 75,
        EnumAttribute::NoSanitizeCoverage => 76,
        EnumAttribute::ElementType => 77,
        EnumAttribute::DisableSanitizerInstrumentation => 78,
        EnumAttribute::AllocAlign => 80,
        EnumAttribute::AllocatedPointer => 81,
        EnumAttribute::PresplitCoroutine => 83,
        EnumAttribute::FnretthunkExtern => 84,
        EnumAttribute::SkipProfile => 85,
        EnumAttribute::NoSanitizeBounds => 79,
        _ => -1,
    }
}
/// the attributes that are a flag, and those that carry an integer (uwtable is both)
pub open spec fn int_id(id: int) -> bool { id == 1 || id == 25 || id == 33 || id == 41 || id == 42 || id == 51 || id == 74 || id == 82 || id == 86 }
pub open spec fn enum_id(id: int) -> bool { 1 <= id <= 86 && (!int_id(id) || id == 33) }
pub open spec fn int_ok(id: int, v: u64) -> bool {
    if id == 1 || id == 25 { v == 0 || bytes_align(v as int) is Some }
    else if id == 33 { v <= 2 }
    else if id == 51 { v != 0 }
    else { int_id(id) }
}
pub open spec fn align_of(v: u64) -> MaybeAlign { MaybeAlign(if v == 0 { None } else { bytes_align(v as int) }) }
pub open spec fn int_is(a: IntAttribute, id: int, v: u64) -> bool {
    match a {
        IntAttribute::Alignment(m) => id == 1 && m == align_of(v),
        IntAttribute::StackAlignment(m) => id == 25 && m == align_of(v),
        IntAttribute::UwTable(t) => id == 33 && v == (match t { UwTableVariant::None => 0int, UwTableVariant::Sync => 1, UwTableVariant::Async => 2 }),
        IntAttribute::Dereferenceable(x) => id == 41 && x == v,
        IntAttribute::DereferenceableOrNull(x) => id == 42 && x == v,
        IntAttribute::AllocSize(e, n) => id == 51 && e == v / 0x1_0000_0000 && n == (if v % 0x1_0000_0000 == 0xffff_ffff { None } else { Some((v % 0x1_0000_0000) as u32) }),
        IntAttribute::VScaleRange(a, b) => id == 74 && a == v / 0x1_0000_0000 && b == v % 0x1_0000_0000,
        IntAttribute::AllocKind(x) => id == 82 && x == v,
        IntAttribute::MemoryKind(x) => id == 86 && x == v,
    }
}
pub open spec fn attr_is(a: Attribute, s: SAttr) -> bool {
    match (a, s) {
        (Attribute::Enum(e), SAttr::Enum(id)) => code_enum_attribute(e) == id,
        (Attribute::Int(i), SAttr::Int(id, v)) => int_is(i, id, v),
        (Attribute::Str(x), SAttr::Str(y)) => encode_utf8(x@) == y,
        (Attribute::StrKeyValue(k, v), SAttr::Kv(x, y)) => encode_utf8(k@) == x && encode_utf8(v@) == y,
        _ => false,
    }
}
pub open spec fn attrs_are(a: Seq<Attribute>, s: Seq<SAttr>) -> bool { a.len() == s.len() && forall|i: int| 0 <= i < a.len() ==> attr_is(#[trigger] a[i], s[i]) }
/// where the first zero is (or the end)
pub open spec fn zero_is(f: Seq<u64>, i: int, z: int) -> bool { i <= z <= f.len() && (forall|j: int| i <= j < z ==> #[trigger] f[j] != 0) && (z < f.len() ==> f[z] == 0) }
/// the NUL-terminated string that starts at a field, and the field after it
pub open spec fn str_at(f: Seq<u64>, i: int) -> Option<(int, Seq<u8>)> {
    if exists|z: int| zero_is(f, i, z) {
        let z = choose|z: int| zero_is(f, i, z);
        let s = f.subrange(i, z);
        if i < z < f.len() && all_bytes(s) && valid_utf8(bytes(s)) { Some((z + 1, bytes(s))) } else { None }
    } else { None }
}
pub proof fn lemma_zero(f: Seq<u64>, i: int, z: int)
    requires zero_is(f, i, z)
    ensures str_at(f, i) == (if i < z < f.len() && all_bytes(f.subrange(i, z)) && valid_utf8(bytes(f.subrange(i, z))) { Some((z + 1, bytes(f.subrange(i, z)))) } else { None })
{
    let y = choose|z: int| zero_is(f, i, z);
    assert(zero_is(f, i, y));
    if y < z { assert(f[y] != 0); }
    if z < y { assert(f[z] != 0); }
}
/// a scan for the end of a string: nothing zero so far
pub proof fn lemma_str_scan(f: Seq<u64>, p: int, i: int)
    requires 0 <= p, 0 <= i, p + i <= f.len(), forall|j: int| p <= j < p + i ==> #[trigger] f[j] != 0, all_bytes(f.subrange(p, p + i))
    ensures
        p + i == f.len() ==> str_at(f, p) is None,
        p + i < f.len() && f[p + i] == 0 ==> str_at(f, p) == (if i > 0 && valid_utf8(bytes(f.subrange(p, p + i))) { Some((p + i + 1, bytes(f.subrange(p, p + i)))) } else { None }),
        p + i < f.len() && f[p + i] > 255 ==> str_at(f, p) is None,
        p + i < f.len() && f[p + i] <= 255 ==> all_bytes(f.subrange(p, p + i + 1)),
        p + i < f.len() ==> bytes(f.subrange(p, p + i + 1)) == bytes(f.subrange(p, p + i)).push(f[p + i] as u8),
{
    if p + i == f.len() || f[p + i] == 0 { lemma_zero(f, p, p + i); }
    if p + i < f.len() {
        assert(bytes(f.subrange(p, p + i + 1)) =~= bytes(f.subrange(p, p + i)).push(f[p + i] as u8));
        if f[p + i] <= 255 {
            assert forall|j: int| 0 <= j < i + 1 implies #[trigger] f.subrange(p, p + i + 1)[j] <= 255 by { if j < i { assert(f.subrange(p, p + i)[j] <= 255); } }
        } else {
            lemma_has_zero(f, p);
            let z = choose|z: int| zero_is(f, p, z);
            assert(zero_is(f, p, z));
            if z < p + i { assert(f[z] != 0); }
            assert(z > p + i) by { if z == p + i { assert(f[z] == 0); } }
            assert(f.subrange(p, z)[i] == f[p + i]);
        }
    }
}
pub proof fn lemma_has_zero(f: Seq<u64>, p: int)
    requires 0 <= p <= f.len()
    ensures exists|z: int| zero_is(f, p, z)
    decreases f.len() - p
{
    if p == f.len() || f[p] == 0 { assert(zero_is(f, p, p)); }
    else { let q = p + 1; lemma_has_zero(f, q); let z = choose|z: int| zero_is(f, q, z); assert(zero_is(f, p, z)); }
}
/// the attribute that starts at a field, and the field after it
pub open spec fn attr_at(f: Seq<u64>, i: int) -> Option<(int, SAttr)> {
    if i < 0 || i + 1 >= f.len() { None }
    else if f[i] == 0 { if enum_id(f[i + 1] as int) { Some((i + 2, SAttr::Enum(f[i + 1] as int))) } else { None } }
    else if f[i] == 1 { if i + 2 < f.len() && int_ok(f[i + 1] as int, f[i + 2]) { Some((i + 3, SAttr::Int(f[i + 1] as int, f[i + 2]))) } else { None } }
    else if f[i] == 3 { match str_at(f, i + 1) { Some((j, k)) => Some((j, SAttr::Str(k))), None => None } }
    else if f[i] == 4 {
        match str_at(f, i + 1) {
            Some((j, k)) => match str_at(f, j) { Some((l, v)) => Some((l, SAttr::Kv(k, v))), None => None },
            None => None,
        }
    }
    else { None }
}
pub open spec fn attrs_at(f: Seq<u64>, i: int) -> Option<Seq<SAttr>> decreases f.len() - i {
    if i == f.len() { Some(Seq::empty()) }
    else {
        match attr_at(f, i) {
            Some((j, a)) => if i < j <= f.len() { match attrs_at(f, j) { Some(s) => Some(seq![a] + s), None => None } } else { None },
            None => None,
        }
    }
}
pub open spec fn then(a: Seq<SAttr>, b: Option<Seq<SAttr>>) -> Option<Seq<SAttr>> { match b { Some(s) => Some(a + s), None => None } }
pub open spec fn disp_of(v: u64) -> AttributeGroupDisposition {
    if v == 0 { AttributeGroupDisposition::Return } else if v == 0xffff_ffff { AttributeGroupDisposition::Function } else { AttributeGroupDisposition::Parameter(v as u32) }
}
pub struct SGroup { pub disp: AttributeGroupDisposition, pub attrs: Seq<SAttr> }
pub open spec fn group_is(g: AttributeGroup, s: SGroup) -> bool { g.disposition == s.disp && attrs_are(g.attributes@, s.attrs) }
/// a group record: its ID and its group
pub open spec fn group_of(r: Record) -> Option<(u32, SGroup)> {
    let f = r.0.fields@;
    if r.0.code == 3 && f.len() >= 3 && f[0] <= u32::MAX && f[1] <= u32::MAX {
        match attrs_at(f, 2) { Some(a) => Some((f[0] as u32, SGroup { disp: disp_of(f[1]), attrs: a })), None => None }
    } else { None }
}
/// all the groups, by ID (the last one with an ID counts)
pub open spec fn groups_of(s: Seq<Record>) -> Option<Map<u32, SGroup>> decreases s.len() {
    if s.len() == 0 { Some(Map::empty()) }
    else { match (groups_of(s.drop_last()), group_of(s.last())) { (Some(m), Some((id, g))) => Some(m.insert(id, g)), _ => None } }
}
pub open spec fn groups_are(g: Map<u32, AttributeGroup>, m: Map<u32, SGroup>) -> bool {
    g.dom() == m.dom() && forall|k: u32| m.dom().contains(k) ==> group_is(#[trigger] g[k], m[k])
}
pub open spec fn no_attrs(f: Seq<u64>) -> Seq<Attribute> { Seq::empty() }
pub proof fn lemma_attr_bounds(f: Seq<u64>, i: int)
    requires 0 <= i
    ensures attr_at(f, i) matches Some((j, a)) ==> i < j <= f.len()
{
    if i + 1 < f.len() {
        let q = i + 1;
        lemma_has_zero(f, q);
        lemma_zero(f, q, choose|z: int| zero_is(f, q, z));
        if let Some((j, k)) = str_at(f, i + 1) {
            if j <= f.len() { lemma_has_zero(f, j); lemma_zero(f, j, choose|z: int| zero_is(f, j, z)); }
        }
    }
}
/// after n attributes: the next field and the attributes so far
pub open spec fn consumed(f: Seq<u64>, n: nat) -> Option<(int, Seq<SAttr>)> decreases n {
    if n == 0 { Some((2, Seq::empty())) } else {
        match consumed(f, (n - 1) as nat) {
            Some((p, s)) => match attr_at(f, p) { Some((j, a)) => Some((j, s.push(a))), None => None },
            None => None,
        }
    }
}
pub open spec fn at_attr(f: Seq<u64>, attrs: Seq<Attribute>, pos: int) -> bool {
    match consumed(f, attrs.len()) {
        Some((p, s)) => 2 <= p == pos <= f.len() && attrs_are(attrs, s) && attrs_at(f, 2) == then(s, attrs_at(f, p)),
        None => false,
    }
}
pub proof fn lemma_attr_step(f: Seq<u64>, attrs: Seq<Attribute>, pos: int)
    requires at_attr(f, attrs, pos)
    ensures
        pos == f.len() ==> (attrs_at(f, 2) matches Some(s) && attrs_are(attrs, s)),
        pos < f.len() && attr_at(f, pos) is None ==> attrs_at(f, 2) is None,
        forall|x: Attribute| pos < f.len() && (attr_at(f, pos) matches Some((j, a)) && attr_is(x, a)) ==> at_attr(f, #[trigger] attrs.push(x), (attr_at(f, pos)->Some_0).0),
{
    let (p, s) = consumed(f, attrs.len())->Some_0;
    if pos == f.len() { assert(s + Seq::<SAttr>::empty() =~= s); }
    else {
        lemma_attr_bounds(f, pos);
        if let Some((j, a)) = attr_at(f, pos) {
            if let Some(r) = attrs_at(f, j) { assert(s + (seq![a] + r) =~= s.push(a) + r); }
            assert forall|x: Attribute| attr_is(x, a) implies at_attr(f, #[trigger] attrs.push(x), j) by {
                assert(consumed(f, attrs.len()) == Some((p, s)));
                assert(attrs.push(x).len() - 1 == attrs.len());
                assert(consumed(f, attrs.push(x).len()) == Some((j, s.push(a))));
                assert forall|i: int| 0 <= i < attrs.push(x).len() implies attr_is(#[trigger] attrs.push(x)[i], s.push(a)[i]) by {
                    if i < attrs.len() { assert(attr_is(attrs[i], s[i])); }
                }
            }
        }
    }
}
pub proof fn lemma_groups_take(s: Seq<Record>, k: int)
    ensures 0 <= k < s.len() ==> groups_of(s.take(k + 1)) == (match (groups_of(s.take(k)), group_of(s[k])) { (Some(m), Some((id, g))) => Some(m.insert(id, g)), _ => None }),
        0 <= k <= s.len() && groups_of(s.take(k)) is None ==> groups_of(s) is None
    decreases s.len() - k
{
    if 0 <= k < s.len() { assert(s.take(k + 1).drop_last() =~= s.take(k)); lemma_groups_take(s, k + 1); }
    if k == s.len() { assert(s.take(k) =~= s); }
}
/// an entry record: copies of the groups it lists
pub open spec fn entry_fits(r: Record, g: Set<u32>) -> bool {
    r.0.code == 2 && forall|i: int| 0 <= i < r.0.fields@.len() ==> (#[trigger] r.0.fields@[i]) <= u32::MAX && g.contains(r.0.fields@[i] as u32)
}
pub open spec fn entry_ok(r: Record, g: AttributeGroups) -> bool { entry_fits(r, g.0@.dom()) }
pub open spec fn same_group(a: AttributeGroup, b: AttributeGroup) -> bool { forall|s: SGroup| group_is(b, s) ==> group_is(a, s) }
pub open spec fn entry_is(e: AttributeEntry, r: Record, g: AttributeGroups) -> bool {
    e.0@.len() == r.0.fields@.len() && forall|i: int| 0 <= i < e.0@.len() ==> same_group(#[trigger] e.0@[i], g.0@[r.0.fields@[i] as u32])
}
impl VxTryFrom<u64> for EnumAttribute {
    type VxErr = TryFromPrimitiveError<EnumAttribute>;
    open spec fn vx_trel(a: u64, r: Result<EnumAttribute, TryFromPrimitiveError<EnumAttribute>>) -> bool { r.is_ok() == enum_id(a as int) && (r matches Ok(x) ==> code_enum_attribute(x) == a) }
    fn vx_tconv(a: u64) -> (r: Result<EnumAttribute, TryFromPrimitiveError<EnumAttribute>>) { EnumAttribute::try_from(a) }
}
impl VxTryFrom<AttributeId> for EnumAttribute {
    type VxErr = AttributeError;
    open spec fn vx_trel(a: AttributeId, r: Result<EnumAttribute, AttributeError>) -> bool { r.is_ok() == enum_id(code_attribute_id(a)) && (r matches Ok(x) ==> code_enum_attribute(x) == code_attribute_id(a)) }
    fn vx_tconv(a: AttributeId) -> (r: Result<EnumAttribute, AttributeError>) { EnumAttribute::from_id(a) }
}
impl VxTryFrom<(AttributeId, u64)> for IntAttribute {
    type VxErr = AttributeError;
    open spec fn vx_trel(a: (AttributeId, u64), r: Result<IntAttribute, AttributeError>) -> bool { r.is_ok() == int_ok(code_attribute_id(a.0), a.1) && (r matches Ok(x) ==> int_is(x, code_attribute_id(a.0), a.1)) }
    fn vx_tconv(a: (AttributeId, u64)) -> (r: Result<IntAttribute, AttributeError>) { IntAttribute::try_from(a) }
}
impl AttributeGroup {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures same_group(r, *self) { unimplemented!() }
}
@@end
