@@source llvm-support/src/bitcodes.rs
@@enuminto TypeCode code_type_code
@@source llvm-mapper/src/block/type_table.rs
@@type TypeTableError
@@errfrom TypeTableError
@@type TypeRef
@@type PartialType
@@type PartialIntegerType
@@type PartialFunctionType
@@type PartialPointerType
@@type PartialStructType
@@type PartialArrayType
@@type PartialVectorType
@@type PartialTypeTable
@@type TypeTable
@@verbatim
// ---------------------------------------------------------------- types, as encoded
/// a type entry; its component types are indices into the table
pub enum ST {
    Prim(int),
    Int(u32),
    Ptr(int, AddressSpace),
    OPtr(AddressSpace),
    Fun(int, Seq<int>, bool),
    Struct(Option<Seq<char>>, Seq<int>, bool),
    Array(u64, int),
    Vector(u64, int, bool),
}
impl VxFrom<u64> for TypeRef { open spec fn vx_spec(a: u64) -> TypeRef { TypeRef(a as usize) } fn vx_conv(a: u64) -> (r: TypeRef) { TypeRef::from_u64(a) } }
impl VxFrom<usize> for TypeRef { open spec fn vx_spec(a: usize) -> TypeRef { TypeRef(a) } fn vx_conv(a: usize) -> (r: TypeRef) { TypeRef::from(a) } }
pub open spec fn refs(s: Seq<TypeRef>) -> Seq<int> { s.map_values(|r: TypeRef| r.0 as int) }
pub open spec fn name_of(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn pst(p: PartialType) -> ST {
    match p {
        PartialType::Void => ST::Prim(2), PartialType::Float => ST::Prim(3), PartialType::Double => ST::Prim(4), PartialType::Label => ST::Prim(5),
        PartialType::Half => ST::Prim(10), PartialType::X86Fp80 => ST::Prim(13), PartialType::Fp128 => ST::Prim(14), PartialType::PpcFp128 => ST::Prim(15),
        PartialType::Metadata => ST::Prim(16), PartialType::X86Mmx => ST::Prim(17), PartialType::Token => ST::Prim(22), PartialType::BFloat => ST::Prim(23),
        PartialType::X86Amx => ST::Prim(24),
        PartialType::Integer(x) => ST::Int(x.bit_width),
        PartialType::Pointer(x) => ST::Ptr(x.pointee.0 as int, x.address_space),
        PartialType::OpaquePointer(a) => ST::OPtr(a),
        PartialType::Function(x) => ST::Fun(x.return_type.0 as int, refs(x.param_types@), x.is_vararg),
        PartialType::Struct(x) => ST::Struct(name_of(x.name), refs(x.field_types@), x.is_packed),
        PartialType::Array(x) => ST::Array(x.num_elements, x.element_type.0 as int),
        PartialType::FixedVector(x) => ST::Vector(x.num_elements, x.element_type.0 as int, false),
        PartialType::ScalableVector(x) => ST::Vector(x.num_elements, x.element_type.0 as int, true),
    }
}
pub open spec fn tv(s: Seq<PartialType>) -> Seq<ST> { s.map_values(|p: PartialType| pst(p)) }

// LLVM's rules, on entries
pub open spec fn s_floating(c: int) -> bool { c == 3 || c == 4 || c == 10 || c == 13 || c == 14 || c == 15 || c == 23 }
/// void, label, metadata, token
pub open spec fn s_sized(s: ST) -> bool { s matches ST::Prim(c) ==> !(c == 2 || c == 5 || c == 16 || c == 22) }
pub open spec fn s_amx(s: ST) -> bool { s == ST::Prim(24) }
pub open spec fn s_pointee(s: ST) -> bool { s_sized(s) && !s_amx(s) }
pub open spec fn s_array_el(s: ST) -> bool { s_sized(s) && !s_amx(s) && !(s is Fun) && !(s matches ST::Vector(_, _, true)) }
pub open spec fn s_struct_el(s: ST) -> bool { s_sized(s) && !(s is Fun) }
pub open spec fn s_vector_el(s: ST) -> bool { match s { ST::Prim(c) => s_floating(c), ST::Int(_) => true, ST::Ptr(_, _) => true, ST::OPtr(_) => true, _ => false } }
pub open spec fn s_argument(s: ST) -> bool { !(s is Fun) && s != ST::Prim(2) }
pub open spec fn s_return(s: ST) -> bool { !(s is Fun) && s != ST::Prim(5) && s != ST::Prim(16) }

/// whether an entry of a table stands for a type, with at most n types nested below it
pub open spec fn ok(t: Seq<ST>, s: ST, n: nat) -> bool decreases n, 1int {
    match s {
        ST::Prim(_) => true,
        ST::OPtr(_) => true,
        ST::Int(w) => t_int_ok(w),
        ST::Ptr(r, _) => ref_ok(t, r, n) && s_pointee(t[r]),
        ST::Array(_, r) => ref_ok(t, r, n) && s_array_el(t[r]),
        ST::Vector(c, r, _) => ref_ok(t, r, n) && s_vector_el(t[r]) && c > 0,
        ST::Struct(_, rs, _) => refs_ok(t, rs, n) && struct_els(t, rs),
        ST::Fun(r, rs, _) => ref_ok(t, r, n) && s_return(t[r]) && refs_ok(t, rs, n) && arguments(t, rs),
    }
}
pub open spec fn ref_ok(t: Seq<ST>, r: int, n: nat) -> bool decreases n, 0int { n > 0 && 0 <= r < t.len() && ok(t, t[r], (n - 1) as nat) }
pub open spec fn refs_ok(t: Seq<ST>, rs: Seq<int>, n: nat) -> bool decreases n, 0int {
    forall|i: int| 0 <= i < rs.len() ==> n > 0 && 0 <= #[trigger] rs[i] < t.len() && ok(t, t[rs[i]], (n - 1) as nat)
}
pub open spec fn struct_els(t: Seq<ST>, rs: Seq<int>) -> bool { forall|i: int| 0 <= i < rs.len() ==> s_struct_el(t[#[trigger] rs[i]]) }
pub open spec fn arguments(t: Seq<ST>, rs: Seq<int>) -> bool { forall|i: int| 0 <= i < rs.len() ==> s_argument(t[#[trigger] rs[i]]) }
/// whether a type is the one that an entry of a table stands for
pub open spec fn is_ty(x: Type, t: Seq<ST>, s: ST, n: nat) -> bool decreases n, 1int {
    match (x, s) {
        (Type::Void, ST::Prim(c)) => c == 2, (Type::Float, ST::Prim(c)) => c == 3, (Type::Double, ST::Prim(c)) => c == 4, (Type::Label, ST::Prim(c)) => c == 5,
        (Type::Half, ST::Prim(c)) => c == 10, (Type::X86Fp80, ST::Prim(c)) => c == 13, (Type::Fp128, ST::Prim(c)) => c == 14, (Type::PpcFp128, ST::Prim(c)) => c == 15,
        (Type::Metadata, ST::Prim(c)) => c == 16, (Type::X86Mmx, ST::Prim(c)) => c == 17, (Type::Token, ST::Prim(c)) => c == 22, (Type::BFloat, ST::Prim(c)) => c == 23,
        (Type::X86Amx, ST::Prim(c)) => c == 24,
        (Type::Integer(y), ST::Int(w)) => y.bit_width == w,
        (Type::OpaquePointer(a), ST::OPtr(b)) => a == b,
        (Type::Pointer(y), ST::Ptr(r, a)) => y.address_space == a && ref_is(*y.pointee, t, r, n),
        (Type::Array(y), ST::Array(c, r)) => y.num_elements == c && ref_is(*y.element_type, t, r, n),
        (Type::FixedVector(y), ST::Vector(c, r, s)) => !s && y.num_elements == c && ref_is(*y.element_type, t, r, n),
        (Type::ScalableVector(y), ST::Vector(c, r, s)) => s && y.num_elements == c && ref_is(*y.element_type, t, r, n),
        (Type::Struct(y), ST::Struct(m, rs, p)) => name_of(y.name) == m && y.is_packed == p && refs_are(y.fields@, t, rs, n),
        (Type::Function(y), ST::Fun(r, rs, v)) => y.is_vararg == v && ref_is(*y.return_type, t, r, n) && refs_are(y.param_types@, t, rs, n),
        _ => false,
    }
}
pub open spec fn ref_is(x: Type, t: Seq<ST>, r: int, n: nat) -> bool decreases n, 0int { n > 0 && 0 <= r < t.len() && is_ty(x, t, t[r], (n - 1) as nat) }
pub open spec fn refs_are(x: Seq<Type>, t: Seq<ST>, rs: Seq<int>, n: nat) -> bool decreases n, 0int {
    x.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> n > 0 && 0 <= #[trigger] rs[i] < t.len() && is_ty(x[i], t, t[rs[i]], (n - 1) as nat)
}
pub proof fn lemma_kind(x: Type, t: Seq<ST>, s: ST, n: nat)
    requires is_ty(x, t, s, n)
    ensures t_pointee(x) == s_pointee(s), t_array_el(x) == s_array_el(s), t_struct_el(x) == s_struct_el(s), t_vector_el(x) == s_vector_el(s),
        t_argument(x) == s_argument(s), t_return(x) == s_return(s)
{}
pub open spec fn kinds_agree(x: Type, s: ST) -> bool {
    t_pointee(x) == s_pointee(s) && t_array_el(x) == s_array_el(s) && t_struct_el(x) == s_struct_el(s) && t_vector_el(x) == s_vector_el(s)
        && t_argument(x) == s_argument(s) && t_return(x) == s_return(s)
}
pub proof fn lemma_tv(s: Seq<PartialType>)
    ensures tv(Seq::<PartialType>::empty()) == Seq::<ST>::empty(), forall|p: PartialType| tv(#[trigger] s.push(p)) == tv(s).push(pst(p)), tv(s).len() == s.len()
{
    assert(tv(Seq::<PartialType>::empty()) =~= Seq::<ST>::empty());
    assert forall|p: PartialType| tv(#[trigger] s.push(p)) == tv(s).push(pst(p)) by { assert(tv(s.push(p)) =~= tv(s).push(pst(p))); }
}
pub proof fn lemma_ref(x: Type, t: Seq<ST>, r: int, n: nat)
    ensures ref_is(x, t, r, n) ==> 0 <= r < t.len() && kinds_agree(x, t[r])
{ if ref_is(x, t, r, n) { lemma_kind(x, t, t[r], (n - 1) as nat); } }
pub proof fn lemma_kinds(x: Seq<Type>, t: Seq<ST>, rs: Seq<int>, n: nat)
    requires refs_are(x, t, rs, n)
    ensures t_struct_ok(x) == struct_els(t, rs), t_params_ok(x) == arguments(t, rs),
{
    assert forall|i: int| 0 <= i < rs.len() implies kinds_agree(x[i], t[#[trigger] rs[i]]) by { lemma_kind(x[i], t, t[rs[i]], (n - 1) as nat); }
    let f = |y: Type| t_struct_el(y);
    let g = |y: Type| t_argument(y);
    if t_struct_ok(x) { assert forall|i: int| 0 <= i < rs.len() implies s_struct_el(t[#[trigger] rs[i]]) by { assert(f(x[i])); } }
    if t_params_ok(x) { assert forall|i: int| 0 <= i < rs.len() implies s_argument(t[#[trigger] rs[i]]) by { assert(g(x[i])); } }
    if struct_els(t, rs) { assert forall|i: int| 0 <= i < x.len() implies f(#[trigger] x[i]) by { assert(s_struct_el(t[rs[i]])); } }
    if arguments(t, rs) { assert forall|i: int| 0 <= i < x.len() implies g(#[trigger] x[i]) by { assert(s_argument(t[rs[i]])); } }
}
pub proof fn lemma_decode(f: Seq<u64>)
    ensures forall|s: Seq<char>| #[trigger] encode_utf8(s) == bytes(f) ==> s == decode_utf8(bytes(f))
{ assert forall|s: Seq<char>| #[trigger] encode_utf8(s) == bytes(f) implies s == decode_utf8(bytes(f)) by { encode_utf8_decode_utf8(s); } }

// ---------------------------------------------------------------- the records of a type block
pub struct TState { pub ts: Seq<ST>, pub name: Seq<char> }
pub open spec fn tpush(s: TState, x: ST) -> Option<TState> { Some(TState { ts: s.ts.push(x), name: s.name }) }
pub open spec fn ints(f: Seq<u64>) -> Seq<int> { f.map_values(|x: u64| (x as usize) as int) }
pub proof fn lemma_ints(f: Seq<u64>, i: int, o: Seq<TypeRef>)
    ensures ints(f.take(0)) == Seq::<int>::empty(), refs(Seq::<TypeRef>::empty()) == Seq::<int>::empty(), f.take(f.len() as int) == f,
        0 <= i < f.len() ==> ints(f.take(i + 1)) == ints(f.take(i)).push(f[i] as int),
        forall|x: TypeRef| refs(#[trigger] o.push(x)) == refs(o).push(x.0 as int)
{
    assert(ints(f.take(0)) =~= Seq::<int>::empty());
    assert(refs(Seq::<TypeRef>::empty()) =~= Seq::<int>::empty());
    assert(f.take(f.len() as int) =~= f);
    if 0 <= i < f.len() { assert(ints(f.take(i + 1)) =~= ints(f.take(i)).push(f[i] as int)); }
    assert forall|x: TypeRef| refs(#[trigger] o.push(x)) == refs(o).push(x.0 as int) by { assert(refs(o.push(x)) =~= refs(o).push(x.0 as int)); }
}
/// facts about the fields after the first ones
pub proof fn lemma_skip(f: Seq<u64>)
    ensures f.skip(0) == f,
        f.len() >= 1 ==> f.subrange(1, f.len() as int) == f.skip(1), f.len() >= 2 ==> f.subrange(2, f.len() as int) == f.skip(2),
        ints(f.skip(1).take(0)) == Seq::<int>::empty(), ints(f.skip(2).take(0)) == Seq::<int>::empty(), refs(Seq::<TypeRef>::empty()) == Seq::<int>::empty(),
        f.skip(1).take(f.skip(1).len() as int) == f.skip(1), f.skip(2).take(f.skip(2).len() as int) == f.skip(2),
{
    assert(f.skip(0) =~= f);
    if f.len() >= 1 { assert(f.subrange(1, f.len() as int) =~= f.skip(1)); }
    if f.len() >= 2 { assert(f.subrange(2, f.len() as int) =~= f.skip(2)); }
    assert(ints(f.skip(1).take(0)) =~= Seq::<int>::empty());
    assert(ints(f.skip(2).take(0)) =~= Seq::<int>::empty());
    assert(refs(Seq::<TypeRef>::empty()) =~= Seq::<int>::empty());
    assert(f.skip(1).take(f.skip(1).len() as int) =~= f.skip(1));
    assert(f.skip(2).take(f.skip(2).len() as int) =~= f.skip(2));
}
pub open spec fn space_ok(v: u64) -> bool { v <= 0x7f_ffff }
pub open spec fn is_prim(c: u64) -> bool { c == 2 || c == 3 || c == 4 || c == 5 || c == 10 || c == 13 || c == 14 || c == 15 || c == 16 || c == 17 || c == 22 || c == 23 || c == 24 }
pub open spec fn tstep(s: TState, r: Record) -> Option<TState> {
    let c = r.0.code;
    let f = r.0.fields@;
    if c == 1 { Some(s) }
    else if is_prim(c) { tpush(s, ST::Prim(c as int)) }
    else if c == 6 { if s.name.len() > 0 { Some(TState { ts: s.ts.push(ST::Struct(Some(s.name), Seq::empty(), false)), name: Seq::empty() }) } else { None } }
    else if c == 7 { if f.len() >= 1 && f[0] <= u32::MAX { tpush(s, ST::Int(f[0] as u32)) } else { None } }
    else if c == 8 { if f.len() >= 2 && space_ok(f[1]) { tpush(s, ST::Ptr(f[0] as int, AddressSpace(f[1] as u32))) } else { None } }
    else if c == 11 { if f.len() >= 2 { tpush(s, ST::Array(f[0], f[1] as int)) } else { None } }
    else if c == 12 { if f.len() >= 2 { tpush(s, ST::Vector(f[0], f[1] as int, f.len() >= 3 && f[2] > 0)) } else { None } }
    else if c == 18 { if f.len() >= 1 { tpush(s, ST::Struct(None, ints(f.skip(1)), f[0] > 0)) } else { None } }
    else if c == 19 { if tail_ok(f, 0) && valid_utf8(bytes(f)) { Some(TState { ts: s.ts, name: s.name + decode_utf8(bytes(f)) }) } else { None } }
    else if c == 20 { if f.len() >= 1 { Some(TState { ts: s.ts.push(ST::Struct(Some(s.name), ints(f.skip(1)), f[0] > 0)), name: Seq::empty() }) } else { None } }
    else if c == 21 { if f.len() >= 2 { tpush(s, ST::Fun(f[1] as int, ints(f.skip(2)), f[0] > 0)) } else { None } }
    else if c == 25 { if f.len() >= 1 && space_ok(f[0]) { tpush(s, ST::OPtr(AddressSpace(f[0] as u32))) } else { None } }
    else { None }
}
pub open spec fn table_of(rs: Seq<Record>) -> Option<TState> decreases rs.len() {
    if rs.len() == 0 { Some(TState { ts: Seq::empty(), name: Seq::empty() }) }
    else { match table_of(rs.drop_last()) { Some(s) => tstep(s, rs.last()), None => None } }
}
pub proof fn lemma_table_take(rs: Seq<Record>, k: int)
    ensures 0 <= k < rs.len() ==> table_of(rs.take(k + 1)) == (match table_of(rs.take(k)) { Some(s) => tstep(s, rs[k]), None => None }),
        0 <= k <= rs.len() && table_of(rs.take(k)) is None ==> table_of(rs) is None
    decreases rs.len() - k
{
    if 0 <= k < rs.len() { assert(rs.take(k + 1).drop_last() =~= rs.take(k)); lemma_table_take(rs, k + 1); }
    if k == rs.len() { assert(rs.take(k) =~= rs); }
}
/// the types nested below a type of the table: at most this many deep
pub open spec fn max_depth() -> nat { 256 }
pub open spec fn num_entries(b: Block) -> Option<u64> {
    match first_code(b, 1) { Some(r) => if r.0.fields@.len() > 0 { Some(r.0.fields@[0]) } else { None }, None => None }
}
/// the table that a type block stands for, if any
pub open spec fn type_block(b: Block) -> Option<Seq<ST>> {
    match (num_entries(b), table_of(b.records.0@)) {
        (Some(n), Some(s)) => if n == s.ts.len() && (forall|i: int| 0 <= i < s.ts.len() ==> ok(s.ts, #[trigger] s.ts[i], max_depth())) { Some(s.ts) } else { None },
        _ => None,
    }
}
pub open spec fn table_is(x: TypeTable, t: Seq<ST>) -> bool {
    x.0@.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> is_ty(#[trigger] x.0@[i], t, t[i], max_depth())
}
@@end
