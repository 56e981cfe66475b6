@@source llvm-support/src/align.rs
@@type Align #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives Align Copy Clone PartialEq Eq PartialOrd Ord
@@type AlignError
@@errfrom AlignError
@@type MaybeAlign #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@type AlignedTypeWidth #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AlignedTypeWidth Copy Clone PartialEq Eq PartialOrd Ord
@@type AlignedTypeWidthError
@@errfrom AlignedTypeWidthError
@@type AlignedType #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AlignedType Copy Clone PartialEq Eq
@@type AlignSpecError
@@errfrom AlignSpecError
@@type TypeAlignSpec #[derive(Copy, Clone, Eq)]
@@derives TypeAlignSpec Copy Clone
@@type TypeAlignSpecs
@@type AddressSpaceError
@@errfrom AddressSpaceError
@@type AddressSpace #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives AddressSpace Copy Clone PartialEq Eq PartialOrd Ord Default
@@type PointerAlignSpec #[derive(Copy, Clone, PartialEq, Eq, Structural)]
@@derives PointerAlignSpec Copy Clone PartialEq Eq
@@type PointerAlignSpecs
@@type FunctionPointerAlign
@@verbatim
use std::cmp::Ordering;
use vstd::arithmetic::power2::*;

pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub fn vx_ord(a: u32, b: u32) -> (r: Ordering) ensures r == ord(a as int, b as int) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

// the derived orders of the one-field newtypes (their derives are checked on every run)
impl PartialOrd for Align { fn partial_cmp(&self, o: &Align) -> (r: Option<Ordering>) { Some(vx_ord(self.0 as u32, o.0 as u32)) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Align {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Align) -> Option<Ordering> { Some(ord(self.0 as int, o.0 as int)) }
}
impl PartialOrd for AlignedTypeWidth { fn partial_cmp(&self, o: &AlignedTypeWidth) -> (r: Option<Ordering>) { Some(vx_ord(self.0, o.0)) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for AlignedTypeWidth {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &AlignedTypeWidth) -> Option<Ordering> { Some(ord(self.0 as int, o.0 as int)) }
}
impl PartialOrd for AddressSpace { fn partial_cmp(&self, o: &AddressSpace) -> (r: Option<Ordering>) { Some(vx_ord(self.0, o.0)) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for AddressSpace {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &AddressSpace) -> Option<Ordering> { Some(ord(self.0 as int, o.0 as int)) }
}
impl Align { pub fn cmp(&self, o: &Align) -> (r: Ordering) ensures r == ord(self.0 as int, o.0 as int) { vx_ord(self.0 as u32, o.0 as u32) } }
impl AlignedTypeWidth { pub fn cmp(&self, o: &AlignedTypeWidth) -> (r: Ordering) ensures r == ord(self.0 as int, o.0 as int) { vx_ord(self.0, o.0) } }
impl AddressSpace {
    pub fn cmp(&self, o: &AddressSpace) -> (r: Ordering) ensures r == ord(self.0 as int, o.0 as int) { vx_ord(self.0, o.0) }
    pub fn default() -> (r: AddressSpace) ensures r.0 == 0 { AddressSpace(0) }
}
// the hand-written orders and equality: the trait methods are the extracted functions
impl PartialOrd for AlignedType { fn partial_cmp(&self, o: &AlignedType) -> (r: Option<Ordering>) { self.vx_partial_cmp(o) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for AlignedType {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &AlignedType) -> Option<Ordering> { Some(ord(tkey(*self), tkey(*o))) }
}
impl PartialOrd for TypeAlignSpec { fn partial_cmp(&self, o: &TypeAlignSpec) -> (r: Option<Ordering>) { self.vx_partial_cmp(o) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for TypeAlignSpec {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &TypeAlignSpec) -> Option<Ordering> { Some(ord(tkey(self.aligned_type), tkey(o.aligned_type))) }
}
impl PartialEq for TypeAlignSpec { fn eq(&self, o: &TypeAlignSpec) -> (r: bool) { self.vx_eq(o) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeAlignSpec {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TypeAlignSpec) -> bool { self.aligned_type == o.aligned_type }
}
impl PartialOrd for PointerAlignSpec { fn partial_cmp(&self, o: &PointerAlignSpec) -> (r: Option<Ordering>) { self.vx_partial_cmp(o) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for PointerAlignSpec {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &PointerAlignSpec) -> Option<Ordering> { Some(ord(self.address_space.0 as int, o.address_space.0 as int)) }
}
// ---------------------------------------------------------------- specification
pub open spec fn pow2k(b: int, k: u8) -> bool { k < 64 && b == pow2(k as nat) }
/// the alignment of b bytes
pub open spec fn bytes_align(b: int) -> Option<Align> {
    if exists|k: u8| pow2k(b, k) { Some(Align(choose|k: u8| pow2k(b, k))) } else { None }
}
/// the alignment of b bits
pub open spec fn bits_align(b: int) -> Option<Align> { if b % 8 == 0 { bytes_align(b / 8) } else { None } }
pub proof fn lemma_bytes_align(b: int, k: u8)
    requires pow2k(b, k)
    ensures bytes_align(b) == Some(Align(k))
{
    let c = choose|k: u8| pow2k(b, k);
    assert(pow2k(b, c));
    if c < k { lemma_pow2_strictly_increases(c as nat, k as nat); }
    if k < c { lemma_pow2_strictly_increases(k as nat, c as nat); }
}
pub proof fn lemma_shl_pow2(k: u8)
    requires k < 64
    ensures 1u64 << k == pow2(k as nat), pow2k((1u64 << k) as int, k)
{
    lemma_pow2_pos(k as nat);
    vstd::bits::lemma_u64_pow2_no_overflow(k as nat);
    vstd::bits::lemma_u64_shl_is_mul(1, k as u64);
    assert(1u64 << k == 1u64 << (k as u64)) by (bit_vector);
}
pub proof fn lemma_pow2_and(v: u64, k: u8)
    requires pow2k(v as int, k)
    ensures v > 0, v & ((v - 1) as u64) == 0
{
    lemma_shl_pow2(k);
    assert(k < 64 && v == 1u64 << k ==> v > 0 && v & ((v - 1) as u64) == 0) by (bit_vector);
}
/// the order of alignable types: aggregate, float, integer, vector, then width
pub open spec fn tkey(t: AlignedType) -> int {
    match t { AlignedType::Aggregate => 0, AlignedType::Float(w) => 0x1_0000_0000 + w.0, AlignedType::Integer(w) => 0x2_0000_0000 + w.0, AlignedType::Vector(w) => 0x3_0000_0000 + w.0 }
}
impl Align { pub open spec fn wf(&self) -> bool { self.0 <= 63 } }
impl AlignedTypeWidth { pub open spec fn wf(&self) -> bool { 1 <= self.0 <= 0x7f_ffff } }
impl AlignedType { pub open spec fn wf(&self) -> bool { match self { AlignedType::Aggregate => true, AlignedType::Float(w) => w.wf(), AlignedType::Integer(w) => w.wf(), AlignedType::Vector(w) => w.wf() } } }
impl AddressSpace { pub open spec fn wf(&self) -> bool { self.0 <= 0x7f_ffff } }
impl TypeAlignSpec { pub open spec fn wf(&self) -> bool { self.abi_alignment.0 <= self.preferred_alignment.0 <= 15 } }
impl PointerAlignSpec { pub open spec fn wf(&self) -> bool { self.abi_alignment.0 <= self.preferred_alignment.0 } }
pub open spec fn mk_type(t: AlignedType, abi: Align, pref: Align) -> Option<TypeAlignSpec> {
    if abi.0 <= pref.0 <= 15 { Some(TypeAlignSpec { aligned_type: t, abi_alignment: abi, preferred_alignment: pref }) } else { None }
}
pub open spec fn mk_ptr(a: AddressSpace, abi: Align, pref: Align, size: u64, idx: u64) -> Option<PointerAlignSpec> {
    if abi.0 <= pref.0 { Some(PointerAlignSpec { address_space: a, abi_alignment: abi, preferred_alignment: pref, pointer_size: size, index_size: idx }) } else { None }
}
impl TypeAlignSpecs { pub open spec fn sorted(&self) -> bool { type_sorted(self.0@) } }
impl PointerAlignSpecs { pub open spec fn sorted(&self) -> bool { ptr_sorted(self.0@) } }
pub open spec fn type_sorted(s: Seq<TypeAlignSpec>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tkey((#[trigger] s[i]).aligned_type) < tkey((#[trigger] s[j]).aligned_type) }
/// f is o with x as the only entry for x's key, and every other entry as before
pub open spec fn type_rel(o: Seq<TypeAlignSpec>, x: TypeAlignSpec, f: Seq<TypeAlignSpec>) -> bool {
    type_sorted(f) && forall|y: TypeAlignSpec| #[trigger] f.contains(y) <==> (y == x || (o.contains(y) && tkey(y.aligned_type) != tkey(x.aligned_type)))
}
pub open spec fn type_upd(o: Seq<TypeAlignSpec>, x: TypeAlignSpec) -> Seq<TypeAlignSpec> { choose|f: Seq<TypeAlignSpec>| type_rel(o, x, f) }
pub broadcast proof fn type_ins(o: Seq<TypeAlignSpec>, k: int, x: TypeAlignSpec)
    requires type_sorted(o), 0 <= k <= o.len(), forall|j: int| 0 <= j < k ==> tkey((#[trigger] o[j]).aligned_type) < tkey(x.aligned_type), forall|j: int| k <= j < o.len() ==> tkey((#[trigger] o[j]).aligned_type) > tkey(x.aligned_type)
    ensures type_rel(o, x, #[trigger] o.insert(k, x))
{
    let f = o.insert(k, x);
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies tkey((#[trigger] f[i]).aligned_type) < tkey((#[trigger] f[j]).aligned_type) by {
        if i < k { assert(f[i] == o[i]); } else if i > k { assert(f[i] == o[i - 1]); }
        if j < k { assert(f[j] == o[j]); } else if j > k { assert(f[j] == o[j - 1]); }
    }
    assert forall|y: TypeAlignSpec| #[trigger] f.contains(y) <==> (y == x || (o.contains(y) && tkey(y.aligned_type) != tkey(x.aligned_type))) by {
        if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; if i < k { assert(o[i] == y); } else if i > k { assert(o[i - 1] == y); } }
        if y == x { assert(f[k] == y); }
        if o.contains(y) && tkey(y.aligned_type) != tkey(x.aligned_type) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; if i < k { assert(f[i] == y); } else { assert(f[i + 1] == y); } }
    }
}
pub broadcast proof fn type_set(o: Seq<TypeAlignSpec>, k: int, x: TypeAlignSpec)
    requires type_sorted(o), 0 <= k < o.len(), tkey(o[k].aligned_type) == tkey(x.aligned_type)
    ensures type_rel(o, x, #[trigger] o.update(k, x))
{
    let f = o.update(k, x);
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies tkey((#[trigger] f[i]).aligned_type) < tkey((#[trigger] f[j]).aligned_type) by { assert(tkey(o[i].aligned_type) < tkey(o[j].aligned_type)); }
    assert forall|y: TypeAlignSpec| #[trigger] f.contains(y) <==> (y == x || (o.contains(y) && tkey(y.aligned_type) != tkey(x.aligned_type))) by {
        if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; if i != k { assert(o[i] == y); if i < k { assert(tkey(o[i].aligned_type) < tkey(o[k].aligned_type)); } else { assert(tkey(o[k].aligned_type) < tkey(o[i].aligned_type)); } } }
        if y == x { assert(f[k] == y); }
        if o.contains(y) && tkey(y.aligned_type) != tkey(x.aligned_type) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(f[i] == y); }
    }
}
pub proof fn lemma_type_same(a: Seq<TypeAlignSpec>, b: Seq<TypeAlignSpec>)
    requires type_sorted(a), type_sorted(b), forall|y: TypeAlignSpec| a.contains(y) <==> b.contains(y)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); assert(b.contains(a[0])); }
    else {
        let (p, q) = (a.drop_last(), b.drop_last());
        let (x, y) = (a.last(), b.last());
        assert(a.contains(x)); assert(b.contains(y)); assert(b.contains(x)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if i < b.len() - 1 { assert(tkey(b[i].aligned_type) < tkey(b[b.len() - 1].aligned_type)); if j < a.len() - 1 { assert(tkey(a[j].aligned_type) < tkey(a[a.len() - 1].aligned_type)); } }
        assert(x == y);
        assert forall|z: TypeAlignSpec| p.contains(z) <==> q.contains(z) by {
            if p.contains(z) { let k = choose|k: int| 0 <= k < p.len() && p[k] == z; assert(a[k] == z); assert(tkey(a[k].aligned_type) < tkey(a[a.len() - 1].aligned_type)); assert(a.contains(z)); assert(b.contains(z));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == z; assert(q[m] == z); }
            if q.contains(z) { let k = choose|k: int| 0 <= k < q.len() && q[k] == z; assert(b[k] == z); assert(tkey(b[k].aligned_type) < tkey(b[b.len() - 1].aligned_type)); assert(b.contains(z)); assert(a.contains(z));
                let m = choose|m: int| 0 <= m < a.len() && a[m] == z; assert(p[m] == z); }
        }
        assert(type_sorted(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies tkey((#[trigger] p[i]).aligned_type) < tkey((#[trigger] p[j]).aligned_type) by { assert(tkey(a[i].aligned_type) < tkey(a[j].aligned_type)); } }
        assert(type_sorted(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies tkey((#[trigger] q[i]).aligned_type) < tkey((#[trigger] q[j]).aligned_type) by { assert(tkey(b[i].aligned_type) < tkey(b[j].aligned_type)); } }
        lemma_type_same(p, q);
        assert(a =~= p.push(x)); assert(b =~= q.push(y));
    }
}
pub proof fn lemma_type_unique(o: Seq<TypeAlignSpec>, x: TypeAlignSpec, f: Seq<TypeAlignSpec>)
    requires type_rel(o, x, f)
    ensures f == type_upd(o, x)
{
    let g = type_upd(o, x);
    assert(type_rel(o, x, g));
    assert forall|y: TypeAlignSpec| f.contains(y) <==> g.contains(y) by {}
    lemma_type_same(f, g);
}
pub open spec fn ptr_sorted(s: Seq<PointerAlignSpec>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).address_space.0 < (#[trigger] s[j]).address_space.0 }
/// f is o with x as the only entry for x's key, and every other entry as before
pub open spec fn ptr_rel(o: Seq<PointerAlignSpec>, x: PointerAlignSpec, f: Seq<PointerAlignSpec>) -> bool {
    ptr_sorted(f) && forall|y: PointerAlignSpec| #[trigger] f.contains(y) <==> (y == x || (o.contains(y) && y.address_space.0 != x.address_space.0))
}
pub open spec fn ptr_upd(o: Seq<PointerAlignSpec>, x: PointerAlignSpec) -> Seq<PointerAlignSpec> { choose|f: Seq<PointerAlignSpec>| ptr_rel(o, x, f) }
pub broadcast proof fn ptr_ins(o: Seq<PointerAlignSpec>, k: int, x: PointerAlignSpec)
    requires ptr_sorted(o), 0 <= k <= o.len(), forall|j: int| 0 <= j < k ==> (#[trigger] o[j]).address_space.0 < x.address_space.0, forall|j: int| k <= j < o.len() ==> (#[trigger] o[j]).address_space.0 > x.address_space.0
    ensures ptr_rel(o, x, #[trigger] o.insert(k, x))
{
    let f = o.insert(k, x);
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).address_space.0 < (#[trigger] f[j]).address_space.0 by {
        if i < k { assert(f[i] == o[i]); } else if i > k { assert(f[i] == o[i - 1]); }
        if j < k { assert(f[j] == o[j]); } else if j > k { assert(f[j] == o[j - 1]); }
    }
    assert forall|y: PointerAlignSpec| #[trigger] f.contains(y) <==> (y == x || (o.contains(y) && y.address_space.0 != x.address_space.0)) by {
        if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; if i < k { assert(o[i] == y); } else if i > k { assert(o[i - 1] == y); } }
        if y == x { assert(f[k] == y); }
        if o.contains(y) && y.address_space.0 != x.address_space.0 { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; if i < k { assert(f[i] == y); } else { assert(f[i + 1] == y); } }
    }
}
pub broadcast proof fn ptr_set(o: Seq<PointerAlignSpec>, k: int, x: PointerAlignSpec)
    requires ptr_sorted(o), 0 <= k < o.len(), o[k].address_space.0 == x.address_space.0
    ensures ptr_rel(o, x, #[trigger] o.update(k, x))
{
    let f = o.update(k, x);
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).address_space.0 < (#[trigger] f[j]).address_space.0 by { assert(o[i].address_space.0 < o[j].address_space.0); }
    assert forall|y: PointerAlignSpec| #[trigger] f.contains(y) <==> (y == x || (o.contains(y) && y.address_space.0 != x.address_space.0)) by {
        if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; if i != k { assert(o[i] == y); if i < k { assert(o[i].address_space.0 < o[k].address_space.0); } else { assert(o[k].address_space.0 < o[i].address_space.0); } } }
        if y == x { assert(f[k] == y); }
        if o.contains(y) && y.address_space.0 != x.address_space.0 { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(f[i] == y); }
    }
}
pub proof fn lemma_ptr_same(a: Seq<PointerAlignSpec>, b: Seq<PointerAlignSpec>)
    requires ptr_sorted(a), ptr_sorted(b), forall|y: PointerAlignSpec| a.contains(y) <==> b.contains(y)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); assert(b.contains(a[0])); }
    else {
        let (p, q) = (a.drop_last(), b.drop_last());
        let (x, y) = (a.last(), b.last());
        assert(a.contains(x)); assert(b.contains(y)); assert(b.contains(x)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if i < b.len() - 1 { assert(b[i].address_space.0 < b[b.len() - 1].address_space.0); if j < a.len() - 1 { assert(a[j].address_space.0 < a[a.len() - 1].address_space.0); } }
        assert(x == y);
        assert forall|z: PointerAlignSpec| p.contains(z) <==> q.contains(z) by {
            if p.contains(z) { let k = choose|k: int| 0 <= k < p.len() && p[k] == z; assert(a[k] == z); assert(a[k].address_space.0 < a[a.len() - 1].address_space.0); assert(a.contains(z)); assert(b.contains(z));
                let m = choose|m: int| 0 <= m < b.len() && b[m] == z; assert(q[m] == z); }
            if q.contains(z) { let k = choose|k: int| 0 <= k < q.len() && q[k] == z; assert(b[k] == z); assert(b[k].address_space.0 < b[b.len() - 1].address_space.0); assert(b.contains(z)); assert(a.contains(z));
                let m = choose|m: int| 0 <= m < a.len() && a[m] == z; assert(p[m] == z); }
        }
        assert(ptr_sorted(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).address_space.0 < (#[trigger] p[j]).address_space.0 by { assert(a[i].address_space.0 < a[j].address_space.0); } }
        assert(ptr_sorted(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).address_space.0 < (#[trigger] q[j]).address_space.0 by { assert(b[i].address_space.0 < b[j].address_space.0); } }
        lemma_ptr_same(p, q);
        assert(a =~= p.push(x)); assert(b =~= q.push(y));
    }
}
pub proof fn lemma_ptr_unique(o: Seq<PointerAlignSpec>, x: PointerAlignSpec, f: Seq<PointerAlignSpec>)
    requires ptr_rel(o, x, f)
    ensures f == ptr_upd(o, x)
{
    let g = ptr_upd(o, x);
    assert(ptr_rel(o, x, g));
    assert forall|y: PointerAlignSpec| f.contains(y) <==> g.contains(y) by {}
    lemma_ptr_same(f, g);
}
pub open spec fn num_align(s: Seq<char>) -> Option<Align> {
    match uint_max(s, u64::MAX as nat) { Some(v) => bits_align(v as int), None => None }
}
pub open spec fn opt_align(p: Seq<Seq<char>>, i: int, abi: Align) -> Option<Align> { if i < p.len() { num_align(p[i]) } else { Some(abi) } }
pub open spec fn num_width(s: Seq<char>) -> Option<AlignedTypeWidth> {
    match uint_max(s, u32::MAX as nat) { Some(v) => if 1 <= v <= 0x7f_ffff { Some(AlignedTypeWidth(v as u32)) } else { None }, None => None }
}
pub open spec fn num_space(s: Seq<char>) -> Option<AddressSpace> {
    match uint_max(s, u32::MAX as nat) { Some(v) => if v <= 0x7f_ffff { Some(AddressSpace(v as u32)) } else { None }, None => None }
}
/// the parts of a specification after its first character
pub open spec fn spec_parts(s: Seq<char>) -> Seq<Seq<char>> { split_s(s.skip(1), ':') }
/// what a type alignment string of at most three parts says
pub open spec fn type_spec(s: Seq<char>) -> Option<TypeAlignSpec> {
    if s.len() == 0 || !ascii(s) { None }
    else if s[0] == 'a' {
        if s.len() < 2 || s[1] != ':' { None } else {
            let p = split_s(s.skip(1).skip(1), ':');
            let abi = match uint_max(p[0], u64::MAX as nat) { Some(v) => if v == 0 { Some(Align(0)) } else { bits_align(v as int) }, None => None };
            match abi { None => None, Some(abi) => match opt_align(p, 1, abi) { None => None, Some(pref) => mk_type(AlignedType::Aggregate, abi, pref) } }
        }
    } else {
        let p = spec_parts(s);
        if p.len() < 2 { None } else {
            match (num_width(p[0]), num_align(p[1])) {
                (Some(w), Some(abi)) => match opt_align(p, 2, abi) {
                    None => None,
                    Some(pref) => if s[0] == 'i' { mk_type(AlignedType::Integer(w), abi, pref) } else if s[0] == 'v' { mk_type(AlignedType::Vector(w), abi, pref) }
                        else if s[0] == 'f' { mk_type(AlignedType::Float(w), abi, pref) } else { None },
                },
                _ => None,
            }
        }
    }
}
/// what a pointer alignment string of at most five parts says
pub open spec fn ptr_spec(s: Seq<char>) -> Option<PointerAlignSpec> {
    if s.len() == 0 || s[0] != 'p' { None } else {
        let p = spec_parts(s);
        if p.len() < 3 { None } else {
            let a = if p[0].len() == 0 { Some(AddressSpace(0)) } else { num_space(p[0]) };
            let size = uint_max(p[1], u64::MAX as nat);
            let idx = if 4 < p.len() { uint_max(p[4], u64::MAX as nat) } else { size };
            match (a, size, num_align(p[2])) {
                (Some(a), Some(size), Some(abi)) => match (opt_align(p, 3, abi), idx) {
                    (Some(pref), Some(idx)) => mk_ptr(a, abi, pref, size as u64, idx as u64),
                    _ => None,
                },
                _ => None,
            }
        }
    }
}
@@end
