@@verbatim
// ---------------------------------------------------------------- iterators, maps, UTF-8
use vstd::utf8::*;
/// a returned iterator, with its items computed up front
pub struct VxIter<T> { pub items: Vec<T>, pub pos: usize }
impl<T> VxIter<T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.items@.len() }
    pub open spec fn rest(&self) -> Seq<T> { self.items@.skip(self.pos as int) }
}
pub fn vx_iter<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r.wf(), r.rest() == v@ {
    let r = VxIter { items: v, pos: 0 };
    assert(r.items@.skip(0) =~= v@);
    r
}
impl<T: Copy> VxIter<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures final(self).wf(), old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    {
        if self.pos < self.items.len() {
            let x = self.items[self.pos];
            self.pos += 1;
            assert(self.rest() =~= old(self).rest().skip(1));
            Some(x)
        } else { None }
    }
    pub fn count(self) -> (r: usize) requires self.wf() ensures r == self.rest().len() { self.items.len() - self.pos }
}
pub fn vx_items<T: Copy>(x: VxIter<T>) -> (r: Vec<T>) requires x.wf() ensures r@ == x.rest() {
    let mut x = x;
    let ghost g = x.rest();
    let r = x.items.split_off(x.pos);
    assert(r@ =~= g);
    r
}
pub fn vx_take_first<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0 ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) {
    let r = v.remove(0);
    assert(v@ =~= old(v)@.skip(1));
    r
}
/// the values behind references
pub open spec fn vals<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub fn vx_iter_flat<'a, T>(x: Option<&'a Vec<T>>) -> (r: VxIter<&'a T>)
    ensures r.wf(), vals(r.rest()) == (match x { Some(v) => v@, None => Seq::empty() })
{
    let mut o: Vec<&'a T> = Vec::new();
    if let Some(v) = x {
        let mut i: usize = 0;
        while i < v.len()
            invariant i <= v@.len(), o@.len() == i, forall|j: int| 0 <= j < i ==> *#[trigger] o@[j] == v@[j]
            decreases v@.len() - i
        { o.push(&v[i]); i += 1; }
        assert(vals(o@) =~= v@);
    } else {
        assert(vals(o@) =~= Seq::empty());
    }
    vx_iter(o)
}
/// indexmap::IndexMap as a map (insertion order is not observed)
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct IndexMap<K, V> { k: core::marker::PhantomData<K>, v: Vec<V> }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some == self.m().dom().contains(*k), r matches Some(v) ==> *v == self.m()[*k]
    { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub type FromUtf8Error = std::string::FromUtf8Error;
pub type TryFromIntError = std::num::TryFromIntError;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub type Utf8Error = std::str::Utf8Error;
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r.is_ok() == valid_utf8(v@), r matches Ok(s) ==> encode_utf8(s@) == v@;
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
#[verifier::external_body]
pub fn vx_from_utf8(v: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r.is_ok() == valid_utf8(v@), r matches Ok(s) ==> encode_utf8(s@) == v@
{ std::str::from_utf8(v) }
/// the fields as bytes, when all of them are
pub open spec fn all_bytes(f: Seq<u64>) -> bool { forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] <= 255 }
pub open spec fn bytes(f: Seq<u64>) -> Seq<u8> { f.map_values(|x: u64| x as u8) }
pub proof fn lemma_bytes_step(f: Seq<u64>, i: int)
    ensures 0 <= i < f.len() ==> {
        &&& all_bytes(f.take(i + 1)) == (all_bytes(f.take(i)) && f[i] <= 255)
        &&& bytes(f.take(i + 1)) == bytes(f.take(i)).push(f[i] as u8)
        &&& all_bytes(f) ==> f[i] <= 255
    }
{
    if 0 <= i < f.len() {
        assert(bytes(f.take(i + 1)) =~= bytes(f.take(i)).push(f[i] as u8));
        assert(forall|j: int| 0 <= j < i ==> f.take(i + 1)[j] == #[trigger] f.take(i)[j]);
        assert(f.take(i + 1)[i] == f[i]);
        if all_bytes(f.take(i + 1)) { assert forall|j: int| 0 <= j < i implies #[trigger] f.take(i)[j] <= 255 by { assert(f.take(i + 1)[j] <= 255); } }
    }
}
/// what a record holds from idx on, if a string or blob may start there
pub open spec fn tail_ok(f: Seq<u64>, i: int) -> bool { 0 <= i && i + 1 < f.len() && all_bytes(f.skip(i)) }
@@end
@@source llvm-bitstream/src/record.rs Record=BsRecord Block=BsBlock
@@type Fields
@@type Record
@@type Block
@@source llvm-mapper/src/block/mod.rs
@@type BlockId #[derive(Copy, Clone)]
@@derives BlockId Copy Clone PartialEq Eq Hash
@@source llvm-mapper/src/record/mod.rs
@@type RecordStringError
@@errfrom RecordStringError
@@type RecordBlobError
@@errfrom RecordBlobError
@@source llvm-mapper/src/unroll.rs
@@type Record
@@type ConsistencyError
@@type Records
@@type Blocks
@@type Block
@@derives Records Default
@@derives Blocks Default
@@verbatim
/// the records with a code, in order
pub open spec fn with_code(s: Seq<Record>, c: u64) -> Seq<Record> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().0.code == c { with_code(s.drop_last(), c).push(s.last()) } else { with_code(s.drop_last(), c) }
}
pub open spec fn with_id(b: Blocks, id: BlockId) -> Seq<Block> { if b.0.m().dom().contains(id) { b.0.m()[id]@ } else { Seq::empty() } }
pub proof fn lemma_code_step(s: Seq<Record>, i: int, c: u64)
    ensures 0 <= i < s.len() ==> with_code(s.take(i + 1), c) == (if s[i].0.code == c { with_code(s.take(i), c).push(s[i]) } else { with_code(s.take(i), c) })
{ if 0 <= i < s.len() { assert(s.take(i + 1).drop_last() =~= s.take(i)); } }
@@end
@@fn Record::code
@@spec
    ensures r == self.0.code
@@fn Record::fields
@@spec
    ensures r@ == self.0.fields@
@@fn Record::try_string
@@params self idx
@@spec
    ensures
        r.is_ok() == (tail_ok(self.0.fields@, idx as int) && valid_utf8(bytes(self.0.fields@.skip(idx as int)))),
        r matches Ok(s) ==> encode_utf8(s@) == bytes(self.0.fields@.skip(idx as int))
@@start
    assert(idx <= self.0.fields@.len() ==> self.0.fields@.skip(idx as int) =~= self.0.fields@.subrange(idx as int, self.0.fields@.len() as int));
    assert(bytes(self.0.fields@.skip(idx as int).take(0)) =~= Seq::<u8>::empty());
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.0.fields@.skip(idx as int), idx + 1 < self.0.fields@.len(),
        vx_o0@ == bytes(vx_s0@.take(vx_i0 as int)), all_bytes(vx_s0@.take(vx_i0 as int))
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    proof { lemma_bytes_step(vx_s0@, vx_i0 as int); }
@@loopend 0
    assert(vx_o0@ =~= bytes(vx_s0@.take(vx_i0 as int)));
@@atend
    assert(self.0.fields@.skip(idx as int).take(self.0.fields@.len() - idx) =~= self.0.fields@.skip(idx as int));
@@fn Record::try_blob
@@params self idx
@@spec
    ensures
        r.is_ok() == tail_ok(self.0.fields@, idx as int),
        r matches Ok(s) ==> s@ == bytes(self.0.fields@.skip(idx as int))
@@start
    assert(idx <= self.0.fields@.len() ==> self.0.fields@.skip(idx as int) =~= self.0.fields@.subrange(idx as int, self.0.fields@.len() as int));
    assert(bytes(self.0.fields@.skip(idx as int).take(0)) =~= Seq::<u8>::empty());
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.0.fields@.skip(idx as int), idx + 1 < self.0.fields@.len(),
        vx_o0@ == bytes(vx_s0@.take(vx_i0 as int)), all_bytes(vx_s0@.take(vx_i0 as int))
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    proof { lemma_bytes_step(vx_s0@, vx_i0 as int); }
@@loopend 0
    assert(vx_o0@ =~= bytes(vx_s0@.take(vx_i0 as int)));
@@atend
    assert(self.0.fields@.skip(idx as int).take(self.0.fields@.len() - idx) =~= self.0.fields@.skip(idx as int));
@@fn Records::by_code
@@params self code
@@spec
    ensures r.wf(), vals(r.rest()) == with_code(self.0@, VxInto::<u64>::vx_ispec(code))
@@start
    assert(self.0@.take(0) =~= Seq::<Record>::empty());
    assert(self.0@.take(self.0@.len() as int) =~= self.0@);
    assert(vals(Seq::<&Record>::empty()) =~= Seq::<Record>::empty());
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.0@, vals(vx_o0@) == with_code(vx_s0@.take(vx_i0 as int), code)
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    let ghost vx_g0 = vx_o0@;
    proof { lemma_code_step(vx_s0@, vx_i0 as int, code); }
@@loopend 0
    assert(vals(vx_o0@) =~= vals(vx_g0) || vals(vx_o0@) =~= vals(vx_g0).push(vx_s0@[vx_i0 - 1]));
@@fn Records::one
@@params self code
@@spec
    ensures ({
        let m = with_code(self.0@, VxInto::<u64>::vx_ispec(code));
        &&& r is Some == (m.len() > 0)
        &&& r matches Some(x) ==> *x == m[0]
    })
@@fn Records::exactly_one
@@params self code
@@spec
    ensures ({
        let m = with_code(self.0@, VxInto::<u64>::vx_ispec(code));
        &&& r.is_ok() == (m.len() == 1)
        &&& r matches Ok(x) ==> *x == m[0]
    })
@@fn Records::one_or_none
@@params self code
@@spec
    ensures ({
        let m = with_code(self.0@, VxInto::<u64>::vx_ispec(code));
        &&& r.is_ok() == (m.len() <= 1)
        &&& r matches Ok(x) ==> x is Some == (m.len() == 1) && (x matches Some(y) ==> *y == m[0])
    })
@@fn Blocks::by_id
@@params self id
@@spec
    ensures r.wf(), vals(r.rest()) == with_id(*self, VxInto::<BlockId>::vx_ispec(id))
@@fn Blocks::exactly_one
@@params self id
@@spec
    ensures ({
        let m = with_id(*self, VxInto::<BlockId>::vx_ispec(id));
        &&& r.is_ok() == (m.len() == 1)
        &&& r matches Ok(x) ==> *x == m[0]
    })
@@fn Blocks::one_or_none
@@params self id
@@spec
    ensures ({
        let m = with_id(*self, VxInto::<BlockId>::vx_ispec(id));
        &&& r.is_ok() == (m.len() <= 1)
        &&& r matches Ok(x) ==> x is Some == (m.len() == 1) && (x matches Some(y) ==> *y == m[0])
    })
