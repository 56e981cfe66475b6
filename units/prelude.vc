@@verbatim
// ---------------------------------------------------------------- prelude
// Stand-ins for std / third-party items.  Each external_body item below is an
// assumption and is listed as such in the evidence.
global size_of usize == 8;

/// `AsRef<[u8]>` with a ghost view (assumed: as_ref is deterministic; buffers are < 2^48 bytes).
pub trait VxAsRef {
    spec fn vx_view(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.vx_view(), r@.len() < 0x1_0000_0000_0000;
}
impl<T: VxAsRef + ?Sized> VxAsRef for &T {
    open spec fn vx_view(&self) -> Seq<u8> { (**self).vx_view() }
    fn as_ref(&self) -> (r: &[u8]) { (**self).as_ref() }
}

impl VxAsRef for [u8] {
    open spec fn vx_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { self }
}

/// `From` as used by `?` and `Into::into` on error values.
pub trait VxFrom<A>: Sized {
    spec fn vx_spec(a: A) -> Self;
    fn vx_conv(a: A) -> (r: Self) ensures r == Self::vx_spec(a);
}
/// std::mem::take / std::mem::replace
pub trait VxDefault: Sized { spec fn vx_is_default(&self) -> bool; fn vx_default() -> (r: Self) ensures r.vx_is_default(); }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<T>::empty() } fn vx_default() -> (r: Self) { Vec::new() } }
impl<T> VxDefault for Option<T> { open spec fn vx_is_default(&self) -> bool { *self is None } fn vx_default() -> (r: Self) { None } }
impl VxDefault for String { open spec fn vx_is_default(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { String::new() } }
pub fn vx_mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut b = b; core::mem::swap(a, &mut b); b }
pub fn vx_mem_take<T: VxDefault>(a: &mut T) -> (r: T) ensures r == *old(a), final(a).vx_is_default() { vx_mem_replace(a, T::vx_default()) }
impl<T> VxFrom<T> for T { open spec fn vx_spec(a: T) -> T { a } fn vx_conv(a: T) -> (r: T) { a } }
impl VxFrom<u32> for u64 { open spec fn vx_spec(a: u32) -> u64 { a as u64 } fn vx_conv(a: u32) -> (r: u64) { a as u64 } }
pub fn vx_from<A, B: VxFrom<A>>(a: A) -> (b: B) ensures b == B::vx_spec(a) { B::vx_conv(a) }

/// `impl Into<B>` parameters
pub trait VxInto<B>: Sized {
    spec fn vx_ispec(self) -> B;
    fn vx_into(self) -> (r: B) ensures r == self.vx_ispec();
}
impl<A, B: VxFrom<A>> VxInto<B> for A {
    open spec fn vx_ispec(self) -> B { B::vx_spec(self) }
    fn vx_into(self) -> (r: B) { B::vx_conv(self) }
}

/// Message text (format!, literals): never part of a property.
#[verifier::external_body]
pub fn vx_string() -> (r: String) { String::new() }

/// panic!/unimplemented!/todo!: must be unreachable.
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }

/// Reserving memory for n elements: allowed for small constants only (counts that an existing
/// collection has are recognised by the extraction and need no bound).
pub open spec fn vx_small(n: usize) -> bool { n <= 0x1_0000 }
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) requires vx_small(n) ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
pub fn vx_capacity(n: usize) requires vx_small(n) { }
#[verifier::external_body]
pub fn vx_repeat_len<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
pub fn vx_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>) requires vx_small(n) ensures r@ == Seq::new(n as nat, |i: int| x) { vx_repeat_len(x, n) }

pub fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] {
    let mut v = Vec::new();
    v.push(x);
    assert(v@ =~= seq![x]);
    v
}

pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }

pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
pub trait VxSlice {
    type E;
    spec fn vx_seq(&self) -> Seq<Self::E>;
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[Self::E])
        requires a <= b <= self.vx_seq().len()
        ensures r@ == self.vx_seq().subrange(a as int, b as int);
    fn vx_tail(&self, a: usize) -> (r: &[Self::E])
        requires a <= self.vx_seq().len()
        ensures r@ == self.vx_seq().subrange(a as int, self.vx_seq().len() as int);
    fn vx_skip(&self, a: usize) -> (r: &[Self::E])
        ensures r@ == (if a <= self.vx_seq().len() { self.vx_seq().skip(a as int) } else { Seq::empty() });
    fn vx_get_tail(&self, a: usize) -> (r: Option<&[Self::E]>)
        ensures r is Some == (a <= self.vx_seq().len()), r matches Some(x) ==> x@ == self.vx_seq().subrange(a as int, self.vx_seq().len() as int);
    fn vx_get_sub(&self, a: usize, b: usize) -> (r: Option<&[Self::E]>)
        ensures r is Some == (a <= b <= self.vx_seq().len()), r matches Some(x) ==> x@ == self.vx_seq().subrange(a as int, b as int);
}
impl<T> VxSlice for [T] {
    type E = T;
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, b) }
    fn vx_tail(&self, a: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, self.len()) }
    fn vx_skip(&self, a: usize) -> (r: &[T]) {
        let k = if a <= self.len() { a } else { self.len() };
        let r = vstd::slice::slice_subrange(self, k, self.len());
        assert(a <= self@.len() ==> r@ =~= self@.skip(a as int));
        assert(a > self@.len() ==> r@ =~= Seq::<T>::empty());
        r
    }
    fn vx_get_tail(&self, a: usize) -> (r: Option<&[T]>) { if a <= self.len() { Some(vstd::slice::slice_subrange(self, a, self.len())) } else { None } }
    fn vx_get_sub(&self, a: usize, b: usize) -> (r: Option<&[T]>) { if a <= b && b <= self.len() { Some(vstd::slice::slice_subrange(self, a, b)) } else { None } }
}
impl<T> VxSlice for Vec<T> {
    type E = T;
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, b) }
    fn vx_tail(&self, a: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, self.len()) }
    fn vx_skip(&self, a: usize) -> (r: &[T]) { self.as_slice().vx_skip(a) }
    fn vx_get_tail(&self, a: usize) -> (r: Option<&[T]>) { self.as_slice().vx_get_tail(a) }
    fn vx_get_sub(&self, a: usize, b: usize) -> (r: Option<&[T]>) { self.as_slice().vx_get_sub(a, b) }
}
impl<S: VxSlice + ?Sized> VxSlice for &S {
    type E = S::E;
    open spec fn vx_seq(&self) -> Seq<S::E> { (**self).vx_seq() }
    fn vx_sub(&self, a: usize, b: usize) -> (r: &[S::E]) { (**self).vx_sub(a, b) }
    fn vx_tail(&self, a: usize) -> (r: &[S::E]) { (**self).vx_tail(a) }
    fn vx_skip(&self, a: usize) -> (r: &[S::E]) { (**self).vx_skip(a) }
    fn vx_get_tail(&self, a: usize) -> (r: Option<&[S::E]>) { (**self).vx_get_tail(a) }
    fn vx_get_sub(&self, a: usize, b: usize) -> (r: Option<&[S::E]>) { (**self).vx_get_sub(a, b) }
}
@@end
