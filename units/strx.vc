@@strlen
@@verbatim
// ---------------------------------------------------------------- strings
// std::str methods as functions of the characters.  The external_body items are assumptions about std.
pub open spec fn ascii(s: Seq<char>) -> bool { vstd::utf8::is_ascii_chars(s) }
pub trait VxLen { spec fn vx_spec_len(&self) -> nat; spec fn vx_len_ok(&self) -> bool; fn vx_len(&self) -> (r: usize) ensures self.vx_len_ok() ==> r == self.vx_spec_len(); }
impl VxLen for str {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    open spec fn vx_len_ok(&self) -> bool { ascii(self@) }
    fn vx_len(&self) -> (r: usize) {
        let b = self.as_bytes();
        proof { if ascii(self@) { vstd::utf8::is_ascii_chars_encode_utf8(self@); } }
        b.len()
    }
}
impl<T> VxLen for [T] {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    open spec fn vx_len_ok(&self) -> bool { true }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for Vec<T> {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    open spec fn vx_len_ok(&self) -> bool { true }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
pub proof fn lemma_ascii_sub(s: Seq<char>, a: int, b: int)
    requires ascii(s), 0 <= a <= b <= s.len()
    ensures ascii(s.subrange(a, b))
{ assert forall|i: int| 0 <= i < b - a implies vstd::utf8::is_ascii_chars(seq![#[trigger] s.subrange(a, b)[i]]) || true by {} }

/// position of the first c in s, or s.len()
pub open spec fn idx_of(s: Seq<char>, c: char) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + idx_of(s.skip(1), c) }
}
pub proof fn lemma_idx(s: Seq<char>, c: char)
    ensures 0 <= idx_of(s, c) <= s.len()
    decreases s.len()
{ if s.len() > 0 && s[0] != c { lemma_idx(s.skip(1), c); } }
/// the pieces between the c's
pub open spec fn split_s(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    let k = idx_of(s, c);
    if 0 <= k < s.len() { seq![s.take(k)] + split_s(s.skip(k + 1), c) } else { seq![s] }
}
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub proof fn lemma_split(s: Seq<char>, c: char)
    ensures split_s(s, c).len() >= 1, ascii(s) ==> (forall|i: int| 0 <= i < split_s(s, c).len() ==> ascii(#[trigger] split_s(s, c)[i]))
    decreases s.len()
{
    lemma_idx(s, c);
    let k = idx_of(s, c);
    if k < s.len() {
        lemma_split(s.skip(k + 1), c);
        if ascii(s) {
            lemma_ascii_sub(s, 0, k);
            lemma_ascii_sub(s, k + 1, s.len() as int);
            assert(s.subrange(0, k) =~= s.take(k));
            assert(s.subrange(k + 1, s.len() as int) =~= s.skip(k + 1));
            let t = split_s(s.skip(k + 1), c);
            assert forall|i: int| 0 <= i < split_s(s, c).len() implies ascii(#[trigger] split_s(s, c)[i]) by {
                if i > 0 { assert(split_s(s, c)[i] == t[i - 1]); }
            }
        }
    }
}
#[verifier::external_body]
pub fn vx_split_raw<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures strs(r@) == split_s(s@, c) { s.split(c).collect() }
pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures strs(r@) == split_s(s@, c), r@.len() == split_s(s@, c).len(), r@.len() >= 1,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_s(s@, c)[i],
        ascii(s@) ==> (forall|i: int| 0 <= i < r@.len() ==> ascii((#[trigger] r@[i])@))
{
    let r = vx_split_raw(s, c);
    proof {
        lemma_split(s@, c);
        assert forall|i: int| 0 <= i < r@.len() implies (#[trigger] r@[i])@ == split_s(s@, c)[i] by { assert(strs(r@)[i] == r@[i]@); }
    }
    r
}
/// decimal digits
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dec_of(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { 10 * dec_of(s.drop_last()) + (s.last() as u32 - 48) as nat }
}
/// what str::parse::<uN> reads: an optional plus sign and at least one decimal digit
pub open spec fn uint_of(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])) { Some(dec_of(d)) } else { None }
}
pub open spec fn uint_max(s: Seq<char>, m: nat) -> Option<nat> {
    match uint_of(s) { Some(v) => if v <= m { Some(v) } else { None }, None => None }
}
#[verifier::external_body]
pub struct ParseIntError { x: () }
impl ParseIntError {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
pub struct VxChars { pub rest: Ghost<Seq<char>>, pub c: Vec<char> }
impl VxChars {
    pub open spec fn wf(&self) -> bool { self.c@ == self.rest@.reverse() }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).wf()
        ensures final(self).wf(), old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1)
    {
        let ghost o = self.rest@;
        let r = self.c.pop();
        proof { if o.len() > 0 { self.rest@ = o.skip(1); assert(self.c@ =~= o.skip(1).reverse()); } else { assert(self.c@ =~= o.reverse()); } }
        r
    }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxChars)
        requires self.wf()
        ensures r.wf(), r.rest@ == (if self.rest@.len() <= n { self.rest@ } else { self.rest@.take(n as int) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<char>)
        requires old(self).wf()
        ensures final(self).wf(), old(self).rest@.len() <= n ==> r is None && final(self).rest@.len() == 0,
            old(self).rest@.len() > n ==> r == Some(old(self).rest@[n as int]) && final(self).rest@ == old(self).rest@.skip(n as int + 1)
    { unimplemented!() }
}
pub trait VxStr {
    spec fn vx_s(&self) -> Seq<char>;
    fn vx_sub(&self, a: usize, b: usize) -> (r: &str)
        requires ascii(self.vx_s()), a <= b <= self.vx_s().len()
        ensures r@ == self.vx_s().subrange(a as int, b as int), ascii(r@);
    fn vx_tail(&self, a: usize) -> (r: &str)
        requires a <= self.vx_s().len(), ascii(self.vx_s()) || a == 0 || (a == 1 && ascii(self.vx_s().take(1)))
        ensures r@ == self.vx_s().skip(a as int), ascii(self.vx_s()) ==> ascii(r@);
    fn vx_first_char(&self) -> (r: Option<char>) ensures r == (if self.vx_s().len() == 0 { None } else { Some(self.vx_s()[0]) });
    fn vx_chars(&self) -> (r: VxChars) ensures r.wf(), r.rest@ == self.vx_s();
    fn vx_is_ascii(&self) -> (r: bool) ensures r == ascii(self.vx_s());
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.vx_s().len() > 0 && self.vx_s()[0] == c);
    fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>)
        ensures r is Some <==> (self.vx_s().len() > 0 && self.vx_s()[0] == c), r matches Some(x) ==> x@ == self.vx_s().skip(1);
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.vx_s();
    fn vx_parse_u8(&self) -> (r: Result<u8, ParseIntError>) ensures r.is_ok() == (uint_max(self.vx_s(), u8::MAX as nat) is Some), r matches Ok(v) ==> uint_of(self.vx_s()) == Some(v as nat);
    fn vx_parse_u16(&self) -> (r: Result<u16, ParseIntError>) ensures r.is_ok() == (uint_max(self.vx_s(), u16::MAX as nat) is Some), r matches Ok(v) ==> uint_of(self.vx_s()) == Some(v as nat);
    fn vx_parse_u32(&self) -> (r: Result<u32, ParseIntError>) ensures r.is_ok() == (uint_max(self.vx_s(), u32::MAX as nat) is Some), r matches Ok(v) ==> uint_of(self.vx_s()) == Some(v as nat);
    fn vx_parse_u64(&self) -> (r: Result<u64, ParseIntError>) ensures r.is_ok() == (uint_max(self.vx_s(), u64::MAX as nat) is Some), r matches Ok(v) ==> uint_of(self.vx_s()) == Some(v as nat);
    fn vx_parse_usize(&self) -> (r: Result<usize, ParseIntError>) ensures r.is_ok() == (uint_max(self.vx_s(), usize::MAX as nat) is Some), r matches Ok(v) ==> uint_of(self.vx_s()) == Some(v as nat);
}
impl VxStr for str {
    open spec fn vx_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_sub(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_tail(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body]
    fn vx_first_char(&self) -> (r: Option<char>) { self.chars().next() }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxChars) { unimplemented!() }
    fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() }
    #[verifier::external_body]
    fn vx_starts_with(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>) { self.strip_prefix(c) }
    #[verifier::external_body]
    fn vx_as_str(&self) -> (r: &str) { self }
    #[verifier::external_body]
    fn vx_parse_u8(&self) -> (r: Result<u8, ParseIntError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_u16(&self) -> (r: Result<u16, ParseIntError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_u32(&self) -> (r: Result<u32, ParseIntError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_u64(&self) -> (r: Result<u64, ParseIntError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_usize(&self) -> (r: Result<usize, ParseIntError>) { unimplemented!() }
}
/// overloaded TryFrom, chosen by the argument type
pub trait VxTryFrom<A>: Sized {
    type VxErr;
    open spec fn vx_tpre(a: A) -> bool { true }
    spec fn vx_trel(a: A, r: Result<Self, Self::VxErr>) -> bool;
    fn vx_tconv(a: A) -> (r: Result<Self, Self::VxErr>) requires Self::vx_tpre(a) ensures Self::vx_trel(a, r);
}
pub fn vx_try_into<A, B: VxTryFrom<A>>(a: A) -> (r: Result<B, B::VxErr>) requires B::vx_tpre(a) ensures B::vx_trel(a, r) { B::vx_tconv(a) }
@@end
