@@verbatim
pub mod vxbits {
use super::*;
// ---------------------------------------------------------------- bit-level specification
use vstd::arithmetic::power2::*;
use vstd::bits::*;

/// bit i of the data, least significant bit of each byte first
pub open spec fn dbit(d: Seq<u8>, i: int) -> bool { (d[i / 8] >> ((i % 8) as u8)) & 1 == 1 }
pub open spec fn bit64(x: u64, i: int) -> bool { (x >> (i as u64)) & 1 == 1 }

/// the integer formed by bits p..p+n, lowest first
pub open spec fn rd(d: Seq<u8>, p: int, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { rd(d, p, (n - 1) as nat) + (if dbit(d, p + n - 1) { pow2((n - 1) as nat) } else { 0 }) }
}

pub proof fn lemma_rd_bound(d: Seq<u8>, p: int, n: nat)
    ensures rd(d, p, n) < pow2(n)
    decreases n
{
    lemma2_to64();
    if n > 0 { lemma_rd_bound(d, p, (n - 1) as nat); lemma_pow2_unfold(n); } else { lemma_pow2_pos(0); }
}

pub open spec fn low(x: u64, k: int) -> u64 { if k >= 64 { x } else { x & (((1u64 << (k as u64)) - 1) as u64) } }

pub proof fn lemma_low_step(x: u64, k: u64)
    requires k < 64
    ensures low(x, k + 1) == low(x, k as int) + (if bit64(x, k as int) { pow2(k as nat) } else { 0 })
{
    lemma_u64_pow2_no_overflow(k as nat);
    assert(1u64 << k == pow2(k as nat)) by {
        vstd::bits::lemma_u64_shl_is_mul(1, k);
    }
    if k == 63 {
        assert(x == (x & (((1u64 << 63u64) - 1) as u64)) + (if (x >> 63u64) & 1 == 1 { 1u64 << 63u64 } else { 0 })) by (bit_vector);
        assert(low(x, 64) == x);
    } else {
        assert(k < 63 ==> (x & (((1u64 << ((k + 1) as u64)) - 1) as u64)) == (x & (((1u64 << k) - 1) as u64)) + (if (x >> k) & 1 == 1 { 1u64 << k } else { 0 })) by (bit_vector);
    }
}

/// a word whose low n bits are the data bits at p (and no others set) is rd(d, p, n)
pub proof fn lemma_word_is_rd(x: u64, d: Seq<u8>, p: int, n: int)
    requires 0 <= n <= 64, forall|i: int| 0 <= i < 64 ==> #[trigger] bit64(x, i) == (i < n && dbit(d, p + i))
    ensures x == rd(d, p, n as nat)
{
    lemma_low_is_rd(x, d, p, n, n);
    lemma_high_zero(x, n);
}
pub proof fn lemma_low_is_rd(x: u64, d: Seq<u8>, p: int, n: int, k: int)
    requires 0 <= k <= n <= 64, forall|i: int| 0 <= i < 64 ==> #[trigger] bit64(x, i) == (i < n && dbit(d, p + i))
    ensures low(x, k) == rd(d, p, k as nat)
    decreases k
{
    if k == 0 {
        assert(x & (((1u64 << 0u64) - 1) as u64) == 0) by (bit_vector);
    } else {
        lemma_low_is_rd(x, d, p, n, k - 1);
        lemma_low_step(x, (k - 1) as u64);
        assert(bit64(x, k - 1) == dbit(d, p + k - 1));
    }
}
pub proof fn lemma_high_zero(x: u64, n: int)
    requires 0 <= n <= 64, forall|i: int| n <= i < 64 ==> !(#[trigger] bit64(x, i))
    ensures low(x, n) == x
    decreases 64 - n
{
    if n < 64 {
        lemma_high_zero(x, n + 1);
        lemma_low_step(x, n as u64);
    }
}

// per-bit rules for the word operators, applied automatically by the solver
pub broadcast proof fn bb_zero(i: int)
    requires 0 <= i < 64
    ensures !(#[trigger] bit64(0u64, i))
{ let j = i as u64; assert(j < 64 ==> !((0u64 >> j) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn bb_not(x: u64, i: int)
    requires 0 <= i < 64
    ensures #[trigger] bit64(!x, i) == !bit64(x, i)
{ let j = i as u64; assert(j < 64 ==> (((!x) >> j) & 1 == 1) == !((x >> j) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn bb_and(x: u64, y: u64, i: int)
    requires 0 <= i < 64
    ensures #[trigger] bit64(x & y, i) == (bit64(x, i) && bit64(y, i))
{ let j = i as u64; assert(j < 64 ==> (((x & y) >> j) & 1 == 1) == ((x >> j) & 1 == 1 && (y >> j) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn bb_or(x: u64, y: u64, i: int)
    requires 0 <= i < 64
    ensures #[trigger] bit64(x | y, i) == (bit64(x, i) || bit64(y, i))
{ let j = i as u64; assert(j < 64 ==> (((x | y) >> j) & 1 == 1) == ((x >> j) & 1 == 1 || (y >> j) & 1 == 1)) by (bit_vector); }
pub broadcast proof fn bb_shr(x: u64, n: u64, i: int)
    requires 0 <= i < 64, n < 64
    ensures #[trigger] bit64(x >> n, i) == (i + n < 64 && bit64(x, i + n))
{
    let j = i as u64;
    assert(n < 64 && j < 64 ==> (((x >> n) >> j) & 1 == 1) == (j + n < 64 && (x >> ((j + n) as u64)) & 1 == 1)) by (bit_vector);
}
pub broadcast proof fn bb_shl(x: u64, n: u64, i: int)
    requires 0 <= i < 64, n < 64
    ensures #[trigger] bit64(x << n, i) == (i >= n && bit64(x, i - n))
{
    let j = i as u64;
    if i >= n {
        assert(n < 64 && j < 64 && j >= n ==> (((x << n) >> j) & 1 == 1) == ((x >> ((j - n) as u64)) & 1 == 1)) by (bit_vector);
    } else {
        assert(n < 64 && j < n ==> !(((x << n) >> j) & 1 == 1)) by (bit_vector);
    }
}
pub broadcast proof fn bb_ones(n: u64, i: int)
    requires 0 <= i < 64, n < 64
    ensures #[trigger] bit64(((1u64 << n) - 1) as u64, i) == (i < n)
{
    let j = i as u64;
    assert(n < 64 && j < 64 ==> ((((1u64 << n) - 1) as u64 >> j) & 1 == 1) == (j < n)) by (bit_vector);
}
pub broadcast proof fn bb_byte(b: u8, i: int)
    requires 0 <= i < 64
    ensures #[trigger] bit64(b as u64, i) == (i < 8 && (b >> ((i % 8) as u8)) & 1 == 1)
{
    let j = i as u64;
    if i < 8 {
        assert(i % 8 == i);
        let jj = j as u8;
        assert(j < 8 && jj == j as u8 ==> (((b as u64) >> j) & 1 == 1) == ((b >> jj) & 1 == 1)) by (bit_vector);
    } else {
        assert(j >= 8 && j < 64 ==> !(((b as u64) >> j) & 1 == 1)) by (bit_vector);
    }
}
pub broadcast proof fn bb_one_shl(k: u64)
    requires k < 64
    ensures #[trigger] (1u64 << k) == pow2(k as nat)
{ lemma_u64_pow2_no_overflow(k as nat); lemma_u64_shl_is_mul(1, k); }
pub broadcast group bb_group { bb_zero, bb_not, bb_and, bb_or, bb_shr, bb_shl, bb_ones, bb_byte, bb_one_shl }

// splitting a chunk at its top bit
pub broadcast proof fn bc_clear(x: u64, k: u64)
    requires k < 63, x < pow2((k + 1) as nat)
    ensures #[trigger] (x & !(1u64 << k)) == (if x >= pow2(k as nat) { x - pow2(k as nat) } else { x as int })
{
    bb_one_shl(k); bb_one_shl((k + 1) as u64);
    assert(k < 63 && x < 1u64 << ((k + 1) as u64) ==> (x & !(1u64 << k)) == (if x >= 1u64 << k { (x - (1u64 << k)) as u64 } else { x })) by (bit_vector);
}
pub broadcast proof fn bc_low(x: u64, k: u64)
    requires k < 63, x < pow2((k + 1) as nat)
    ensures #[trigger] (x & (((1u64 << k) - 1) as u64)) == (if x >= pow2(k as nat) { x - pow2(k as nat) } else { x as int })
{
    bb_one_shl(k); bb_one_shl((k + 1) as u64);
    assert(k < 63 && x < 1u64 << ((k + 1) as u64) ==> (x & (((1u64 << k) - 1) as u64)) == (if x >= 1u64 << k { (x - (1u64 << k)) as u64 } else { x })) by (bit_vector);
}
pub broadcast proof fn bc_test(x: u64, k: u64)
    requires k < 63, x < pow2((k + 1) as nat)
    ensures (#[trigger] (x & (1u64 << k)) != 0) == (x >= pow2(k as nat)), (x & (1u64 << k)) != 0 ==> (x & (1u64 << k)) == (1u64 << k)
{
    bb_one_shl(k); bb_one_shl((k + 1) as u64);
    assert(k < 63 && x < 1u64 << ((k + 1) as u64) ==> ((x & (1u64 << k)) != 0) == (x >= 1u64 << k)) by (bit_vector);
    assert((x & (1u64 << k)) != 0 ==> (x & (1u64 << k)) == (1u64 << k)) by (bit_vector);
}
/// does y shifted left by s keep all its bits
pub open spec fn fits_shl(y: u64, s: int) -> bool { y * pow2(s as nat) <= u64::MAX }
pub broadcast proof fn bc_shl_back(y: u64, s: u64)
    requires s < 64
    ensures (#[trigger] ((y << s) >> s) == y) == fits_shl(y, s as int), fits_shl(y, s as int) ==> (y << s) == y * pow2(s as nat)
{
    bb_one_shl(s);
    if fits_shl(y, s as int) {
        lemma_u64_shl_is_mul(y, s);
        let z = y << s;
        assert(z == y * pow2(s as nat));
        lemma_u64_shr_is_div(z, s);
        lemma_pow2_pos(s as nat);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(y as int, pow2(s as nat) as int);
        vstd::arithmetic::mul::lemma_mul_is_commutative(y as int, pow2(s as nat) as int);
    } else {
        let z = y << s;
        if z >> s == y {
            lemma_u64_shr_is_div(z, s);
            lemma_pow2_pos(s as nat);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z as int, pow2(s as nat) as int);
            vstd::arithmetic::mul::lemma_mul_is_commutative(y as int, pow2(s as nat) as int);
        }
    }
}
pub broadcast proof fn bc_or_add(r: u64, y: u64, s: u64)
    requires s < 64, r < pow2(s as nat), fits_shl(y, s as int)
    ensures #[trigger] (r | (y << s)) == r + y * pow2(s as nat)
{
    bb_one_shl(s);
    bc_shl_back(y, s);
    assert(s < 64 && r < 1u64 << s && (y << s) >> s == y ==> (r | (y << s)) == (r + (y << s)) as u64 && ((y << s) <= 0xffff_ffff_ffff_ffffu64 - r)) by (bit_vector);
}
pub broadcast proof fn bb_neg_cast(x: i64)
    requires x < 0
    ensures #[trigger] (x as u64) == x + 0x1_0000_0000_0000_0000
{
    assert(x < 0 ==> (x as u64) as int == x as int + 0x1_0000_0000_0000_0000) by (bit_vector);
}
pub broadcast proof fn bc_half(x: u64)
    ensures #[trigger] (x >> 1u64) == x / 2
{ assert(x >> 1u64 == x / 2) by (bit_vector); }
pub broadcast proof fn bc_odd(x: u64)
    ensures #[trigger] (x & 1u64) == x % 2
{ assert(x & 1u64 == x % 2) by (bit_vector); }
pub broadcast group bc_group { bc_half, bc_odd, bc_clear, bc_low, bc_test, bc_shl_back, bc_or_add }
}
use vxbits::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
@@end
