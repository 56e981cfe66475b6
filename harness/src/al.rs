//! Independent reading of alignment specifications (oracle for C10-C13).
use crate::*;
use llvm_support::*;
use std::convert::TryFrom;

/// what str::parse::<uN> reads, bounded by max
pub fn num(s: &str, max: u128) -> Option<u128> {
    let s = s.strip_prefix('+').unwrap_or(s);
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for b in s.bytes() {
        v = v.saturating_mul(10).saturating_add((b - b'0') as u128);
    }
    if v <= max { Some(v) } else { None }
}
/// shift of the alignment of that many bits
pub fn shift_of_bits(b: u128) -> Option<u8> { (0..64u8).find(|k| 8u128 << k == b) }
pub fn num_align(s: &str) -> Option<u8> { num(s, u64::MAX as u128).and_then(shift_of_bits) }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Ty { A, F(u32), I(u32), V(u32) }
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub struct TSpec { pub t: Ty, pub abi: u8, pub pref: u8 }
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub struct PSpec { pub a: u32, pub abi: u8, pub pref: u8, pub size: u64, pub idx: u64 }

pub fn real_ty(t: Ty) -> AlignedType {
    let w = |w: u32| AlignedTypeWidth::try_from(w).unwrap();
    match t { Ty::A => AlignedType::Aggregate, Ty::F(n) => AlignedType::Float(w(n)), Ty::I(n) => AlignedType::Integer(w(n)), Ty::V(n) => AlignedType::Vector(w(n)) }
}
pub fn al(s: u8) -> Align { Align::from_shift(s).unwrap() }
pub fn mk(t: Ty, abi: u8, pref: u8) -> Option<TSpec> { if abi <= pref && pref <= 15 { Some(TSpec { t, abi, pref }) } else { None } }

/// None: unspecified (extra parts)
pub fn type_oracle(s: &str) -> Option<Option<TSpec>> {
    if s.is_empty() || !s.is_ascii() { return Some(None); }
    let (id, body) = (s.as_bytes()[0], &s[1..]);
    if id == b'a' {
        let Some(rest) = body.strip_prefix(':') else { return Some(None) };
        let p: Vec<&str> = rest.split(':').collect();
        if p.len() > 2 { return None; }
        let Some(abi) = num(p[0], u64::MAX as u128).and_then(|v| if v == 0 { Some(0) } else { shift_of_bits(v) }) else { return Some(None) };
        let Some(pref) = p.get(1).map(|x| num_align(x)).unwrap_or(Some(abi)) else { return Some(None) };
        return Some(mk(Ty::A, abi, pref));
    }
    let p: Vec<&str> = body.split(':').collect();
    if p.len() > 3 { return None; }
    if p.len() < 2 { return Some(None); }
    let Some(w) = num(p[0], (1 << 23) - 1).filter(|w| *w > 0) else { return Some(None) };
    let w = w as u32;
    let Some(abi) = num_align(p[1]) else { return Some(None) };
    let Some(pref) = p.get(2).map(|x| num_align(x)).unwrap_or(Some(abi)) else { return Some(None) };
    Some(match id { b'i' => mk(Ty::I(w), abi, pref), b'f' => mk(Ty::F(w), abi, pref), b'v' => mk(Ty::V(w), abi, pref), _ => None })
}
pub fn ptr_oracle(s: &str) -> Option<Option<PSpec>> {
    let Some(body) = s.strip_prefix('p') else { return Some(None) };
    let p: Vec<&str> = body.split(':').collect();
    if p.len() > 5 { return None; }
    if p.len() < 3 { return Some(None); }
    let a = if p[0].is_empty() { Some(0) } else { num(p[0], (1 << 23) - 1) };
    let size = num(p[1], u64::MAX as u128);
    let abi = num_align(p[2]);
    let (Some(a), Some(size), Some(abi)) = (a, size, abi) else { return Some(None) };
    let pref = p.get(3).map(|x| num_align(x)).unwrap_or(Some(abi));
    let idx = p.get(4).map(|x| num(x, u64::MAX as u128)).unwrap_or(Some(size));
    let (Some(pref), Some(idx)) = (pref, idx) else { return Some(None) };
    if pref < abi { return Some(None); }
    Some(Some(PSpec { a: a as u32, abi, pref, size: size as u64, idx: idx as u64 }))
}
pub fn same_t(r: &TypeAlignSpec, e: &TSpec) -> bool {
    r.aligned_type == real_ty(e.t) && r.abi_alignment == al(e.abi) && r.preferred_alignment == al(e.pref)
}
pub fn same_p(r: &PointerAlignSpec, e: &PSpec) -> bool {
    r.address_space == AddressSpace::try_from(e.a).unwrap() && r.abi_alignment == al(e.abi) && r.preferred_alignment == al(e.pref) && r.pointer_size == e.size && r.index_size == e.idx
}
/// the entries shown in a table's Debug text are exactly these, in this order
pub fn in_order(text: &str, entries: &[String], marker: &str) -> Result<(), String> {
    let mut at = 0;
    for e in entries {
        match text[at..].find(e.as_str()) {
            Some(k) => at += k + e.len(),
            None => return Err(format!("expected entries in order {entries:?}, table is {text}")),
        }
    }
    ensure!(text.matches(marker).count() == entries.len(), "expected {} entries {entries:?}, table is {text}", entries.len());
    Ok(())
}

pub fn numtext(r: &mut Rng) -> String {
    match r.below(14) {
        0..=5 => (8u128 << r.below(17)).to_string(),
        6 => (8u128 << r.below(66)).to_string(),
        7 => r.below(70).to_string(),
        8 => r.edgy().to_string(),
        9 => ["0", "1", "00064", "+8", "-8", "", " 8", "8 ", "0x8", "99999999999999999999", "18446744073709551616", "18446744073709551615", "9223372036854775808", "4294967296"][r.below(14) as usize].into(),
        10 => ((1u64 << 23) - 2 + r.below(4)).to_string(),
        11 => (r.below(40) * 8).to_string(),
        12 => "é".into(),
        _ => (1u64 << r.below(24)).to_string(),
    }
}
pub fn spec_text(r: &mut Rng, ptr: bool) -> String {
    let mut s = String::new();
    if ptr {
        s.push_str(["p", "p", "p", "p", "p", "q", "é", "i", "", "P"][r.below(10) as usize]);
        if r.chance(1, 2) { s.push_str(&match r.below(3) { 0 => r.below(5).to_string(), 1 => ((1u64 << 23) - 2 + r.below(4)).to_string(), _ => numtext(r) }); }
        let n = [0, 1, 2, 2, 3, 3, 4, 4, 5][r.below(9) as usize];
        for _ in 0..n { s.push(':'); s.push_str(&numtext(r)); }
    } else {
        let id = ["i", "v", "f", "a", "i", "f", "a", "x", "é", ""][r.below(10) as usize];
        s.push_str(id);
        if id != "a" || r.chance(1, 6) { s.push_str(&match r.below(3) { 0 => (1 + r.below(130)).to_string(), 1 => ((1u64 << 23) - 2 + r.below(4)).to_string(), _ => numtext(r) }); }
        let n = [0, 1, 1, 2, 2, 2, 3][r.below(7) as usize];
        for _ in 0..n { s.push(':'); s.push_str(&numtext(r)); }
    }
    if r.chance(1, 20) && !s.is_empty() { let mut c: Vec<char> = s.chars().collect(); let k = r.below(c.len() as u64) as usize; c[k] = *r.pick(&['é', ':', '0', 'p', '-', '\u{0}']); s = c.into_iter().collect(); }
    s
}

pub fn defaults() -> Vec<TSpec> {
    let d = |t, a| TSpec { t, abi: a, pref: a };
    vec![d(Ty::A, 3), d(Ty::F(16), 1), d(Ty::F(32), 2), d(Ty::F(64), 3), d(Ty::F(128), 4), d(Ty::I(1), 0), d(Ty::I(8), 0), d(Ty::I(16), 1), d(Ty::I(32), 2), d(Ty::I(64), 3)]
}
pub fn tval(e: &TSpec) -> TypeAlignSpec { TypeAlignSpec::new(real_ty(e.t), al(e.abi), al(e.pref)).unwrap() }
pub fn pval(e: &PSpec) -> PointerAlignSpec { PointerAlignSpec::new(AddressSpace::try_from(e.a).unwrap(), al(e.abi), al(e.pref), e.size, e.idx).unwrap() }

