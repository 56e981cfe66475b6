//! Block trees as plain data, and what the properties say they mean.
//! Built with --cfg vx_hooks.
pub use harness::enumtab as tab;
pub use harness::types::{self, T};
pub use harness::*;
use llvm_mapper::unroll::{Block, Record};
use llvm_mapper::vx_hooks as hk;

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Rec { pub code: u64, pub f: Vec<u64> }
#[derive(Clone, Debug, Hash, PartialEq, Default)]
pub struct Blk { pub id: u64, pub recs: Vec<Rec>, pub subs: Vec<Blk> }
pub fn rec(code: u64, f: &[u64]) -> Rec { Rec { code, f: f.to_vec() } }
pub fn srec(code: u64, s: &str) -> Rec { Rec { code, f: s.bytes().map(|b| b as u64).collect() } }
impl Rec { pub fn real(&self) -> Record { hk::record(self.code, self.f.clone()) } }
impl Blk {
    pub fn new(id: u64, recs: Vec<Rec>, subs: Vec<Blk>) -> Blk { Blk { id, recs, subs } }
    pub fn real(&self) -> Block { hk::block(self.id, self.recs.iter().map(|r| r.real()).collect(), self.subs.iter().map(|b| b.real()).collect()) }
    pub fn first(&self, code: u64) -> Option<&Rec> { self.recs.iter().find(|r| r.code == code) }
    pub fn with(&self, code: u64) -> Vec<&Rec> { self.recs.iter().filter(|r| r.code == code).collect() }
    pub fn sub(&self, id: u64) -> Vec<&Blk> { self.subs.iter().filter(|r| r.id == id).collect() }
    pub fn depth(&self) -> usize { 1 + self.subs.iter().map(|b| b.depth()).max().unwrap_or(0) }
}
pub fn same_rec(a: &Record, e: &Rec) -> bool { a.code() == e.code && a.fields() == &e.f[..] }

/// bytes from a field on; the last field alone is refused (the existing tests say so)
pub fn blob(r: &Rec, i: usize) -> Option<Vec<u8>> {
    if i + 1 >= r.f.len() { return None; }
    r.f[i..].iter().map(|x| u8::try_from(*x).ok()).collect()
}
pub fn string(r: &Rec, i: usize) -> Option<String> { blob(r, i).and_then(|b| String::from_utf8(b).ok()) }
pub fn table_str(t: &[u8], off: u64, size: u64) -> Option<String> {
    if size == 0 { return None; }
    let e = off as u128 + size as u128;
    if e > t.len() as u128 { return None; }
    String::from_utf8(t[off as usize..e as usize].to_vec()).ok()
}
pub fn name_of(t: &[(u64, &'static str)], c: u64) -> Option<&'static str> { t.iter().find(|x| x.0 == c).map(|x| x.1) }

// ------------------------------------------------------------------ attributes
#[derive(Clone, Debug, PartialEq)]
pub enum At { E(u64), I(u64, u64), S(String), K(String, String) }
pub const INTS: [u64; 9] = [1, 25, 33, 41, 42, 51, 74, 82, 86];
pub fn enum_ok(id: u64) -> bool { (1..=86).contains(&id) && (!INTS.contains(&id) || id == 33) }
pub fn int_ok(id: u64, v: u64) -> bool {
    match id { 1 | 25 => v == 0 || (v.is_power_of_two() && v <= 1 << 63), 33 => v <= 2, 51 => v != 0, i => INTS.contains(&i) }
}
pub fn attrs(f: &[u64]) -> Option<Vec<At>> {
    let mut i = 0;
    let mut o = vec![];
    fn zs(f: &[u64], i: &mut usize) -> Option<String> {
        let n = f.get(*i..)?.iter().position(|x| *x == 0)?;
        if n == 0 { return None; }
        let b = f[*i..*i + n].iter().map(|x| u8::try_from(*x).ok()).collect::<Option<Vec<_>>>()?;
        *i += n + 1;
        String::from_utf8(b).ok()
    }
    while i < f.len() {
        let k = f[i];
        i += 1;
        match k {
            0 => { let id = *f.get(i)?; i += 1; if !enum_ok(id) { return None; } o.push(At::E(id)); }
            1 => { let id = *f.get(i)?; let v = *f.get(i + 1)?; i += 2; if !int_ok(id, v) { return None; } o.push(At::I(id, v)); }
            3 => { let s = zs(f, &mut i)?; o.push(At::S(s)); }
            4 => { let s = zs(f, &mut i)?; let v = zs(f, &mut i)?; o.push(At::K(s, v)); }
            _ => return None,
        }
    }
    Some(o)
}
/// what Debug prints for the attribute
pub fn at_text(a: &At) -> String {
    let n = |id| name_of(tab::ATTRIBUTE_ID, id).unwrap();
    match a {
        At::E(id) => format!("Enum({})", n(*id)),
        At::S(s) => format!("Str({s:?})"),
        At::K(s, v) => format!("StrKeyValue({s:?}, {v:?})"),
        At::I(id, v) => format!("Int({})", match id {
            1 | 25 => format!("{}({:?})", n(*id), llvm_support::MaybeAlign::try_from(if *v == 0 { 0 } else { v.trailing_zeros() as u8 + 1 }).unwrap()),
            33 => format!("UwTable({})", ["None", "Sync", "Async"][*v as usize]),
            51 => format!("AllocSize({}, {:?})", v >> 32, if *v as u32 == u32::MAX { None } else { Some(*v as u32) }),
            74 => format!("VScaleRange({}, {})", v >> 32, *v as u32),
            86 => format!("MemoryKind({v})"),
            _ => format!("{}({v})", n(*id)),
        }),
    }
}
pub type Groups = std::collections::BTreeMap<u32, (u32, Vec<At>)>;
pub fn groups(b: &Blk) -> Option<Groups> {
    let mut m = Groups::new();
    for r in &b.recs {
        if r.code != 3 || r.f.len() < 3 { return None; }
        m.insert(u32::try_from(r.f[0]).ok()?, (u32::try_from(r.f[1]).ok()?, attrs(&r.f[2..])?));
    }
    Some(m)
}
pub fn entries(b: &Blk, g: &Groups) -> Option<Vec<Vec<u32>>> {
    b.recs.iter().map(|r| {
        if r.code != 2 { return None; }
        r.f.iter().map(|x| u32::try_from(*x).ok().filter(|k| g.contains_key(k))).collect()
    }).collect()
}
pub fn disp(v: u32) -> String { match v { 0 => "Return".into(), u32::MAX => "Function".into(), v => format!("Parameter({v})") } }
pub fn group_text(g: &(u32, Vec<At>)) -> String { format!("AttributeGroup {{ disposition: {}, attributes: [{}] }}", disp(g.0), g.1.iter().map(at_text).collect::<Vec<_>>().join(", ")) }

// ------------------------------------------------------------------ types
#[derive(Clone, Debug)]
enum P { S(u8), Int(u32), Ptr(u64, u32), OPtr(u32), Arr(u64, u64), Vec(u64, u64, bool), St(Option<String>, Vec<u64>, bool), Fn(u64, Vec<u64>, bool) }
fn space(v: u64) -> Option<u32> { if v < 1 << 23 { Some(v as u32) } else { None } }
/// the type table a block encodes; None: refused
pub fn table(b: &Blk) -> Option<Vec<T>> {
    let n = *b.first(1)?.f.first()?;
    let mut ps = vec![];
    let mut name = String::new();
    let prim = |s: &str| P::S(types::SIMPLE.iter().position(|x| *x == s).unwrap() as u8);
    for r in &b.recs {
        let f = &r.f;
        let at = |i: usize| f.get(i).copied();
        match r.code {
            1 => continue,
            7 => ps.push(P::Int(u32::try_from(at(0)?).ok()?)),
            8 => ps.push(P::Ptr(at(0)?, space(at(1)?)?)),
            25 => ps.push(P::OPtr(space(at(0)?)?)),
            11 => ps.push(P::Arr(at(0)?, at(1)?)),
            12 => ps.push(P::Vec(at(0)?, at(1)?, at(2).unwrap_or(0) != 0)),
            18 => ps.push(P::St(None, f[1.min(f.len())..].to_vec(), at(0)? != 0)),
            19 => name.push_str(&string(r, 0)?),
            20 => { ps.push(P::St(Some(name.clone()), f[1.min(f.len())..].to_vec(), at(0)? != 0)); name.clear(); }
            6 => { if name.is_empty() { return None; } ps.push(P::St(Some(name.clone()), vec![], false)); name.clear(); }
            21 => ps.push(P::Fn(at(1)?, f[2..].to_vec(), at(0)? != 0)),
            c => { let s = name_of(tab::TYPE_CODE, c)?; if !types::SIMPLE.contains(&s) { return None; } ps.push(prim(s)) }
        }
    }
    if ps.len() as u64 != n { return None; }
    let mut budget = 200_000u64;
    (0..ps.len()).map(|i| expand(&ps, i as u64, 257, &mut budget)).collect()
}
fn expand(ps: &[P], i: u64, depth: u32, budget: &mut u64) -> Option<T> {
    if depth == 0 { return None; }
    if *budget == 0 { panic!("the generator made too large a type"); }
    *budget -= 1;
    let d = depth - 1;
    let mut go = |r: u64| expand(ps, r, d, budget);
    let t = match ps.get(usize::try_from(i).ok()?)?.clone() {
        P::S(k) => T::S(k),
        P::Int(w) => T::Int(w),
        P::Ptr(r, a) => T::Ptr(Box::new(go(r)?), a),
        P::OPtr(a) => T::OPtr(a),
        P::Arr(n, r) => T::Arr(n, Box::new(go(r)?)),
        P::Vec(n, r, s) => { let e = Box::new(go(r)?); if s { T::SV(n, e) } else { T::FV(n, e) } }
        P::St(n, r, p) => T::St(n, r.into_iter().map(go).collect::<Option<_>>()?, p),
        P::Fn(r, p, v) => { let r = Box::new(go(r)?); T::Fn(r, p.into_iter().map(go).collect::<Option<_>>()?, v) }
    };
    if t.legal_here() { Some(t) } else { None }
}

// ------------------------------------------------------------------ bitstream writer
pub struct W(pub Vec<u8>, pub usize);
impl W {
    pub fn f(&mut self, v: u64, n: usize) { for i in 0..n { if self.1 % 8 == 0 { self.0.push(0) } if v >> i & 1 == 1 { *self.0.last_mut().unwrap() |= 1 << (self.1 % 8) } self.1 += 1; } }
    pub fn vbr(&mut self, mut v: u64, n: usize) { loop { let m = (1u64 << (n - 1)) - 1; if v <= m { self.f(v, n); return } self.f(v & m | (m + 1), n); v >>= n - 1; } }
    pub fn align(&mut self) { while self.1 % 32 != 0 { self.f(0, 1) } }
    pub fn enter(&mut self, w: usize, id: u64, nw: u64) { self.f(1, w); self.vbr(id, 8); self.vbr(nw, 4); self.align(); self.f(0, 32); }
    pub fn end(&mut self, w: usize) { self.f(0, w); self.align(); }
    pub fn record(&mut self, w: usize, r: &Rec) { self.f(3, w); self.vbr(r.code, 6); self.vbr(r.f.len() as u64, 6); for x in &r.f { self.vbr(*x, 6); } }
    /// records and sub-blocks interleaved as `order` says (false: a record)
    pub fn block(&mut self, w: usize, b: &Blk, rng: &mut Rng) {
        let nw = rng.range(2, 6) as usize;
        self.enter(w, b.id, nw as u64);
        let (mut i, mut j) = (0, 0);
        while i < b.recs.len() || j < b.subs.len() {
            if j == b.subs.len() || (i < b.recs.len() && rng.chance(1, 2)) { self.record(nw, &b.recs[i]); i += 1; } else { self.block(nw, &b.subs[j], rng); j += 1; }
        }
        self.end(nw);
    }
}
