//! C04..C09: Bitstream against a reading of the format written from the property texts.
use harness::*;
use llvm_bitstream::{parser::StreamEntry, BitcodeWrapper, Bitstream};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// remembers the largest single request
struct Peak;
static MAXREQ: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Peak {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAXREQ.fetch_max(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAXREQ.fetch_max(n, Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Peak = Peak;

#[derive(Clone, Debug, PartialEq)]
enum Op { Lit(u64), Fixed(u64), Vbr(u64), Arr(Box<Op>), Char6, Blob }
#[derive(Clone, Debug, PartialEq)]
enum Ent { End, Sub(u64, u64), Rec(Option<u64>, u64, Vec<u64>) }
#[derive(Clone, Debug)]
struct Sc { w: u64, id: u64, sel: Option<u64>, ab: Vec<Vec<Op>> }

/// the format, as the properties state it
struct Ref<'a> { b: Bits<'a>, p: usize, sc: Vec<Sc>, info: HashMap<u64, Vec<Vec<Op>>> }
const ALPHA: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";
type Res<T> = Result<T, ()>;
impl<'a> Ref<'a> {
    fn rd(&mut self, n: u64) -> Res<u64> { if n > 100 { return Err(()); } let v = self.b.read(self.p, n as usize).ok_or(())?; self.p += n as usize; Ok(v) }
    fn vbr(&mut self, w: u64) -> Res<u64> { if w > 100 { return Err(()); } let (v, e) = self.b.vbr(self.p, w as usize).ok_or(())?; self.p = e; Ok(v) }
    fn fields(&mut self, o: &Op, out: &mut Vec<u64>) -> Res<()> {
        match o {
            Op::Lit(v) => out.push(*v),
            Op::Fixed(0) | Op::Vbr(0) => out.push(0),
            Op::Fixed(w) => { let v = self.rd(*w)?; out.push(v) }
            Op::Vbr(w) => { let v = self.vbr(*w)?; out.push(v) }
            Op::Char6 => { let v = self.rd(6)?; out.push(ALPHA[v as usize] as u64) }
            Op::Arr(e) => {
                if matches!(**e, Op::Lit(_) | Op::Fixed(0) | Op::Vbr(0)) { return Err(()); }
                let n = self.vbr(6)?;
                for _ in 0..n { self.fields(e, out)?; }
            }
            Op::Blob => {
                let n = self.vbr(6)?;
                self.p = self.b.align32(self.p);
                for _ in 0..n { let v = self.rd(8)?; out.push(v) }
                self.p = self.b.align32(self.p);
            }
        }
        Ok(())
    }
    fn scalar(&mut self, e: u64) -> Res<Op> { match e { 1 => Ok(Op::Fixed(self.vbr(5)?)), 2 => Ok(Op::Vbr(self.vbr(5)?)), 4 => Ok(Op::Char6), _ => Err(()) } }
    fn define(&mut self) -> Res<Vec<Op>> {
        let n = self.vbr(5)?;
        if n == 0 { return Err(()); }
        let mut v = vec![];
        let mut left = n;
        while left > 0 {
            if self.rd(1)? == 1 { let x = self.vbr(8)?; v.push(Op::Lit(x)); left -= 1; continue; }
            match self.rd(3)? {
                3 => { if left != 2 || self.rd(1)? == 1 { return Err(()); } let e = self.rd(3)?; let o = self.scalar(e)?; v.push(Op::Arr(Box::new(o))); left = 0; }
                5 => { if left != 1 { return Err(()); } v.push(Op::Blob); left = 0; }
                e => { let o = self.scalar(e)?; v.push(o); left -= 1; }
            }
        }
        Ok(v)
    }
    fn record(&mut self, a: Option<u64>, code: u64, f: Vec<u64>) -> Res<Option<Ent>> {
        let s = self.sc.last_mut().ok_or(())?;
        if s.id != 0 { return Ok(Some(Ent::Rec(a, code, f))); }
        match code { 1 => { s.sel = Some(*f.first().ok_or(())?); Ok(None) } 2 | 3 => Ok(None), _ => Err(()) }
    }
    /// Ok(None): exhausted
    fn next(&mut self) -> Res<Option<Ent>> {
        loop {
            if self.p >= self.b.nbits() { return Ok(None); }
            let w = self.sc.last().map_or(2, |s| s.w);
            let r = match self.rd(w)? {
                0 => { self.p = self.b.align32(self.p); let s = self.sc.pop().ok_or(())?; if s.id == 0 { None } else { Some(Ent::End) } }
                1 => {
                    let id = self.vbr(8)?;
                    let w = self.vbr(4)?;
                    self.p = self.b.align32(self.p);
                    if w == 0 || w > 63 { return Err(()); }
                    let n = self.rd(32)?;
                    self.sc.push(Sc { w, id, sel: None, ab: self.info.get(&id).cloned().unwrap_or_default() });
                    if id == 0 { None } else { Some(Ent::Sub(id, n * 4)) }
                }
                2 => {
                    let d = self.define()?;
                    let s = self.sc.last_mut().ok_or(())?;
                    if s.id == 0 { let k = s.sel.ok_or(())?; self.info.entry(k).or_default().push(d) } else { s.ab.push(d) }
                    None
                }
                3 => {
                    if self.sc.is_empty() { return Err(()); }
                    let code = self.vbr(6)?;
                    let n = self.vbr(6)?;
                    let mut f = vec![];
                    for _ in 0..n { f.push(self.vbr(6)?); }
                    self.record(None, code, f)?
                }
                id => {
                    let s = self.sc.last().ok_or(())?;
                    let d = s.ab.get(usize::try_from(id - 4).map_err(|_| ())?).ok_or(())?.clone();
                    let mut f = vec![];
                    for o in &d { self.fields(o, &mut f)?; }
                    if f.is_empty() { return Err(()); }
                    let code = f.remove(0);
                    self.record(Some(id), code, f)?
                }
            };
            if r.is_some() { return Ok(r); }
        }
    }
}
fn open(d: &[u8], end: usize, start: usize) -> Res<(u32, Ref<'_>)> {
    if end > d.len() || start + 4 > end || start % 4 != 0 || end % 4 != 0 { return Err(()); }
    let b = Bits { d, len: end };
    let m = b.rd(start * 8, 32) as u32;
    Ok((m, Ref { b, p: start * 8 + 32, sc: vec![], info: HashMap::new() }))
}
fn word(d: &[u8], i: usize) -> u32 { u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]) }
fn ref_wrapped(d: &[u8]) -> Res<(u32, Ref<'_>)> {
    if d.len() < 20 { return Err(()); }
    open(d, word(d, 2) as usize + word(d, 3) as usize, word(d, 2) as usize)
}
fn hdr_ok(h: &BitcodeWrapper, d: &[u8]) -> Result<(), String> {
    let g = [h.magic, h.version, h.offset, h.size, h.cpu_type];
    for i in 0..5 { ensure!(g[i] == word(d, i), "wrapper header word {i} reported as {:#x}, it is {:#x}", g[i], word(d, i)); }
    Ok(())
}
fn ent(e: StreamEntry) -> Ent {
    match e { StreamEntry::EndBlock => Ent::End, StreamEntry::SubBlock(b) => Ent::Sub(b.block_id, b.len), StreamEntry::Record(r) => Ent::Rec(r.abbrev_id, r.code, r.fields) }
}
fn brief<T: std::fmt::Debug>(e: &T) -> String { let s = format!("{e:?}"); if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s } }
/// entries agree up to the first error; then draining ends
fn follow(b: &mut Bitstream<&[u8]>, r: &mut Ref, differ: bool) -> Result<(), String> {
    let bits = r.b.nbits();
    let mut pulls = 0usize;
    if differ {
        loop {
            pulls += 1;
            let want = r.next();
            let got = b.next();
            match (want, got) {
                (Ok(None), None) => { ensure!(b.next().is_none(), "an entry after the end of the data"); return Ok(()); }
                (Ok(Some(w)), Some(Ok(g))) => { let g = ent(g); ensure!(w == g, "entry {pulls}: got {}, expected {}", brief(&g), brief(&w)); }
                (Err(()), Some(Err(_))) => break,
                (w, g) => return Err(format!("entry {pulls}: got {}, expected {}", match g { None => "the end".into(), Some(Ok(e)) => brief(&ent(e)), Some(Err(e)) => format!("error {e:?}") }, match w { Err(()) => "an error".into(), Ok(None) => "the end".into(), Ok(Some(w)) => brief(&w) })),
            }
        }
    }
    while b.next().is_some() { pulls += 1; ensure!(pulls <= bits + 1, "{pulls} pulls and still not at the end of {bits} bits"); }
    ensure!(b.next().is_none(), "an entry after the end of the data");
    Ok(())
}
fn check(d: &[u8], how: u8, differ: bool) -> Result<(), String> {
    MAXREQ.store(0, Relaxed);
    let wrapped = match how { 0 => d.len() >= 4 && word(d, 0) == 0x0b17c0de, 1 => false, _ => true };
    let got = match how {
        0 => Bitstream::from(d).map_err(|e| e.to_string()),
        1 => Bitstream::from_raw(d).map(|b| (None, b)).map_err(|e| e.to_string()),
        _ => Bitstream::from_wrapped(d).map(|(h, b)| (Some(h), b)).map_err(|e| e.to_string()),
    };
    let want = if wrapped { ref_wrapped(d) } else { open(d, d.len(), 0) };
    match (want, got) {
        (Err(()), Err(_)) => {}
        (Ok((m, mut r)), Ok((h, mut b))) => {
            ensure!(h.is_some() == wrapped, "wrapper reported: {}, expected: {wrapped}", h.is_some());
            if let Some(h) = h { hdr_ok(&h, d)?; }
            ensure!(b.magic == m, "magic {:#x}, expected {m:#x}", b.magic);
            follow(&mut b, &mut r, differ)?;
        }
        (Err(()), Ok(_)) => return Err("opened, but an error was expected".into()),
        (Ok(_), Err(e)) => return Err(format!("opening failed: {e}")),
    }
    let lim = 8192 * d.len() + (1 << 20);
    let m = MAXREQ.load(Relaxed);
    ensure!(m <= lim, "a single allocation of {m} bytes for {} bytes of input", d.len());
    Ok(())
}

// ------------------------------------------------------------------ generation
struct Gen<'r> { r: &'r mut Rng, w: Writer, sc: Vec<Sc>, info: HashMap<u64, Vec<Vec<Op>>>, bad: u64, budget: i64 }
impl Gen<'_> {
    fn val(&mut self) -> u64 { match self.r.below(6) { 0 => self.r.edgy(), 1 => self.r.below(3), _ => self.r.below(70) } }
    fn bad(&mut self) -> bool { self.bad > 0 && self.r.chance(1, self.bad) }
    fn count(&mut self) -> u64 { match self.r.below(12) { 0 => self.r.range(30, 70), 1 | 2 => 0, 3 => 1, _ => self.r.range(2, 9) } }
    fn width(&mut self) -> u64 { match self.r.below(12) { 0 => 0, 1 => 63, 2 => 32, 3 => 1, 4 if self.bad > 0 => *self.r.pick(&[64u64, 33, 65, 1 << 20, u64::MAX]), _ => self.r.range(1, 20) } }
    fn scalar(&mut self, elem: bool) -> Op {
        let bad = self.bad();
        match self.r.below(4) {
            0 => { let mut w = self.width(); if elem && w == 0 && !bad { w = 7; } if w > 63 && !bad { w = 63; } Op::Fixed(w) }
            1 | 2 => { let w = if bad { self.width() } else { *self.r.pick(&[0u64, 2, 3, 4, 5, 6, 8, 13, 31, 32]) }; Op::Vbr(if elem && w == 0 && !bad { 6 } else { w }) }
            _ => Op::Char6,
        }
    }
    fn ops(&mut self) -> Vec<Op> {
        let n = match self.r.below(10) { 0 => self.r.range(5, 40), _ => self.r.range(1, 4) };
        let mut v: Vec<Op> = (0..n).map(|_| if self.r.chance(1, 4) { Op::Lit(self.val()) } else { self.scalar(false) }).collect();
        match self.r.below(4) { 0 => v.push(Op::Arr(Box::new(self.scalar(true)))), 1 => v.push(Op::Blob), _ => {} }
        if self.r.chance(1, 12) { v.remove(0); }
        if self.r.chance(1, 15) { v = vec![if self.r.chance(1, 2) { Op::Blob } else { Op::Arr(Box::new(self.scalar(true))) }]; }
        v
    }
    fn enc_scalar(&mut self, o: &Op) { match o { Op::Fixed(w) => { self.w.put(1, 3); self.w.vbr(*w, 5); } Op::Vbr(w) => { self.w.put(2, 3); self.w.vbr(*w, 5); } _ => self.w.put(4, 3) } }
    fn enc_def(&mut self, v: &[Op]) {
        let n = v.len() as u64 + matches!(v.last(), Some(Op::Arr(_))) as u64;
        let n2 = if self.bad() { match self.r.below(4) { 0 => 0, 1 => n + 1, 2 => n.saturating_sub(1), _ => self.r.edgy() } } else { n };
        self.w.vbr(n2, 5);
        for o in v {
            if self.bad() { let (b, e) = (self.r.below(2), self.r.below(8)); self.w.put(b, 1); self.w.put(e, 3); continue; }
            match o {
                Op::Lit(x) => { self.w.put(1, 1); self.w.vbr(*x, 8); }
                Op::Arr(e) => {
                    self.w.put(0, 1); self.w.put(3, 3);
                    if self.bad() { match self.r.below(3) { 0 => { self.w.put(1, 1); self.w.vbr(5, 8); } 1 => { self.w.put(0, 1); self.w.put(3, 3); } _ => { self.w.put(0, 1); self.w.put(5, 3); } } }
                    else { self.w.put(0, 1); let e = (**e).clone(); self.enc_scalar(&e); }
                }
                Op::Blob => { self.w.put(0, 1); self.w.put(5, 3); }
                o => { self.w.put(0, 1); let o = o.clone(); self.enc_scalar(&o); }
            }
        }
    }
    fn enc_val(&mut self, o: &Op) {
        match o {
            Op::Lit(_) => {}
            Op::Fixed(w) => { let v = if self.r.chance(1, 4) { u64::MAX } else { self.r.next() }; self.w.put(v, (*w).min(64) as usize) }
            Op::Vbr(w) => if (2..=32).contains(w) { let v = self.val(); self.w.vbr(v, *w as usize) } else { let v = self.r.next(); self.w.put(v, (*w).min(40) as usize) },
            Op::Char6 => { let v = self.r.below(64); self.w.put(v, 6) }
            Op::Arr(e) => {
                let n = self.count();
                let lie = if self.bad() { self.r.edgy() } else { n };
                self.w.vbr(lie, 6);
                for _ in 0..n { self.enc_val(e); }
            }
            Op::Blob => {
                let n = self.count();
                let lie = if self.bad() { self.r.edgy() } else { n };
                self.w.vbr(lie, 6);
                self.w.align32();
                for _ in 0..n { let b = self.r.next() & 255; self.w.put(b, 8); }
                self.w.align32();
            }
        }
    }
    fn id(&mut self, v: u64) { let w = self.sc.last().map_or(2, |s| s.w); self.w.put(v, w as usize); }
    fn item(&mut self, mix: &[u64]) {
        self.budget -= 1;
        let inblk = !self.sc.is_empty();
        let isinfo = self.sc.last().map_or(false, |s| s.id == 0);
        let w = self.sc.last().map_or(2, |s| s.w);
        let mut k = *self.r.pick(mix);
        if !inblk && !self.bad() { k = 1; }
        if w == 1 && k > 1 { k = self.r.below(2); }
        match k {
            0 => { if self.bad() || inblk { self.id(0); self.w.align32(); self.sc.pop(); } }
            1 => {
                if self.sc.len() > 40 { return; }
                let id = match self.r.below(5) { 0 | 1 => 0, 2 => 8, 3 => 9, _ => { let v = self.val(); v } };
                let nw = if self.bad() { *self.r.pick(&[0u64, 1, 63, 64, 65, u64::MAX]) } else { match self.r.below(12) { 0 => 63, 1 => 2, 2 => 32, 3 => 17, _ => self.r.range(3, 8) } };
                self.id(1);
                self.w.vbr(id, 8); self.w.vbr(nw, 4); self.w.align32();
                let n = if self.r.chance(1, 4) { self.r.edgy() } else { self.r.below(40) };
                self.w.put(n, 32);
                let ab = self.info.get(&id).cloned().unwrap_or_default();
                self.sc.push(Sc { w: nw.clamp(1, 63), id, sel: None, ab });
            }
            2 => {
                if isinfo && self.sc.last().unwrap().sel.is_none() && !self.bad() { return self.setbid(); }
                let v = self.ops();
                self.id(2);
                self.enc_def(&v);
                let Some(s) = self.sc.last_mut() else { return };
                if s.id == 0 { if let Some(k) = s.sel { self.info.entry(k).or_default().push(v) } } else { s.ab.push(v) }
            }
            3 => {
                if isinfo { return self.setbid(); }
                self.id(3);
                let (c, n) = (self.val(), self.count());
                self.w.vbr(c, 6);
                let lie = if self.bad() { self.r.edgy() } else { n };
                self.w.vbr(lie, 6);
                for _ in 0..n { let v = self.val(); self.w.vbr(v, 6); }
            }
            _ => {
                if !inblk { return; }
                let ab = self.sc.last().unwrap().ab.clone();
                if ab.is_empty() { return; }
                let i = if self.bad() { ab.len() } else { self.r.below(ab.len() as u64) as usize };
                if w < 63 && (i as u64 + 4) >> w != 0 { return; }
                self.id(i as u64 + 4);
                if i >= ab.len() { return; }
                for o in &ab[i] { self.enc_val(o); }
                // inside the information block, only literals tell us what was selected
                if isinfo { if let [Op::Lit(1), Op::Lit(x), ..] = ab[i][..] { self.sc.last_mut().unwrap().sel = Some(x); } }
            }
        }
    }
    fn setbid(&mut self) {
        if self.r.chance(1, 4) {
            // names are skipped
            self.id(3); let c = self.r.range(2, 3); self.w.vbr(c, 6); self.w.vbr(2, 6); self.w.vbr(65, 6); self.w.vbr(66, 6);
            return;
        }
        let b = match self.r.below(5) { 0 => 0, 1 | 2 => 8, 3 => 9, _ => self.val() };
        self.id(3);
        let c = if self.bad() { self.r.below(6) } else { 1 };
        self.w.vbr(c, 6);
        if self.bad() { self.w.vbr(0, 6); return; }
        let extra = self.r.below(2);
        self.w.vbr(1 + extra, 6); self.w.vbr(b, 6);
        if extra == 1 { self.w.vbr(77, 6); }
        if let Some(s) = self.sc.last_mut() { s.sel = Some(b); }
    }
}
fn generate(r: &mut Rng, prop: &str, bad: u64) -> Vec<u8> {
    let mix: &[u64] = match prop { "C06" => &[2, 2, 2, 4, 1, 0], "C07" => &[2, 4, 4, 4, 4, 1, 0], "C08" => &[0, 0, 1, 1, 2, 2, 3, 4, 4], _ => &[0, 0, 1, 2, 3, 3, 4, 4] };
    let n = match r.below(4) { 0 => r.range(1, 6), 1 => r.range(40, 90), _ => r.range(6, 40) };
    let mut g = Gen { r, w: Writer::new(), sc: vec![], info: HashMap::new(), bad, budget: n as i64 };
    let m = if g.r.chance(1, 3) { g.r.next() } else { 0xdec04342 };
    g.w.put(m, 32);
    if word(&g.w.bytes(), 0) == 0x0b17c0de { g.w.bits[3] ^= true; }
    while g.budget > 0 { g.item(mix); }
    if g.r.chance(3, 4) { while !g.sc.is_empty() { g.id(0); g.w.align32(); g.sc.pop(); } }
    g.w.align32();
    g.w.bytes()
}
fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..r.range(1, 5) {
        if d.len() < 5 { return; }
        match r.below(6) {
            0 => { let i = r.range(4, d.len() as u64 - 1) as usize; d[i] ^= 1 << r.below(8); }
            1 => { let i = r.range(4, d.len() as u64 - 1) as usize; d[i] = r.next() as u8; }
            2 => { let n = d.len() - 4; if n >= 4 { d.truncate(n); } }
            3 => { let i = r.range(4, d.len() as u64 - 1) as usize; for b in &mut d[i..] { if r.chance(1, 8) { *b = 0xff; } } }
            4 => { for _ in 0..4 { let b = r.next() as u8; d.push(b); } }
            _ => { let i = r.range(1, (d.len() / 4) as u64 - 1).max(1) as usize * 4; for k in 0..4 { if i + k < d.len() { d[i + k] = *r.pick(&[0u8, 255, 1, 0x80]); } } }
        }
    }
}
fn wrap(r: &mut Rng, inner: &[u8]) -> Vec<u8> {
    let off = 20 + 4 * r.below(4) as usize;
    let mut d = vec![0u8; off];
    let cpu = r.next() as u32;
    for (i, v) in [0x0b17c0deu32, r.below(3) as u32, off as u32, inner.len() as u32, cpu].iter().enumerate() { d[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes()); }
    for b in &mut d[20..] { *b = r.next() as u8; }
    d.extend_from_slice(inner);
    if r.chance(1, 2) { for _ in 0..r.below(24) { let b = r.next() as u8; d.push(b); } }
    d
}
fn main() {
    let mut run = Run::from_args();
    let prop = run.prop.clone();
    let only = |p: &str| prop == p;
    let go = |run: &mut Run, d: Vec<u8>, how: u8, differ: bool| {
        let dd = d.clone();
        run.case((&d, how), || if dd.len() <= 2048 { format!("open={} bytes={}", ["from", "from_raw", "from_wrapped"][how as usize], hex(&dd)) } else { format!("open={} {} bytes starting {}", how, dd.len(), hex(&dd[..256])) }, || check(&d, how, differ));
    };
    if only("C04") {
        run.hard = true;
        // every source of up to two bytes, and short sources
        for n in 0..=2usize { for v in 0..(1u32 << (8 * n)) { if n == 2 && v % 7 != 0 { continue; } let d = v.to_le_bytes()[..n].to_vec(); for how in 0..3 { go(&mut run, d.clone(), how, false); } } }
        // long runs of parse details, in and out of the information block
        for info in [true, false] {
            for n in [1000u64, 200_000] {
                let mut w = Writer::new();
                w.put(0xdec04342, 32);
                w.put(1, 2); w.vbr(if info { 0 } else { 8 }, 8); w.vbr(3, 4); w.align32(); w.put(0, 32);
                if info { w.put(3, 3); w.vbr(1, 6); w.vbr(1, 6); w.vbr(8, 6); }
                for i in 0..n { if info && i % 2 == 0 { w.put(3, 3); w.vbr(1, 6); w.vbr(1, 6); w.vbr(8, 6); } else { w.put(2, 3); w.vbr(1, 5); w.put(1, 1); w.vbr(1, 8); } }
                w.align32();
                go(&mut run, w.bytes(), 0, false);
            }
            // empty information blocks in a row, and deep nesting
            for nest in [false, true] {
                let mut w = Writer::new();
                w.put(0xdec04342, 32);
                for _ in 0..40_000 { w.put(1, 2); w.vbr(if info { 0 } else { 8 }, 8); w.vbr(2, 4); w.align32(); w.put(0, 32); if !nest { w.put(0, 2); w.align32(); } }
                go(&mut run, w.bytes(), 0, false);
            }
        }
        // counts that promise far more than there is
        for cnt in [1u64 << 10, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 60, u64::MAX, i64::MAX as u64, (1 << 61) - 1] {
            for k in 0..5u64 {
                let mut w = Writer::new();
                w.put(0xdec04342, 32);
                w.put(1, 2); w.vbr(8, 8); w.vbr(4, 4); w.align32(); w.put(0xffff_ffff, 32);
                match k {
                    0 => { w.put(3, 4); w.vbr(1, 6); w.vbr(cnt, 6); }
                    1 => { w.put(2, 4); w.vbr(cnt, 5); }
                    2 | 3 => { w.put(2, 4); w.vbr(3, 5); w.put(1, 1); w.vbr(1, 8); w.put(0, 1); w.put(3, 3); w.put(0, 1); if k == 2 { w.put(1, 3); w.vbr(8, 5); } else { w.put(1, 3); w.vbr(0, 5); } w.put(4, 4); w.vbr(cnt, 6); }
                    _ => { w.put(2, 4); w.vbr(2, 5); w.put(1, 1); w.vbr(1, 8); w.put(0, 1); w.put(5, 3); w.put(4, 4); w.vbr(cnt, 6); }
                }
                w.align32(); w.put(0x12345678, 32);
                go(&mut run, w.bytes(), 0, false);
            }
        }
        // trailing bits too short for an identifier, for every width
        for wd in 1..=70u64 { for pad in 0..3 {
            let mut w = Writer::new();
            w.put(0xdec04342, 32); w.put(1, 2); w.vbr(8, 8); w.vbr(wd, 4); w.align32(); w.put(0, 32); for _ in 0..pad { w.put(0xffff_ffff, 32); }
            go(&mut run, w.bytes(), 1, false);
        } }
        for k in 0..run.scale(6000) {
            let n = match run.rng.below(3) { 0 => run.rng.below(16), 1 => run.rng.below(80), _ => run.rng.below(300) } as usize;
            let mut d = run.rng.bytes(n);
            if k % 3 == 0 { for b in &mut d { if run.rng.chance(1, 2) { *b &= 0x11; } } }
            let how = (k % 3) as u8;
            go(&mut run, d, how, false);
        }
    }
    // the whole format, well formed and not; C05 looks at the container
    if !only("C05") {
        let n = run.scale(match prop.as_str() { "C04" => 20000, _ => 40000 });
        for k in 0..n {
            let bad = match k % 4 { 0 | 1 => 0, 2 => 40, _ => 12 };
            let mut d = generate(&mut run.rng, &prop, bad);
            if k % 5 == 4 { mutate(&mut run.rng, &mut d); }
            let (mut how, mut x) = (1, d);
            if k % 11 == 0 { x = wrap(&mut run.rng, &x); how = 0; }
            go(&mut run, x, how, !only("C04"));
        }
    }
    if only("C06") || only("C07") {
        // every single-operand definition kind with every width, then a record with it
        for enc in 0..8u64 { for wd in 0..=70u64 { for arr in 0..4u64 {
            let mut w = Writer::new();
            w.put(0xdec04342, 32); w.put(1, 2); w.vbr(8, 8); w.vbr(4, 4); w.align32(); w.put(0, 32); w.put(2, 4);
            match arr {
                0 => { w.vbr(1, 5); w.put(0, 1); w.put(enc, 3); if enc == 1 || enc == 2 { w.vbr(wd, 5); } }
                1 => { w.vbr(3, 5); w.put(1, 1); w.vbr(wd, 8); w.put(0, 1); w.put(3, 3); w.put(0, 1); w.put(enc, 3); if enc == 1 || enc == 2 { w.vbr(wd, 5); } }
                2 => { w.vbr(2, 5); w.put(0, 1); w.put(enc, 3); if enc == 1 || enc == 2 { w.vbr(wd, 5); } w.put(1, 1); w.vbr(wd, 8); }
                _ => { w.vbr(2, 5); w.put(0, 1); w.put(3, 3); w.put(1, 1); w.vbr(wd, 8); }
            }
            w.put(4, 4);
            if arr == 1 { w.vbr(3, 6); }
            for _ in 0..12 { let v = run.rng.next(); w.put(v, 64); }
            w.align32();
            go(&mut run, w.bytes(), 1, true);
        } } }
        // all six-bit characters, alone and as an array
        for c in 0..64u64 {
            let mut w = Writer::new();
            w.put(0xdec04342, 32); w.put(1, 2); w.vbr(8, 8); w.vbr(4, 4); w.align32(); w.put(0, 32);
            w.put(2, 4); w.vbr(3, 5); w.put(0, 1); w.put(4, 3); w.put(0, 1); w.put(3, 3); w.put(0, 1); w.put(4, 3);
            w.put(4, 4); w.put(c, 6); w.vbr(2, 6); w.put(63 - c, 6); w.put(c, 6); w.put(0, 4); w.align32();
            go(&mut run, w.bytes(), 1, true);
        }
        // blobs at every alignment and length
        for len in 0..=9u64 { for lead in 0..34u64 {
            let mut w = Writer::new();
            w.put(0xdec04342, 32); w.put(1, 2); w.vbr(8, 8); w.vbr(4, 4); w.align32(); w.put(0, 32);
            w.put(2, 4); w.vbr(3, 5); w.put(1, 1); w.vbr(7, 8); w.put(0, 1); w.put(1, 3); w.vbr(lead, 5); w.put(0, 1); w.put(5, 3);
            w.put(4, 4); w.put(u64::MAX, lead as usize); w.vbr(len, 6); w.align32(); for i in 0..len { w.put(0xf1 + i, 8); } w.align32();
            w.put(3, 4); w.vbr(1, 6); w.vbr(0, 6); w.put(0, 4); w.align32();
            go(&mut run, w.bytes(), 1, true);
        } }
    }
    if only("C09") || only("C08") {
        // every identifier in blocks of every width, and at the top level
        for wd in 1..=63u64 { for id in [0u64, 1, 2, 3, 4, 5, 6, (1 << (wd - 1)), (1 << wd) - 1] {
            if id >> wd != 0 { continue; }
            let mut w = Writer::new();
            w.put(0xdec04342, 32); w.put(1, 2); w.vbr(8, 8); w.vbr(wd, 4); w.align32(); w.put(9, 32);
            if wd > 1 { w.put(2, wd as usize); w.vbr(1, 5); w.put(1, 1); w.vbr(3, 8); }
            w.put(id, wd as usize);
            let v = run.rng.next() & 0x0fff_ffff_0fff_ffff;
            w.put(v, 64); w.align32();
            go(&mut run, w.bytes(), 1, true);
        } }
        for b in 0..=255u8 { let mut d = vec![0x42, 0x43, 0xc0, 0xde]; d.extend_from_slice(&[b, 0x21, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0]); go(&mut run, d, 0, true); }
    }
    if only("C05") {
        for _ in 0..run.scale(4000) {
            let inner = generate(&mut run.rng, "C09", 0);
            let mut d = wrap(&mut run.rng, &inner);
            if run.rng.chance(1, 2) {
                let i = run.rng.range(1, 4) as usize;
                let dl = d.len() as u64;
                let v = match run.rng.below(6) { 0 => run.rng.edgy(), 1 => dl, 2 => run.rng.below(dl + 8), 3 => 0, 4 => run.rng.below(dl / 4) * 4, _ => u32::MAX as u64 - run.rng.below(24) } as u32;
                d[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes());
            }
            if run.rng.chance(1, 10) { let n = run.rng.below(d.len() as u64 + 1) as usize; d.truncate(n); }
            if d.len() >= 4 && run.rng.chance(1, 12) { d[run.rng.below(4) as usize] ^= 1; }
            let how = run.rng.below(3) as u8;
            go(&mut run, d, how, true);
        }
        // header words at every small offset and size of one fixed source
        let inner = generate(&mut run.rng, "C09", 0);
        let src = wrap(&mut run.rng, &inner);
        for off in 0..48u32 { for size in 0..64u32 {
            let mut d = src.clone();
            d[8..12].copy_from_slice(&off.to_le_bytes()); d[12..16].copy_from_slice(&size.to_le_bytes());
            go(&mut run, d, if size % 2 == 0 { 0 } else { 2 }, true);
        } }
        let end = src.len() as u32;
        for off in (0..end).step_by(4) { for k in 0..6u32 { let mut d = src.clone(); d[8..12].copy_from_slice(&off.to_le_bytes()); d[12..16].copy_from_slice(&(end - off + k).wrapping_sub(3).to_le_bytes()); go(&mut run, d, 0, true); } }
        for n in 0..40usize { for how in 0..3 { let d = src[..n.min(src.len())].to_vec(); go(&mut run, d, how, true); let mut d = inner.clone(); d.truncate(n); go(&mut run, d, how, true); } }
        for m in [0u32, 1, 0xdec04342, 0x0b17c0de, 0x0b17c0df, 0x8b17c0de, 0xdec0170b, 0xffff_ffff] { for how in 0..2 { let mut d = m.to_le_bytes().to_vec(); d.extend_from_slice(&src[4..]); while d.len() % 4 != 0 { d.pop(); } go(&mut run, d, how, true); } }
    }
    run.finish();
}
