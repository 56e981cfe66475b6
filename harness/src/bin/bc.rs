//! C01, C02, C03: BitCursor against a plain list of bits.
use harness::*;
use llvm_bitcursor::BitCursor;
use std::io::{Seek, SeekFrom};

fn agree<T: AsRef<[u8]>>(c: &BitCursor<T>, b: &Bits, pos: usize) -> Result<(), String> {
    ensure!(c.byte_len() == b.len, "byte_len {} expected {}", c.byte_len(), b.len);
    ensure!(c.bit_len() == b.len * 8, "bit_len {} expected {}", c.bit_len(), b.len * 8);
    ensure!(c.tell_bit() == pos, "tell_bit {} expected {}", c.tell_bit(), pos);
    ensure!(c.tell_byte() == pos / 8, "tell_byte {} expected {}", c.tell_byte(), pos / 8);
    ensure!(c.exhausted() == (pos >= b.nbits()), "exhausted {} at {} of {}", c.exhausted(), pos, b.nbits());
    Ok(())
}
fn at<'a>(b: &Bits<'a>, p: usize) -> Result<BitCursor<&'a [u8]>, String> {
    let mut c = BitCursor::new_with_len(b.d, b.len).map_err(|e| format!("new_with_len({}) failed: {e}", b.len))?;
    // reach p by plain reads, so this does not rely on seeking
    let mut left = p;
    while left > 0 { let n = left.min(63); c.read(n).map_err(|e| format!("read({n}) failed on the way to {p}: {e}"))?; left -= n; }
    Ok(c)
}
#[derive(Debug, Clone)]
enum Op { Read(usize), As8(usize), As16(usize), As32(usize), As64(usize), Asi8(usize), Exact8, Exact16, Exact32, Exact64, Vbr(usize), Svbr(usize), Align, SeekBit(usize), Start(u64), End(i64), Cur(i64), Tell }

fn gen_op(r: &mut Rng, nb: usize, prop: &str) -> Op {
    let w = match r.below(4) { 0 => r.range(1, 8) as usize, 1 => r.range(1, 63) as usize, 2 => *r.pick(&[0usize, 1, 31, 32, 33, 62, 63, 64, 65, 128, usize::MAX, 1 << 40]), _ => r.range(1, 33) as usize };
    let vw = *r.pick(&[0usize, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 31, 32, 32, 33, 64, usize::MAX]);
    let rel = |r: &mut Rng| -> i64 { match r.below(4) { 0 => *r.pick(&[i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX, i64::MAX - 1]), _ => r.range(0, (nb as u64 / 8) * 2 + 8) as i64 - (nb as i64 / 8) - 4 } };
    let kinds: &[u64] = match prop { "C01" => &[0, 0, 0, 0, 1, 2, 3, 4, 10], "C02" => &[0, 5, 5, 5, 6, 6, 7, 8], _ => &[0, 0, 1, 5, 7, 7, 8, 8, 9, 9, 11, 12, 13, 10] };
    match r.pick(kinds) {
        0 => Op::Read(w),
        1 => match r.below(5) { 0 => Op::As8(w), 1 => Op::As16(w), 2 => Op::As32(w), 3 => Op::Asi8(w), _ => Op::As64(w) },
        2 => Op::Exact8, 3 => if r.chance(1, 2) { Op::Exact16 } else { Op::Exact32 }, 4 => Op::Exact64,
        5 => Op::Vbr(vw), 6 => Op::Svbr(vw), 7 => Op::Align,
        8 => Op::SeekBit(match r.below(8) { 0 => r.edgy() as usize, 1 => nb, 2 => nb + 1, 3 => nb + r.below(70) as usize, _ => r.below(nb as u64 + 1) as usize }),
        9 => Op::Start(match r.below(6) { 0 => r.edgy(), 1 => nb as u64 / 8, 2 => nb as u64 / 8 + 1, _ => r.below(nb as u64 / 8 + 2) }),
        11 => Op::End(rel(r)), 12 => Op::Cur(rel(r)), 13 => Op::Cur(r.below(9) as i64 - 4),
        _ => Op::Tell,
    }
}
fn history(d: &[u8], len: usize, ops: &[Op]) -> Result<(), String> {
    let b = Bits { d, len };
    let mut c = BitCursor::new_with_len(d, len).map_err(|e| format!("{e}"))?;
    let mut pos = 0usize;
    agree(&c, &b, 0)?;
    // after a failed read the position may have moved forward (short data is consumed), never back
    for (k, op) in ops.iter().enumerate() {
        let e = |m: String| format!("op {k} {op:?} at bit {pos}: {m}");
        macro_rules! rdop { ($n:expr, $t:ty, $call:expr) => {{
            let want = b.read(pos, $n).and_then(|v| <$t>::try_from(v).ok());
            let raw = b.read(pos, $n);
            let got = $call;
            match (want, got) {
                (Some(v), Ok(g)) => { if v != g { return Err(e(format!("read {g}, expected {v}"))); } pos += $n; }
                (None, Err(_)) => { let t = c.tell_bit(); if t < pos || t > b.nbits() { return Err(e(format!("position {t} after a failed read"))); }
                    if raw.is_some() && t != pos + $n && t != pos { return Err(e(format!("position {t} after a failed typed read"))); }
                    pos = t; }
                (w, g) => return Err(e(format!("got {:?}, expected {:?}", g.map_err(|x| x.to_string()), w))),
            }
        }}; }
        match op {
            Op::Read(n) => rdop!(*n, u64, c.read(*n)),
            Op::As8(n) => rdop!(*n, u8, c.read_as::<u8>(*n)),
            Op::Asi8(n) => rdop!(*n, i8, c.read_as::<i8>(*n)),
            Op::As16(n) => rdop!(*n, u16, c.read_as::<u16>(*n)),
            Op::As32(n) => rdop!(*n, u32, c.read_as::<u32>(*n)),
            Op::As64(n) => rdop!(*n, u64, c.read_as::<u64>(*n)),
            Op::Exact8 => rdop!(8, u8, c.read_exact::<u8>()),
            Op::Exact16 => rdop!(16, u16, c.read_exact::<u16>()),
            Op::Exact32 => rdop!(32, u32, c.read_exact::<u32>()),
            Op::Exact64 => rdop!(64, u64, c.read_exact::<u64>()),
            Op::Vbr(w) | Op::Svbr(w) => {
                let want = b.vbr(pos, *w);
                let signed = matches!(op, Op::Svbr(_));
                let got: Result<i128, String> = if signed { c.read_svbr(*w).map(|x| x as i128).map_err(|x| x.to_string()) } else { c.read_vbr(*w).map(|x| x as i128).map_err(|x| x.to_string()) };
                match (want, got) {
                    (Some((v, end)), Ok(g)) => {
                        let want = if !signed { v as i128 } else if v & 1 == 0 { (v >> 1) as i128 } else if v == 1 { i64::MIN as i128 } else { -((v >> 1) as i128) };
                        if want != g { return Err(e(format!("decoded {g}, expected {want}"))); }
                        pos = end;
                    }
                    (None, Err(_)) => { let t = c.tell_bit(); if t < pos || t > b.nbits() { return Err(e(format!("position {t} after a failed VBR"))); } pos = t; }
                    (w, g) => return Err(e(format!("got {g:?}, expected {w:?}"))),
                }
            }
            Op::Align => { c.align32(); pos = b.align32(pos); }
            Op::SeekBit(p) => { let g = c.seek_bit(*p); if g.is_ok() != (*p <= b.nbits()) { return Err(e(format!("seek_bit ok={} in {} bits", g.is_ok(), b.nbits()))); }
                if g.is_ok() { pos = *p } else { let t = c.tell_bit(); if t > b.nbits() { return Err(e(format!("position {t} after a failed seek"))); } pos = t; } }
            Op::Start(_) | Op::End(_) | Op::Cur(_) => {
                let (sf, t) = match op { Op::Start(o) => (SeekFrom::Start(*o), *o as i128), Op::End(o) => (SeekFrom::End(*o), len as i128 + *o as i128), Op::Cur(o) => (SeekFrom::Current(*o), (pos / 8) as i128 + *o as i128), _ => unreachable!() };
                let mut ok = t >= 0 && t <= len as i128;
                let got = c.seek(sf);
                // documented: end-relative seeks must go backwards; End(0) is left open here
                if let Op::End(o) = op { if *o == 0 { ok = got.is_ok(); } }
                match got {
                    Ok(g) => { if !ok || g as i128 != t { return Err(e(format!("seek gave {g}, expected {}", if ok { t.to_string() } else { "an error".into() }))); } pos = (t * 8) as usize; }
                    Err(x) => if ok { return Err(e(format!("seek failed: {x}"))); },
                }
            }
            Op::Tell => { let g = c.stream_position().map_err(|x| x.to_string())?; if g as usize != pos / 8 { return Err(e(format!("stream_position {g}"))); } }
        }
        agree(&c, &b, pos).map_err(|m| format!("after op {k} {op:?}: {m}"))?;
    }
    // what remains must be what the data says
    while pos < b.nbits() {
        let n = (b.nbits() - pos).min(61);
        let g = c.read(n).map_err(|x| format!("final read({n}) at {pos}: {x}"))?;
        ensure!(Some(g) == b.read(pos, n), "final read({n}) at {pos} gave {g}, expected {:?}", b.read(pos, n));
        pos += n;
    }
    ensure!(c.read(1).is_err(), "read past the end succeeded");
    Ok(())
}
fn show(d: &[u8], len: usize, extra: &str) -> String { format!("data={} accessible_len={} {}", hex(d), len, extra) }

fn main() {
    let mut run = Run::from_args();
    let prop = run.prop.clone();
    match prop.as_str() {
        "C01" => {
            // every position, size and length up to three words
            let d = run.rng.bytes(27);
            for len in 0..=25usize {
                for p in 0..=len * 8 {
                    for n in (0..=64usize).chain([65, 127, usize::MAX]) {
                        run.case((len, p, n), || show(&d, len, &format!("read({n}) at bit {p}")), || {
                            let b = Bits { d: &d, len };
                            let mut c = at(&b, p)?;
                            agree(&c, &b, p)?;
                            match (c.read(n), b.read(p, n)) {
                                (Ok(g), Some(w)) if g == w => agree(&c, &b, p + n)?,
                                (Err(_), None) => {}
                                (g, w) => return Err(format!("got {:?} expected {:?}", g.map_err(|x| x.to_string()), w)),
                            }
                            Ok(())
                        });
                    }
                }
            }
            for blen in 0..12usize { for len in (0..14usize).chain([usize::MAX, 1 << 60]) {
                let d = vec![0xffu8; blen];
                run.case((blen, len, 0xbeef), || show(&d, len, "new_with_len"), || {
                    let r = BitCursor::new_with_len(d.as_slice(), len);
                    ensure!(r.is_ok() == (len <= blen), "new_with_len ok={}", r.is_ok());
                    let c = BitCursor::new(d.as_slice());
                    agree(&c, &Bits { d: &d, len: blen }, 0)
                });
            } }
        }
        "C02" => {
            // values at every width and shape
            for w in 2..=32usize {
                for k in 0..run.scale(220) {
                    let v = if k < 64 { 1u64 << k } else if k < 128 { (1u64 << (k - 64)).wrapping_sub(1) } else if k == 128 { u64::MAX } else if k == 129 { 1 } else { run.rng.edgy() };
                    let off = run.rng.below(70) as usize;
                    let mut wr = Writer::new();
                    for _ in 0..off { let x = run.rng.below(2); wr.put(x, 1); }
                    wr.vbr(v, w);
                    let pad = run.rng.below(40) as usize; wr.put(u64::MAX, pad);
                    let d = wr.bytes();
                    let cut = if run.rng.chance(1, 6) { d.len().saturating_sub(run.rng.below(9) as usize) } else { d.len() };
                    for signed in [false, true] {
                        run.case((w, v, off, cut, signed), || show(&d, cut, &format!("vbr value {v} width {w} at bit {off} signed={signed}")), || {
                            let b = Bits { d: &d, len: cut };
                            if off > b.nbits() { return Ok(()); }
                            let mut c = at(&b, off)?;
                            let want = b.vbr(off, w);
                            if want.is_some() && cut == d.len() && want.unwrap().0 != v { return Err("oracle".into()); }
                            let got: Result<i128, String> = if signed { c.read_svbr(w).map(|x| x as i128).map_err(|x| x.to_string()) } else { c.read_vbr(w).map(|x| x as i128).map_err(|x| x.to_string()) };
                            let want = want.map(|(v, e)| (if !signed { v as i128 } else if v & 1 == 0 { (v >> 1) as i128 } else if v == 1 { i64::MIN as i128 } else { -((v >> 1) as i128) }, e));
                            match (want, got) { (Some((x, e)), Ok(g)) if x == g => agree(&c, &b, e), (None, Err(_)) => Ok(()), (x, g) => Err(format!("got {g:?} expected {x:?}")) }
                        });
                    }
                }
                // runs of continuation chunks, payload all zero / all one / only last
                for n in 0..=(70 / (w - 1) + 3) { for pat in 0..6u64 {
                    let mut wr = Writer::new();
                    let h = 1u64 << (w - 1);
                    for _ in 0..n { wr.put(h | match pat { 0 | 3 => 0, 1 | 4 => h - 1, _ => run.rng.next() & (h - 1) }, w); }
                    match pat { 0 => wr.put(0, w), 1 => wr.put(h - 1, w), 2 => wr.put(run.rng.next() & (h - 1), w), 3 => wr.put(1, w), 4 => wr.put(0, w), _ => {} }
                    let d = wr.bytes();
                    run.case((w, n, pat, 7), || show(&d, d.len(), &format!("{n} continuation chunks of width {w}, pattern {pat}")), || {
                        let b = Bits { d: &d, len: d.len() };
                        let mut c = BitCursor::new(d.as_slice());
                        match (b.vbr(0, w), c.read_vbr(w)) { (Some((x, e)), Ok(g)) if x == g => agree(&c, &b, e), (None, Err(_)) => Ok(()), (x, g) => Err(format!("got {:?} expected {x:?}", g.map_err(|e| e.to_string()))) }
                    });
                } }
            }
            for w in [0usize, 1, 33, 34, 63, 64, 65, 1 << 32, usize::MAX] {
                let d = vec![0u8; 40];
                run.case((w, 99), || show(&d, 40, &format!("width {w}")), || { let mut c = BitCursor::new(d.as_slice()); ensure!(c.read_vbr(w).is_err(), "width {w} accepted"); ensure!(c.read_svbr(w).is_err(), "width {w} accepted"); Ok(()) });
            }
        }
        _ => {
            let d = run.rng.bytes(30);
            for len in 0..=27usize { for p in 0..=len * 8 {
                run.case((len, p), || show(&d, len, &format!("align32 / seek_bit at bit {p}")), || {
                    let b = Bits { d: &d, len };
                    let probe = |c: &mut BitCursor<&[u8]>, q: usize| -> Result<(), String> {
                        agree(c, &b, q)?;
                        let n = (b.nbits() - q).min(63);
                        if n > 0 { let g = c.read(n).map_err(|e| format!("read({n}) at {q}: {e}"))?; ensure!(Some(g) == b.read(q, n), "read({n}) at {q} gave {g}, expected {:?}", b.read(q, n)); agree(c, &b, q + n)?; }
                        Ok(())
                    };
                    let mut c = at(&b, p)?; c.align32(); probe(&mut c, b.align32(p))?;
                    let mut c = BitCursor::new_with_len(d.as_slice(), len).unwrap(); c.seek_bit(p).map_err(|e| format!("seek_bit({p}): {e}"))?; probe(&mut c, p)?;
                    let mut c = BitCursor::new_with_len(d.as_slice(), len).unwrap(); c.seek_bit(p).unwrap(); c.align32(); probe(&mut c, b.align32(p))?;
                    if p % 8 == 0 { for pre in [0usize, 5, 63] { if pre <= b.nbits() {
                        let mut c = at(&b, pre)?; c.seek(SeekFrom::Start(p as u64 / 8)).map_err(|e| format!("seek({}): {e}", p / 8))?; let mut k = c; k.align32(); probe(&mut k, b.align32(p))?;
                        let mut c = at(&b, pre)?; c.seek(SeekFrom::Start(p as u64 / 8)).unwrap(); probe(&mut c, p)?;
                    } } }
                    Ok(())
                });
            } }
        }
    }
    for i in 0..run.scale(150_000) {
        let cap = if i % 3 == 0 { 80 } else { 24 };
        let blen = run.rng.below(cap) as usize;
        let d = match run.rng.below(3) { 0 => vec![0xff; blen], 1 => { let mut v = run.rng.bytes(blen); for x in v.iter_mut() { if run.rng.chance(1, 2) { *x |= 0x88 } } v } _ => run.rng.bytes(blen) };
        let len = if run.rng.chance(1, 3) { run.rng.below(blen as u64 + 1) as usize } else { blen };
        let nops = run.rng.range(1, 14);
        let ops: Vec<Op> = (0..nops).map(|_| gen_op(&mut run.rng, len * 8, &prop)).collect();
        run.case((&d, len, format!("{ops:?}")), || show(&d, len, &format!("history {ops:?}")), || history(&d, len, &ops));
    }
    run.finish();
}
