//! Concrete replay of the record, attribute, type table, unrolling and mapping properties (C16-C22).
use harness2::*;
use llvm_mapper::block::{AttributeGroups, BlockId, Identification, Strtab, Symtab, TypeTable};
use llvm_mapper::unroll::{Bitcode, Block, Record};
use llvm_mapper::vx_hooks as hk;
use llvm_support::StrtabRef;

// ------------------------------------------------------------------ generators
fn byte(r: &mut Rng) -> u64 { match r.below(40) { 0 => r.range(128, 255), 1 => r.edgy(), 2 => 0, _ => r.range(97, 122) } }
/// mostly text, sometimes not
fn text_fields(r: &mut Rng, n: u64) -> Vec<u64> {
    if r.chance(1, 5) { let s = ["é", "日本", "a😀b", "naïve\n", "x\u{7f}\u{80}"][r.below(5) as usize]; return s.bytes().map(|b| b as u64).collect(); }
    (0..n).map(|_| byte(r)).collect()
}
fn word(r: &mut Rng) -> String { let n = r.range(2, 6); (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() }
fn some_rec(r: &mut Rng) -> Rec { let n = r.below(6); Rec { code: r.below(5), f: (0..n).map(|_| r.edgy()).collect() } }

// ------------------------------------------------------------------ C16
fn strtab_of(bytes: &[u8]) -> Option<Strtab> {
    Strtab::try_from(&Blk::new(23, vec![Rec { code: 1, f: bytes.iter().map(|b| *b as u64).collect() }], vec![]).real()).ok()
}
fn c16(r: &mut Run) {
    for _ in 0..r.scale(30000) {
        let n = r.rng.below(12);
        let rc = Rec { code: r.rng.below(4), f: if r.rng.chance(1, 6) { (0..n).map(|_| r.rng.edgy()).collect() } else { text_fields(&mut r.rng, n) } };
        let i = match r.rng.below(4) { 0 => rc.f.len() as u64, 1 => r.rng.edgy(), _ => r.rng.below(rc.f.len() as u64 + 2) } as usize;
        r.case((&rc, i), || format!("record {rc:?} at {i}"), || {
            let x = rc.real();
            ensure!(same_rec(&x, &rc), "code/fields {:?}", x);
            let (s, b) = (x.try_string(i).ok(), x.try_blob(i).ok());
            let (es, eb) = if i >= rc.f.len() { (None, None) } else { (string(&rc, i), blob(&rc, i)) };
            ensure!(s == es, "try_string {s:?}, expected {es:?}");
            ensure!(b == eb, "try_blob {b:?}, expected {eb:?}");
            Ok(())
        });
    }
    for _ in 0..r.scale(20000) {
        let n = r.rng.below(20);
        let t: Vec<u8> = text_fields(&mut r.rng, n).into_iter().map(|x| x as u8).collect();
        if t.len() < 2 { continue; }
        let (o, z) = match r.rng.below(4) {
            0 => (r.rng.edgy(), r.rng.edgy()),
            1 => { let o = r.rng.edgy(); (o, (t.len() as u64).wrapping_sub(o).wrapping_add(r.rng.below(3))) }
            _ => (r.rng.below(t.len() as u64 + 2), r.rng.below(t.len() as u64 + 2)),
        };
        r.case((&t, o, z), || format!("string table {t:?}, offset {o}, size {z}"), || {
            let s = strtab_of(&t).ok_or("table refused")?;
            ensure!(s.as_ref() == &t[..], "table bytes {:?}", s.as_ref());
            let e = table_str(&t, o, z);
            let sref = StrtabRef { offset: o as usize, size: z as usize };
            ensure!(s.get(&sref).map(String::from) == e, "get {:?}, expected {e:?}", s.get(&sref));
            ensure!(s.try_get(&sref).ok().map(String::from) == e, "try_get, expected {e:?}");
            let q: StrtabRef = (o, z).into();
            ensure!(q.offset == o as usize && q.size == z as usize, "reference {} {}", q.offset, q.size);
            Ok(())
        });
    }
    for _ in 0..r.scale(10000) {
        let k = r.rng.below(4);
        let recs: Vec<Rec> = (0..k).map(|_| { let n = r.rng.below(8); Rec { code: r.rng.below(4), f: text_fields(&mut r.rng, n) } }).collect();
        let b = Blk::new(23, recs, vec![]);
        r.case(("blk", &b), || format!("tables from {b:?}"), || {
            let x = b.real();
            let e = b.first(1).and_then(|r| blob(r, 0));
            let s = Strtab::try_from(&x).ok().map(|s| s.as_ref().to_vec());
            ensure!(s == e, "Strtab {s:?}, expected {e:?}");
            let s = Symtab::try_from(&x).ok().map(|s| s.as_ref().to_vec());
            ensure!(s == e, "Symtab {s:?}, expected {e:?}");
            let i = Identification::try_from(&x).ok().map(|i| (i.producer, i.epoch));
            let e = b.first(1).and_then(|r| string(r, 0)).and_then(|p| Some((p, *b.first(2)?.f.first()?)));
            ensure!(i == e, "Identification {i:?}, expected {e:?}");
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C17
fn c17(r: &mut Run) {
    for _ in 0..r.scale(20000) {
        let k = if r.rng.chance(1, 50) { 40 } else { r.rng.below(6) };
        let recs: Vec<Rec> = (0..k).map(|_| some_rec(&mut r.rng)).collect();
        let m = if r.rng.chance(1, 50) { 30 } else { r.rng.below(5) };
        let ids = [8u64, 9, 0, 200, 23, u64::MAX];
        let subs: Vec<Blk> = (0..m).map(|i| Blk::new(*r.rng.pick(&ids), vec![rec(i, &[])], vec![])).collect();
        let b = Blk::new(8, recs, subs);
        let code = if r.rng.chance(1, 10) { r.rng.edgy() } else { r.rng.below(5) };
        let id = *r.rng.pick(&ids);
        r.case((&b, code, id), || format!("block {b:?}, code {code}, sub-blocks {id}"), || {
            let x = b.real();
            let all = hk::records(&x);
            ensure!(all.len() == b.recs.len() && all.iter().zip(&b.recs).all(|(a, e)| same_rec(a, e)), "records {all:?}");
            let e = b.with(code);
            let same = |v: &[&Record]| v.len() == e.len() && v.iter().zip(&e).all(|(a, e)| same_rec(a, e));
            ensure!(same(&hk::by_code(&x, code)), "by_code {:?}", hk::by_code(&x, code));
            let idx = |p: &Record| hk::records(&x).iter().position(|q| std::ptr::eq(*q, p));
            let at = b.recs.iter().position(|r| r.code == code);
            ensure!(hk::one(&x, code).map(|p| idx(p).unwrap()) == at, "one {:?}", hk::one(&x, code));
            let (want, none) = (if e.len() == 1 { at } else { None }, if e.len() <= 1 { Some(at) } else { None });
            ensure!(hk::exactly_one(&x, code).ok().map(|p| idx(p).unwrap()) == want, "exactly_one {:?}", hk::exactly_one(&x, code));
            ensure!(hk::one_or_none(&x, code).ok().map(|o| o.map(|p| idx(p).unwrap())) == none, "one_or_none {:?}", hk::one_or_none(&x, code));
            let bid = BlockId::from(id);
            let e = b.sub(id);
            let sameb = |a: &Block, e: &Blk| a.id == BlockId::from(e.id) && hk::records(a).len() == 1 && same_rec(hk::records(a)[0], &e.recs[0]);
            let got = hk::by_id(&x, bid);
            ensure!(got.len() == e.len() && got.iter().zip(&e).all(|(a, e)| sameb(a, e)), "by_id {got:?}");
            match hk::exactly_one_block(&x, bid) { Ok(a) => ensure!(e.len() == 1 && sameb(a, e[0]), "exactly_one(block) {a:?}"), Err(_) => ensure!(e.len() != 1, "exactly_one(block) refused") }
            match hk::one_or_none_block(&x, bid) {
                Ok(Some(a)) => ensure!(e.len() == 1 && sameb(a, e[0]), "one_or_none(block) {a:?}"),
                Ok(None) => ensure!(e.is_empty(), "one_or_none(block) found nothing"),
                Err(_) => ensure!(e.len() > 1, "one_or_none(block) refused"),
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C18
fn attr_fields(r: &mut Rng, o: &mut Vec<u64>) {
    let s = |r: &mut Rng, o: &mut Vec<u64>| { let n = r.range(1, 5); let v = text_fields(r, n); o.extend(v); if !r.chance(1, 25) { o.push(0); } };
    match r.below(21) {
        0 => o.push(r.edgy()),
        1..=5 => { o.push(0); o.push(if r.chance(1, 12) { r.edgy() } else { r.range(1, 86) }); }
        6..=10 => {
            o.push(1);
            let id = match r.below(6) { 0 => r.range(0, 90), _ => *r.pick(&INTS) };
            o.push(id);
            o.push(match (id, r.below(8)) { (_, 0) => r.edgy(), (1 | 25, _) => 1 << r.below(64), (33, _) => r.below(3), (51 | 74, 1) => r.below(1 << 32) << 32 | u32::MAX as u64, (51 | 74, _) => r.next(), _ => r.edgy() });
        }
        11..=15 => { o.push(3); s(r, o); }
        _ => { o.push(4); s(r, o); s(r, o); }
    }
}
fn group_rec(r: &mut Rng) -> Rec {
    let mut f = vec![if r.chance(1, 25) { r.edgy() } else { r.below(6) }, match r.below(5) { 0 => u32::MAX as u64, 1 => r.edgy() % (1 << 33), _ => r.below(5) }];
    for _ in 0..r.range(1, 4) { attr_fields(r, &mut f); }
    if r.chance(1, 15) { let k = r.below(f.len() as u64 + 1) as usize; f.truncate(k); }
    if r.chance(1, 30) { let k = r.below(f.len() as u64 + 1) as usize; f.insert(k, r.edgy()); }
    Rec { code: if r.chance(1, 40) { r.below(5) } else { 3 }, f }
}
fn good_group(r: &mut Rng) -> Rec { loop { let g = group_rec(r); if groups(&Blk::new(10, vec![g.clone()], vec![])).is_some() { return g; } } }
fn check_groups(x: &AttributeGroups, e: &Groups, ids: &[u32]) -> Result<(), String> {
    for id in e.keys().chain(ids) {
        let (g, w) = (hk::group(x, *id).map(|g| format!("{g:?}")), e.get(id).map(group_text));
        ensure!(g == w, "group {id}: {g:?}, expected {w:?}");
    }
    Ok(())
}
fn c18(r: &mut Run) {
    for id in 0..90u64 {
        for v in [None, Some(0), Some(1), Some(2), Some(3), Some(8), Some(1 << 63), Some(5 << 32 | 7), Some(u32::MAX as u64), Some(u64::MAX)] {
            let f = match v { None => vec![1, 0, 0, id], Some(v) => vec![1, 0, 1, id, v] };
            group_case(r, Blk::new(10, vec![Rec { code: 3, f }], vec![]));
        }
    }
    for _ in 0..r.scale(30000) {
        let n = r.rng.range(1, 3);
        let recs = (0..n).map(|i| if i + 1 == n { group_rec(&mut r.rng) } else { good_group(&mut r.rng) }).collect();
        group_case(r, Blk::new(10, recs, vec![]));
    }
    for _ in 0..r.scale(8000) {
        let k = r.rng.below(4);
        let gb = Blk::new(10, (0..k).map(|_| good_group(&mut r.rng)).collect(), vec![]);
        let ids: Vec<u64> = groups(&gb).unwrap().keys().map(|k| *k as u64).collect();
        let k = r.rng.below(4);
        let eb = Blk::new(9, (0..k).map(|_| { let n = r.rng.below(4); Rec { code: if r.rng.chance(1, 30) { r.rng.below(5) } else { 2 },
            f: (0..n).map(|_| if ids.is_empty() || r.rng.chance(1, 25) { r.rng.edgy() } else if r.rng.chance(1, 40) { *r.rng.pick(&ids) + (1 << 32) } else { *r.rng.pick(&ids) }).collect() } }).collect(), vec![]);
        r.case((&gb, &eb), || format!("groups {gb:?}, entries {eb:?}"), || {
            let g = groups(&gb).unwrap();
            let mut c = hk::Ctx::default();
            c.set_groups(AttributeGroups::try_from(&gb.real()).map_err(|e| format!("groups refused: {e:?}"))?);
            let res = c.map_attributes(&eb.real());
            let want = entries(&eb, &g);
            ensure!(res.is_ok() == want.is_some(), "{res:?}, expected {want:?}");
            if let Some(w) = want {
                for (i, e) in w.iter().enumerate() {
                    let got = c.entry(i as u64).ok_or(format!("no entry {i}"))?;
                    let a: Vec<String> = got.iter().map(|g| format!("{g:?}")).collect();
                    let b: Vec<String> = e.iter().map(|k| group_text(&g[k])).collect();
                    ensure!(a == b, "entry {i}: {a:?}, expected {b:?}");
                }
                ensure!(c.entry(w.len() as u64).is_none() && c.entry(u64::MAX).is_none(), "too many entries");
            }
            Ok(())
        });
    }
}
fn group_case(r: &mut Run, b: Blk) {
    r.case(&b, || format!("attribute groups {b:?}"), || {
        let e = groups(&b);
        let x = AttributeGroups::try_from(&b.real());
        ensure!(x.is_ok() == e.is_some(), "{x:?}, expected {e:?}");
        if let (Ok(x), Some(e)) = (&x, &e) { check_groups(x, e, &[0, 1, 2, 3, 4, 5, 6, u32::MAX])?; }
        Ok(())
    });
}

// ------------------------------------------------------------------ C19
fn type_rec(r: &mut Rng, n: u64, o: &mut Vec<Rec>) {
    let mut e = |r: &mut Rng| if r.chance(1, 60) { r.edgy() } else if n == 0 { 0 } else { r.below(n) };
    let flag = |r: &mut Rng| if r.chance(1, 10) { r.edgy() } else { r.below(2) };
    let sp = |r: &mut Rng| if r.chance(1, 20) { r.edgy() } else { r.below(4) };
    let nm = |r: &mut Rng, o: &mut Vec<Rec>| if r.chance(9, 10) { for _ in 0..if r.chance(1, 12) { 2 } else { 1 } { let w = word(r); o.push(srec(19, &w)); } };
    match r.below(24) {
        0..=5 => o.push(rec(*r.pick(&[2, 3, 4, 5, 10, 13, 14, 15, 16, 17, 22, 23, 24]), &[])),
        6..=8 => o.push(rec(7, &[match r.below(12) { 0 => r.edgy(), 1 => 0, 2 => (1 << 32) + 8, 3 => 1 << 24, 4 => (1 << 23), _ => r.range(1, 128) }])),
        9 | 10 => { let x = e(r); o.push(rec(8, &[x, sp(r)])) }
        11 => o.push(rec(25, &[sp(r)])),
        12 | 13 => { let x = e(r); o.push(rec(11, &[r.edgy(), x])) }
        14 | 15 => { let x = e(r); let mut f = vec![if r.chance(1, 12) { 0 } else { r.edgy() }, x]; if r.chance(1, 2) { f.push(flag(r)); } o.push(Rec { code: 12, f }) }
        16..=18 => {
            let named = r.chance(1, 2);
            if named { nm(r, o); }
            let mut f = vec![flag(r)];
            for _ in 0..r.below(4) { f.push(e(r)); }
            o.push(Rec { code: if named { 20 } else { 18 }, f })
        }
        19 => { nm(r, o); o.push(rec(6, &[0])) }
        20..=22 => { let mut f = vec![flag(r)]; for _ in 0..r.range(1, 4) { f.push(e(r)); } o.push(Rec { code: 21, f }) }
        _ => o.push(some_rec(r)),
    }
    if r.chance(1, 60) { if let Some(x) = o.last_mut() { let k = r.below(x.f.len() as u64 + 1) as usize; x.f.truncate(k); } }
}
/// entries mostly refer to earlier ones (or to nearby later ones), so expansion stays small
fn type_block(r: &mut Rng) -> Blk {
    let want = r.below(9);
    let mut recs = vec![];
    let forward = r.chance(1, 4);
    for i in 0..want { let n = if forward && r.chance(1, 4) { want } else { i }; type_rec(r, n, &mut recs); }
    let n = recs.iter().filter(|x| x.code != 19).count() as u64;
    let n = if r.chance(1, 25) { if r.chance(1, 2) { r.edgy() } else { n + 1 } } else { n };
    let at = if r.chance(9, 10) { 0 } else { r.below(recs.len() as u64 + 1) as usize };
    if !r.chance(1, 40) { recs.insert(at, rec(1, if r.chance(1, 40) { &[] } else { std::slice::from_ref(&n) })); }
    if r.chance(1, 30) { recs.push(rec(1, &[r.below(9)])); }
    Blk::new(17, recs, vec![])
}
fn good_types(r: &mut Rng) -> (Blk, Vec<T>) { loop { let b = type_block(r); if let Some(t) = table(&b) { if t.len() > 1 { return (b, t); } } } }
fn type_case(r: &mut Run, b: Blk, what: Option<String>) {
    r.case(&b, || what.clone().unwrap_or_else(|| format!("type table {:?}", b.recs)), || {
        let e = table(&b);
        let x = TypeTable::try_from(&b.real());
        let short = |s: String| if s.len() > 600 { format!("{}...", &s[..600]) } else { s };
        ensure!(x.is_ok() == e.is_some(), "{}, expected {}", short(format!("{x:?}")), short(format!("{e:?}")));
        if let (Ok(x), Some(e)) = (x, e) {
            for (i, t) in e.iter().enumerate() {
                let got = hk::type_at(&x, i as u64).map(|t| format!("{t:?}"));
                ensure!(got == Some(t.text()), "type {i}: {}, expected {}", short(format!("{got:?}")), short(t.text()));
            }
            ensure!(hk::type_at(&x, e.len() as u64).is_none() && hk::type_at(&x, u64::MAX).is_none(), "more types than entries");
        }
        Ok(())
    });
}
fn c19(r: &mut Run) {
    for code in 0..28u64 { for f in [&[][..], &[0], &[1], &[0, 0], &[1, 0], &[5, 0], &[0, 5], &[5, 0, 1], &[1, 0, 0, 0], &[1 << 32 | 8], &[0, 1 << 23], &[1 << 24], &[(1 << 24) - 1]] {
        for pre in [2u64, 3] { type_case(r, Blk::new(17, vec![rec(1, &[2]), rec(pre, &[]), rec(code, f)], vec![]), None); }
        type_case(r, Blk::new(17, vec![rec(1, &[2]), srec(19, "name"), rec(code, f), rec(3, &[])], vec![]), None);
    } }
    r.hard = true;
    // chains, forward and backward, and loops
    for n in [2u64, 100, 255, 256, 257, 258, 300, 5000, 100_000] {
        if n > 20000 && !r.thorough { continue; }
        for dir in 0..4 {
            for kind in [8u64, 11, 18, 21] {
                let link = |to: u64| match kind { 8 => rec(8, &[to, 0]), 11 => rec(11, &[1, to]), 18 => rec(18, &[0, to]), _ => rec(21, &[0, to]) };
                if kind == 21 && n > 3 && dir < 2 { continue; }
                let mut recs = vec![rec(1, &[n])];
                match dir {
                    0 => { recs.push(rec(7, &[8])); for i in 1..n { recs.push(link(i - 1)); } }
                    1 => { for i in 0..n - 1 { recs.push(link(i + 1)); } recs.push(rec(7, &[8])); }
                    2 => for i in 0..n { recs.push(link((i + 1) % n)); },
                    _ => for i in 0..n { recs.push(link(if i == 0 { n - 1 } else { i - 1 })); },
                }
                type_case(r, Blk::new(17, recs, vec![]), Some(format!("type table of {n} entries, each (code {kind}) referring to the {} one{}", if dir == 0 || dir == 3 { "previous" } else { "next" }, if dir > 1 { ", in a loop" } else { "" })));
            }
        }
    }
    type_case(r, Blk::new(17, vec![rec(1, &[u64::MAX])], vec![]), None);
    type_case(r, Blk::new(17, vec![rec(1, &[1 << 40]), rec(2, &[])], vec![]), None);
    r.hard = false;
    for _ in 0..r.scale(40000) { let b = type_block(&mut r.rng); type_case(r, b, None); }
}

// ------------------------------------------------------------------ C20, C22
fn ident(r: &mut Rng) -> Blk { let w = word(r); let mut v = vec![srec(1, &w), rec(2, &[r.below(3)])]; if r.chance(1, 30) { v.remove(r.below(2) as usize); } Blk::new(13, v, vec![]) }
fn table_blk(r: &mut Rng, id: u64) -> Blk { let w = word(r); Blk::new(id, if r.chance(1, 30) { vec![] } else { vec![srec(1, &w)] }, vec![]) }
#[derive(Clone, Debug, PartialEq)]
struct Mod { triple: String, asm: Vec<String>, deplibs: Vec<String>, sections: Vec<String>, gcs: Vec<String>, version: u64, types: usize, comdats: Vec<String> }
/// a module block; None: refused. `strtab` is the module's string table
fn module(b: &Blk, strtab: &[u8]) -> Option<Mod> {
    let one = |code: u64| { let v = b.with(code); if v.len() > 1 { None } else { Some(v.first().copied()) } };
    let all = |code: u64| b.with(code).into_iter().map(|r| string(r, 0)).collect::<Option<Vec<_>>>();
    let version = *one(1)??.f.first()?;
    if let Some(d) = one(3)? { string(d, 0)?.parse::<llvm_mapper::record::DataLayout>().ok()?; }
    let (sections, gcs) = (all(5)?, all(11)?);
    let sub = |id: u64| b.sub(id);
    if sub(17).len() != 1 || sub(14).len() != 1 || sub(10).len() > 1 || sub(9).len() > 1 { return None; }
    let types = table(sub(17)[0])?;
    let g = match sub(10).first() { Some(g) => groups(g)?, None => Groups::new() };
    let e = match sub(9).first() { Some(x) => entries(x, &g)?, None => vec![] };
    let cx = Cx { version, strtab: strtab.to_vec(), types, entries: e, groups: g, sections: sections.clone(), gcs: gcs.clone() };
    let comdats = b.with(12).into_iter().map(|r| comdat(r, &cx)).collect::<Option<Vec<_>>>()?;
    let triple = match one(2)? { Some(r) => string(r, 0)?, None => llvm_support::TARGET_TRIPLE.into() };
    let asm = match one(4)? { Some(r) => string(r, 0)?.split('\n').map(String::from).collect(), None => vec![] };
    let deplibs = all(6)?;
    for f in b.with(8) { function(f, &cx)?; }
    if !b.sub(12).is_empty() { return None; }
    for a in b.with(14) { alias(a, &cx)?; }
    Some(Mod { triple, asm, deplibs, sections, gcs, version, types: cx.types.len(), comdats })
}
fn module_blk(r: &mut Rng) -> Blk {
    let mut recs = vec![rec(1, &[match r.below(12) { 0 => 1, 1 => 0, 2 => r.edgy(), _ => 2 }])];
    let w = |r: &mut Rng, code: u64| { let s = if code == 4 && r.chance(1, 2) { format!("{}\n{}\n", word(r), word(r)) } else { word(r) }; srec(code, &s) };
    for code in [2u64, 4] { if r.chance(1, 2) { let x = w(r, code); recs.push(x); if r.chance(1, 40) { let x = w(r, code); recs.push(x); } } }
    for code in [5u64, 6, 11] { for _ in 0..r.below(3) { let x = w(r, code); recs.push(x); } }
    if r.chance(1, 4) { recs.push(srec(3, r.pick(&["e-m:e", "E-p:32:32", "e-i64:64", "q"]))); }
    if r.chance(1, 30) { recs.push(rec(r.range(1, 18), &[r.edgy()])); }
    if r.chance(1, 60) { let k = r.below(recs.len() as u64) as usize; recs[k].f.clear(); }
    let types = if r.chance(1, 10) { type_block(r) } else { good_types(r).0 };
    let mut subs = vec![types, Blk::new(14, vec![], vec![])];
    if r.chance(1, 3) { subs.push(Blk::new(10, vec![good_group(r)], vec![])); if r.chance(1, 2) { let id = subs[2].recs[0].f[0]; subs.push(Blk::new(9, vec![rec(2, &[id])], vec![])); } }
    if r.chance(1, 30) { let k = r.below(subs.len() as u64) as usize; if r.chance(1, 2) { let x = subs[k].clone(); subs.push(x); } else { subs.remove(k); } }
    if r.chance(1, 40) { subs.push(Blk::new(12, vec![rec(1, &[r.below(2)])], vec![])); }
    if r.chance(1, 3) { subs.push(tree(r, 3)); }
    let k = r.below(recs.len() as u64) as usize;
    recs.rotate_left(k);
    Blk::new(8, recs, subs)
}
fn tree(r: &mut Rng, d: u32) -> Blk {
    let n = r.below(4);
    let recs = (0..n).map(|_| { let k = r.below(4); Rec { code: r.below(70), f: (0..k).map(|_| r.edgy()).collect() } }).collect();
    let k = if d == 0 { 0 } else { r.below(3) };
    Blk::new(*r.pick(&[15u64, 11, 22, 100, 1 << 20, 3]), recs, (0..k).map(|_| tree(r, d - 1)).collect())
}
fn same_tree(a: &Block, e: &Blk) -> Result<(), String> {
    ensure!(a.id == BlockId::from(e.id), "block {:?}, expected {}", a.id, e.id);
    let v = hk::records(a);
    ensure!(v.len() == e.recs.len() && v.iter().zip(&e.recs).all(|(a, e)| same_rec(a, e)), "records of block {}: {v:?}, expected {:?}", e.id, e.recs);
    let mut ids: Vec<u64> = e.subs.iter().map(|s| s.id).collect();
    ids.sort(); ids.dedup();
    for id in (0..30).chain([100, 1 << 20]) { if !ids.contains(&id) { ensure!(hk::by_id(a, BlockId::from(id)).is_empty(), "block {} has a sub-block {id}", e.id); } }
    for id in ids {
        let (x, y) = (hk::by_id(a, BlockId::from(id)), e.sub(id));
        ensure!(x.len() == y.len(), "block {} has {} sub-blocks {id}, expected {}", e.id, x.len(), y.len());
        for (x, y) in x.iter().zip(y) { same_tree(x, y)?; }
    }
    Ok(())
}
type Grp = (Blk, Option<Blk>, Option<Blk>, Option<Blk>);
/// the modules that a sequence of top-level blocks makes up
fn grouped(tops: &[Blk]) -> Option<Vec<Grp>> {
    let mut v: Vec<Grp> = vec![];
    for b in tops {
        if b.depth() > 256 { return None; }
        match b.id {
            13 => v.push((b.clone(), None, None, None)),
            8 => { let l = v.last_mut()?; if l.1.is_some() { return None; } l.1 = Some(b.clone()); }
            23 => for g in v.iter_mut().rev() { if g.2.is_some() { break; } g.2 = Some(b.clone()); },
            25 => for g in v.iter_mut().rev() { if g.3.is_some() { break; } g.3 = Some(b.clone()); },
            _ => return None,
        }
    }
    Some(v)
}
struct Out { producer: String, epoch: u64, module: Mod, strtab: Vec<u8>, symtab: Option<Vec<u8>> }
fn unrolled(tops: &[Blk]) -> Option<Vec<Out>> {
    grouped(tops)?.into_iter().map(|(i, m, s, y)| {
        let strtab = blob(s?.first(1)?, 0)?;
        let producer = string(i.first(1)?, 0)?;
        let epoch = *i.first(2)?.f.first()?;
        let module = module(&m?, &strtab)?;
        let symtab = match y { Some(y) => Some(blob(y.first(1)?, 0)?), None => None };
        Some(Out { producer, epoch, module, strtab, symtab })
    }).collect()
}
fn stream_case(r: &mut Run, tops: Vec<Blk>, cut: Option<u64>, tail: bool, what: Option<String>) {
    let mut w = W(vec![], 0);
    w.f(0xdec04342, 32);
    let mut g = Rng::new(r.rng.next());
    for b in &tops { w.block(2, b, &mut g); }
    if tail { w.record(2, &rec(7, &[1])); w.align(); }
    let mut bytes = w.0;
    let full = bytes.len();
    if let Some(c) = cut { let n = (4 + c as usize % (full - 3)) & !3; bytes.truncate(n.max(4)); }
    let ended = cut.is_some() && bytes.len() < full;
    let key = bytes.clone();
    r.case(&key, || what.clone().unwrap_or_else(|| format!("bitcode {} ({tops:?}{}{})", hex(&key), if ended { ", cut short" } else { "" }, if tail { ", and a top-level record" } else { "" })), || {
        hk::take_observed();
        let res = Bitcode::try_from(&bytes[..]);
        let seen = hk::take_observed();
        // every block that was unrolled is the encoded one
        ensure!(seen.len() <= tops.len(), "{} top-level blocks, encoded {}", seen.len(), tops.len());
        for (s, t) in seen.iter().zip(&tops) { same_tree(s, t)?; }
        let whole = !tail;
        if ended {
            // a prefix that ends between blocks is a shorter stream; any other is refused
            if let Ok(b) = &res {
                let e = (0..tops.len()).filter_map(|k| unrolled(&tops[..k])).any(|e| same_out(b, &e).is_ok());
                ensure!(e, "a stream cut short was unrolled to {b:?}");
            }
            return Ok(());
        }
        let e = if whole { unrolled(&tops) } else { None };
        ensure!(res.is_ok() == e.is_some(), "{:?}, expected {}", res.as_ref().map(|b| b.modules.len()), if e.is_some() { "modules" } else { "an error" });
        if let (Ok(b), Some(e)) = (&res, &e) {
            ensure!(seen.len() == tops.len(), "{} top-level blocks unrolled, encoded {}", seen.len(), tops.len());
            same_out(b, e)?;
        }
        Ok(())
    });
}
fn same_out(b: &Bitcode, e: &[Out]) -> Result<(), String> {
    ensure!(b.modules.len() == e.len(), "{} modules, expected {}", b.modules.len(), e.len());
    for (m, e) in b.modules.iter().zip(e) {
        ensure!(m.identification.producer == e.producer && m.identification.epoch == e.epoch, "identification {:?}, expected {} {}", m.identification, e.producer, e.epoch);
        ensure!(m.strtab.as_ref() == &e.strtab[..], "string table {:?}, expected {:?}", m.strtab, e.strtab);
        ensure!(m.symtab.as_ref().map(|s| s.as_ref().to_vec()) == e.symtab, "symbol table {:?}, expected {:?}", m.symtab, e.symtab);
        ensure!(m.module.triple == e.module.triple && m.module.asm == e.module.asm && m.module.deplibs == e.module.deplibs, "module {:?}, expected {:?}", m.module, e.module);
    }
    Ok(())
}
fn c20(r: &mut Run) {
    r.hard = true;
    for n in [1usize, 2, 200, 254, 255, 256, 257, 300, 20000, 200_000] {
        if n > 50_000 && !r.thorough { continue; }
        let mut b = Blk::new(15, vec![rec(1, &[5])], vec![]);
        for _ in 1..n.min(300) { b = Blk::new(15, vec![], vec![b]); }
        let mut id = ident(&mut r.rng);
        if n <= 300 {
            id.subs.push(b.clone());
            stream_case(r, vec![id], None, false, Some(format!("an identification block with blocks nested {} deep", n + 1)));
        } else {
            let mut w = W(vec![], 0);
            w.f(0xdec04342, 32);
            for _ in 0..n { w.enter(2, 13, 2); }
            for _ in 0..n { w.end(2); }
            r.case(n, || format!("blocks nested {n} deep"), || { ensure!(Bitcode::try_from(&w.0[..]).is_err(), "accepted"); Ok(()) });
        }
    }
    r.hard = false;
    // every order of up to 5 top-level blocks
    for n in 0..=5u32 {
        for k in 0..4u32.pow(n) {
            let tops: Vec<Blk> = (0..n).map(|i| match k / 4u32.pow(i) % 4 { 0 => ident(&mut r.rng), 1 => module_blk(&mut r.rng), 2 => table_blk(&mut r.rng, 23), _ => table_blk(&mut r.rng, 25) }).collect();
            stream_case(r, tops, None, false, None);
        }
    }
    for _ in 0..r.scale(6000) {
        let mut tops = vec![];
        for _ in 0..r.rng.range(1, 3) {
            tops.push(ident(&mut r.rng));
            let mut m = module_blk(&mut r.rng);
            for _ in 0..8 { if module(&m, b"ab").is_some() { break; } m = module_blk(&mut r.rng); }
            tops.push(m);
            if r.rng.chance(2, 3) { tops.push(table_blk(&mut r.rng, 23)); }
            if r.rng.chance(1, 3) { tops.push(table_blk(&mut r.rng, 25)); }
        }
        if r.rng.chance(1, 2) { tops.push(table_blk(&mut r.rng, 23)); }
        if r.rng.chance(1, 20) { let i = r.rng.below(tops.len() as u64) as usize; tops.insert(i, tree(&mut r.rng, 2)); }
        if r.rng.chance(1, 20) { let i = r.rng.below(tops.len() as u64) as usize; tops.remove(i); }
        if r.rng.chance(1, 20) { let i = r.rng.below(tops.len() as u64 + 1) as usize; let n = tops.len().max(1); tops.rotate_left(i % n); }
        if r.rng.chance(1, 3) { let i = r.rng.below(tops.len() as u64 + 1) as usize; if i < tops.len() { let t = tree(&mut r.rng, 3); tops[i].subs.push(t); } }
        let cut = if r.rng.chance(1, 8) { Some(r.rng.next() >> 8) } else { None };
        let tail = cut.is_none() && r.rng.chance(1, 40);
        stream_case(r, tops, cut, tail, None);
    }
}
fn c22(r: &mut Run) {
    for _ in 0..r.scale(15000) {
        let mut b = module_blk(&mut r.rng);
        let t: Vec<u8> = { let n = r.rng.range(2, 12); text_fields(&mut r.rng, n).into_iter().map(|x| x as u8).collect() };
        if t.len() < 2 { continue; }
        if let (true, Some(ty)) = (r.rng.chance(1, 2), b.sub(17).first().and_then(|b| table(b))) {
            let cx = Cx { version: 2, strtab: t.clone(), types: ty, entries: vec![], groups: Groups::new(), sections: vec![], gcs: vec![] };
            for _ in 0..r.rng.below(3) { let code = *r.rng.pick(&[8u64, 12, 14]); let f = mod_rec(&mut r.rng, code, &cx); b.recs.push(f); }
        }
        r.case((&b, &t), || format!("module {b:?}, string table {t:?}"), || {
            let mut c = hk::Ctx::default();
            c.set_strtab(strtab_of(&t).ok_or("string table refused")?);
            let res = c.map_module(&b.real());
            let e = module(&b, &t);
            ensure!(res.is_ok() == e.is_some(), "{res:?}, expected {e:?}");
            if let (Ok(m), Some(e)) = (&res, &e) {
                ensure!(m.triple == e.triple && m.asm == e.asm && m.deplibs == e.deplibs, "{m:?}, expected {e:?}");
                ensure!(c.sections() == &e.sections[..] && c.gcs() == &e.gcs[..], "sections {:?}, gcs {:?}, expected {e:?}", c.sections(), c.gcs());
                ensure!(c.version() == Some(e.version), "version {:?}", c.version());
                ensure!(c.strtab().as_ref() == &t[..], "string table {:?}", c.strtab());
                let d = match b.first(3) { Some(d) => string(d, 0).unwrap().parse().unwrap(), None => llvm_mapper::record::DataLayout::default() };
                ensure!(format!("{:?}", c.datalayout()) == format!("{d:?}"), "data layout {:?}", c.datalayout());
                let cs: Vec<String> = c.comdats().iter().map(|c| format!("{c:?}")).collect();
                ensure!(cs == e.comdats, "comdats {cs:?}, expected {:?}", e.comdats);
                let ty = c.types().ok_or("no types")?;
                for (i, t) in table(b.sub(17)[0]).unwrap().iter().enumerate() { ensure!(hk::type_at(ty, i as u64).map(|t| format!("{t:?}")) == Some(t.text()), "type {i}"); }
                let g = match b.sub(10).first() { Some(g) => groups(g).unwrap(), None => Groups::new() };
                check_groups(c.groups(), &g, &[0, 1, 2, 3, 4, 5])?;
                let es = match b.sub(9).first() { Some(x) => entries(x, &g).unwrap(), None => vec![] };
                for (i, e) in es.iter().enumerate() {
                    let a: Option<Vec<String>> = c.entry(i as u64).map(|v| v.iter().map(|g| format!("{g:?}")).collect());
                    ensure!(a == Some(e.iter().map(|k| group_text(&g[k])).collect()), "attribute entry {i}: {a:?}");
                }
                ensure!(c.entry(es.len() as u64).is_none(), "more attribute entries than encoded");
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug)]
struct Cx { version: u64, strtab: Vec<u8>, types: Vec<T>, entries: Vec<Vec<u32>>, groups: Groups, sections: Vec<String>, gcs: Vec<String> }
fn code_or(t: &[(u64, &'static str)], other: &str, c: u64) -> String { name_of(t, c).unwrap_or(other).to_string() }
fn comdat(r: &Rec, c: &Cx) -> Option<String> {
    if c.version < 2 || r.f.len() != 3 { return None; }
    let n = table_str(&c.strtab, r.f[0], r.f[1])?;
    let k = ["Any", "ExactMatch", "Largest", "NoDeduplicate", "SameSize"].get(usize::try_from(r.f[2].checked_sub(1)?).ok()?)?;
    Some(format!("Comdat {{ selection_kind: {k}, name: {n:?} }}"))
}
/// the fields in order: name, type, calling convention, declaration, linkage, attributes, alignment, section, visibility, gc, unnamed_addr, storage class
fn function(r: &Rec, c: &Cx) -> Option<Vec<String>> {
    let f = &r.f;
    if c.version < 2 || f.len() < 10 { return None; }
    let at = |i: usize| f.get(i).copied();
    let idx = |v: u64, n: usize| if v >= 1 && v <= n as u64 { Some(v as usize - 1) } else { None };
    let t = c.types.get(usize::try_from(f[2]).ok()?)?;
    if !matches!(t, T::Fn(..)) { return None; }
    let sec = if f[8] == 0 { None } else { Some(c.sections[idx(f[8], c.sections.len())?].clone()) };
    let gc = match at(10) { None | Some(0) => None, Some(v) => Some(c.gcs[idx(v, c.gcs.len())?].clone()) };
    let attr = if f[6] == 0 { None } else { Some(c.entries[idx(f[6], c.entries.len())?].iter().map(|k| group_text(&c.groups[k])).collect::<Vec<_>>()) };
    let al = if f[7] == 0 { "None".into() } else if f[7] <= 64 { format!("{:?}", Some(al::al(f[7] as u8 - 1))) } else { return None };
    let opt = |v: Option<String>| match v { Some(s) => format!("Some({s:?})"), None => "None".into() };
    Some(vec![
        format!("{:?}", table_str(&c.strtab, f[0], f[1])?), t.text(), name_of(tab::CALLING_CONVENTION, f[3])?.into(), format!("{}", f[4] != 0),
        code_or(tab::LINKAGE, tab::LINKAGE_ELSE, f[5]), match attr { None => "None".into(), Some(v) => format!("[{}]", v.join(", ")) }, al, opt(sec), name_of(tab::VISIBILITY, f[9])?.into(), opt(gc),
        match at(11) { Some(v) => code_or(tab::UNNAMED_ADDR, tab::UNNAMED_ADDR_ELSE, v), None => "None".into() },
        name_of(tab::DLL_STORAGE_CLASS, at(13).unwrap_or(0))?.into(),
    ])
}
/// name, type, value, linkage, visibility, storage class, TLS mode, unnamed_addr, preemption
fn alias(r: &Rec, c: &Cx) -> Option<Vec<String>> {
    let f = &r.f;
    if c.version < 2 || f.len() < 6 { return None; }
    let at = |i: usize| f.get(i).copied();
    Some(vec![
        format!("{:?}", table_str(&c.strtab, f[0], f[1])?), c.types.get(usize::try_from(f[2]).ok()?)?.text(), f[4].to_string(), code_or(tab::LINKAGE, tab::LINKAGE_ELSE, f[5]),
        name_of(tab::VISIBILITY, at(6).unwrap_or(0))?.into(), name_of(tab::DLL_STORAGE_CLASS, at(7).unwrap_or(0))?.into(),
        match at(8) { Some(v) => code_or(tab::THREAD_LOCAL_MODE, tab::THREAD_LOCAL_MODE_ELSE, v), None => "NotThreadLocal".into() },
        match at(9) { Some(v) => code_or(tab::UNNAMED_ADDR, tab::UNNAMED_ADDR_ELSE, v), None => "None".into() },
        match at(10) { Some(v) => code_or(tab::RUNTIME_PREEMPTION, tab::RUNTIME_PREEMPTION_ELSE, v), None => "DsoPreemptable".into() },
    ])
}
fn mod_rec(r: &mut Rng, code: u64, c: &Cx) -> Rec {
    let len = c.strtab.len() as u64;
    let ty = |r: &mut Rng| if r.chance(1, 20) { r.edgy() } else { { let k = r.chance(1, 20) as u64; r.below(c.types.len() as u64 + k) } };
    let fns: Vec<u64> = (0..c.types.len() as u64).filter(|i| matches!(c.types[*i as usize], T::Fn(..))).collect();
    let small = |r: &mut Rng, n: u64| if r.chance(1, 40) { r.edgy() } else { r.below(n) };
    let off = r.below(len);
    let mut f = if r.chance(1, 20) { vec![r.edgy(), r.edgy()] } else { { let k = !r.chance(1, 20) as u64; vec![off, r.range(k, (len - off).max(1))] } };
    match code {
        12 => { f.push(small(r, 7)); if r.chance(1, 15) { f.push(0); } if r.chance(1, 15) { f.truncate(2); } }
        8 => {
            f.push(if fns.is_empty() || r.chance(1, 12) { ty(r) } else { *r.pick(&fns) });
            f.push(if r.chance(1, 10) { r.below(104) } else { r.pick(tab::CALLING_CONVENTION).0 });
            f.push(small(r, 3));
            f.push(small(r, 21));
            f.push(small(r, c.entries.len() as u64 + 1));
            f.push(match r.below(16) { 0 => 65 + r.below(3), 1 => 256 + r.below(4), 2 => r.edgy(), _ => r.below(65) });
            f.push(small(r, c.sections.len() as u64 + 1));
            f.push(small(r, 3));
            let n = r.below(10);
            for k in 0..n { let m = [c.gcs.len() as u64 + 1, 4, 3, 3, 2, 2, 2, 2, 2, 2][k as usize]; f.push(small(r, m)); }
            if r.chance(1, 25) { let k = r.below(11) as usize; f.truncate(k); }
        }
        _ => {
            f.push(ty(r)); f.push(small(r, 3)); f.push(r.edgy()); f.push(small(r, 21));
            let n = r.below(8);
            for k in 0..n { let m = [3, 3, 6, 4, 3, 2, 2, 2][k as usize]; f.push(small(r, m)); }
            if r.chance(1, 25) { let k = r.below(7) as usize; f.truncate(k); }
        }
    }
    Rec { code, f }
}
fn c21(r: &mut Run) {
    for _ in 0..r.scale(800) {
        let (mut tb, mut types) = good_types(&mut r.rng);
        for _ in 0..20 { if types.iter().any(|t| matches!(t, T::Fn(..))) { break; } (tb, types) = good_types(&mut r.rng); }
        let mut gb = Blk::new(10, vec![], vec![]);
        for i in 0..r.rng.below(3) { let mut g = good_group(&mut r.rng); g.f[0] = i; gb.recs.push(g); }
        let groups_ = groups(&gb).unwrap();
        let ids: Vec<u64> = groups_.keys().map(|k| *k as u64).collect();
        let ne = if ids.is_empty() { 0 } else { r.rng.below(4) };
        let eb = Blk::new(9, (0..ne).map(|_| { let n = r.rng.range(0, 2); Rec { code: 2, f: (0..n).map(|_| *r.rng.pick(&ids)).collect() } }).collect(), vec![]);
        let n = r.rng.range(2, 16);
        let mut strtab: Vec<u8> = text_fields(&mut r.rng, n).into_iter().map(|x| x as u8).collect();
        if strtab.len() < 2 { strtab = b"ab".to_vec(); }
        let (a, b) = (r.rng.below(3), r.rng.below(3));
        let cx = Cx { version: match r.rng.below(20) { 0 => 1, 1 => 0, 2 => r.rng.edgy(), _ => 2 }, strtab, types, entries: entries(&eb, &groups_).unwrap(), groups: groups_,
            sections: (0..a).map(|_| word(&mut r.rng)).collect(), gcs: (0..b).map(|_| word(&mut r.rng)).collect() };
        let mut c = hk::Ctx::default();
        let mut ready = false;
        if !r.hard { r.case(("ctx", &tb, &gb, &eb), || format!("context {tb:?} {gb:?} {eb:?}"), || {
            c.set_version(Some(cx.version)); c.set_sections(cx.sections.clone()); c.set_gcs(cx.gcs.clone());
            c.set_strtab(strtab_of(&cx.strtab).ok_or("string table refused")?);
            c.set_groups(AttributeGroups::try_from(&gb.real()).map_err(|e| format!("{e:?}"))?);
            c.set_types(Some(TypeTable::try_from(&tb.real()).map_err(|e| format!("{e:?}"))?));
            c.map_attributes(&eb.real()).map_err(|e| format!("{e:?}"))?;
            ready = true;
            Ok(())
        }); }
        for _ in 0..60 {
            let code = *r.rng.pick(&[8u64, 8, 8, 14, 14, 12]);
            let f = mod_rec(&mut r.rng, code, &cx);
            if !ready { r.evals += 1; continue; }
            r.case((&f, &tb, &eb, &cx.strtab, cx.version), || format!("record {f:?} in context {cx:?}"), || {
                let x = f.real();
                let clip = |s: String| s;
                match code {
                    12 => { let (g, e) = (c.map_comdat(&x), comdat(&f, &cx)); ensure!(g.as_ref().ok().map(|c| format!("{c:?}")) == e, "comdat {g:?}, expected {e:?}"); }
                    8 => {
                        let e = function(&f, &cx);
                        let g = c.map_function(&x, |r| r.ok().map(|x| {
                            let entry = x.attributes.map(|_| { let k = f.f[6] - 1; format!("[{}]", c.entry(k).map(|v| v.iter().map(|g| format!("{g:?}")).collect::<Vec<_>>().join(", ")).unwrap_or("?".into())) });
                            // the entry itself, as Debug prints it, must be that one
                            let ok = x.attributes.map(|a| format!("{a:?}") == format!("AttributeEntry({:?})", c.entry(f.f[6] - 1).unwrap_or(&[])));
                            let o = |s: Option<&str>| match s { Some(s) => format!("Some({s:?})"), None => "None".into() };
                            let al = format!("{:?}", x.alignment);
                            let al = al.strip_prefix("MaybeAlign(").and_then(|s| s.strip_suffix(')')).unwrap_or(&al).to_string();
                            vec![format!("{:?}", x.name), format!("Function({:?})", x.ty), format!("{:?}", x.calling_convention), format!("{}", x.is_declaration), format!("{:?}", x.linkage),
                                match (entry, ok) { (Some(e), Some(true)) => e, (None, _) => "None".into(), (e, _) => format!("another entry than {e:?}") }, al, o(x.section), format!("{:?}", x.visibility), o(x.gc_name),
                                format!("{:?}", x.unnamed_addr), format!("{:?}", x.storage_class)]
                        })).map_err(|e| format!("context: {e:?}"))?;
                        ensure!(g == e, "function {}, expected {}", clip(format!("{g:?}")), clip(format!("{e:?}")));
                    }
                    _ => {
                        let e = alias(&f, &cx);
                        let g = c.map_alias(&x, |r| r.ok().map(|x| vec![format!("{:?}", x.name), format!("{:?}", x.ty), x.value_index.to_string(), format!("{:?}", x.linkage), format!("{:?}", x.visibility),
                            format!("{:?}", x.storage_class), format!("{:?}", x.tls_mode), format!("{:?}", x.unnamed_addr), format!("{:?}", x.preemption_specifier)])).map_err(|e| format!("context: {e:?}"))?;
                        ensure!(g == e, "alias {g:?}, expected {e:?}");
                    }
                }
                Ok(())
            });
        }
    }
}

fn main() {
    // a deep stack for the driver's own recursion
    std::thread::Builder::new().stack_size(16 << 20).spawn(|| {
        let mut r = Run::from_args();
        match r.prop.as_str() {
            "C16" => c16(&mut r),
            "C17" => c17(&mut r),
            "C18" => c18(&mut r),
            "C19" => c19(&mut r),
            "C20" => c20(&mut r),
            "C21" => c21(&mut r),
            "C22" => c22(&mut r),
            p => panic!("unknown property {p}"),
        }
        r.finish();
    }).unwrap().join().unwrap();
}
