//! Concrete replay of C10-C12 (alignments) on llvm-support.
use harness::*;
use harness::al::*;
use harness::types::{any, simple, T, SIMPLE};
use llvm_support::*;
use std::convert::TryFrom;

fn c10(r: &mut Run) {
    for s in 0..=255u8 {
        r.case(("shift", s), || format!("Align::from_shift({s})"), || {
            let a = Align::from_shift(s);
            ensure!(a.is_ok() == (s <= 63), "accepted: {:?}", a.is_ok());
            if let Ok(a) = a {
                ensure!(a.shift() == s && a.byte_align() == 1u64 << s, "shift {} byte_align {}", a.shift(), a.byte_align());
                let bits = (8u128 << s).min(u64::MAX as u128) as u64;
                ensure!(a.bit_align() == bits, "bit_align {} expected {bits}", a.bit_align());
            }
            Ok(())
        });
        r.case(("maybe", s), || format!("MaybeAlign::try_from({s})"), || {
            let a = MaybeAlign::try_from(s);
            ensure!(a.is_ok() == (s <= 64), "accepted: {:?}", a.is_ok());
            if let Ok(a) = a {
                let t = format!("{a:?}");
                if s == 0 { ensure!(t.contains("None"), "{t}"); }
                else { let e = format!("{:?}", al(s - 1)); ensure!(t.contains(&e), "{t}, expected {e}"); }
            }
            Ok(())
        });
    }
    let mut vals: Vec<u64> = (0..2100).collect();
    for k in 0..64 { for d in -3i64..=3 { vals.push((1u64 << k).wrapping_add(d as u64)); for j in 0..k { if d == 0 { vals.push((1u64 << k) | (1u64 << j)); } } } }
    for _ in 0..r.scale(20000) { vals.push(r.rng.edgy()); }
    for v in vals {
        r.case(("bytes", v), || format!("alignment of {v}"), || {
            let e = (0..64).find(|k| 1u64 << k == v);
            let a = Align::from_byte_align(v);
            ensure!(a.is_ok() == e.is_some(), "from_byte_align accepted: {}", a.is_ok());
            if let (Ok(a), Some(e)) = (a, e) { ensure!(a.shift() as u32 == e as u32 && a.byte_align() == v, "from_byte_align({v}) has shift {}", a.shift()); }
            let e = shift_of_bits(v as u128);
            let a = Align::from_bit_align(v);
            ensure!(a.is_ok() == e.is_some(), "from_bit_align accepted: {}", a.is_ok());
            if let (Ok(a), Some(e)) = (a, e) { ensure!(a.shift() == e && a.bit_align() == v, "from_bit_align({v}) has shift {} and bit_align {}", a.shift(), a.bit_align()); }
            Ok(())
        });
        r.case(("width", v), || format!("width / address space {v}"), || {
            let v32 = v as u32;
            let w = AlignedTypeWidth::try_from(v32);
            ensure!(w.is_ok() == (v32 >= 1 && v32 <= (1 << 23) - 1), "AlignedTypeWidth::try_from({v32}) accepted: {}", w.is_ok());
            if let Ok(w) = w { ensure!(format!("{w:?}").contains(&format!("({v32})")), "{w:?} from {v32}"); }
            let a = AddressSpace::try_from(v32);
            ensure!(a.is_ok() == (v32 <= (1 << 23) - 1), "AddressSpace::try_from({v32}u32) accepted: {}", a.is_ok());
            if let Ok(a) = a { ensure!(format!("{a:?}").contains(&format!("({v32})")), "{a:?} from {v32}"); }
            let a = AddressSpace::try_from(v);
            ensure!(a.is_ok() == (v <= (1 << 23) - 1), "AddressSpace::try_from({v}u64) accepted: {}", a.is_ok());
            if let Ok(a) = a { ensure!(format!("{a:?}").contains(&format!("({v})")), "{a:?} from {v}"); }
            Ok(())
        });
    }
}

fn c11(r: &mut Run) {
    // order of the types
    let tys: Vec<Ty> = [1u32, 2, 8, 16, 64, 65, 8388607].iter().flat_map(|w| vec![Ty::A, Ty::F(*w), Ty::I(*w), Ty::V(*w)]).collect();
    for a in &tys { for b in &tys {
        r.case(("cmp", a, b), || format!("{a:?} cmp {b:?}"), || {
            let (x, y) = (real_ty(*a), real_ty(*b));
            ensure!(x.cmp(&y) == a.cmp(b) && x.partial_cmp(&y) == Some(a.cmp(b)) && (x == y) == (a == b), "cmp {:?} partial_cmp {:?} eq {}", x.cmp(&y), x.partial_cmp(&y), x == y);
            Ok(())
        });
    } }
    let n = r.scale(6000);
    for k in 0..n {
        let len = if k == 0 { 0 } else { r.rng.below(14) as usize };
        let mut ups = vec![];
        for _ in 0..len {
            let w = *r.rng.pick(&[1, 2, 8, 16, 32, 64, 80, 128, 8388607]);
            let w = if r.rng.chance(1, 5) { 1 + r.rng.below(140) as u32 } else { w };
            let abi = r.rng.below(16) as u8;
            let pref = abi + r.rng.below(16 - abi as u64) as u8;
            ups.push(TSpec { t: match r.rng.below(7) { 0 => Ty::A, 1 | 2 => Ty::F(w), 3 | 4 => Ty::I(w), _ => Ty::V(w) }, abi, pref });
        }
        r.case(("types", &ups), || format!("TypeAlignSpecs::default() updated by {ups:?}"), || {
            let mut t = TypeAlignSpecs::default();
            let mut m: std::collections::BTreeMap<Ty, TSpec> = defaults().into_iter().map(|s| (s.t, s)).collect();
            for u in &ups {
                t.update(tval(u));
                m.insert(u.t, *u);
            }
            in_order(&format!("{t:?}"), &m.values().map(|s| format!("{:?}", tval(s))).collect::<Vec<_>>(), "abi_alignment")
        });
        let mut ups = vec![];
        for _ in 0..len {
            let abi = r.rng.below(64) as u8;
            let pref = abi + r.rng.below(64 - abi as u64) as u8;
            let a = if r.rng.chance(1, 4) { r.rng.below(1 << 23) as u32 } else { r.rng.below(5) as u32 };
            ups.push(PSpec { a, abi, pref, size: r.rng.edgy(), idx: r.rng.edgy() });
        }
        r.case(("ptrs", &ups), || format!("PointerAlignSpecs::default() updated by {ups:?}"), || {
            let mut t = PointerAlignSpecs::default();
            let mut m: std::collections::BTreeMap<u32, PSpec> = Default::default();
            m.insert(0, PSpec { a: 0, abi: 3, pref: 3, size: 64, idx: 64 });
            for u in &ups {
                t.update(pval(u));
                m.insert(u.a, *u);
            }
            in_order(&format!("{t:?}"), &m.values().map(|s| format!("{:?}", pval(s))).collect::<Vec<_>>(), "abi_alignment")
        });
    }
}

fn c12(r: &mut Run) {
    for abi in 0..64u8 { for pref in 0..64u8 {
        r.case(("new", abi, pref), || format!("new(abi 2^{abi}, pref 2^{pref})"), || {
            for t in [Ty::A, Ty::F(3), Ty::I(8388607), Ty::V(64)] {
                let x = TypeAlignSpec::new(real_ty(t), al(abi), al(pref));
                ensure!(x.is_ok() == (abi <= pref && pref <= 15), "TypeAlignSpec::new accepted: {}", x.is_ok());
                if let Ok(x) = x { ensure!(same_t(&x, &TSpec { t, abi, pref }), "{x:?}"); }
            }
            let x = PointerAlignSpec::new(AddressSpace::try_from(7u32).unwrap(), al(abi), al(pref), 40, 24);
            ensure!(x.is_ok() == (abi <= pref), "PointerAlignSpec::new accepted: {}", x.is_ok());
            if let Ok(x) = x { ensure!(same_p(&x, &PSpec { a: 7, abi, pref, size: 40, idx: 24 }), "{x:?}"); }
            Ok(())
        });
    } }
    let fixed = ["", "a", "a:", "a:0", "a:0:64", "a:8:8", "a0:64", "a::64", "a:64:0", "i", "i8", "i8:", "i8:8", "i8:8:", "i64:32:64", "i64:64:32", "f80:128", "v128:128:128", "i0:8", "i8388607:8",
        "i8388608:8", "i8:0", "i8:12", "i8:524288", "i8:262144", "i8:262144:524288", "x8:8", "é:8", "aé", "iéé", "i8:9223372036854775808", "p:64:64", "p:64:64:64", "p:64:64:32", "p0:64:64:64:32", "p1:32:32",
        "p8388607:32:32", "p8388608:32:32", "p4294967296:32:32", "p:64", "p", "p::", "p::8", "q:64:64:64", "é:64:64:64", "p:64:64:64:", "p:64:64::32", "P:64:64", "p:0:8", "p:64:0", "p+1:64:64", "p:+64:+64"];
    for s in fixed { let s = s.to_string(); parse_case(r, &s); }
    for _ in 0..r.scale(60000) {
        let ptr = r.rng.chance(1, 2);
        let s = spec_text(&mut r.rng, ptr);
        parse_case(r, &s);
    }
}
fn parse_case(r: &mut Run, s: &str) {
    r.case(("parse", s), || format!("parse {s:?}"), || {
        let t = s.parse::<TypeAlignSpec>();
        if let Ok(t) = &t { ensure!(t.preferred_alignment >= t.abi_alignment && t.preferred_alignment.shift() <= 15, "invalid combination {t:?}"); }
        if let Some(e) = type_oracle(s) {
            ensure!(t.is_ok() == e.is_some(), "type specification: {:?}, expected {e:?}", t);
            if let (Ok(t), Some(e)) = (&t, &e) { ensure!(same_t(t, e), "type specification {t:?}, expected {e:?}"); }
        }
        let p = s.parse::<PointerAlignSpec>();
        if let Ok(p) = &p { ensure!(p.preferred_alignment >= p.abi_alignment, "invalid combination {p:?}"); }
        if let Some(e) = ptr_oracle(s) {
            ensure!(p.is_ok() == e.is_some(), "pointer specification: {:?}, expected {e:?}", p);
            if let (Ok(p), Some(e)) = (&p, &e) { ensure!(same_p(p, e), "pointer specification {p:?}, expected {e:?}"); }
        }
        Ok(())
    });
}

/// one legal representative of every kind of type
fn kinds() -> Vec<T> {
    let mut v: Vec<T> = (0..SIMPLE.len() as u8).map(T::S).collect();
    let b = |t: T| Box::new(t);
    let i = T::Int(32);
    v.extend([i.clone(), T::Ptr(b(i.clone()), 0), T::Ptr(b(T::S(3)), 5), T::OPtr(0), T::OPtr(7), T::Arr(4, b(i.clone())), T::Arr(0, b(i.clone())), T::FV(4, b(i.clone())), T::FV(2, b(T::S(0))), T::FV(2, b(T::OPtr(0))),
        T::SV(4, b(i.clone())), T::SV(2, b(T::S(2))), T::SV(1, b(T::Ptr(b(i.clone()), 0))), T::St(None, vec![], false), T::St(Some("x".into()), vec![i.clone(), T::S(2)], true), T::Fn(b(T::S(8)), vec![], false), T::Fn(b(i.clone()), vec![i], true)]);
    v
}
fn type_case(r: &mut Run, t: &T) {
    if !t.parts().iter().all(|p| p.legal()) { return; }
    r.case(("type", t), || format!("construct {t:?}"), || {
        let b = t.build();
        ensure!(b.is_some() == t.legal_here(), "constructed: {}, allowed: {}", b.is_some(), t.legal_here());
        let Some(b) = b else { return Ok(()) };
        ensure!(format!("{b:?}") == t.text(), "holds {b:?}, given {}", t.text());
        match (&b, t) {
            (Type::Integer(x), T::Int(w)) => ensure!(x.bit_width() == *w && x.byte_width() == w / 8 + (w % 8 != 0) as u32, "bit_width {} byte_width {}", x.bit_width(), x.byte_width()),
            (Type::Pointer(x), T::Ptr(p, _)) => ensure!(format!("{:?}", x.pointee()) == p.text(), "pointee {:?}", x.pointee()),
            (Type::Array(x), T::Arr(_, p)) => ensure!(format!("{:?}", x.element()) == p.text(), "element {:?}", x.element()),
            (Type::FixedVector(x), T::FV(_, p)) | (Type::ScalableVector(x), T::SV(_, p)) => ensure!(format!("{:?}", x.element()) == p.text(), "element {:?}", x.element()),
            (Type::Struct(x), T::St(n, f, _)) => ensure!(x.name == *n && x.fields.len() == f.len(), "name {:?}, {} fields", x.name, x.fields.len()),
            _ => {}
        }
        let q = [("is_floating", b.is_floating(), t.fp()), ("is_integer", b.is_integer(), matches!(t, T::Int(_))), ("is_pointee", b.is_pointee(), t.pointee()), ("is_array_element", b.is_array_element(), t.arr_el()),
            ("is_struct_element", b.is_struct_element(), t.st_el()), ("is_vector_element", b.is_vector_element(), t.vec_el()), ("is_argument", b.is_argument(), t.arg()), ("is_return", b.is_return(), t.ret()),
            ("is_floating_or_floating_vector", b.is_floating_or_floating_vector(), t.scalar().fp()), ("is_integer_or_integer_vector", b.is_integer_or_integer_vector(), matches!(t.scalar(), T::Int(_)))];
        for (n, got, want) in q { ensure!(got == want, "{n} is {got}"); }
        ensure!(format!("{:?}", b.scalar_type()) == t.scalar().text(), "scalar type {:?}", b.scalar_type());
        Ok(())
    });
}
fn c14(r: &mut Run) {
    let b = |t: &T| Box::new(t.clone());
    let ks = kinds();
    for t in &ks {
        type_case(r, t);
        for n in [0, 1, 2, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX] {
            for x in [T::Arr(n, b(t)), T::FV(n, b(t)), T::SV(n, b(t))] { type_case(r, &x); }
        }
        for a in [0, 1, 8388607] { type_case(r, &T::Ptr(b(t), a)); }
        type_case(r, &T::Fn(b(t), vec![], false));
        for u in &ks {
            for v in [false, true] {
                type_case(r, &T::St(None, vec![t.clone(), u.clone()], v));
                type_case(r, &T::St(Some("n".into()), vec![T::Int(1), t.clone(), u.clone()], v));
                type_case(r, &T::Fn(b(t), vec![u.clone()], v));
                type_case(r, &T::Fn(b(&T::S(8)), vec![T::Int(1), t.clone(), u.clone()], v));
            }
        }
    }
    for w in (0..300).chain((0..25).flat_map(|k| (0..5).map(move |d| (1u32 << k).wrapping_add(d).wrapping_sub(2)))).chain([u32::MAX, u32::MAX - 1, 1 << 31]) { type_case(r, &T::Int(w)); }
    for _ in 0..r.scale(30000) { let d = 1 + r.rng.below(4) as u32; let t = any(&mut r.rng, d); type_case(r, &t); }
}

fn main() {
    let mut r = Run::from_args();
    match r.prop.as_str() {
        "C10" => c10(&mut r),
        "C11" => c11(&mut r),
        "C12" => c12(&mut r),
        "C14" => c14(&mut r),
        p => panic!("unknown property {p}"),
    }
    r.finish();
}
