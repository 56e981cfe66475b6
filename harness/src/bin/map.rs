//! Concrete replay of the mapper's properties on llvm-mapper.
use harness::al::*;
use harness::*;
use llvm_mapper::record::DataLayout;
use llvm_support::*;
use std::collections::BTreeMap;
use std::convert::TryFrom;

// ------------------------------------------------------------------ C13
#[derive(Clone, Debug)]
struct Dl {
    little: bool, stack: Option<u8>, prog: u32, glob: u32, alloca: u32, types: BTreeMap<Ty, TSpec>, ptrs: BTreeMap<u32, PSpec>,
    fptr: Option<(char, u8)>, mangling: Option<char>, native: Vec<u32>, nonint: Vec<u32>,
}
fn dl_default() -> Dl {
    let mut ptrs = BTreeMap::new();
    ptrs.insert(0, PSpec { a: 0, abi: 3, pref: 3, size: 64, idx: 64 });
    Dl { little: false, stack: None, prog: 0, glob: 0, alloca: 0, types: defaults().into_iter().map(|s| (s.t, s)).collect(), ptrs, fptr: None, mangling: None, native: vec![], nonint: vec![] }
}
fn space(s: &str) -> Option<u32> { num(s, (1 << 23) - 1).map(|v| v as u32) }
/// outer None: unspecified
fn dl_oracle(s: &str) -> Option<Option<Dl>> {
    if !s.is_ascii() { return Some(None); }
    let mut d = dl_default();
    if s.is_empty() { return Some(Some(d)); }
    let specs: Vec<&str> = s.split('-').collect();
    if specs.iter().any(|s| { let n = s.split(':').count(); (s.starts_with('p') && n > 5) || ("ivf".contains(s.chars().next().unwrap_or('-')) && n > 3) || (s.starts_with('a') && n > 3) }) { return None; }
    for s in specs {
        if s.is_empty() { return Some(None); }
        if dl_step(&mut d, s).is_none() { return Some(None); }
    }
    Some(Some(d))
}
fn dl_step(d: &mut Dl, s: &str) -> Option<()> {
    let b = &s[1..];
    match s.as_bytes()[0] {
        b'e' | b'E' => { if !b.is_empty() { return None; } d.little = s == "e"; }
        b'S' => d.stack = Some(num_align(b)?),
        b'P' => d.prog = space(b)?,
        b'G' => d.glob = space(b)?,
        b'A' => d.alloca = space(b)?,
        b'p' => { let x = ptr_oracle(s)??; d.ptrs.insert(x.a, x); }
        b'i' | b'v' | b'f' | b'a' => { let x = type_oracle(s)??; d.types.insert(x.t, x); }
        b'F' => {
            let id = *b.as_bytes().first()?;
            if id != b'i' && id != b'n' { return None; }
            d.fptr = Some((id as char, num_align(&b[1..])?));
        }
        b'm' => {
            let x = b.as_bytes();
            if x.len() != 2 || x[0] != b':' || !b"emoxwa".contains(&x[1]) { return None; }
            d.mangling = Some(x[1] as char);
        }
        b'n' => {
            if b.is_empty() { return None; }
            if let Some(r) = b.strip_prefix('i') {
                let r = r.strip_prefix(':')?;
                d.nonint = r.split(':').map(|x| space(x).filter(|a| *a != 0)).collect::<Option<_>>()?;
            } else {
                d.native = b.split(':').map(|x| num(x, u32::MAX as u128).map(|v| v as u32)).collect::<Option<_>>()?;
            }
        }
        _ => return None,
    }
    Some(())
}
fn dl_same(r: &DataLayout, e: &Dl) -> Result<(), String> {
    let sp = |a: u32| AddressSpace::try_from(a).unwrap();
    ensure!((r.endianness == Endian::Little) == e.little, "endianness {:?}", r.endianness);
    ensure!(r.natural_stack_alignment == e.stack.map(al), "stack alignment {:?}, expected {:?}", r.natural_stack_alignment, e.stack);
    ensure!(r.program_address_space == sp(e.prog), "program address space {:?}, expected {}", r.program_address_space, e.prog);
    ensure!(r.global_variable_address_space == sp(e.glob), "globals address space {:?}, expected {}", r.global_variable_address_space, e.glob);
    ensure!(r.alloca_address_space == sp(e.alloca), "alloca address space {:?}, expected {}", r.alloca_address_space, e.alloca);
    in_order(&format!("{:?}", r.type_alignments), &e.types.values().map(|s| format!("{:?}", tval(s))).collect::<Vec<_>>(), "abi_alignment")?;
    in_order(&format!("{:?}", r.pointer_alignments), &e.ptrs.values().map(|s| format!("{:?}", pval(s))).collect::<Vec<_>>(), "abi_alignment")?;
    let f = e.fptr.map(|(c, a)| if c == 'i' { FunctionPointerAlign::Independent { abi_alignment: al(a) } } else { FunctionPointerAlign::MultipleOfFunctionAlign { abi_alignment: al(a) } });
    ensure!(r.function_pointer_alignment == f, "function pointer alignment {:?}, expected {f:?}", r.function_pointer_alignment);
    let m = e.mangling.map(|c| match c { 'e' => Mangling::Elf, 'm' => Mangling::Mips, 'o' => Mangling::Macho, 'x' => Mangling::WindowsX86Coff, 'w' => Mangling::WindowsCoff, _ => Mangling::XCoff });
    ensure!(r.mangling == m, "mangling {:?}, expected {m:?}", r.mangling);
    ensure!(r.native_integer_widths == e.native, "native widths {:?}, expected {:?}", r.native_integer_widths, e.native);
    let n: Vec<AddressSpace> = e.nonint.iter().map(|a| sp(*a)).collect();
    ensure!(r.non_integral_address_spaces == n, "non-integral spaces {:?}, expected {n:?}", r.non_integral_address_spaces);
    Ok(())
}
fn dl_spec(r: &mut Rng) -> String {
    let mut s = match r.below(16) {
        0 => "e".into(),
        1 => "E".into(),
        2 => format!("S{}", numtext(r)),
        3 => format!("{}{}", r.pick(&["P", "G", "A"]), if r.chance(2, 3) { r.below(9).to_string() } else { numtext(r) }),
        4 | 5 => spec_text(r, true),
        6 | 7 => spec_text(r, false),
        8 => format!("F{}{}", r.pick(&["i", "n", "i", "n", "x", ""]), numtext(r)),
        9 | 10 => format!("m{}{}", r.pick(&[":", ":", ":", ":", ";", ""]), r.pick(&["e", "m", "o", "x", "w", "a", "l", "", "ee", "é"])),
        11 | 12 => { let n = r.below(5); let v: Vec<String> = (0..n).map(|_| if r.chance(5, 6) { r.below(200).to_string() } else { numtext(r) }).collect(); format!("n{}", v.join(":")) }
        13 | 14 => { let n = r.below(4); let v: Vec<String> = (0..n).map(|_| if r.chance(5, 6) { (1 + r.below(200)).to_string() } else { numtext(r) }).collect(); format!("ni{}{}", r.pick(&[":", ":", ":", ":", ";", "", "1:"]), v.join(":")) }
        _ => ["", "x", "e1", "E ", "z9", "n", "ni", "ni:", "ni:0", "niX1", "m:", "m", "F", "Fi", "p", "i", "P", "é", "s0"][r.below(19) as usize].into(),
    };
    if r.chance(1, 60) { s.push(*r.pick(&['x', 'é', ' ', ':', '0'])); }
    s
}
fn good_spec(r: &mut Rng) -> String {
    loop {
        let s = dl_spec(r);
        if let Some(Some(_)) = dl_oracle(&s) { if !s.is_empty() { return s; } }
    }
}
fn dl_case(r: &mut Run, s: &str) {
    r.case(("dl", s), || format!("parse data layout {s:?}"), || {
        let d = s.parse::<DataLayout>();
        if let Some(e) = dl_oracle(s) {
            ensure!(d.is_ok() == e.is_some(), "{:?}, expected {e:?}", d);
            if let (Ok(d), Some(e)) = (&d, &e) { dl_same(d, e)?; }
        }
        Ok(())
    });
}
fn c13(r: &mut Run) {
    r.case("default", || "DataLayout::default()".into(), || dl_same(&DataLayout::default(), &dl_default()));
    for s in ["", "-", "e-", "-e", "e--E", "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128", "e-m:o-i64:64-i128:128-n32:64-S128", "E-m:a-p:32:32-Fi32-i64:64-n32",
        "A5-P1-G2-ni:7:8:9", "ni:1-ni:2", "n8-n16:32", "a:0:64-v128:64:128", "e-E-e", "n1i:2", "nii:1", "ni:1:", "m:e-m:m", "Fn32-Fi64", "p:64:64-p:32:32:64:16", "e\u{e9}", "\u{e9}", "n\u{e9}", "m\u{e9}", "F\u{e9}8"] {
        dl_case(r, s);
    }
    for _ in 0..r.scale(40000) {
        let n = r.rng.below(7);
        let v: Vec<String> = (0..n).map(|_| if r.rng.chance(5, 6) { good_spec(&mut r.rng) } else { dl_spec(&mut r.rng) }).collect();
        dl_case(r, &v.join("-"));
    }
}

fn main() {
    let mut r = Run::from_args();
    match r.prop.as_str() {
        "C13" => c13(&mut r),
        p => panic!("unknown property {p}"),
    }
    r.finish();
}
