//! Demonstration of the recorded C19 finding: `dag N` maps a type table of N literal
//! structs, each {previous, previous}, and prints how long the mapping took.
//! Run it with a memory limit (see ../../tools/known-c19.sh).
use harness2::*;
use llvm_mapper::block::type_table::TypeTable;
fn main() {
    let n: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(10);
    let mut recs = vec![rec(1, &[n + 1]), rec(7, &[8])];
    for i in 0..n { recs.push(rec(18, &[0, i, i])); }
    let b = Blk::new(17, recs, vec![]).real();
    let t = std::time::Instant::now();
    let ok = TypeTable::try_from(&b).is_ok();
    println!("{n} entries: ok={ok} {:?}", t.elapsed());
}
