//! vx: mechanical extraction of functions under contract from /repo into one
//! Verus file.  usage: vx UNIT.vc REPO OUT.rs OUT.json [--degrade NAME]...
//!
//! The executable text is the text in /repo, subject only to the syntactic
//! rules listed in `rules()` (each use is counted and reported in OUT.json).
mod desugar;
mod elim;
mod index;
mod mac;
mod print;
mod unit;

use serde_json::json;
use std::collections::BTreeMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx UNIT.vc REPO OUT.rs OUT.json [--degrade NAME]...");
        std::process::exit(2);
    }
    let mut degrade = vec![];
    let mut mutate = false;
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--degrade" => { degrade.push(args[i + 1].clone()); i += 1; }
            "--vacuity" => mutate = true,
            o => panic!("unknown arg {o}"),
        }
        i += 1;
    }
    let unit = unit::Unit::load(&args[1]);
    let mut ix = index::Index::default();
    ix.strlen = unit.noinline.iter().any(|n| n == "flag:strlen");
    for s in &unit.sources {
        ix.load(&args[2], s);
    }
    ix.finish();
    let out = unit::emit(&unit, &ix, &degrade, mutate);
    std::fs::write(&args[3], &out.text).unwrap();
    let fns: Vec<_> = out
        .fns
        .iter()
        .map(|f| {
            json!({"name": f.name, "start": f.start, "end": f.end, "status": f.status,
                   "why": f.why, "file": f.file, "src_line": f.src_line, "has_contract": f.has_contract,
                   "loops": f.loops, "probed": f.probed, "inlined": f.inlined, "soft": f.soft})
        })
        .collect();
    let rules: BTreeMap<_, _> = out.rules.iter().collect();
    let j = json!({"unit": args[1], "functions": fns, "rules": rules, "types": out.types, "lost": out.lost, "fatal": out.fatal});
    std::fs::write(&args[4], serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
