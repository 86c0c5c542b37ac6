//! Bounded stand-in and witness search for the properties in
//! ../properties.jsonl. Runs the real crate (path dependency on /repo) through
//! its public API against an executable copy of the specification.
//!
//! usage: genco-harness PROPERTY [--seed N] [--tier quick|thorough] [--only INDEX]
//! prints one JSON object per failing case (at most 20) and a final summary line.
mod core;
mod f;
mod i;
mod q;
mod c;
mod t;

use crate::core::Run;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--only").and_then(|s| s.parse().ok());
    let mut run = Run::new(&prop, seed, thorough, only);
    if let Some(b) = get("--budget").and_then(|s| s.parse().ok()) {
        run.budget(b);
    }
    match prop.as_str() {
        "T01" => t::t01(&mut run),
        "T02" => t::t02(&mut run),
        "T03" => t::t03(&mut run),
        "T04" => t::t04(&mut run),
        "T05" => c::t05(&mut run),
        "F01" => f::f01(&mut run),
        "F02" => f::f02(&mut run),
        "F03" => f::f03(&mut run),
        "Q01" => q::q01(&mut run),
        "Q02" => q::q02(&mut run),
        "Q03" => q::q03(&mut run),
        "I01" => i::i01(&mut run),
        "I02" => i::i02(&mut run),
        "I03" => i::i03(&mut run),
        "I04" => i::i04(&mut run),
        "I05" => i::i05(&mut run),
        "dump" => {
            q::dump(&args[2]);
            return;
        }
        _ => {
            eprintln!("no harness for {prop}");
            std::process::exit(2);
        }
    }
    run.finish();
}
