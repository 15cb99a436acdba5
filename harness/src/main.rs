//! Runtime monitors for kicad_parse_gen: `harness check <ID>`, `harness replay <file>`.

mod alloc;
mod build;
mod core;
mod dict;
mod gen;
mod mutate;
mod obs;
mod props;
mod read;
mod render;
mod rng;
mod sx;
mod v;

use crate::core::Tier;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let arg = |k: usize| a.get(k).cloned().unwrap_or_default();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let prop = |id: &str| match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    };
    let code = match &arg(1)[..] {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            core::supervise(prop(&arg(2)), seed, tier(&arg(3)), &root)
        }
        "worker" => {
            let only = a.get(7).map(|x| x.parse().expect("case"));
            core::worker(prop(&arg(2)), arg(3).parse().expect("seed"), tier(&arg(4)), &PathBuf::from(arg(5)), arg(6).parse().expect("k"), only)
        }
        "case" => core::replay(prop(&arg(2)), arg(3).parse().expect("seed"), arg(4).parse().expect("case"), tier(&arg(5)), &root),
        "fresh" => props::conc::fresh(&PathBuf::from(arg(2))),
        "work" => props::work::perform(&PathBuf::from(arg(2))),
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let get = |k: &str| s.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string()).expect("replay header");
            core::replay(prop(&get("property:")), get("seed:").parse().expect("seed"), get("case:").parse().expect("case"), tier(&get("tier:")), &root)
        }
        _ => {
            eprintln!("usage: harness check <property> [quick|thorough] | replay <file> | case <property> <seed> <index>");
            2
        }
    };
    std::process::exit(code)
}
