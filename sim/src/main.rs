//! Deterministic simulation with fault injection for perception-eval.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, deprecated, static_mut_refs)]
mod choice;
mod gen;
mod model;
mod props;
mod runner;
mod sys;

use std::path::PathBuf;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn main() {
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => match props.iter().find(|p| p.id == id) {
            Some(p) => runner::check(p),
            None => {
                println!("unknown property {id}");
                2
            }
        },
        (Some("replay"), Some(f)) => runner::replay(&props, f),
        (Some("determinism"), n) => runner::determinism(&props, n.and_then(|s| s.parse().ok()).unwrap_or(20)),
        (Some("list"), _) => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            println!("usage: vsim check <ID> | replay <file> | determinism [n] | list");
            2
        }
    };
    std::process::exit(code);
}
