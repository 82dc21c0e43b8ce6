//! vx: mechanical extractor + lowering from /repo's Rust sources to a Verus file.
//!
//! usage: vx <repo-root> <contracts-dir> <unit> <out.rs> <out.json>
//!
//! The unit template `<contracts-dir>/<unit>.vrs` is Verus text; lines that start
//! with `//@@` are directives (see /verif/DESIGN.md, "Extraction").  Everything
//! that is executable in the output comes from /repo, through the fixed lowering
//! rules in `lower.rs`; the template only supplies specifications, proof text and
//! ghost definitions (and trusted declarations, which the runner lists).
mod inline;
mod lower;
mod print;
mod template;

use std::{env, fs, process};

fn main() {
    let a: Vec<String> = env::args().collect();
    if a.len() != 6 {
        eprintln!("usage: vx <repo> <contracts-dir> <unit> <out.rs> <out.json>");
        process::exit(2);
    }
    match template::run(&a[1], &a[2], &a[3]) {
        Ok(out) => {
            fs::write(&a[4], out.text).expect("write out");
            fs::write(&a[5], out.json).expect("write json");
        }
        Err(e) => {
            eprintln!("vx: {e}");
            process::exit(3);
        }
    }
}
