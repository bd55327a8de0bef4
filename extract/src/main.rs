//! osmx: mechanical extraction of functions and types from /repo/src into a Verus file.
//!
//! usage: osmx UNIT.vrs REPO OUT.rs OUT.json
//!
//! A unit file is verbatim Verus text with directives (see DESIGN.md, "Extraction"):
//!   //@ include FILE                    include another unit file (relative to this one)
//!   //@ type FILE NAME                  struct/enum, every field made public, derives dropped
//!   //@ fn FILE PATH [opts] ... //@ end function body from the source, with a contract
//!   //@ trusted FILE PATH ... //@ end   signature from the source, body dropped (assumed)
//!   //@ const FILE NAME                 constant item
//! PATH is `name`, `Type::name` or `Trait@Type::name`.
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

mod locals;
mod lower;
mod unit;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 {
        eprintln!("usage: osmx UNIT REPO OUT.rs OUT.json");
        std::process::exit(2);
    }
    let mut ctx = unit::Ctx {
        repo: PathBuf::from(&args[2]),
        files: BTreeMap::new(),
        out: String::new(),
        functions: vec![],
        trusted: vec![],
        lost: vec![],
        retype: None,
        lowerings: BTreeMap::new(),
        renames: vec![],
        locals: None,
    };
    let text = match unit::load(Path::new(&args[1])) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read unit: {e}");
            std::process::exit(2);
        }
    };
    ctx.process(&text);
    fs::write(&args[3], &ctx.out).expect("write output");
    fs::write(&args[4], ctx.report()).expect("write report");
    for l in &ctx.lost {
        eprintln!("LOST {l}");
    }
    std::process::exit(if ctx.lost.is_empty() { 0 } else { 3 });
}
