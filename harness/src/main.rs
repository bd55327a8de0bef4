//! Concrete checks of the properties on the real crate, through its public API.
//! usage: vharness ID --tier quick|thorough --seed N --out FILE --dir DIR [--only CASE] [--budget S]
mod ctx;
mod dump;
mod geo;
mod model;
mod par;
mod pbf;
mod raw;

use ctx::Ctx;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "child" {
        std::process::exit(pbf::child(&a[2..]));
    }
    let id = a.get(1).cloned().unwrap_or_default();
    let (mut tier, mut seed, mut out, mut only, mut budget, mut dir) = ("quick".to_string(), 1u64, PathBuf::from("/dev/null"), None, 0u64, None);
    let mut i = 2;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--tier" => tier = a[i + 1].clone(),
            "--seed" => seed = a[i + 1].parse().unwrap_or(1),
            "--out" => out = PathBuf::from(&a[i + 1]),
            "--only" => only = Some(a[i + 1].clone()),
            "--budget" => budget = a[i + 1].parse().unwrap_or(0),
            "--dir" => dir = Some(PathBuf::from(&a[i + 1])),
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let thorough = tier == "thorough";
    if budget == 0 {
        budget = if thorough { 400 } else { 45 };
    }
    let dir = dir.unwrap_or_else(std::env::temp_dir).join(format!("vh-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let c = Ctx::new(&id, thorough, seed, dir.clone(), only, out.clone(), budget);
    let rule = match id.as_str() {
        "N01" => pbf::n01(&c),
        "N02" => pbf::n02(&c),
        "N03" => pbf::n03(&c),
        "N04" => pbf::n04(&c),
        "N05" => geo::n05(&c),
        "N06" => pbf::n06(&c),
        "N07" => pbf::n07(&c),
        "N08" => pbf::n08(&c),
        "N09" => pbf::n09(&c),
        "N10" => pbf::n10(&c),
        "N11" => pbf::n11(&c),
        "N12" => par::n12(&c),
        "N13" => par::n13(&c),
        "N14" => par::n14(&c),
        "N15" => geo::n15(&c),
        "N16" => geo::n16(&c),
        "N17" => dump::n17(&c),
        "N18" => dump::n18(&c),
        "N19" => dump::n19(&c),
        "N20" => dump::n20(&c),
        "N21" => dump::n21(&c),
        "N22" => dump::n22(&c),
        "N23" => par::n23(&c),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    let rc = c.finish(&out, &rule);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(rc);
}
