//! Runtime monitors for the properties of sia core-rs. See /verif/DESIGN.md.
#![allow(clippy::all)]
mod alloc;
#[macro_use]
mod eng;
#[cfg(not(feature = "only_erase"))]
mod io;
#[cfg(not(feature = "only_erase"))]
mod models;
mod props;

/// the derive macros refer to `crate::encoding`
pub mod encoding {
    pub use sia::encoding::*;
}

use eng::*;
use std::path::{Path, PathBuf};

#[cfg(not(feature = "sanitizer"))]
#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn literals(dir: &Path, ints: &mut Vec<u128>, strs: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else {
        return;
    };
    let mut files: Vec<PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    for p in files {
        if p.is_dir() {
            literals(&p, ints, strs);
            continue;
        }
        if p.extension().and_then(|x| x.to_str()) != Some("rs") {
            continue;
        }
        let text = std::fs::read_to_string(&p).unwrap_or_default();
        let code = text.split("#[cfg(test)]").next().unwrap_or("");
        for line in code.lines() {
            let line = line.split("//").next().unwrap_or("");
            let b = line.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'"' {
                    let mut j = i + 1;
                    while j < b.len() && b[j] != b'"' {
                        j += if b[j] == b'\\' { 2 } else { 1 };
                    }
                    if let Some(s) = line.get(i + 1..j.min(b.len())) {
                        if s.len() <= 100 && !s.contains('{') {
                            strs.push(s.to_string());
                        }
                    }
                    i = j + 1;
                } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                    let mut j = i;
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                        j += 1;
                    }
                    let t: String = line[i..j].replace('_', "");
                    let v = if let Some(h) = t.strip_prefix("0x") {
                        let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                        u128::from_str_radix(&h, 16).ok()
                    } else {
                        t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
                    };
                    if let Some(v) = v {
                        ints.push(v);
                    }
                    i = j;
                } else {
                    i += 1;
                }
            }
        }
    }
}

fn harvest() {
    // the interpreter has no time for it
    if std::env::var_os("MONITOR_NO_HARVEST").is_some() {
        return;
    }
    let mut ints = vec![];
    let mut strs = vec![];
    let src = Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/sia/src"));
    let src = if src.is_dir() { src } else { Path::new("/repo/sia/src") };
    literals(src, &mut ints, &mut strs);
    ints.sort();
    ints.dedup();
    ints.retain(|x| *x > 3);
    strs.sort();
    strs.dedup();
    *model::rng::DICT.write().unwrap() = ints;
    *model::rng::SDICT.write().unwrap() = strs;
}

fn opt<'a>(a: &'a [String], name: &str) -> Option<&'a str> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).map(|x| x.as_str())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("worker") => {
            harvest();
            let p = props::find(&a[2]).expect("property");
            worker(
                &p,
                &WorkerArgs {
                    shard: a[3].parse().unwrap(),
                    shards: a[4].parse().unwrap(),
                    ms: a[5].parse().unwrap(),
                    out: PathBuf::from(&a[6]),
                    seed: a[7].parse().unwrap(),
                    thorough: a[8] == "thorough",
                    limit: opt(&a, "--limit").map_or(0, |x| x.parse().unwrap()),
                    only: opt(&a, "--only").map(|x| x.split(',').map(String::from).collect()).unwrap_or_default(),
                },
            )
        }
        Some("case") => {
            harvest();
            let p = props::find(&a[2]).expect("property");
            single(
                &p,
                &a[3],
                a[4].parse().unwrap(),
                a[5].parse().unwrap(),
                a[6] == "thorough",
                opt(&a, "-v").is_some() || a.contains(&"-v".into()),
            )
        }
        Some("replay") => {
            harvest();
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let p = props::find(v["property"].as_str().unwrap()).expect("property");
            single(
                &p,
                v["monitor"].as_str().unwrap(),
                v["seed"].as_u64().unwrap(),
                v["idx"].as_u64().unwrap(),
                v["tier"] == "thorough",
                true,
            )
        }
        Some("run") => {
            let p = props::find(&a[2]).expect("property");
            let tier = opt(&a, "--tier").unwrap_or("quick");
            parent(
                &p,
                &RunArgs {
                    bins: opt(&a, "--bins")
                        .map(|x| x.split(',').map(PathBuf::from).collect())
                        .unwrap_or_else(|| vec![std::env::current_exe().unwrap()]),
                    seed: opt(&a, "--seed").map_or(1, |x| x.parse().unwrap()),
                    thorough: tier == "thorough",
                    evidence: opt(&a, "--evidence").map(PathBuf::from).unwrap_or_else(|| format!("/tmp/evidence-{}.json", a[2]).into()),
                    replays: opt(&a, "--replays").map(PathBuf::from).unwrap_or_else(|| "/tmp/replays".into()),
                    findings: opt(&a, "--findings").map(PathBuf::from).unwrap_or_else(|| "/verif/known-findings.txt".into()),
                    level: opt(&a, "--level").unwrap_or("exploration").to_string(),
                    extra: opt(&a, "--extra").map(|x| x.split(',').map(PathBuf::from).collect()).unwrap_or_default(),
                    ms: opt(&a, "--ms").map(|x| x.parse().unwrap()),
                    shards: opt(&a, "--shards").map_or(8, |x| x.parse().unwrap()),
                },
            )
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.monitors.iter().map(|m| m.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: monitor run|worker|case|replay|list …");
            2
        }
    };
    std::process::exit(code);
}
