//! Property checks for the mollusc crates. See /verif/DESIGN.md.

#[macro_use]
mod util;
mod bc;
mod bits;
mod checks;
mod engine;
mod hints;
mod json;
mod llvm;
mod refdec;
mod stream;
mod view;
mod wild;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::Instant;

use engine::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn find(id: &str) -> &'static Check {
    checks::ALL.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        std::process::exit(2)
    })
}

fn root() -> PathBuf {
    std::env::var_os("MVP_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn replay_json(id: &str, seed: u64, tier: &str, f: &Fail) -> String {
    let nums: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    format!(
        "{{\n \"property\": {},\n \"failure\": {},\n \"case_index\": {},\n \"seed\": {seed},\n \"tier\": {},\n \"hooks\": {},\n \"choices\": [{}]\n}}\n",
        json::s(id),
        json::s(&f.msg),
        f.index,
        json::s(tier),
        cfg!(mollusc_verif),
        nums.join(",")
    )
}

/// The findings listed for a property: (key, description).
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let head = format!("finding: property={id} key=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&head))
        .map(|l| {
            let (k, d) = l.split_once(' ').unwrap_or((l, ""));
            (k.to_string(), d.to_string())
        })
        .collect()
}

fn run(id: &str, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let c = find(id);
    let mut count = if tier == "thorough" { c.thorough } else { c.quick };
    if let Some(n) = std::env::var("MVP_CASES").ok().and_then(|n| n.parse().ok()) {
        count = n;
    }

    // Known findings: each probe reproduces one listed finding. A probe that finds something that
    // isn't listed is a violation like any other.
    install_panic_hook();
    let listed = known(id);
    let mut unlisted = None;
    let mut found = vec![];
    for (key, probe) in c.probes {
        if let Some(what) = probe() {
            match listed.iter().find(|(k, _)| k == key) {
                Some((_, d)) => {
                    println!("KNOWN-FINDING: property={id} {d} [{what}]");
                    found.push(format!("{key}: {what}"));
                }
                None => unlisted = Some(format!("{key}: {what}")),
            }
        }
    }

    let mut t = run_check(c, seed, count);
    if let (None, Some(what)) = (&t.fail, unlisted) {
        t.fail = Some(Fail { index: 0, msg: what, choices: vec![] });
    }
    let wall = start.elapsed().as_secs_f64();

    let mut labels = String::new();
    for (i, (l, n)) in t.labels.iter().enumerate() {
        let _ = write!(labels, "{}{}: {n}", if i > 0 { ", " } else { "" }, json::s(l));
    }
    t.samples.truncate(12);
    let samples: Vec<String> = t.samples.iter().map(|s| {
        let mut s = s.clone();
        if s.len() > 1200 {
            let mut n = 1200;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str(" ..");
        }
        json::s(&s)
    }).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"hooks\": {},\n  \"classes\": {{{labels}}},\n  \"known_findings_reproduced\": [{}],\n  \"samples\": [{}]\n }},\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json::s(id),
        json::s(tier),
        t.evals,
        t.nontrivial,
        t.distinct,
        json::s(c.rule),
        cfg!(mollusc_verif),
        found.iter().map(|f| json::s(f)).collect::<Vec<_>>().join(", "),
        samples.join(",\n   "),
        t.fail.is_some() as u32,
        wall
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), ev).expect("writing evidence");

    println!(
        "{id}: {} cases ({} non-trivial, {} distinct) in {wall:.1} s, hooks {}",
        t.evals,
        t.nontrivial,
        t.distinct,
        if cfg!(mollusc_verif) { "on" } else { "off" }
    );
    match t.fail {
        None => 0,
        Some(f) => {
            let rdir = dir.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{id}.json"));
            std::fs::write(&path, replay_json(id, seed, tier, &f)).expect("writing the replay");
            println!("{}", f.msg.replace("\\n", "\n"));
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
    }
}

fn replay(path: &Path) -> i32 {
    let text = std::fs::read_to_string(path).expect("reading the replay file");
    let id = json::get_str(&text, "property").expect("no property in the replay file");
    let choices = json::get_nums(&text, "choices").expect("no choices in the replay file");
    let c = find(&id);
    let (r, _, obs) = exec_one(c, choices);
    if let Some(s) = obs.sample {
        println!("case: {s}");
    }
    match r {
        Ok(()) => {
            println!("{id}: the replayed case holds");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1..) {
        Some(["run", id, tier, seed]) => run(id, tier, seed.parse().unwrap_or(1)),
        Some(["worker", id, seed, start, stride, count, dir]) => {
            worker(
                find(id),
                seed.parse().unwrap(),
                start.parse().unwrap(),
                stride.parse().unwrap(),
                count.parse().unwrap(),
                Path::new(dir),
            );
            0
        }
        Some(["exec", id, file]) => {
            let choices = split(&std::fs::read_to_string(file).unwrap());
            match exec_one(find(id), choices).0 {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        Some(["regen", id, seed, index, file]) => {
            regen(find(id), seed.parse().unwrap(), index.parse().unwrap(), Path::new(file));
            0
        }
        Some(["replay", file]) => replay(Path::new(file)),
        Some(["list"]) => {
            let m: BTreeMap<_, _> = checks::ALL.iter().map(|c| (c.id, (c.quick, c.thorough))).collect();
            for (id, (q, t)) in m {
                println!("{id} quick={q} thorough={t}");
            }
            0
        }
        _ => {
            eprintln!("usage: mvp run ID TIER SEED | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
