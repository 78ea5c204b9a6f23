//! franka-verif: property checks for libfranka-rs.
//!   franka-verif check <ID> [--sub NAME] [--scale X]     (VERIF_SEED, VERIF_TIER)
//!   franka-verif replay <FILE>
//!   franka-verif list
mod alloc;
mod ctl;
mod engine;
mod net;
mod props;
mod refmodel;
mod rt;
mod wire;

use engine::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Prop, st: &Stats, per_sub: &BTreeMap<String, u64>, tier: &str, seed: u64, wall: f64, fail: Option<&Failure>) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(p.id), js(tier), seed, js(p.level)));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.evals, st.nontrivial.len()));
    o.push_str(&format!("  \"rule\": {},\n", js(p.rule)));
    let subs: Vec<String> = per_sub.iter().map(|(k, v)| format!("   {}: {}", js(k), v)).collect();
    o.push_str(&format!("  \"cases_per_generator\": {{\n{}\n  }},\n", subs.join(",\n")));
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("   {}: {}", js(k), v)).collect();
    o.push_str(&format!("  \"observed\": {{\n{}\n  }},\n", labels.join(",\n")));
    let samples: Vec<String> = st.samples.iter().map(|s| format!("   {}", js(&clip(s, 1500)))).collect();
    o.push_str(&format!("  \"samples\": [\n{}\n  ]", samples.join(",\n")));
    if !st.unconfirmed.is_empty() {
        let u: Vec<String> = st.unconfirmed.iter().map(|s| format!("   {}", js(&clip(s, 400)))).collect();
        o.push_str(&format!(",\n  \"not_reproduced\": [\n{}\n  ]", u.join(",\n")));
    }
    o.push_str("\n },\n");
    let a: Vec<String> = p.assumptions.iter().map(|s| format!("  {}", js(s))).collect();
    o.push_str(&format!(" \"assumptions\": [\n{}\n ],\n", a.join(",\n")));
    if let Some(f) = fail {
        o.push_str(&format!(" \"violation\": {},\n", js(&clip(&f.msg, 2000))));
    }
    o.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, fail.is_some() as u8));
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), o) {
        eprintln!("cannot write evidence: {}", e);
    }
}

fn write_replay(p: &Prop, f: &Failure) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.replay", p.id, f.sub));
    let mut o = format!("property {}\nsub {}\ncase {}\n", p.id, f.sub, f.case_no);
    for l in f.msg.lines() {
        o.push_str(&format!("# {}\n", l));
    }
    o.push_str(&format!("choices {}\n", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
    let _ = std::fs::write(&path, o);
    path
}

/// Kept in case confirming the failure kills the process.
pub fn write_candidate(id: &str, f: &Failure) {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut o = format!("property {}\nsub {}\ncase {}\n", id, f.sub, f.case_no);
    for l in f.msg.lines() {
        o.push_str(&format!("# {}\n", l));
    }
    o.push_str(&format!("choices {}\n", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
    let _ = std::fs::write(dir.join(format!("{}-candidate.replay", id)), o);
}

/// A case never returned, twice: report it and end the process (its thread cannot be stopped).
pub fn report_hang(p: &Prop, sub: &'static str, case: u64, case_seed: u64, seed: u64, thorough: bool) {
    let f = Failure { sub, msg: format!("generator {}, case {}: a call does not return", sub, case), choices: vec![], case_no: case };
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.replay", p.id, sub));
    let _ = std::fs::write(&path, format!("property {}\nsub {}\ncase {}\n# {}\nseed {}\n", p.id, sub, case, f.msg, case_seed));
    write_evidence(p, &Stats::default(), &BTreeMap::new(), if thorough { "thorough" } else { "quick" }, seed, 0.0, Some(&f));
    println!("{}", f.msg);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    props::model::cleanup();
    std::process::exit(1);
}

fn replay(path: &Path) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path.display(), e);
            return 2;
        }
    };
    let (mut id, mut sub, mut ch) = (String::new(), String::new(), vec![]);
    let mut seed = None;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.trim().into();
        } else if let Some(x) = l.strip_prefix("sub ") {
            sub = x.trim().into();
        } else if let Some(x) = l.strip_prefix("seed ") {
            seed = x.trim().parse::<u64>().ok();
        } else if let Some(x) = l.strip_prefix("choices") {
            ch = x.split_whitespace().filter_map(|t| t.parse().ok()).collect();
        }
    }
    for p in props::all() {
        if p.id == id {
            for s in &p.subs {
                if s.name == sub {
                    let out = match seed {
                        Some(x) => (s.f)(&mut Src::random(x)),
                        None => (s.f)(&mut Src::replay(&ch)),
                    };
                    if let Some(x) = &out.sample {
                        println!("case: {}", x);
                    }
                    println!("verdict: {:?}", out.verdict);
                    return match out.verdict {
                        Verdict::Pass => 0,
                        _ => 1,
                    };
                }
            }
        }
    }
    eprintln!("no generator {} {}", id, sub);
    2
}

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    net::init();
    net::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}({}/{})", s.name, s.quick, s.thorough)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("replay") => replay(Path::new(&args[2])),
        // case <ID> <sub> <number> <times>: repeats one generated case (development aid)
        Some("case") => {
            let (num, times): (u64, u64) = (args[4].parse().unwrap(), args[5].parse().unwrap());
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut bad = 0;
            for p in props::all().iter().filter(|p| p.id == args[2]) {
                for s in p.subs.iter().filter(|s| s.name == args[3]) {
                    std::thread::scope(|sc| {
                        let hs: Vec<_> = (0..8)
                            .map(|_| {
                                sc.spawn(|| {
                                    let mut n = 0;
                                    for _ in 0..times / 8 {
                                        let out = (s.f)(&mut Src::random(case_seed(seed, p.id, s.name, num)));
                                        if !matches!(out.verdict, Verdict::Pass) {
                                            println!("{:?}", out.verdict);
                                            n += 1;
                                        }
                                    }
                                    n
                                })
                            })
                            .collect();
                        for h in hs {
                            bad += h.join().unwrap();
                        }
                    });
                }
            }
            (bad > 0) as i32
        }
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let mut only = None;
            let mut scale = 1.0;
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--sub" => only = args.get(i + 1).cloned(),
                    "--scale" => scale = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(1.0),
                    _ => {}
                }
                i += 2;
            }
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
            match props::all().into_iter().find(|p| p.id == id) {
                None => {
                    eprintln!("unknown property {}", id);
                    2
                }
                Some(p) => {
                    let t0 = Instant::now();
                    let (st, fail, per) = run_prop(&p, seed, tier == "thorough", only.as_deref(), scale);
                    let wall = t0.elapsed().as_secs_f64();
                    write_evidence(&p, &st, &per, tier, seed, wall, fail.as_ref());
                    println!("{}: {} cases, {} distinct non-trivial, {:.1} s", p.id, st.evals, st.nontrivial.len(), wall);
                    match fail {
                        Some(f) => {
                            let path = write_replay(&p, &f);
                            println!("{} (generator {}, case {})", f.msg, f.sub, f.case_no);
                            println!("VIOLATION property={} replay={}", p.id, path.display());
                            1
                        }
                        None => 0,
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: franka-verif check <ID> | replay <FILE> | list");
            2
        }
    };
    props::model::cleanup();
    // threads of hung sessions must not keep the process alive
    std::process::exit(code);
}
