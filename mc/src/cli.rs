//! Command line of a checker: list | replay | run.
use crate::explore::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(l: &[String]) -> String { format!("[{}]", l.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }

pub fn main(all: impl Fn(&str, Tier) -> Vec<Space>) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a[2].clone();
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    quiet_panics();
    let spaces = all(&prop, tier);
    if spaces.is_empty() { eprintln!("mc: unknown property {}", prop); std::process::exit(2) }
    match a[1].as_str() {
        "list" => for s in &spaces { println!("{}: {}", s.name, s.what) },
        "replay" => {
            let i: usize = a[3].parse().expect("space index");
            let case: Vec<u32> = a[4].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect();
            let (r, label) = replay(&spaces[i], &case, tier);
            println!("space: {}", spaces[i].name);
            println!("case: {}", label);
            match r {
                Ok(()) => println!("verdict: held"),
                Err(e) => { println!("verdict: violated: {}", e); std::process::exit(1) }
            }
        }
        "run" => {
            let out = get("--out").expect("--out");
            let journal = get("--journal").expect("--journal");
            let secs: f64 = get("--seconds").map(|s| s.parse().unwrap()).unwrap_or(600.0);
            let hang: u64 = get("--hang").map(|s| s.parse().unwrap()).unwrap_or(60);
            let only = get("--only");
            let threads = get("--threads").map(|s| s.parse().unwrap()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(32));
            let start = Instant::now();
            let lim = Limits { threads, deadline: start + Duration::from_secs_f64(secs), hang: Duration::from_secs(hang), max_violations: 40 };
            let j = Journal::open(&journal, threads);
            let mut parts = Vec::new();
            for (i, s) in spaces.iter().enumerate() {
                if only.as_ref().map_or(false, |o| !o.split(';').any(|o| match o.strip_prefix('=') { Some(o) => s.name == o, None => s.name.contains(o) })) { continue }
                let o = run_space(s, i as u32, tier, &lim, &j);
                if a.iter().any(|x| x == "-v") {
                    eprintln!("{:28} {:>10} executions {:>10} states {:>10} transitions {:>10} validated {:.2}s {:?} {}", o.name, o.executions, o.states, o.transitions, o.validated, o.wall, o.outcomes, if o.capped { "CAPPED" } else { "" });
                    for v in o.violations.iter().take(8) { eprintln!("   VIOLATED {:?}: {}", v.case, v.msg) }
                    for e in o.engine_errors.iter().take(3) { eprintln!("   ENGINE {}", e) }
                }
                let mut p = String::new();
                let _ = write!(p, "{{\"index\": {}, \"name\": {}, \"what\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"validated\": {}, \"repeated\": {}, \"capped\": {}, \"wall\": {:.3}, ",
                    i, js(&o.name), js(&o.what), o.executions, o.states, o.transitions, o.validated, o.repeated, o.capped, o.wall);
                let _ = write!(p, "\"outcomes\": {{{}}}, ", o.outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
                let _ = write!(p, "\"samples\": {}, \"engine_errors\": {}, ", jl(&o.samples), jl(&o.engine_errors));
                let _ = write!(p, "\"violations\": [{}]}}", o.violations.iter().map(|v| format!("{{\"case\": {:?}, \"msg\": {}, \"label\": {}}}", v.case, js(&v.msg), js(&v.label))).collect::<Vec<_>>().join(", "));
                parts.push(p);
                std::fs::write(&out, format!("{{\"done\": false, \"spaces\": [\n{}\n]}}\n", parts.join(",\n"))).expect("write");
                // after a violation the remaining spaces add nothing to the verdict
                if !o.violations.is_empty() || !o.engine_errors.is_empty() { if !a.iter().any(|x| x == "--all") { break } }
            }
            std::fs::write(&out, format!("{{\"done\": true, \"wall\": {:.3}, \"spaces\": [\n{}\n]}}\n", start.elapsed().as_secs_f64(), parts.join(",\n"))).expect("write");
        }
        x => { eprintln!("mc: unknown command {}", x); std::process::exit(2) }
    }
}
