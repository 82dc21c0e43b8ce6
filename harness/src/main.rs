//! Bounded search for a failing input, and replay of one.
//!
//! `vharness run ID --tier T --seed N --out report.json --replay file.json`
//! `vharness replay file.json`
mod axioms;
mod case;
mod cli;
mod gen;
mod judge;
mod reffoundry;
mod refsyn;
mod solax;

use case::Case;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn shrink(prop: &str, case: Case, msg: String) -> (Case, String) {
    let t0 = Instant::now();
    let (mut case, mut msg) = (case, msg);
    'outer: loop {
        for c in case.smaller() {
            if t0.elapsed() > Duration::from_secs(20) {
                return (case, msg);
            }
            if let Err(m) = judge::judge(prop, &c) {
                case = c;
                msg = m;
                continue 'outer;
            }
        }
        return (case, msg);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let quiet = std::panic::take_hook();
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    } else {
        std::panic::set_hook(quiet);
    }
    match a.get(1).map(String::as_str) {
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = v["property"].as_str().unwrap().to_owned();
            let case: Case = serde_json::from_value(v["case"].clone()).unwrap();
            println!("{prop}: {case:?}");
            match judge::judge(&prop, &case) {
                Ok(()) => println!("holds"),
                Err(m) => {
                    println!("VIOLATED: {m}");
                    std::process::exit(1);
                }
            }
        }
        // Known finding: the parser recurses once per level of nesting.
        Some("deep") => {
            let n: usize = a[2].parse().unwrap();
            let mut text = String::from("Foo\n");
            for _ in 0..n {
                text.push_str("└ when a ");
            }
            text.push_str("└ it b\n");
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    std::mem::forget(bulloak_syntax::parse_one(&text));
                })
                .unwrap();
            h.join().unwrap();
            println!("no crash");
        }
        // What the contracts assume about std, regex, solang, ...: checked on the libraries.
        Some("axioms") => {
            let (rows, bad) = axioms::run();
            std::fs::write(&a[2], rows.to_string()).unwrap();
            if !bad.is_empty() {
                println!("{}", bad.join("\n"));
                std::process::exit(1);
            }
        }
        Some("run") => run(&a),
        _ => std::process::exit(2),
    }
}

fn run(a: &[String]) {
    let prop = a[2].clone();
    let thorough = arg(a, "--tier").as_deref() == Some("thorough");
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = arg(a, "--out").unwrap();
    let replay = arg(a, "--replay").unwrap();
    let budget: u64 = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(300);
    let trace = arg(a, "--trace");
    let known: Vec<Case> = arg(a, "--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| {
            s.lines()
                .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
                .filter(|v| v["property"] == prop.as_str())
                .filter_map(|v| serde_json::from_value(v["case"].clone()).ok())
                .collect()
        })
        .unwrap_or_default();
    let threads = if trace.is_some() { 1 } else { 8 };
    let t0 = Instant::now();
    let it = Mutex::new(gen::cases(&prop, thorough, seed));
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let exhausted = AtomicBool::new(false);
    // hashes of the cases that are not trivial: more than one line or ten characters
    let distinct: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let samples: Mutex<Vec<Case>> = Mutex::new(vec![]);
    let found: Mutex<Option<(Case, String)>> = Mutex::new(None);
    let slots: Vec<Mutex<Option<(Instant, Case)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let live = AtomicUsize::new(threads);
    std::thread::scope(|s| {
        for slot in &slots {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed() > Duration::from_secs(budget) {
                            break;
                        }
                        let batch: Vec<Case> = {
                            let mut it = it.lock().unwrap();
                            let n = if matches!(prop.as_str(), "C12" | "C13" | "C14" | "C17") { 1 } else { 32 };
                            it.by_ref().take(n).collect()
                        };
                        if batch.is_empty() {
                            exhausted.store(true, Ordering::Relaxed);
                            break;
                        }
                        {
                            let n = done.load(Ordering::Relaxed);
                            let mut s = samples.lock().unwrap();
                            if n >= s.len() * s.len() * 500 && s.len() < 6 {
                                s.push(batch[batch.len() / 2].clone());
                            }
                        }
                        {
                            use std::hash::{Hash, Hasher};
                            let mut d = distinct.lock().unwrap();
                            for c in &batch {
                                let t = format!("{c:?}");
                                if t.len() > 24 || t.contains("\\n") {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    t.hash(&mut h);
                                    d.insert(h.finish());
                                }
                            }
                        }
                        for c in batch {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(t) = &trace {
                                let v = json!({"property": prop, "case": c});
                                let _ = std::fs::write(t, v.to_string());
                            }
                            if known.contains(&c) {
                                continue;
                            }
                            *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
                            let r = judge::judge(&prop, &c);
                            *slot.lock().unwrap() = None;
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Err(m) = r {
                                stop.store(true, Ordering::Relaxed);
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((c, m));
                                }
                                break;
                            }
                        }
                    }
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // Watchdog: a case that does not come back is a violation.
        s.spawn(|| {
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                for slot in &slots {
                    let g = slot.lock().unwrap();
                    if let Some((t, c)) = &*g {
                        if t.elapsed() > Duration::from_secs(90) {
                            let v = json!({"property": prop, "case": c, "violation": "no answer after 90 s"});
                            std::fs::write(&replay, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                            let r = json!({"cases": done.load(Ordering::Relaxed), "violation": "no answer after 90 s", "complete": false});
                            std::fs::write(&out, r.to_string()).unwrap();
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });
    let f = found.into_inner().unwrap();
    let n = done.load(Ordering::Relaxed);
    let mut report = json!({
        "cases": n,
        "complete": exhausted.load(Ordering::Relaxed),
        "seconds": t0.elapsed().as_secs_f64(),
        "distinct_nontrivial": distinct.into_inner().unwrap().len(),
        "samples": samples.into_inner().unwrap(),
    });
    if let Some((c, m)) = f {
        let (c, m) = shrink(&prop, c, m);
        let v = json!({"property": prop, "case": c, "violation": m});
        std::fs::write(&replay, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        report["violation"] = json!(m);
        std::fs::write(&out, report.to_string()).unwrap();
        println!("{m}\n{c:?}");
        std::process::exit(1);
    }
    std::fs::write(&out, report.to_string()).unwrap();
    println!("{report}");
}
