//! lsx - symbolic executor for the LLVM IR of the rust-signals harnesses.
mod exec;
mod expr;
mod ir;
mod selftest;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

struct Q {
    jobs: Vec<Job>,
    active: usize,
    stop: bool,
}

pub struct Outcome {
    pub complete: bool,
    pub reasons: BTreeMap<String, u64>,
    pub stats: Stats,
    pub viols: Vec<Witness>,
    pub samples: Vec<Witness>,
    pub covers: BTreeSet<String>,
    pub fns: BTreeSet<String>,
    pub wall: f64,
}

pub fn explore(m: &ir::Module, cfg: &Cfg, workers: usize, time: f64, max_viol: usize, counts: &(dyn Fn(&str, &str) -> bool + Sync)) -> Outcome {
    let q = Mutex::new(Q { jobs: vec![Job { model: vec![], bound: 0, expect: 0 }], active: 0, stop: false });
    let cv = Condvar::new();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(time);
    let hungry = AtomicUsize::new(0);
    let flag = Arc::new(AtomicBool::new(false));
    let viols: Mutex<Vec<Witness>> = Mutex::new(vec![]);
    let reasons: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<Witness>> = Mutex::new(vec![]);
    let agg: Mutex<(Stats, BTreeSet<String>, BTreeSet<String>)> = Mutex::new((Stats::default(), BTreeSet::new(), BTreeSet::new()));
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| {
                let mut w = Worker::new(m, cfg.clone());
                w.stop_flag = Some(flag.clone());
                loop {
                    let job = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if g.stop {
                                break None;
                            }
                            if let Some(j) = g.jobs.pop() {
                                g.active += 1;
                                break Some(j);
                            }
                            if g.active == 0 {
                                break None;
                            }
                            hungry.fetch_add(1, Ordering::Relaxed);
                            g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            hungry.fetch_sub(1, Ordering::Relaxed);
                        }
                    };
                    let job = match job {
                        Some(j) => j,
                        None => {
                            cv.notify_all();
                            break;
                        }
                    };
                    let mut res = Some(w.run(&job));
                    while let Some((stop, wit)) = res {
                        match stop {
                            Stop::Error(e) => {
                                *reasons.lock().unwrap().entry(e).or_insert(0) += 1;
                            }
                            Stop::Violation { kind, label } => {
                                if counts(&kind, &label) {
                                    let mut v = viols.lock().unwrap();
                                    if !v.iter().any(|x| x.kind == kind && x.label == label) {
                                        v.push(wit.unwrap());
                                    }
                                    if v.len() >= max_viol {
                                        q.lock().unwrap().stop = true;
                                        flag.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            _ => {}
                        }
                        if Instant::now() > deadline {
                            flag.store(true, Ordering::Relaxed);
                        }
                        if flag.load(Ordering::Relaxed) {
                            break;
                        }
                        if hungry.load(Ordering::Relaxed) > 0 {
                            let d = w.donate(false);
                            if !d.is_empty() {
                                q.lock().unwrap().jobs.extend(d);
                                cv.notify_all();
                            }
                        }
                        res = w.next();
                    }
                    let mut nj = std::mem::take(&mut w.new_jobs);
                    nj.extend(w.donate(true));
                    let mut g = q.lock().unwrap();
                    g.active -= 1;
                    g.jobs.extend(nj);
                    if Instant::now() > deadline {
                        if !g.jobs.is_empty() || g.active > 0 {
                            *reasons.lock().unwrap().entry("time budget".into()).or_insert(0) += 1;
                        }
                        g.stop = true;
                        flag.store(true, Ordering::Relaxed);
                    }
                    cv.notify_all();
                }
                let mut a = agg.lock().unwrap();
                a.0.add(&w.st);
                samples.lock().unwrap().append(&mut w.samples);
                for c in &w.covers {
                    a.1.insert(c.clone());
                }
                for (i, s) in w.fns_seen.iter().enumerate() {
                    if *s {
                        a.2.insert(m.fns[i].name.clone());
                    }
                }
                for r in &w.incomplete {
                    *reasons.lock().unwrap().entry(r.clone()).or_insert(0) += 1;
                }
            });
        }
        // watchdog: long single paths
        sc.spawn(|| loop {
            {
                let g = q.lock().unwrap();
                if g.stop || (g.jobs.is_empty() && g.active == 0) {
                    break;
                }
            }
            if Instant::now() > deadline + Duration::from_secs(2) {
                flag.store(true, Ordering::Relaxed);
            }
            std::thread::sleep(Duration::from_millis(20));
        });
    });
    let (stats, covers, fns) = agg.into_inner().unwrap();
    let viols = viols.into_inner().unwrap();
    let reasons = reasons.into_inner().unwrap();
    let stopped = q.into_inner().unwrap();
    let complete = reasons.is_empty() && stopped.jobs.is_empty() && !stopped.stop;
    let samples = samples.into_inner().unwrap();
    Outcome { complete, reasons, stats, viols, samples, covers, fns, wall: t0.elapsed().as_secs_f64() }
}

fn outcome_json(entry: &str, cfg: &Cfg, o: &Outcome) -> String {
    let s = &o.stats;
    let mut j = String::from("{");
    j += &format!("\"entry\":{},\"params\":{},\"preempt\":{},", jstr(entry), jlist(&cfg.params), cfg.preempt);
    j += &format!("\"complete\":{},\"wall_s\":{:.3},", o.complete, o.wall);
    j += &format!("\"reasons\":{{{}}},", o.reasons.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    j += &format!(
        "\"stats\":{{\"paths\":{},\"completed_paths\":{},\"pruned_paths\":{},\"instructions\":{},\"decisions\":{},\"queries\":{},\"solver_sat\":{},\"solver_unsat\":{},\"solver_unknown\":{},\"cache_hits\":{},\"implied\":{},\"solver_s\":{:.3},\"max_path_condition\":{},\"max_variables\":{},\"max_query\":{},\"scheduling_points\":{},\"max_threads\":{}}},",
        s.paths, s.done, s.pruned, s.steps, s.decisions, s.queries, s.q_sat, s.q_unsat, s.q_unknown, s.cache_hits, s.implied, s.solver_s, s.max_pc, s.max_vars, s.max_slice, s.sched_points, s.max_threads
    );
    j += &format!("\"covers\":[{}],", o.covers.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    j += &format!("\"functions\":[{}],", o.fns.iter().map(|x| jstr(&demangle(x))).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(","));
    let wit = |l: &[Witness]| -> String {
        l.iter()
            .map(|v| format!(
                "{{\"kind\":{},\"label\":{},\"values\":{},\"schedule\":{},\"stack\":[{}]}}",
                jstr(&v.kind),
                jstr(&v.label),
                jlist(&v.values),
                jlist(&v.schedule),
                v.stack.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    };
    j += &format!("\"samples\":[{}],\"violations\":[{}]}}", wit(&o.samples), wit(&o.viols));
    j
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let m = match ir::Module::load(&opt("--ir").expect("--ir")) {
                Ok(m) => m,
                Err(e) => {
                    eprintln!("cannot load IR: {}", e);
                    std::process::exit(3)
                }
            };
            let entry = opt("--entry").expect("--entry");
            let id = match m.fn_idx.get(&entry) {
                Some(i) => *i,
                None => {
                    eprintln!("no entry {}", entry);
                    std::process::exit(3)
                }
            };
            let cfg = Cfg {
                entry: id,
                params: opt("--params").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default(),
                max_steps: opt("--max-steps").map(|s| s.parse().unwrap()).unwrap_or(50_000_000),
                preempt: opt("--preempt").map(|s| s.parse().unwrap()).unwrap_or(2),
                solver_ms: opt("--solver-ms").map(|s| s.parse().unwrap()).unwrap_or(20000),
                race: opt("--race").map(|s| s != "0").unwrap_or(true),
                trace: args.iter().any(|a| a == "--trace"),
                dump: opt("--dump"),
                samples: opt("--samples").map(|s| s.parse().unwrap()).unwrap_or(0),
                seed: opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
            };
            let workers = opt("--workers").map(|s| s.parse().unwrap()).unwrap_or(8);
            let time = opt("--time").map(|s| s.parse().unwrap()).unwrap_or(60.0);
            let mv = opt("--max-viol").map(|s| s.parse().unwrap()).unwrap_or(1);
            let list = |k: &str| -> Vec<String> { opt(k).map(|s| s.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default() };
            // patterns: part of a label, or kind:NAME
            let (only, ignore) = (list("--only"), list("--ignore"));
            let hit = |l: &Vec<String>, kind: &str, label: &str| l.iter().any(|p| if let Some(k) = p.strip_prefix("kind:") { k == kind } else { kind == "assert" && label.contains(p.as_str()) });
            let counts = |kind: &str, label: &str| (only.is_empty() || hit(&only, kind, label)) && !hit(&ignore, kind, label);
            let o = explore(&m, &cfg, workers, time, mv, &counts);
            let j = outcome_json(&entry, &cfg, &o);
            match opt("--out") {
                Some(f) => std::fs::write(f, j).unwrap(),
                None => println!("{}", j),
            }
        }
        Some("selftest") => selftest::run(),
        _ => {
            eprintln!("usage: lsx run --ir FILE --entry NAME [--params a,b] [--workers N] [--time S] [--preempt N] [--out FILE]");
            std::process::exit(2);
        }
    }
}
