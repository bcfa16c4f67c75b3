//! Runs the contracts of one property and writes a machine-readable report.
use crate::contract::*;
use crate::engine::engine;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A check by execution of the real code over a stated finite (or sampled) space.
pub struct Exec {
    pub cases: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub seen: std::collections::HashSet<u64>,
}
impl Exec {
    /// Run one case; `f` returns Err(description) on violation. Panics are violations.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if *o != desc() {
                return;
            }
        }
        self.cases += 1;
        if self.failures.len() >= 5 {
            return;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let d = desc();
        use std::hash::{Hash, Hasher};
        let mut h = rustc_hash::FxHasher::default();
        d.hash(&mut h);
        if self.seen.insert(h.finish()) {
            self.distinct += 1;
            if self.distinct.count_ones() == 1 && self.samples.len() < 8 {
                self.samples.push(d.chars().take(400).collect());
            }
        }
        let e = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                if let Some(s) = p.downcast_ref::<&str>() {
                    format!("panic: {}", s)
                } else if let Some(s) = p.downcast_ref::<String>() {
                    format!("panic: {}", s)
                } else {
                    "panic".into()
                }
            }
        };
        self.failures.push(Failure { obligation: d, detail: e, inputs: BTreeMap::new(), witness: true });
    }
}
pub struct Bounded {
    pub name: String,
    pub functions: Vec<String>,
    pub bound: String,
    pub run: Box<dyn Fn(&mut Exec) + Send + Sync>,
}
/// A stand-in by execution.
pub fn bounded(name: &str, functions: &[&str], bound: &str, run: impl Fn(&mut Exec) + Send + Sync + 'static) -> Item {
    Item::B(Bounded { name: name.into(), functions: functions.iter().map(|s| s.to_string()).collect(), bound: bound.into(), run: Box::new(run) })
}

pub enum Item {
    C(Box<dyn Contract>),
    B(Bounded),
}
impl Item {
    pub fn name(&self) -> String {
        match self {
            Item::C(c) => c.name(),
            Item::B(b) => b.name.to_string(),
        }
    }
}

fn outcome_json(o: &Outcome) -> Value {
    let e = engine();
    json!({
        "kind": "contract", "name": o.name, "functions": o.functions, "bound": o.bound, "paths": o.paths, "aborted": o.aborted,
        "obligations": o.obligations, "executions": o.executions, "rejected": o.rejected, "seconds": o.seconds,
        "incomplete": o.incomplete,
        "failures": o.failures.iter().map(|f| failure_json(&o.name, f)).collect::<Vec<_>>(),
        "unknown": o.unknown.iter().map(|f| failure_json(&o.name, f)).collect::<Vec<_>>(),
        "exec_failures": o.exec_failures.iter().map(|f| failure_json(&o.name, f)).collect::<Vec<_>>(),
        "solver": {"queries": e.stats.queries, "unknown": e.stats.unknown, "seconds": e.stats.seconds, "nf_seconds": e.nf_seconds},
    })
}

fn run_one(item: &Item, seed: u64, thorough: bool) -> Value {
    match item {
        Item::C(c) => {
            if std::env::var("SYM_Z3_MS").is_err() && thorough {
                engine().z3_ms = 20000;
            }
            let mut o = prove(&**c);
            // replay every refuted obligation on the real code with machine floats
            let fails: Vec<Failure> = o.failures.iter().chain(o.unknown.iter()).cloned().collect();
            let mut confirmed = vec![];
            for f in fails.iter().take(8) {
                if f.witness {
                    let mut r = Outcome::default();
                    execute(&**c, seed, 1, Some(f.inputs.clone()), &mut r, Some(1e-6));
                    confirmed.extend(r.exec_failures);
                }
                if !confirmed.is_empty() {
                    break;
                }
            }
            if confirmed.is_empty() && !fails.is_empty() {
                let mut r = Outcome::default();
                execute(&**c, seed, 2000, None, &mut r, Some(1e-6));
                confirmed.extend(r.exec_failures);
            }
            let n = c.samples() * if thorough { 8 } else { 1 };
            execute(&**c, seed, n, None, &mut o, None);
            let mut j = outcome_json(&o);
            j["confirmed"] = json!(confirmed.iter().map(|f| failure_json(&o.name, f)).collect::<Vec<_>>());
            j
        }
        Item::B(b) => {
            let t0 = Instant::now();
            let mut e = Exec { cases: 0, distinct: 0, samples: vec![], failures: vec![], seed, thorough, only: std::env::var("EXEC_ONLY").ok(), seen: Default::default() };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (b.run)(&mut e)));
            if r.is_err() {
                e.failures.push(Failure { obligation: "driver".into(), detail: "the code under test panicked outside a case".into(), inputs: Default::default(), witness: true });
            }
            json!({"kind": "bounded", "name": b.name, "functions": b.functions, "bound": b.bound, "cases": e.cases, "distinct": e.distinct,
                   "samples": e.samples, "seconds": t0.elapsed().as_secs_f64(),
                   "failures": e.failures.iter().map(|f| failure_json(&b.name, f)).collect::<Vec<_>>()})
        }
    }
}

pub fn main(items: Vec<Item>) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    if std::env::var("SYM_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(k) = get("--one") {
        let k: usize = k.parse().unwrap();
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run_one(&items[k], seed, thorough)).unwrap();
        let v = h.join().unwrap();
        println!("@@{}", v);
        return;
    }
    if let Some(k) = get("--sample") {
        // no answer from the proof: search for a failing input by execution
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let mut r = Outcome::default();
            if let Item::C(c) = &items[k.parse::<usize>().unwrap()] {
                execute(&**c, seed, 2000, None, &mut r, Some(1e-6));
                return r.exec_failures.iter().map(|f| failure_json(&c.name(), f)).collect::<Vec<_>>();
            }
            vec![]
        }).unwrap();
        println!("@@{}", json!(h.join().unwrap()));
        return;
    }
    if let Some(name) = get("--list") {
        for (i, it) in items.iter().enumerate() {
            println!("{} {} {}", i, it.name(), name);
        }
        return;
    }
    if let Some(f) = get("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let name = v["contract"].as_str().unwrap();
        for it in &items {
            if it.name() != name {
                continue;
            }
            match it {
                Item::C(c) => {
                    let m: BTreeMap<String, f64> = v["inputs"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_f64().unwrap_or(f64::NAN))).collect();
                    let mut r = Outcome::default();
                    execute(&**c, seed, 1, Some(m), &mut r, Some(1e-6));
                    println!("executions {} rejected {}", r.executions, r.rejected);
                    for f in &r.exec_failures {
                        println!("FAILS {} : {} at {:?}", f.obligation, f.detail, f.inputs);
                    }
                    std::process::exit(if r.exec_failures.is_empty() { 0 } else { 1 });
                }
                Item::B(b) => {
                    let mut e = Exec { cases: 0, distinct: 0, samples: vec![], failures: vec![], seed, thorough, only: Some(v["obligation"].as_str().unwrap().to_string()), seen: Default::default() };
                    (b.run)(&mut e);
                    println!("cases {}", e.cases);
                    for f in &e.failures {
                        println!("FAILS {} : {}", f.obligation, f.detail);
                    }
                    std::process::exit(if e.failures.is_empty() { 0 } else { 1 });
                }
            }
        }
        println!("no such contract");
        std::process::exit(2);
    }
    let filter = get("--only");
    let jobs: usize = get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit = Duration::from_secs(get("--limit").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 }));
    let out = get("--out");
    let exe = std::env::current_exe().unwrap();
    let idx: Vec<usize> = (0..items.len()).filter(|i| filter.as_ref().map_or(true, |f| items[*i].name().contains(f.as_str()))).collect();
    let queue = std::sync::Mutex::new(idx.clone().into_iter());
    let results = std::sync::Mutex::new(Vec::<(usize, Value)>::new());
    // once a failing input is known, the rest gets little time; the whole pass has a deadline
    let begin = Instant::now();
    let total = Duration::from_secs(get("--total").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 20000 } else { 400 }));
    let found = std::sync::Mutex::new(Option::<Instant>::None);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let k = match queue.lock().unwrap().next() {
                    Some(k) => k,
                    None => break,
                };
                let t0 = Instant::now();
                if found.lock().unwrap().map_or(false, |t| t.elapsed() > Duration::from_secs(20)) {
                    results.lock().unwrap().push((k, json!({"kind": "skipped", "name": items[k].name()})));
                    continue;
                }
                let mut ch = Command::new(&exe).args(["--one", &k.to_string()]).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
                let mut so = ch.stdout.take().unwrap();
                let mut se = ch.stderr.take().unwrap();
                let h = std::thread::spawn(move || {
                    let mut b = String::new();
                    let _ = so.read_to_string(&mut b);
                    b
                });
                let h2 = std::thread::spawn(move || {
                    let mut b = vec![];
                    let _ = se.read_to_end(&mut b);
                    String::from_utf8_lossy(&b).to_string()
                });
                let mut timed_out = false;
                let status = loop {
                    match ch.try_wait().unwrap() {
                        Some(st) => break Some(st),
                        None => {
                            let late = found.lock().unwrap().map_or(false, |t| t.elapsed() > Duration::from_secs(30));
                            if late || t0.elapsed() > limit || begin.elapsed() > total {
                                let _ = ch.kill();
                                let _ = ch.wait();
                                timed_out = true;
                                break None;
                            }
                            std::thread::sleep(Duration::from_millis(5));
                        }
                    }
                };
                let txt = h.join().unwrap();
                let err = h2.join().unwrap();
                let v = txt.lines().rev().find_map(|l| l.strip_prefix("@@")).and_then(|l| serde_json::from_str::<Value>(l).ok());
                let sampled = match (&v, found.lock().unwrap().is_some(), &items[k]) {
                    (None, false, Item::C(_)) => {
                        let o = Command::new("timeout").arg("40").arg(&exe).args(["--sample", &k.to_string()]).output().unwrap();
                        let o = String::from_utf8_lossy(&o.stdout).to_string();
                        o.lines().rev().find_map(|l| l.strip_prefix("@@").and_then(|l| serde_json::from_str::<Value>(l).ok())).unwrap_or(json!([]))
                    }
                    _ => json!([]),
                };
                let v = v.unwrap_or_else(|| json!({"kind": "crash", "confirmed": sampled, "interrupted": found.lock().unwrap().is_some(), "name": items[k].name(), "timed_out": timed_out, "status": format!("{:?}", status), "seconds": t0.elapsed().as_secs_f64(), "stderr": err.chars().rev().take(2000).collect::<String>().chars().rev().collect::<String>()}));
                let some = |f: &str| v[f].as_array().map_or(false, |a| !a.is_empty());
                if some("confirmed") || v["kind"] == "bounded" && some("failures") {
                    found.lock().unwrap().get_or_insert(Instant::now());
                }
                results.lock().unwrap().push((k, v));
            });
        }
    });
    let mut r = results.into_inner().unwrap();
    r.sort_by_key(|x| x.0);
    let r: Vec<Value> = r.into_iter().map(|x| x.1).collect();
    let js = serde_json::to_string_pretty(&r).unwrap();
    match out {
        Some(p) => std::fs::write(p, js).unwrap(),
        None => {
            for v in &r {
                summary(v);
            }
        }
    }
}

fn summary(v: &Value) {
    let kind = v["kind"].as_str().unwrap_or("");
    if kind == "contract" {
        let mut t = [0u64; 4];
        for (_, a) in v["obligations"].as_object().unwrap() {
            for i in 0..4 {
                t[i] += a[i].as_u64().unwrap();
            }
        }
        println!(
            "{:60} paths {} aborted {} obl {} nf {} smt {} FAILED {} exec {} (rej {}) {:.2}s z3 {}/{:.1}s {}",
            v["name"].as_str().unwrap(),
            v["paths"],
            v["aborted"],
            t[0],
            t[1],
            t[2],
            t[3],
            v["executions"],
            v["rejected"],
            v["seconds"].as_f64().unwrap(),
            v["solver"]["queries"],
            v["solver"]["seconds"].as_f64().unwrap(),
            v["incomplete"]
        );
    } else {
        println!("{:60} {} cases {} distinct {} {:?}s {}", v["name"].as_str().unwrap(), kind, v["cases"], v["distinct"], v["seconds"], v["stderr"]);
    }
    for k in ["failures", "unknown", "confirmed", "exec_failures"] {
        if let Some(a) = v[k].as_array() {
            for f in a.iter().take(3) {
                println!("    {} {} | {} | {}", k, f["obligation"], f["detail"], f["inputs"]);
            }
        }
    }
}
