//! Concrete exploration of the real client against the executable oracle.
//!   replay search PROP --seed N --tier quick|thorough --out FILE [--budget-ms N]
//!   replay audit --out FILE      the assumed contracts of std, nom and base64, tried on the real ones
//!   replay run FILE      exit 1 if the stored case still fails
mod audit;
mod broad;
mod direct;
mod exec;
mod gen;
mod mock;
mod model;

use gen::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::time::{Duration, Instant};

struct Null;
impl log::Log for Null {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
    fn flush(&self) {}
}
static NULL: Null = Null;

struct Search { shard: usize, turn: usize, id: String, evals: u64, nontrivial: HashSet<u64>, found: Vec<Value>, known: Option<Value>, samples: Vec<Value>, seen: HashSet<String> }
/// The cases that run, for the watchdog.
type Running = Option<(Instant, Box<dyn Fn() -> Value + Send>)>;
const SHARDS: usize = 3;
static CURRENT: [std::sync::Mutex<Running>; SHARDS] = [const { std::sync::Mutex::new(None) }; SHARDS];
fn watch(id: String, out: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for c in &CURRENT {
            let g = c.lock().unwrap();
            if let Some((t, c)) = &*g {
                let full = memory() > 6_000_000;
                if t.elapsed() > Duration::from_secs(if full { 3 } else { 25 }) {
                    let v = json!({"property": id, "violations": [{"property": id, "what": if full { "the call does not end: it fills the memory" } else { "the call does not end (given up after 25 s)" }, "case": c()}], "evaluations": 1, "directed": 0, "directed_complete": false, "distinct_nontrivial": 1, "samples": [], "known": null, "ms": 60000, "seed": 0, "runtime": if cfg!(feature = "rt-tokio") { "tokio" } else { "async-std" }});
                    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
                    std::process::exit(0);
                }
            }
        }
    });
}
/// Resident memory in kB.
fn memory() -> u64 { std::fs::read_to_string("/proc/self/status").ok().and_then(|s| s.lines().find(|l| l.starts_with("VmRSS:")).and_then(|l| l.split_whitespace().nth(1).and_then(|w| w.parse().ok()))).unwrap_or(0) }
fn hash(s: &str) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }
impl Search {
    fn hit(&mut self, what: &str, case: Value) {
        let key: String = what.chars().take(60).collect();
        if self.found.len() < 10 && self.seen.insert(key) { self.found.push(json!({"property": self.id, "what": what, "case": case})); }
    }
    /// Whether the next case is one of this thread's.
    fn mine(&mut self) -> bool { self.turn += 1; self.turn % SHARDS == self.shard }
    fn begin(&self, v: impl Fn() -> Value + Send + 'static) { *CURRENT[self.shard].lock().unwrap() = Some((Instant::now(), Box::new(v))); }
    fn end(&self) { *CURRENT[self.shard].lock().unwrap() = None; }
    fn session(&mut self, s: &model::Scn) {
        self.evals += 1;
        { let s = s.clone(); self.begin(move || s.to_json()); }
        let (f, known, runs) = exec::check(s);
        self.end();
        let nontrivial = runs.len() > 1 || runs.iter().any(|d| !d.ev.is_empty());
        if nontrivial { self.nontrivial.insert(hash(&format!("{:?}", s))); }
        if self.samples.len() < 3 && self.evals % 101 == 7 && nontrivial { self.samples.push(json!({"case": s.to_json(), "results": runs.iter().map(|d| format!("{:?}", d.res)).collect::<Vec<_>>()})); }
        for x in f { if x.props.contains(&self.id.as_str()) { self.hit(&x.what, s.to_json()); } }
        if known && self.known.is_none() { self.known = Some(s.to_json()); }
    }
    fn direct(&mut self, v: Value) {
        self.evals += 1;
        { let v = v.clone(); self.begin(move || v.clone()); }
        let o = direct::run(&v);
        self.end();
        self.nontrivial.insert(hash(&v.to_string()));
        if self.samples.len() < 3 && self.evals % 101 == 7 { self.samples.push(v.clone()); }
        for (p, w) in o { if p.contains(&self.id.as_str()) { self.hit(&w, v.clone()); } }
    }
}
fn main() {
    log::set_logger(&NULL).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|k| a.get(k + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            let c = &v["case"];
            let mut bad = vec![];
            { let id = id.clone(); let t0 = Instant::now(); std::thread::spawn(move || loop { std::thread::sleep(Duration::from_millis(500)); if t0.elapsed() > Duration::from_secs(25) || memory() > 6_000_000 { println!("{}: the call does not end", id); std::process::exit(1); } }); }
            if c["kind"] == "session" {
                for f in exec::check(&model::Scn::from_json(c)).0 { if f.props.contains(&id.as_str()) { bad.push(f.what); } }
            } else { for (p, w) in direct::run(c) { if p.contains(&id.as_str()) { bad.push(w); } } }
            for b in &bad { println!("{}: {}", id, b); }
            std::process::exit(if bad.is_empty() { println!("{}: holds on this case", id); 0 } else { 1 });
        }
        Some("search") => {
            let id = a[2].clone();
            watch(id.clone(), opt("--out").unwrap());
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = opt("--tier").as_deref() == Some("thorough");
            let budget = Duration::from_millis(opt("--budget-ms").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 120_000 } else { 6_000 }));
            let t0 = Instant::now();
            let dict = opt("--dict");
            let hs: Vec<_> = (0..SHARDS).map(|shard| { let (id, dict) = (id.clone(), dict.clone()); std::thread::Builder::new().stack_size(64 << 20).spawn(move || explore(id, shard, seed, thorough, budget, dict)).unwrap() }).collect();
            let rs: Vec<(Search, u64, bool)> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            let (mut found, mut seen, mut all) = (vec![], HashSet::new(), HashSet::<u64>::new());
            for (s, _, _) in &rs { for x in &s.found { if seen.insert(x["what"].as_str().unwrap().chars().take(60).collect::<String>()) { found.push(x.clone()); } } all.extend(&s.nontrivial); }
            found.truncate(10);
            let out = json!({"property": id, "seed": seed, "evaluations": rs.iter().map(|r| r.0.evals).sum::<u64>(), "directed": rs.iter().map(|r| r.1).sum::<u64>(), "directed_complete": rs.iter().all(|r| r.2), "distinct_nontrivial": all.len(),
                "violations": found, "known": rs.iter().find_map(|r| r.0.known.clone()), "samples": rs[0].0.samples, "ms": t0.elapsed().as_millis() as u64, "runtime": if cfg!(feature = "rt-tokio") { "tokio" } else { "async-std" }});
            std::fs::write(opt("--out").unwrap(), serde_json::to_string(&out).unwrap()).unwrap();
        }
        Some("audit") => {
            let t0 = Instant::now();
            let r = audit::run(opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1));
            let g: Vec<Value> = r.tried.iter().map(|(n, k, how)| json!({"group": n, "cases": k, "of": how})).collect();
            let out = json!({"groups": g, "cases": r.tried.iter().map(|x| x.1).sum::<u64>(), "failed": r.failed, "ms": t0.elapsed().as_millis() as u64});
            std::fs::write(opt("--out").unwrap(), serde_json::to_string(&out).unwrap()).unwrap();
            std::process::exit(if r.failed.is_empty() { 0 } else { 1 });
        }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}

fn explore(id: String, shard: usize, seed: u64, thorough: bool, budget: Duration, dict: Option<String>) -> (Search, u64, bool) {
    let t0 = Instant::now();
    let mut s = Search { shard, turn: 0, id: id.clone(), evals: 0, nontrivial: HashSet::new(), found: vec![], known: None, samples: vec![], seen: HashSet::new() };
    // the directed cases are the same in every thread, and shared out
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash(&id) | 1);
    let limit = budget * 4;
    let mut complete = true;
    let mut session = |s: &mut Search, x: model::Scn, t: Instant| if s.mine() { if t.elapsed() < limit { s.session(&x) } else { complete = false } };
    gen::directed(&id, thorough, &mut |x| session(&mut s, x, t0));
    let d = broad::Dict::load(dict);
    let mut complete2 = true;
    let mut direct = |s: &mut Search, v: Value, t: Instant| if s.mine() { if t.elapsed() < limit { s.direct(v) } else { complete2 = false } };
    direct::directed(&id, thorough, &mut r, &mut |v| direct(&mut s, v, t0));
    let t2 = Instant::now();
    broad::calls(&id, &d, &mut |v| direct(&mut s, v, t2));
    if id == "C14" || id == "C21" { for k in ["C03", "C15", "C04", "C11", "C02"] { broad::calls(k, &d, &mut |v| direct(&mut s, v, t2)); } }
    broad::sessions(&id, &d, thorough, &mut |x| session(&mut s, x, t2));
    let t1 = Instant::now();
    let directed = s.evals;
    let max: u64 = if thorough { 3_000_000 } else { 200_000 };
    let mut n = 0;
    let mut r = Rng(r.0 ^ (shard as u64 + 1).wrapping_mul(0xD1B54A32D192ED03) | 1);
    while n < max && t1.elapsed() < budget {
        if n % 2 == 0 { if let Some(v) = direct::random(&id, &mut r) { s.direct(v); } }
        let mut x = gen::random(&mut r);
        if id == "C19" {
            // one call is given up, others follow it
            x.faults.stop = Some(1 + if r.p(1, 3) { r.n(200) } else { r.n(40) });
            let more = gen::random(&mut r);
            if !x.ops.contains(&model::Op::Starttls) { x.ops.extend(more.ops); x.server.extend(more.server); }
        }
        s.session(&x);
        n += 1;
    }
    (s, directed, complete && complete2)
}
