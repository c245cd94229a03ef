//! Runs the sub-checks of a property over generated cases, shrinks a failing
//! case on its choice tape, writes the replay and the evidence file.
#![allow(dead_code)]
use crate::src::{mix, Src};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Failure { pub sig: String, pub msg: String }
pub type R = Result<(), Failure>;

#[macro_export]
macro_rules! bad {
    ($sig:expr, $($a:tt)*) => { return Err($crate::engine::Failure { sig: $sig.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Failure { sig: $sig.to_string(), msg: format!($($a)*) }) } };
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { mix(self.0) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3); } }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = Fnv(0xcbf2_9ce4_8422_2325); t.hash(&mut h); h.finish() }

#[derive(Default)]
pub struct Ctx {
    pub tracing: bool,
    pub notes: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub keys: Vec<u64>,
    pub steps: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) { *self.labels.entry(l).or_insert(0) += 1; }
    /// this case (or this step of it) exercised the property non-trivially; `key` identifies it
    pub fn nontrivial<T: Hash>(&mut self, key: &T) { self.keys.push(hash_of(key)); }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.tracing { let s = f(); self.notes.push(s); } }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;
pub struct Sub { pub name: &'static str, pub quick: u64, pub thorough: u64, pub f: CaseFn, pub what: &'static str }
pub struct Prop { pub id: &'static str, pub subs: Vec<Sub>, pub rule: &'static str, pub assumptions: &'static [&'static str] }

thread_local! { static IN_CASE: Cell<bool> = Cell::new(false); pub static QUIET_PANIC: Cell<bool> = Cell::new(false); }

pub fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn known(prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.json", verif_dir());
    let s = match std::fs::read_to_string(&p) { Ok(s) => s, Err(_) => return vec![] };
    let v: Value = match serde_json::from_str(&s) { Ok(v) => v, Err(e) => { eprintln!("known_findings.json: {e}"); std::process::exit(2) } };
    v["known"].as_array().map(|a| a.iter()
        .filter(|e| e["property"] == prop)
        .map(|e| (e["sig"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
        .collect()).unwrap_or_default()
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Result<R, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let m = crate::chain::last_panic();
            // code under test aborted where no answer of it was being judged
            if m.contains("programs/token-bonding-curve/src/") || m.contains("/spl-math-") { Ok(Err(Failure { sig: "abort".into(), msg: format!("the code under test aborted: {m}") })) } else { Err(m) }
        }
    }
}

fn shrink(f: CaseFn, tape: Vec<u64>, sig: &str, budget: u64) -> Vec<u64> {
    let start = Instant::now();
    let mut best = tape;
    let mut n = 0u64;
    let fails = |t: &Vec<u64>, n: &mut u64| -> Option<Vec<u64>> {
        *n += 1;
        let mut s = Src::replay(t.clone());
        let mut c = Ctx::default();
        match run_case(f, &mut s, &mut c) { Ok(Err(e)) if e.sig == sig => Some(s.into_tape()), _ => None }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.clone()) < (b.len(), b.clone());
    let over = |n: u64| n > budget || start.elapsed().as_secs() > 60;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() && !over(n) {
                let mut t = best.clone();
                t.drain(i..i + size);
                match fails(&t, &mut n) { Some(t2) if better(&t2, &best) => best = t2, _ => i += size.max(1) }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // minimise words
        let mut i = 0;
        while i < best.len() && !over(n) {
            if best[i] != 0 {
                let mut t = best.clone();
                t[i] = 0;
                if let Some(t2) = fails(&t, &mut n) { if better(&t2, &best) { best = t2; i += 1; continue; } }
                // binary descent
                let (mut lo, mut hi) = (0u64, best[i]);
                while hi - lo > 1 && !over(n) {
                    let mid = lo + (hi - lo) / 2;
                    let mut t = best.clone();
                    if i >= t.len() { break; }
                    t[i] = mid;
                    match fails(&t, &mut n) { Some(t2) if better(&t2, &best) => { best = t2; hi = mid } _ => lo = mid }
                }
            }
            i += 1;
        }
        if best == before || over(n) { return best; }
    }
}

struct Found { sub: usize, idx: u64, tape: Vec<u64>, fail: Failure }

pub fn run(p: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    let known = known(p.id);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut all_keys: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64; let mut steps = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut found: Vec<Found> = vec![];
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: Vec<Value> = vec![];
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    for (si, sub) in p.subs.iter().enumerate() {
        if let Some(o) = &only { if o != sub.name { continue; } }
        let ts = Instant::now();
        // the quick tier has time for four times what each sub-check lists as its quick size
        let quick = sub.quick.max((sub.quick * 4).min(sub.thorough));
        let total = ((if tier == "thorough" { sub.thorough } else { quick }) as f64 * scale).max(1.0) as u64;
        let base = mix(seed ^ hash_of(&(p.id, sub.name)));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let fnd: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let kh: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let merged: Mutex<(HashSet<u64>, BTreeMap<&'static str, u64>, u64, u64, Vec<u64>)> = Mutex::new(Default::default());
        let beats: Vec<(AtomicU64, AtomicU64)> = (0..nthreads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..nthreads {
                let (next, stop, fnd, kh, merged, known, herr, beats) = (&next, &stop, &fnd, &kh, &merged, &known, &harness_err, &beats);
                let f = sub.f;
                let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                    let mut keys: HashSet<u64> = HashSet::new();
                    let mut labs: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let (mut ev, mut st) = (0u64, 0u64);
                    let mut first_nt: Vec<u64> = vec![];
                    'o: loop {
                        let lo = next.fetch_add(64, Ordering::Relaxed);
                        if lo >= total { break; }
                        for idx in lo..(lo + 64).min(total) {
                            if stop.load(Ordering::Relaxed) { break 'o; }
                            beats[w].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                            beats[w].0.store(idx, Ordering::Relaxed);
                            let mut src = Src::random(mix(base ^ mix(idx)));
                            let mut ctx = Ctx::default();
                            let r = run_case(f, &mut src, &mut ctx);
                            beats[w].0.store(u64::MAX, Ordering::Relaxed);
                            ev += 1; st += ctx.steps;
                            for (k, v) in ctx.labels { *labs.entry(k).or_insert(0) += v; }
                            if !ctx.keys.is_empty() && first_nt.len() < 2 { first_nt.push(idx); }
                            for k in ctx.keys { if keys.len() < 4_000_000 { keys.insert(k); } }
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) => {
                                    if known.iter().any(|k| k.0 == e.sig) {
                                        *kh.lock().unwrap().entry(e.sig).or_insert(0) += 1;
                                    } else {
                                        fnd.lock().unwrap().push(Found { sub: si, idx, tape: src.into_tape(), fail: e });
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Err(m) => {
                                    *herr.lock().unwrap() = Some(format!("harness panic in {} case {}: {}", sub.name, idx, m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.extend(keys);
                    for (k, v) in labs { *m.1.entry(k).or_insert(0) += v; }
                    m.2 += ev; m.3 += st; m.4.extend(first_nt);
                }).unwrap();
                hs.push(h);
            }
            // one case runs for microseconds to milliseconds; minutes of processor time mean it does not
            // end. That is an error of the run, not a verdict: exit 3 with the case named.
            let (done, beats) = (&done, &beats);
            let wd = sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    let now = t0.elapsed().as_millis() as u64;
                    for b in beats.iter() {
                        let i = b.0.load(Ordering::Relaxed);
                        if i != u64::MAX && now.saturating_sub(b.1.load(Ordering::Relaxed)) > 240_000 {
                            eprintln!("INCONCLUSIVE: case {} of {} {} (seed {}) has not returned within 240 s", i, p.id, sub.name, mix(base ^ mix(i)));
                            std::process::exit(3);
                        }
                    }
                }
            });
            for h in hs { h.join().unwrap(); }
            done.store(true, Ordering::Relaxed);
            let _ = wd.join();
        });
        let (k, l, e, s, mut first) = merged.into_inner().unwrap();
        let nk = k.len();
        let sid = hash_of(&sub.name);
        all_keys.extend(k.into_iter().map(|x| mix(x ^ sid)));
        for (a, b) in l { *labels.entry(format!("{}/{}", sub.name, a)).or_insert(0) += b; }
        evals += e; steps += s;
        first.sort_unstable();
        for idx in first.into_iter().take(2) {
            let mut src = Src::random(mix(base ^ mix(idx)));
            let mut ctx = Ctx { tracing: true, ..Default::default() };
            let _ = run_case(sub.f, &mut src, &mut ctx);
            let mut n = ctx.notes; n.truncate(12);
            samples.push(json!({"sub": sub.name, "index": idx, "case": n}));
        }
        for (k, v) in kh.into_inner().unwrap() { *known_hit.entry(k).or_insert(0) += v; }
        found.extend(fnd.into_inner().unwrap());
        per_sub.push(json!({"sub": sub.name, "what": sub.what, "evaluations": e, "distinct_nontrivial": nk, "steps": s, "wall_s": ts.elapsed().as_secs_f64()}));
        if let Some(m) = harness_err.lock().unwrap().clone() { eprintln!("HARNESS ERROR: {m}"); return 2; }
    }
    let mut code = 0;
    let mut nviol = 0;
    if !found.is_empty() {
        found.sort_by_key(|f| (f.sub, f.idx));
        let mut seen = HashSet::new();
        for f in found.iter() {
            if !seen.insert((f.sub, f.fail.sig.clone())) { continue; }
            if seen.len() > 3 { break; }
            nviol += 1;
            let sub = &p.subs[f.sub];
            let tape = shrink(sub.f, f.tape.clone(), &f.fail.sig, 20_000);
            let mut src = Src::replay(tape.clone());
            let mut ctx = Ctx { tracing: true, ..Default::default() };
            let r = run_case(sub.f, &mut src, &mut ctx);
            let msg = match r { Ok(Err(e)) => e.msg, _ => f.fail.msg.clone() };
            println!("FAILED {} [{}] {}", sub.name, f.fail.sig, msg);
            for n in ctx.notes.iter().take(60) { println!("    {n}"); }
            let path = write_replay(p.id, sub.name, json!({"property": p.id, "sub": sub.name, "sig": f.fail.sig, "failure": msg, "case": ctx.notes, "tape": tape}));
            println!("VIOLATION property={} replay={}", p.id, path);
        }
        code = 1;
    }
    for (sig, what) in &known {
        let n = known_hit.get(sig).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} [{}; met in {} generated cases]", p.id, what, sig, n);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": all_keys.len() as u64, "rule": p.rule, "samples": samples,
            "steps": steps, "labels": labels, "sub_checks": per_sub, "known_findings_met": known_hit},
        "violations": nviol, "assumptions": p.assumptions, "wall_s": wall});
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&ev).unwrap()).is_err() { eprintln!("cannot write evidence"); return 2; }
    println!("{} {}: {} cases, {} steps, {} distinct non-trivial, {:.1} s, seed {}", p.id, tier, evals, steps, all_keys.len(), wall, seed);
    code
}

fn write_replay(id: &str, sub: &str, v: Value) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let s = serde_json::to_string_pretty(&v).unwrap();
    let path = format!("{}/{}-{}-{:08x}.json", dir, id, sub, hash_of(&s) as u32);
    let _ = std::fs::write(&path, s);
    path
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let p = props.iter().find(|p| v["property"] == p.id).expect("property");
    let s = p.subs.iter().find(|s| v["sub"] == s.name).expect("sub-check");
    let mut src = match v["tape"].as_array() {
        Some(t) => Src::replay(t.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Src::random(v["case_seed"].as_u64().unwrap()),
    };
    let mut ctx = Ctx { tracing: true, ..Default::default() };
    let r = run_case(s.f, &mut src, &mut ctx);
    for n in &ctx.notes { println!("    {n}"); }
    match r {
        Ok(Ok(())) => { println!("replay of {path}: the property holds on this case"); 0 }
        Ok(Err(e)) => { println!("FAILED {} [{}] {}", s.name, e.sig, e.msg); println!("VIOLATION property={} replay={}", p.id, path); 1 }
        Err(m) => { eprintln!("HARNESS ERROR: {m}"); 2 }
    }
}
