//! Runner: fixed list of seeds over all cores, results folded in index order.
use crate::oracle::{Cov, Viol};
use crate::rng::mix;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct RunOut {
    pub viol: Option<(Viol, Value)>,
    pub cov: Cov,
    pub states: Vec<u64>,
    /// hash of the schedule (who did what in which order)
    pub inter: u64,
    /// hash of the event log, for determinism proofs
    pub evh: u64,
    pub steps: u64,
    pub sim_ns: u64,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SIM_PANICS").is_ok() {
            eprintln!("panic: {m} at {l}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m.chars().take(300).collect::<String>(), l));
    }));
}

/// a panic inside the system is a violation of whatever is being judged
pub fn caught<T>(f: impl FnOnce() -> Result<T, Viol>) -> Result<T, Viol> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Viol { class: "panic", msg: format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())) }),
    }
}

#[derive(Default)]
pub struct Summary {
    pub runs: u64,
    pub cov: Cov,
    pub states: usize,
    pub inters: usize,
    pub evh: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub viol: Option<(u64, Viol, Value)>,
    pub wall: f64,
    pub hashes: Vec<u64>,
}

/// seconds after which a single run counts as never ending
pub fn hang_s() -> u64 {
    std::env::var("SIM_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(240)
}

/// Every run gets a thread of its own: nothing thread-local (hash seeds...) survives from one run
/// to the next, and the entropy it sees is the seed's.
pub fn fresh_thread<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                simsched::set_entropy(mix(seed, 77));
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

pub fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    mix(mix(base, crate::world::hash_str(id)), i)
}

pub fn search(id: &str, base: u64, n: u64, threads: usize, cap_s: f64, f: &(dyn Fn(u64) -> RunOut + Sync), on_hang: &(dyn Fn(u64) + Sync)) -> Summary {
    let t0 = std::time::Instant::now();
    let next = AtomicUsize::new(0);
    let first_bad = AtomicU64::new(u64::MAX);
    let res: Mutex<Vec<(u64, RunOut)>> = Mutex::new(vec![]);
    let busy: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        // a run that never ends is a failure too: everything simulated takes well under a minute
        s.spawn(|| {
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(std::time::Duration::from_millis(if t0.elapsed().as_secs() < 2 { 5 } else { 100 }));
                let now = t0.elapsed().as_secs();
                for b in &busy {
                    let v = b.load(Ordering::SeqCst);
                    if v != 0 && now > (v >> 32) + hang_s() {
                        on_hang((v & 0xffff_ffff) - 1);
                    }
                }
            }
        });
        for t in 0..threads {
            let (busy, done, next, first_bad, res) = (&busy, &done, &next, &first_bad, &res);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    struct D<'a>(&'a AtomicUsize);
                    impl Drop for D<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                    let _d = D(done);
                    loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as u64;
                    if i >= n || i > first_bad.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > cap_s {
                        break;
                    }
                    busy[t].store(t0.elapsed().as_secs() << 32 | (i + 1), Ordering::SeqCst);
                    let rs = run_seed(base, id, i);
                    let o = fresh_thread(rs, || f(rs));
                    busy[t].store(0, Ordering::SeqCst);
                    if o.viol.is_some() {
                        first_bad.fetch_min(i, Ordering::SeqCst);
                    }
                    res.lock().unwrap().push((i, o));
                    }
                })
                .unwrap();
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let fb = first_bad.load(Ordering::SeqCst);
    let mut s = Summary {
        runs: 0,
        cov: Cov::default(),
        states: 0,
        inters: 0,
        evh: 0,
        steps: 0,
        sim_ns: 0,
        viol: None,
        wall: 0.0,
        hashes: vec![],
    };
    let mut st = BTreeSet::new();
    let mut it = BTreeSet::new();
    for (i, o) in v {
        if i > fb {
            break;
        }
        s.runs += 1;
        s.cov.merge(&o.cov);
        st.extend(o.states);
        it.insert(o.inter);
        s.evh = mix(s.evh, o.evh);
        s.hashes.push(o.evh);
        s.steps += o.steps;
        s.sim_ns += o.sim_ns;
        if i == fb {
            if let Some((v, r)) = o.viol {
                s.viol = Some((i, v, r));
            }
        }
    }
    s.states = st.len();
    s.inters = it.len();
    s.wall = t0.elapsed().as_secs_f64();
    s
}

const R_OPS: &str = "one evaluation = one simulated run (one seed): a generated instance and engine tuning and a history of 8 to 70 steps by 1 to 3 workers. distinct_nontrivial counts pairwise different schedules (hash of the sequence of step kinds and workers); distinct_states counts different contents (container, items, transformations, pending removals)";
const R_CLI: &str = "one evaluation = one simulated case: a generated instance and configuration, an undisturbed run of the program and one or more disturbed ones. distinct_nontrivial counts pairwise different system-call histories (hash over the sequence of intercepted calls, clock readings and exit codes); distinct_states counts the same per case";
const R_PAR: &str = "one evaluation = one case under one or more thread schedules. distinct_nontrivial counts pairwise different schedules (hash over all hand-overs of the baton); distinct_states counts different results";
const R_LBF: &str = "one evaluation = one optimiser history (1 to 8 phases) with its random streams. distinct_nontrivial counts pairwise different histories (phase kinds and number of samples or draws); distinct_states counts different results";

fn about(id: &str) -> (&'static str, Vec<&'static str>) {
    match id {
        "C09" | "C10" => (R_PAR, vec!["threads switch at basic blocks of jagua-rs and lbf, allocations, lock waits, thread starts and ends; memory is sequentially consistent"]),
        "C11" | "C13" | "C14" | "C16" | "C18" => (R_CLI, vec!["the program reaches disk, clocks and entropy through libc", "rayon-core is replaced by a seeded stand-in with the same interface"]),
        "C12" | "C17" => (R_LBF, vec!["overlaps and gaps within the rounding band of single precision are not judged"]),
        _ => (R_OPS, vec!["distances within the rounding band of single precision are not judged"]),
    }
}

/// which parts of the system ran for real and which were replaced
pub fn components(id: &str) -> Value {
    match id {
        "C09" | "C10" => json!({"real": ["jagua-rs library", "lbf optimiser", "rayon's iterators"], "stub": ["rayon-core (splitting, stealing and pool size decided by the seed)", "thread scheduler (one runnable thread, switches decided by the seed)"]}),
        "C11" | "C13" | "C14" | "C16" | "C18" => json!({"real": ["lbf binary from /repo/lbf/src/main.rs with all its libraries", "kernel file system in a scratch directory"], "stub": ["libc file, clock and entropy calls (fault-injecting preload)", "rayon-core (seeded)"]}),
        "C12" | "C17" => json!({"real": ["jagua-rs library", "lbf optimiser", "lbf binary (C12, one run in 25)"], "stub": ["random streams", "rayon-core (seeded)"]}),
        _ => json!({"real": ["jagua-rs library", "lbf placement search"], "stub": ["disk (in memory, torn and lost writes)", "worker scheduling (seeded, one step at a time)", "rayon-core (seeded)"]}),
    }
}

pub fn evidence(id: &str, tier: &str, seed: u64, level: &str, s: &Summary, extra: Value, path: &str) {
    let faults: serde_json::Map<String, Value> =
        s.cov.c.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), json!(v))).collect();
    let probes: serde_json::Map<String, Value> =
        s.cov.c.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), json!(v))).collect();
    let (rule, assumptions) = (about(id).0, about(id).1);
    let samples: Vec<Value> = (0..2.min(s.runs.max(1))).map(|i| json!({"seed": run_seed(seed, id, i), "run": crate::describe(id, run_seed(seed, id, i))})).collect();
    let mut cov = json!({
        "evaluations": s.runs,
        "distinct_nontrivial": s.inters,
        "rule": rule,
        "samples": samples,
        "distinct_states": s.states,
        "steps": s.steps,
        "runs_per_hour": if s.wall > 0.0 { (s.runs as f64 / s.wall * 3600.0) as u64 } else { 0 },
        "simulated_seconds": s.sim_ns as f64 / 1e9,
        "faults_injected": faults,
        "probes": probes,
        "components": components(id),
        "event_log_hash": format!("{:016x}", s.evh),
    });
    if let (Value::Object(c), Value::Object(e)) = (&mut cov, extra) {
        c.extend(e);
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": s.wall,
        "violations": if s.viol.is_some() { 1 } else { 0 },
        "assumptions": assumptions,
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
}
