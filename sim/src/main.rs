mod alloc;
mod cli;
mod gen;
mod geo;
mod lbfsim;
mod model;
mod opsim;
mod oracle;
mod par;
mod rng;
mod run;
mod world;

use run::*;
use serde_json::Value;

#[global_allocator]
static A: alloc::Yielding = alloc::Yielding;

fn budget(id: &str, tier: &str) -> u64 {
    let q = match id {
        "C01" => 6000,
        "C02" => 3000,
        "C03" => 6000,
        "C04" => 4000,
        "C05" => 4000,
        "C06" => 4000,
        "C07" => 6000,
        "C08" => 4000,
        "C09" => 800,
        "C10" => 2500,
        "C11" => 700,
        "C12" => 10000,
        "C13" | "C14" | "C16" => 1200,
        "C15" => 2500,
        "C17" => 10000,
        "C18" => 1000,
        _ => 100,
    };
    match tier {
        "thorough" => q * 20,
        _ => q,
    }
}

/// a panic while a run is set up (parsing, building the initial problem) is a failure as well
fn guarded(id: &str, seed: u64, f: &dyn Fn(u64) -> RunOut) -> RunOut {
    let mut out = RunOut::default();
    let r = caught(|| {
        out = f(seed);
        Ok(())
    });
    if let Err(v) = r {
        out = RunOut { viol: Some((v, serde_json::json!({"prop": id, "seed": seed, "whole": true}))), ..Default::default() };
    }
    out
}

fn runner(id: &str) -> Option<Box<dyn Fn(u64) -> RunOut + Sync + Send>> {
    let f = bare_runner(id)?;
    let i = id.to_string();
    Some(Box::new(move |s| guarded(&i, s, &*f)))
}

fn bare_runner(id: &str) -> Option<Box<dyn Fn(u64) -> RunOut + Sync + Send>> {
    let i = id.to_string();
    if opsim::prop_of(id).is_some() {
        return Some(Box::new(move |s| opsim::run(&i, s)));
    }
    if cli::handles(id) {
        return Some(Box::new(move |s| cli::run(&i, s)));
    }
    if lbfsim::handles(id) {
        return Some(Box::new(move |s| lbfsim::run(&i, s)));
    }
    if par::handles(id) {
        return Some(Box::new(move |s| par::run(&i, s)));
    }
    None
}

fn do_replay(id: &str, rep: &Value) -> Option<oracle::Viol> {
    fresh_thread(rep["seed"].as_u64().unwrap_or(0), || replay_here(id, rep))
}
fn replay_here(id: &str, rep: &Value) -> Option<oracle::Viol> {
    if rep["whole"] == true {
        return runner(id)?(rep["seed"].as_u64()?).viol.map(|x| x.0);
    }
    if opsim::prop_of(id).is_some() {
        return opsim::replay(id, rep);
    }
    if cli::handles(id) {
        return cli::replay(id, rep);
    }
    if lbfsim::handles(id) {
        return lbfsim::replay(id, rep);
    }
    if par::handles(id) {
        return par::replay(id, rep);
    }
    None
}
fn do_minimise(id: &str, v: &oracle::Viol, rep: &Value) -> Value {
    if rep["whole"] == true {
        return rep.clone();
    }
    if opsim::prop_of(id).is_some() {
        return opsim::minimise(id, v, rep);
    }
    if cli::handles(id) {
        return cli::minimise(id, v, rep);
    }
    if lbfsim::handles(id) {
        return lbfsim::minimise(id, v, rep);
    }
    if par::handles(id) {
        return par::minimise(id, v, rep);
    }
    rep.clone()
}

/// a run in words, for the evidence
pub fn describe(id: &str, seed: u64) -> Value {
    if let Some(p) = opsim::prop_of(id) {
        let ops = opsim::gen_ops(p, seed);
        return serde_json::json!({"steps": ops.iter().map(|o| format!("{:?}@{}", o.k, o.w % 3)).collect::<Vec<_>>()});
    }
    if cli::handles(id) {
        return serde_json::to_value(cli::gen_case(id, seed)).unwrap();
    }
    if lbfsim::handles(id) {
        return lbfsim::describe(id, seed);
    }
    par::describe(id, seed)
}

fn save(root: &std::path::Path, id: &str, m: &Value) -> std::path::PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:016x}.json", id, m["seed"].as_u64().unwrap_or(0)));
    std::fs::write(&p, serde_json::to_string_pretty(m).unwrap()).unwrap();
    p
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let env_n = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let seed = env_n("VERIF_SEED", 1);
    let threads = env_n("SIM_THREADS", 8) as usize;
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a[2].as_str();
            let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
            let root = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("..").canonicalize().unwrap();
            let n = env_n("SIM_RUNS", budget(id, tier));
            let cap = env_n("SIM_CAP", if tier == "thorough" { 3000 } else { 420 }) as f64;
            println!("seed={} property={} tier={} runs={}", seed, id, tier, n);
            let Some(f) = runner(id) else {
                eprintln!("no such check");
                std::process::exit(2);
            };
            let on_hang = |i: u64| {
                let rs = run_seed(seed, id, i);
                let m = serde_json::json!({"prop": id, "seed": rs, "class": "hang", "violation": "the run does not terminate"});
                println!("run {i} failed: [hang] still running after {} s", hang_s());
                let p = save(&root, id, &m);
                let mut s = Summary { runs: i, ..Default::default() };
                s.viol = Some((i, oracle::Viol { class: "hang", msg: String::new() }, m));
                let ev = root.join("evidence").join(format!("{}.json", id));
                evidence(id, tier, seed, "exploration", &s, serde_json::json!({}), ev.to_str().unwrap());
                println!("VIOLATION property={} replay={}", id, p.display());
                std::process::exit(1);
            };
            let s = search(id, seed, n, threads, cap, &*f, &on_hang);
            let ev = root.join("evidence").join(format!("{}.json", id));
            evidence(id, tier, seed, "exploration", &s, serde_json::json!({}), ev.to_str().unwrap());
            println!("runs={} steps={} states={} interleavings={} evh={:016x} wall={:.1}s", s.runs, s.steps, s.states, s.inters, s.evh, s.wall);
            if std::env::var("SIM_COV").is_ok() {
                for (k, v) in &s.cov.c {
                    println!("  {} {}", k, v);
                }
            }
            if let Some((i, v, rep)) = s.viol {
                println!("run {} failed: [{}] {}", i, v.class, v.msg);
                let mut m = do_minimise(id, &v, &rep);
                // the file must fail the same way, from scratch
                let again = do_replay(id, &m);
                if again.as_ref().map(|x| x.class) != Some(v.class) {
                    m = rep;
                }
                m["class"] = v.class.into();
                m["violation"] = do_replay(id, &m).map(|x| x.msg).unwrap_or(v.msg.clone()).into();
                let p = save(&root, id, &m);
                println!("minimised: {} steps: {}", m["ops"].as_array().map_or(0, |o| o.len()), m["violation"]);
                println!("VIOLATION property={} replay={}", id, p.display());
                std::process::exit(1);
            }
        }
        Some("replay") => {
            let m: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = m["prop"].as_str().unwrap().to_string();
            if m["class"] == "hang" {
                // no trace beyond the seed: run it again and wait
                let f = runner(&id).unwrap();
                let rs = m["seed"].as_u64().unwrap();
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || tx.send(f(rs).viol.is_some()));
                match rx.recv_timeout(std::time::Duration::from_secs(hang_s())) {
                    Ok(_) => println!("no violation"),
                    Err(_) => {
                        println!("[hang] still running after {} s", hang_s());
                        println!("VIOLATION property={} replay={}", id, a[2]);
                        std::process::exit(1);
                    }
                }
                return;
            }
            match do_replay(&id, &m) {
                Some(v) => {
                    println!("[{}] {}", v.class, v.msg);
                    println!("VIOLATION property={} replay={}", id, a[2]);
                    std::process::exit(1);
                }
                None => println!("no violation"),
            }
        }
        Some("hashes") => {
            let id = a[2].as_str();
            let n = env_n("SIM_RUNS", 200);
            let f = runner(id).unwrap();
            let s = search(id, seed, n, threads, 1e9, &*f, &|_| std::process::exit(3));
            for h in s.hashes {
                println!("{:016x}", h);
            }
        }
        _ => {
            eprintln!("usage: sim check ID TIER | replay FILE | hashes ID");
            std::process::exit(2);
        }
    }
}
