//! The shipped command line program as one simulated node: the real binary (rayon replaced by the
//! seeded stand-in) behind the LD_PRELOAD seam, which owns its disk, clocks and entropy.
//! Judges C11, C13, C14, C16, C18.
use crate::gen::{self, Kind, Profile, Scenario};
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::run::{caught, RunOut};
use crate::world::hash_str;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::fsize;
use jagua_rs::io::json_instance::JsonShape;
use jagua_rs::io::parser::compose_json_solution;
use lbf::io::json_output::JsonOutput;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn handles(id: &str) -> bool {
    matches!(id, "C11" | "C13" | "C14" | "C16" | "C18")
}

/// environment and faults of one process run
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Env {
    /// "cls:nth:what" entries for the seam
    pub plan: Vec<String>,
    pub short_r: u32,
    pub short_w: u32,
    pub seed: u64,
    pub mono0: u64,
    pub wall0: u64,
    pub adv_clk: u64,
    pub adv_io: u64,
    pub sched: u64,
    pub threads: u32,
    pub level: String,
    /// extra environment variables
    pub vars: Vec<(String, String)>,
    /// relative paths, with the scratch directory as working directory
    pub relative: bool,
    /// the solution folder: 0 fresh one, 1 existing, 2 nested and missing, 3 the input's own folder
    pub folder: u8,
    /// name of the instance file
    #[serde(default)]
    pub file: String,
    /// processors the system reports (0: the real number)
    #[serde(default)]
    pub cpus: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub seed: u64,
    /// runs of the program one after the other on the same disk
    pub runs: Vec<Env>,
    /// damage done to the stored input: (file 0 config / 1 instance, kind, position)
    pub damage: Option<(u8, u8, u64)>,
    /// content left in the output files by earlier, unrelated runs
    pub stale: u32,
}

pub struct Outcome {
    pub code: i32,
    pub hang: bool,
    pub stdout: String,
    pub stderr: String,
    pub log: String,
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn umask(m: u32) -> u32;
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("jsim-{:07}-{:07}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn bins() -> (PathBuf, PathBuf) {
    let e = std::env::current_exe().expect("own path");
    let d = e.parent().unwrap();
    (d.join("lbf-sut"), d.join("shim.so"))
}

impl Env {
    fn out_dir(&self, root: &Path) -> PathBuf {
        match self.folder {
            3 => root.join("in"),
            2 => root.join("out/a/b"),
            _ => root.join("out"),
        }
    }
}

pub fn exec(root: &Path, e: &Env, n: usize) -> Outcome {
    use std::os::unix::process::CommandExt;
    use std::process::{Command, Stdio};
    let (sut, shim) = bins();
    let log = root.join(format!("log{n}"));
    let (so, se) = (root.join(format!("stdout{n}")), root.join(format!("stderr{n}")));
    let rel = |p: PathBuf| if e.relative { p.strip_prefix(root).unwrap().to_path_buf() } else { p };
    let mut c = Command::new(sut);
    c.env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("LD_PRELOAD", shim)
        .env("SIM_ROOT", root)
        .env("SIM_LOG", &log)
        .env("SIM_SEED", e.seed.to_string())
        .env("SIM_CLOCK", format!("{},{},{},{}", e.mono0, e.wall0, e.adv_clk, e.adv_io))
        .env("SIM_SHORT", format!("{},{}", e.short_r, e.short_w))
        .env("SIM_PLAN", e.plan.join(";"))
        .env("SIM_CPUS", e.cpus.to_string())
        .env("RAYON_SIM_SEED", e.sched.to_string())
        .env("RAYON_SIM_THREADS", e.threads.to_string())
        .envs(e.vars.iter().map(|(a, b)| (a, b)))
        .current_dir(root)
        .arg("-i")
        .arg(rel(root.join("in").join(&e.file)))
        .arg("-c")
        .arg(rel(root.join("in/conf.json")))
        .arg("-s")
        .arg(rel(e.out_dir(root)))
        .arg("-l")
        .arg(&e.level)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).unwrap())
        .stderr(std::fs::File::create(&se).unwrap());
    unsafe {
        c.pre_exec(|| {
            personality(0x0040000); // no address space randomisation
            umask(0o022);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("cannot start the program under test");
    let t0 = std::time::Instant::now();
    let mut hang = false;
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t0.elapsed().as_secs() > 150 {
            hang = true;
            let _ = ch.kill();
            break ch.wait().expect("wait");
        }
        std::thread::sleep(std::time::Duration::from_micros(500));
    };
    use std::os::unix::process::ExitStatusExt;
    let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Outcome { code: st.code().unwrap_or(-st.signal().unwrap_or(1)), hang, stdout: rd(&so), stderr: rd(&se), log: rd(&log) }
}

pub fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    fn walk(d: &Path, pre: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().map_or(false, |t| t.is_dir()) {
                walk(&e.path(), &format!("{n}/"), m);
            } else {
                m.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    walk(d, "", &mut m);
    m
}

/// output files of a run (the input folder may double as solution folder)
/// under names that do not depend on the name of the instance
pub fn outputs(d: &Path, file: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = files(d);
    m.remove(file);
    m.remove("conf.json");
    let own = format!("sol_{}", stem(file));
    m.into_iter()
        .map(|(k, v)| match k.strip_prefix(&own) {
            Some(t) => (format!("sol_inst{t}"), v),
            None => (format!("?{k}"), v),
        })
        .collect()
}

fn stem(file: &str) -> &str {
    Path::new(file).file_stem().unwrap().to_str().unwrap()
}

const FILES: &[&str] = &["inst.v2.json", "inst final.json", "x.json.json", "größe.json", "inst", "INST.TXT", "0.json", "sol_inst.json", "a_1.json"];

const RT: &[u8] = b"\"RunTimeSec\":";

/// the reported run time, and the text with it blanked
pub fn split_runtime(b: &[u8]) -> (Option<u64>, Vec<u8>) {
    if let Some(i) = b.windows(RT.len()).rposition(|w| w == RT) {
        let s = i + RT.len();
        let mut k = s;
        while k < b.len() && b[k] == b' ' {
            k += 1;
        }
        let mut e = k;
        while e < b.len() && b[e].is_ascii_digit() {
            e += 1;
        }
        let v = std::str::from_utf8(&b[k..e]).ok().and_then(|t| t.parse().ok());
        let mut o = b[..k].to_vec();
        o.push(b'#');
        o.extend_from_slice(&b[e..]);
        return (v, o);
    }
    (None, b.to_vec())
}

fn norm(m: &BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<u8>> {
    m.iter().map(|(k, v)| (k.clone(), if k.ends_with(".json") { split_runtime(v).1 } else { v.clone() })).collect()
}

fn diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{k} is missing")),
            Some(w) if w != v => {
                let i = v.iter().zip(w).position(|(x, y)| x != y).unwrap_or(v.len().min(w.len()));
                return Some(format!("{k} differs at byte {i} (lengths {} and {})", v.len(), w.len()));
            }
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("unexpected file {k}"))
}

pub struct Setup {
    pub sc: Scenario,
    pub cfg: LBFConfig,
    pub inst_text: String,
    pub cfg_text: String,
    pub file: String,
}

pub fn setup(seed: u64) -> Setup {
    let mut r = Rng::new(mix(seed, 21));
    let pr = Profile {
        kind: Kind::Any,
        must_fit: true,
        allow_no_hpg: false,
        max_types: *r.pick(&[1, 3, 6]),
        max_demand: *r.pick(&[1, 3, 5]),
        wide: r.chance(0.06),
        ..Default::default()
    };
    let mut sc = gen::gen(&mut r, &pr);
    sc.center = true;
    for i in sc.json.items.iter_mut() {
        // the drawing knows qualities 0..9 only
        i.base_quality = i.base_quality.map(|q| q.min(9));
    }
    let many = sc.json.bins.is_some() && r.chance(0.06);
    if many {
        // more layouts than fit one digit
        let (w, h) = (r.range(50.0, 200.0), r.range(50.0, 200.0));
        let bins = sc.json.bins.as_mut().unwrap();
        bins.truncate(1);
        bins[0].shape = JsonShape::Rectangle { width: w as fsize, height: h as fsize };
        bins[0].zones.clear();
        bins[0].stock = if r.chance(0.5) { None } else { Some(40) };
        let it = &mut sc.json.items[0];
        it.shape = JsonShape::Rectangle { width: (0.6 * w) as fsize, height: (0.6 * h) as fsize };
        it.allowed_orientations = Some(vec![0.0, 180.0]);
        it.demand = 9 + r.below(18) as u64;
    }
    let cfg = LBFConfig {
        cde_config: sc.cde,
        poly_simpl_tolerance: sc.simpl,
        prng_seed: Some(match r.below(24) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 + r.u64() % 3,
            _ => r.u64() >> 12,
        }),
        n_samples: if many { 150 } else { *r.pick(&[5, 20, 60, 150]) },
        ls_frac: *r.pick(&[0.0, 0.2, 0.5]),
        svg_draw_options: Default::default(),
    };
    let mut cv = serde_json::to_value(cfg).unwrap();
    if r.chance(0.5) {
        cv.as_object_mut().unwrap().remove("svg_draw_options");
    } else {
        let o = &mut cv["svg_draw_options"];
        o["quadtree"] = r.chance(0.3).into();
        o["haz_prox_grid"] = r.chance(0.3).into();
        o["surrogate"] = r.chance(0.3).into();
    }
    let txt = |r: &mut Rng, v: &Value| {
        let mut t = if r.chance(0.5) { serde_json::to_string(v).unwrap() } else { serde_json::to_string_pretty(v).unwrap() };
        for _ in 0..r.below(3) {
            t.push('\n');
        }
        t
    };
    let cfg_text = txt(&mut r, &cv);
    let inst_text = txt(&mut r, &serde_json::to_value(&sc.json).unwrap());
    // what the program will see is what is in the files
    sc.json = serde_json::from_str(&inst_text).unwrap();
    let cfg = serde_json::from_str(&cfg_text).unwrap();
    let file = if r.chance(0.6) { "inst.json" } else { *r.pick(FILES) }.to_string();
    Setup { sc, cfg, inst_text, cfg_text, file }
}

pub fn plain() -> Env {
    Env { threads: 4, level: "off".into(), file: "inst.json".into(), cpus: 4, mono0: 5_000_000_000, wall0: 1_700_000_000_000_000_000, ..Default::default() }
}

fn world(r: &mut Rng, e: &mut Env) {
    e.seed = r.u64();
    e.sched = r.u64();
    e.threads = *r.pick(&[1, 2, 4, 8, 64]);
    e.level = r.pick(&["off", "error", "warn", "info", "debug", "trace"]).to_string();
    if e.level == "trace" && r.chance(0.7) {
        e.level = "info".into();
    }
    e.mono0 = *r.pick(&[0u64, 1, 5_000_000_000, 86_400_000_000_000 * 400]) + r.u64() % 1_000_000_000;
    e.wall0 = *r.pick(&[0u64, 1_000_000_000, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000]);
    e.adv_clk = *r.pick(&[0u64, 0, 1_000, 2_000_000_000]);
    e.adv_io = *r.pick(&[0u64, 1_000, 3_000_000_000, 7_200_000_000_000]);
    e.relative = r.chance(0.3);
    e.cpus = *r.pick(&[1, 2, 4, 16, 128]);
    for (k, vs) in [
        ("TZ", &["UTC", "Asia/Kolkata", ":/nonexistent"][..]),
        ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"][..]),
        ("RUST_LOG", &["trace", "off"][..]),
        ("RUST_BACKTRACE", &["1", "full"][..]),
        ("RAYON_NUM_THREADS", &["1", "7"][..]),
        ("HOME", &["/nonexistent", "/"][..]),
        ("PAD", &["x", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"][..]),
    ] {
        if r.chance(0.25) {
            e.vars.push((k.into(), r.pick(vs).to_string()));
        }
    }
}

const EINTR: u32 = 4;
const EIO: u32 = 5;
const EACCES: u32 = 13;
const EEXIST: u32 = 17;
const EMFILE: u32 = 24;
const EFBIG: u32 = 27;
const ENOSPC: u32 = 28;
const EROFS: u32 = 30;
const EDQUOT: u32 = 122;

fn benign(r: &mut Rng, e: &mut Env) {
    if r.chance(0.6) {
        e.short_r = *r.pick(&[1, 3, 17, 100, 1000]);
    }
    if r.chance(0.6) {
        e.short_w = *r.pick(&[7, 100, 1000]);
    }
    for _ in 0..r.below(4) {
        let c = *r.pick(&['r', 'w', 'o']);
        e.plan.push(format!("{c}:{}:e{EINTR}", 1 + r.below(if c == 'o' { 4 } else { 20 })));
    }
    for _ in 0..r.below(3) {
        e.plan.push(format!("k:{}:j{}", 1 + r.below(3), r.range(-1e17, 1e17) as i64));
    }
}

pub fn gen_case(id: &str, seed: u64) -> Case {
    let mut r = Rng::new(mix(seed, 22));
    let mut c = Case { seed, runs: vec![], damage: None, stale: 0 };
    let mut e = plain();
    e.folder = *r.pick(&[0u8, 1, 1, 2, 3]);
    match id {
        "C11" => {
            world(&mut r, &mut e);
            benign(&mut r, &mut e);
            c.runs.push(e);
        }
        "C13" => {
            if r.chance(0.3) {
                world(&mut r, &mut e);
            }
            if r.chance(0.4) {
                e.short_w = *r.pick(&[50, 1000, 5000]);
            }
            if r.chance(0.3) {
                c.stale = 1 + r.u32() % 1000;
            }
            for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
                let p = match r.below(10) {
                    0 => format!("m:{}:e{}", 1 + r.below(3), r.pick(&[ENOSPC, EACCES, EEXIST, EROFS, EINTR])),
                    1 => format!("o:{}:e{}", 3 + r.below(4), r.pick(&[ENOSPC, EACCES, EMFILE, EROFS, EIO, EINTR])),
                    2 => format!("w:{}:p{}", 1 + r.below(8), r.below(9000)),
                    // anywhere up to far beyond the last write: the end of a file matters most
                    3..=7 => format!("W:{}:{}{}", r.below(1000), r.pick(&["e", "E"]), r.pick(&[ENOSPC, EIO, EDQUOT, EFBIG])),
                    8 => format!("W:{}:p{}", r.below(1000), r.below(4000)),
                    _ => format!("w:{}:e{}", 1 + r.below(12), r.pick(&[EINTR, ENOSPC, EIO])),
                };
                e.plan.push(p);
            }
            if r.chance(0.3) {
                e.plan.push(format!("u:{}:e{}", 1 + r.below(4), r.pick(&[EIO, ENOSPC, EACCES, 18, EINTR])));
            }
            if r.chance(0.3) {
                e.plan.push(format!("f:{}:e{}", 1 + r.below(4), r.pick(&[EIO, ENOSPC, EDQUOT])));
            }
            c.runs.push(e);
        }
        "C14" => {
            if r.chance(0.3) {
                world(&mut r, &mut e);
            }
            if r.chance(0.6) {
                e.short_r = *r.pick(&[1, 5, 40, 300, 2000]);
            }
            if r.chance(0.45) {
                c.damage = Some((r.below(2) as u8, r.below(8) as u8, r.u64()));
            }
            if c.damage.is_none() || r.chance(0.2) {
                for _ in 0..1 + r.below(3) {
                    e.plan.push(match r.below(6) {
                        0 => format!("o:{}:e{}", 1 + r.below(2), r.pick(&[EACCES, EMFILE, EIO, EINTR, 2])),
                        1 => format!("r:{}:e{EINTR}", 1 + r.below(6)),
                        2 | 3 => format!("R:{}:e{}", r.below(1000), r.pick(&[EIO, EIO, EINTR, 116])),
                        _ => format!("R:{}:z", r.below(1000)),
                    });
                }
            }
            c.runs.push(e);
        }
        "C16" => {
            e.level = r.pick(&["off", "error", "warn", "info", "info", "debug"]).to_string();
            e.mono0 = *r.pick(&[0u64, 5_000_000_000, 86_400_000_000_000 * 400]) + r.u64() % 1_000_000_000;
            e.wall0 = *r.pick(&[0u64, 1_000_000_000, 1_700_000_000_000_000_000]);
            e.seed = r.u64();
            let big = |r: &mut Rng| -> i64 {
                let m = *r.pick(&[0.9e9, 2.5e9, 70e9, 4000e9, 1e14, 1e15, 1e17]);
                r.range(0.0, m) as i64
            };
            for _ in 0..1 + r.below(4) {
                let b = big(&mut r);
                e.plan.push(match r.below(8) {
                    0 | 1 => format!("o:{}:a{b}", 1 + r.below(2)),
                    2 => format!("r:{}:a{b}", 1 + r.below(3)),
                    3 => format!("o:{}:a{b}", 3 + r.below(2)),
                    4 => format!("w:{}:a{b}", 1 + r.below(3)),
                    5 => format!("m:1:a{b}"),
                    _ => format!("S:{}:a{b}", r.below(1000)),
                });
            }
            for _ in 0..r.below(4) {
                e.plan.push(format!("k:{}:j{}", 1 + r.below(3), r.range(-1e17, 1e17) as i64));
            }
            if r.chance(0.5) {
                e.vars.push(("TZ".into(), "Asia/Kolkata".into()));
            }
            c.runs.push(e);
        }
        "C18" => {
            let n = *r.pick(&[1usize, 1, 1, 2, 3]);
            for _ in 0..n {
                let mut f = e.clone();
                if r.chance(0.3) {
                    let fo = f.folder;
                    world(&mut r, &mut f);
                    f.folder = fo;
                }
                if r.chance(0.3) {
                    f.short_w = *r.pick(&[50, 500, 3000]);
                }
                f.mono0 = 0;
                f.plan.push(match r.below(10) {
                    0 => format!("o:{}:c0", 1 + r.below(6)),
                    1 => format!("r:{}:c0", 1 + r.below(3)),
                    2 => format!("m:{}:c0", 1 + r.below(3)),
                    3 => format!("O:{}:c0", r.below(1000)),
                    4 => format!("w:1:c{}", r.below(9000)),
                    _ => format!("W:{}:c{}", r.below(1000), r.below(9000)),
                });
                if r.chance(0.3) {
                    f.plan.push(format!("{}:{}:c0", r.pick(&["u", "f"]), 1 + r.below(4)));
                }
                if r.chance(0.3) {
                    // a long first run leaves a longer run time behind
                    f.plan.push(format!("r:1:a{}", r.range(1e9, 1e16) as i64));
                }
                c.runs.push(f);
            }
            let fo = e.folder;
            if r.chance(0.5) {
                world(&mut r, &mut e);
                benign(&mut r, &mut e);
                e.folder = fo;
            }
            c.runs.push(e);
        }
        _ => {}
    }
    c
}

fn count(log: &str, pre: &str) -> usize {
    log.lines().filter(|l| l.starts_with(pre)).count()
}

/// position-independent entries ("W:<per mille>:..") become concrete ones, knowing how many such
/// events an undisturbed run with the same tuning makes
fn resolve(e: &mut Env, base: &Outcome) {
    let n = |c: char| match c {
        'W' => count(&base.log, "write "),
        'S' => count(&base.log, "out "),
        'O' => count(&base.log, "openw ") + count(&base.log, "openr "),
        'R' => count(&base.log, "rd "),
        _ => 0,
    };
    for p in e.plan.iter_mut() {
        let c = p.chars().next().unwrap();
        if c.is_ascii_uppercase() {
            let mut it = p.splitn(3, ':');
            it.next();
            let k: usize = it.next().unwrap().parse().unwrap();
            let rest = it.next().unwrap();
            // a quarter of them land on the very last events
            let m = n(c).max(1);
            let nth = if k % 4 == 0 { m - (k / 4 % 3).min(m - 1) } else { 1 + k * m / 1000 };
            *p = format!("{}:{}:{}", c.to_ascii_lowercase(), nth, rest);
        }
    }
}

fn needs_base(e: &Env) -> bool {
    e.plan.iter().any(|p| p.starts_with(|c: char| c.is_ascii_uppercase()))
}

fn seed_disk(root: &Path, s: &Setup, e: &Env) {
    std::fs::create_dir_all(root.join("in")).unwrap();
    std::fs::write(root.join("in").join(&s.file), &s.inst_text).unwrap();
    std::fs::write(root.join("in/conf.json"), &s.cfg_text).unwrap();
    if e.folder == 1 {
        std::fs::create_dir_all(root.join("out")).unwrap();
    }
}

/// undisturbed run with the given tuning, on its own disk
pub fn undisturbed(s: &Setup, e: &Env) -> (Outcome, BTreeMap<String, Vec<u8>>) {
    let d = Scratch::new();
    let mut e = e.clone();
    e.file = s.file.clone();
    seed_disk(&d.0, s, &e);
    let o = exec(&d.0, &e, 0);
    let f = outputs(&e.out_dir(&d.0), &s.file);
    (o, f)
}

fn damage(s: &Setup, d: (u8, u8, u64)) -> Option<(usize, String)> {
    let t = if d.0 == 0 { &s.cfg_text } else { &s.inst_text };
    let body = t.trim_end().len();
    let pos = (d.2 % body as u64) as usize;
    let mut b = t.clone().into_bytes();
    let valid = |b: &[u8]| serde_json::from_slice::<Value>(b).is_ok();
    match d.1 {
        // truncated
        0 | 1 => b.truncate(pos),
        // a block lost to zeroes
        2 => {
            let e = (pos + 1 + (d.2 >> 32) as usize % 64).min(b.len());
            b[pos..e].fill(0);
        }
        // garbage after the end
        3 => b.extend_from_slice(&[&b"{}"[..], b"]", b"0", b"{\"Items\":[]}"][(d.2 >> 32) as usize % 4]),
        // a block missing in the middle
        4 => {
            let e = (pos + 1 + (d.2 >> 32) as usize % 64).min(b.len());
            b.drain(pos..e);
        }
        // a required key gone
        5 | 6 => {
            let mut v: Value = serde_json::from_str(t).unwrap();
            let keys: &[&[&str]] = if d.0 == 0 {
                &[
                    &["cde_config"],
                    &["n_samples"],
                    &["ls_frac"],
                    &["cde_config", "quadtree_depth"],
                    &["cde_config", "hpg_n_cells"],
                    &["cde_config", "item_surrogate_config"],
                    &["cde_config", "item_surrogate_config", "max_poles"],
                    &["cde_config", "item_surrogate_config", "pole_coverage_goal"],
                    &["cde_config", "item_surrogate_config", "n_ff_poles"],
                ]
            } else {
                &[&["Items"], &["Items", "0", "Demand"], &["Items", "0", "Shape"], &["Strip", "Height"], &["Objects", "0", "Shape"]]
            };
            let k = keys[(d.2 >> 8) as usize % keys.len()];
            let mut o = &mut v;
            for x in &k[..k.len() - 1] {
                o = match x.parse::<usize>() {
                    Ok(i) => o.get_mut(i)?,
                    Err(_) => o.get_mut(*x)?,
                };
            }
            o.as_object_mut()?.remove(k[k.len() - 1])?;
            return Some((d.0 as usize, serde_json::to_string(&v).unwrap()));
        }
        // emptied
        _ => b.clear(),
    }
    if valid(&b) {
        return None;
    }
    Some((d.0 as usize, unsafe { String::from_utf8_unchecked(b) }))
}

/// what the library computes in this process for the same files
fn library(s: &Setup) -> Vec<u8> {
    let simpl = match s.cfg.poly_simpl_tolerance {
        Some(tolerance) => jagua_rs::util::polygon_simplification::PolySimplConfig::Enabled { tolerance },
        None => jagua_rs::util::polygon_simplification::PolySimplConfig::Disabled,
    };
    let inst = jagua_rs::io::parser::Parser::new(simpl, s.cfg.cde_config, true).parse(&s.sc.json);
    let epoch = std::time::Instant::now();
    let mut o = LBFOptimizer::new(inst.clone(), s.cfg, rand::prelude::SmallRng::seed_from_u64(s.cfg.prng_seed.unwrap()));
    let sol = o.solve();
    let _ = o.problem.layouts();
    let js = compose_json_solution(&sol, &inst, epoch);
    serde_json::to_vec_pretty(&JsonOutput { instance: s.sc.json.clone(), solution: js, config: s.cfg }).unwrap()
}

fn complete(out: &BTreeMap<String, Vec<u8>>, s: &Setup) -> Res {
    let Some(j) = out.get("sol_inst.json") else { return bad("incomplete", "success reported without a solution file".into()) };
    let v: Value = match serde_json::from_slice(j) {
        Ok(v) => v,
        Err(e) => return bad("incomplete", format!("success reported with an incomplete solution file ({e}, {} bytes)", j.len())),
    };
    let n = v["Solution"]["Layouts"].as_array().map_or(0, |a| a.len());
    for i in 0..n {
        let k = format!("sol_inst_{i}.svg");
        match out.get(&k) {
            None => return bad("incomplete", format!("success reported but {k} is missing ({n} layouts)")),
            Some(b) => {
                let t = String::from_utf8_lossy(b);
                if !t.trim_start().starts_with("<svg") || !t.trim_end().ends_with("</svg>") {
                    return bad("incomplete", format!("success reported but {k} is not complete ({} bytes)", b.len()));
                }
            }
        }
    }
    if v["Items"].as_array().map(|a| a.len()) != Some(s.sc.json.items.len()) {
        return bad("incomplete", "the solution file does not contain the instance".into());
    }
    Ok(())
}

pub fn tail(s: &str) -> String {
    let v: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    v[v.len().saturating_sub(3)..].join(" | ").chars().take(300).collect()
}

fn note(cov: &mut Cov, o: &Outcome, e: &Env) {
    for l in o.log.lines().filter(|l| l.starts_with("fault ")) {
        let f: Vec<&str> = l.split(' ').collect();
        let cls = match f[1] {
            "o" => "open",
            "r" => "read",
            "w" => "write",
            "s" => "stdout",
            "m" => "mkdir",
            "k" => "wallclock",
            "f" => "fsync",
            _ => "rename_unlink",
        };
        let what = match f[3] {
            "e" | "E" => format!("errno{}", f[4]),
            "c" => "crash".into(),
            "p" => "disk_full_after_partial".into(),
            "z" => "premature_eof".into(),
            "a" => "slow".into(),
            "j" => "jump".into(),
            o => o.to_string(),
        };
        cov.hit(&format!("fault.{cls}.{what}"));
    }
    if e.short_r > 0 {
        cov.hit("fault.read.short");
    }
    if e.short_w > 0 {
        cov.hit("fault.write.short");
    }
    cov.hit(if o.code == 0 { "exit.success" } else if o.log.ends_with("crash\n") { "exit.crashed" } else { "exit.failure" });
}

struct Ctx {
    cov: Cov,
    hash: u64,
    sim_ns: u64,
    steps: u64,
}

fn account(cx: &mut Ctx, o: &Outcome, e: &Env) {
    note(&mut cx.cov, o, e);
    let mut h = 0;
    let mut last = e.mono0;
    for l in o.log.lines() {
        let mut it = l.split(' ');
        let k = it.next().unwrap_or("");
        let t: Option<u64> = it.next().and_then(|t| t.parse().ok());
        if matches!(k, "mono" | "write" | "out" | "openw" | "openr" | "close") {
            if let Some(t) = t {
                last = last.max(t);
            }
        }
        // stdout line lengths depend on the scratch path: not part of the log hash
        h = mix(h, hash_str(k) ^ if k == "mono" || k == "write" { t.unwrap_or(0) } else { 0 });
    }
    cx.steps += o.log.lines().count() as u64;
    cx.sim_ns += last.saturating_sub(e.mono0);
    cx.hash = mix(cx.hash, mix(h, o.code as u64));
}

fn judge(id: &str, c: &mut Case, cx: &mut Ctx) -> Res {
    let s = setup(c.seed);
    for e in c.runs.iter_mut() {
        e.file = s.file.clone();
    }
    let mut ref_env = plain();
    ref_env.folder = c.runs[0].folder;
    let (ro, rf) = undisturbed(&s, &ref_env);
    account(cx, &ro, &ref_env);
    if ro.hang {
        if matches!(id, "C18") {
            return bad("hang", "the undisturbed program does not terminate".into());
        }
        cx.cov.hit("reference.hang");
        return Ok(());
    }
    if ro.code != 0 {
        if matches!(id, "C11" | "C18") {
            return bad("undisturbed-failure", format!("the undisturbed program fails: {}", tail(&ro.stderr)));
        }
        cx.cov.hit("reference.failed");
        return Ok(());
    }
    let rn = norm(&rf);
    let d = Scratch::new();
    let root = d.0.clone();
    seed_disk(&root, &s, &c.runs[0]);
    if c.stale > 0 {
        let o = c.runs[0].out_dir(&root);
        std::fs::create_dir_all(&o).unwrap();
        let mut r = Rng::new(c.stale as u64);
        for (k, v) in &rf {
            if r.chance(0.7) {
                let mut w = v.clone();
                w.extend(std::iter::repeat(b"stale ").take(1 + r.below(800)).flatten());
                w.reverse();
                let k = k.replacen("sol_inst", &format!("sol_{}", stem(&s.file)), 1);
                std::fs::write(o.join(k), &w).unwrap();
            }
        }
    }
    let n_runs = c.runs.len();
    for i in 0..n_runs {
        if needs_base(&c.runs[i]) {
            let mut b = c.runs[i].clone();
            b.plan.retain(|p| !p.starts_with(|c: char| c.is_ascii_uppercase()) && !p.contains(":c"));
            let (bo, _) = undisturbed(&s, &b);
            resolve(&mut c.runs[i], &bo);
        }
    }
    match id {
        "C11" => {
            let e = &c.runs[0];
            let o = exec(&root, e, 1);
            account(cx, &o, e);
            if o.code != 0 {
                return bad("not-reproducible", format!("a run that succeeds elsewhere fails here (code {}): {}", o.code, tail(&o.stderr)));
            }
            let f = norm(&outputs(&e.out_dir(&root), &s.file));
            if let Some(m) = diff(&rn, &f) {
                return bad("not-reproducible", format!("same seed, other schedule/clock/entropy/log level: {m}"));
            }
            let l = split_runtime(&library(&s)).1;
            // compared by content: how the text is laid out is the program's business
            let content = |b: &[u8]| {
                serde_json::from_slice::<Value>(b).ok().map(|mut v| {
                    v["Solution"]["RunTimeSec"] = 0.into();
                    v
                })
            };
            let lib = {
                let raw = library(&s);
                content(&raw)
            };
            let file = rf.get("sol_inst.json").and_then(|b| content(b));
            if lib.is_none() || file != lib {
                return bad("library-differs", "the optimiser called as a library gives another solution than the program".into());
            }
            let l2 = {
                let sch = simsched::Sched::new(mix(c.seed, 9), *[300, 5_000, 100_000].get((c.seed % 3) as usize).unwrap(), [0, 10][(c.seed / 3 % 2) as usize], None);
                let l2 = sch.enter(|| split_runtime(&library(&s)).1);
                let st = sch.stats();
                cx.cov.add("fault.thread_switch", st.switches);
                l2
            };
            if l2 != l {
                return bad("library-differs", "the optimiser called as a library is not reproducible under another schedule".into());
            }
        }
        "C13" => {
            let e = &c.runs[0];
            let o = exec(&root, e, 1);
            account(cx, &o, e);
            if o.hang {
                return bad("hang", "does not terminate under write faults".into());
            }
            if o.code == 0 {
                let out = outputs(&e.out_dir(&root), &s.file);
                complete(&out, &s)?;
                if let Some(m) = diff(&rn, &norm(&out)) {
                    return bad("incomplete", format!("success reported but {m} compared to an undisturbed run"));
                }
                if o.log.lines().any(|l| l.starts_with("fault ")) {
                    cx.cov.hit("success.after_fault");
                }
            }
        }
        "C14" => {
            let e = &c.runs[0];
            let mut must_fail = false;
            if let Some(dm) = c.damage {
                if let Some((f, t)) = damage(&s, dm) {
                    std::fs::write(root.join("in").join(["conf.json", &s.file][f]), t.as_bytes()).unwrap();
                    must_fail = true;
                    cx.cov.hit(&format!("fault.input.{}", ["truncated", "truncated", "zeroed", "trailing_garbage", "lost_block", "missing_key", "missing_key", "emptied"][dm.1 as usize]));
                }
            }
            let o = exec(&root, e, 1);
            account(cx, &o, e);
            if o.hang {
                return bad("hang", "does not terminate under read faults".into());
            }
            let out = outputs(&e.out_dir(&root), &s.file);
            if o.code == 0 {
                if must_fail {
                    return bad("damaged-input-accepted", format!("success although the {} is damaged", if c.damage.unwrap().0 == 0 { "configuration" } else { "instance" }));
                }
                if let Some(m) = diff(&rn, &norm(&out)) {
                    return bad("result-changed", format!("a successful run under read faults gives another result: {m}"));
                }
            } else if !out.is_empty() {
                return bad("result-after-failure", format!("failed reading its input but wrote {:?}", out.keys().collect::<Vec<_>>()));
            }
        }
        "C16" => {
            let e = &c.runs[0];
            let o = exec(&root, e, 1);
            account(cx, &o, e);
            if o.hang || o.code != 0 {
                return bad("fails-under-clock", format!("clock readings make the program fail: {}", tail(&o.stderr)));
            }
            check_time(e, &o, &outputs(&e.out_dir(&root), &s.file), cx)?;
            library_time(&s, c.seed, cx)?;
        }
        "C18" => {
            let before = files(&root.join("in"));
            for i in 0..n_runs {
                let e = &c.runs[i];
                let o = exec(&root, e, i + 1);
                account(cx, &o, e);
                if o.hang {
                    return bad("hang", "does not terminate".into());
                }
                let after = files(&root.join("in"));
                for (k, v) in &before {
                    if after.get(k) != Some(v) {
                        return bad("input-modified", format!("input file {k} was modified"));
                    }
                }
                outside(&o.log, &e.out_dir(&root), &root)?;
                if i + 1 == n_runs {
                    if o.code != 0 {
                        return bad("rerun-fails", format!("rerun after a crash fails (code {}): {}", o.code, tail(&o.stderr)));
                    }
                    if let Some(m) = diff(&rn, &norm(&outputs(&e.out_dir(&root), &s.file))) {
                        return bad("rerun-differs", format!("rerun after a crash: {m}"));
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// everything opened for writing, created, renamed or removed lies in the solution folder
fn outside(log: &str, out: &Path, root: &Path) -> Res {
    for l in log.lines() {
        let f: Vec<&str> = l.splitn(4, ' ').collect();
        if f.len() < 4 || !matches!(f[0], "openw" | "rename" | "unlink" | "rmdir" | "mkdir") {
            continue;
        }
        let p = if f[3].starts_with('/') { PathBuf::from(f[3]) } else { root.join(f[3]) };
        // a real device is not a file the program leaves behind
        if p.starts_with("/dev") && !p.starts_with(root) || p.starts_with("/proc") {
            continue;
        }
        if !(p.starts_with(out) || (f[0] == "mkdir" && out.starts_with(&p))) {
            return bad("writes-outside", format!("{} of {} outside the solution folder", f[0], p.strip_prefix(root).unwrap_or(&p).display()));
        }
    }
    Ok(())
}

fn log_secs(line: &str) -> Option<u64> {
    // "[INFO] [00:00:03] <main> ..."
    let i = line.find("] [")?;
    let t = &line[i + 3..];
    let t = &t[..t.find(']')?];
    let p: Vec<u64> = t.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    if p.len() == 3 {
        Some(p[0] * 3600 + p[1] * 60 + p[2])
    } else {
        None
    }
}

/// the same question put to the library on a simulated clock: time that passes before the
/// optimiser starts counts, time that passes after it is done does not
fn library_time(s: &Setup, seed: u64, cx: &mut Ctx) -> Res {
    let mut r = Rng::new(mix(seed, 77));
    const S: u64 = 1_000_000_000;
    let simpl = match s.cfg.poly_simpl_tolerance {
        Some(tolerance) => jagua_rs::util::polygon_simplification::PolySimplConfig::Enabled { tolerance },
        None => jagua_rs::util::polygon_simplification::PolySimplConfig::Disabled,
    };
    let inst = jagua_rs::io::parser::Parser::new(simpl, s.cfg.cde_config, true).parse(&s.sc.json);
    let wall = *r.pick(&[0i64, 1_700_000_000 * S as i64, -(3 * S as i64)]);
    let step = *r.pick(&[0u64, 0, 1, S / 3, 2 * S]);
    let t0 = 10 * S + r.u64() % (1000 * S);
    let run = || {
        simsched::set_clock(Some((t0, wall, 0)));
        let epoch = std::time::Instant::now();
        let a = t0 + *r.pick(&[0, 1, S - 1, S, 59 * S + 1, 86_400 * S * 3]);
        simsched::set_clock(Some((a, wall, step)));
        let mut o = LBFOptimizer::new(inst.clone(), s.cfg, rand::prelude::SmallRng::seed_from_u64(s.cfg.prng_seed.unwrap_or(1)));
        let sol = o.solve();
        let b = simsched::clock();
        // a slow writer, and a wall clock set anew
        simsched::set_clock(Some((b + *r.pick(&[0, 1, S, 3600 * S]), wall + *r.pick(&[0i64, 1 << 50, -(1 << 50)]), 0)));
        let js = compose_json_solution(&sol, &inst, epoch);
        (a, b, js.run_time_sec)
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run));
    simsched::set_clock(None);
    let Ok((a, b, got)) = res else { return bad("fails-under-clock", "clock readings make the optimiser fail".into()) };
    cx.cov.hit("time.library");
    cx.sim_ns += b - t0;
    if got < (a - t0) / S || got > (b - t0) / S {
        return bad("run-time", format!("library: run time {got} s, but the solution was completed between {} and {} s after the start", (a - t0) as f64 / 1e9, (b - t0) as f64 / 1e9));
    }
    Ok(())
}

fn check_time(e: &Env, o: &Outcome, out: &BTreeMap<String, Vec<u8>>, cx: &mut Ctx) -> Res {
    let Some(rt) = out.get("sol_inst.json").and_then(|b| split_runtime(b).0) else {
        return bad("no-run-time", "the solution file reports no run time".into());
    };
    // replay of the event log: simulated time at program start, at the first input access, and
    // the window in which the solution was completed
    let t0 = e.mono0;
    let mut first_in = None;
    let mut closes_in = 0;
    let mut outs: Vec<u64> = vec![];
    let mut after_read = t0;
    let mut first_out = None;
    let mut now = t0;
    for l in o.log.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let t: Option<u64> = f.get(1).and_then(|x| x.parse().ok());
        match f[0] {
            "openr" => {
                first_in = first_in.or(t);
            }
            "close" if f.get(2) == Some(&"r") => {
                closes_in += 1;
                if closes_in == 2 {
                    after_read = t.unwrap_or(now);
                    outs.clear();
                }
            }
            "out" if first_out.is_none() => outs.push(t.unwrap_or(now)),
            "mkdir" | "openw" => {
                // the log itself and devices are not outputs; the first output access ends the window
                if f.get(2) == Some(&"1") {
                    first_out = first_out.or(t);
                }
            }
            _ => {}
        }
        now = t.unwrap_or(now).max(now);
    }
    let (Some(fi), Some(fo)) = (first_in, first_out) else { return Ok(()) };
    // `outs` holds the simulated time *before* each log line was delivered; the solution is
    // complete after all but the last few lines
    let done_lo = if outs.len() > 4 { outs[outs.len() - 4] } else { after_read };
    let lo = done_lo.saturating_sub(fi) / 1_000_000_000;
    let hi = fo.saturating_sub(t0) / 1_000_000_000;
    cx.cov.hit(if lo == hi { "runtime.exact" } else { "runtime.window" });
    if hi > 0 {
        cx.cov.hit("runtime.nonzero");
    }
    if rt < lo || rt > hi {
        return bad("run-time", format!("reported run time {rt} s, elapsed between {lo} and {hi} s (log level {})", e.level));
    }
    let mut last = 0;
    for l in o.stdout.lines() {
        if let Some(t) = log_secs(l) {
            cx.cov.hit("log.lines");
            if t < last {
                return bad("log-backwards", format!("log time stamps run backwards: {last} s then {t} s"));
            }
            last = t;
        }
    }
    Ok(())
}

fn play(id: &str, case: &mut Case) -> (Option<Viol>, Ctx) {
    let mut cx = Ctx { cov: Cov::default(), hash: 0, sim_ns: 0, steps: 0 };
    let r = caught(|| judge(id, case, &mut cx));
    (r.err(), cx)
}

pub fn run(id: &str, seed: u64) -> RunOut {
    let mut c = gen_case(id, seed);
    let (v, cx) = play(id, &mut c);
    let mut out = RunOut { steps: cx.steps, sim_ns: cx.sim_ns, evh: cx.hash, ..Default::default() };
    out.states = vec![cx.hash];
    out.inter = hash_str(&format!("{:?}{:?}", c.runs, c.damage));
    out.cov = cx.cov;
    if let Some(v) = v {
        out.viol = Some((v, json!({"prop": id, "seed": seed, "case": c})));
    }
    out
}

pub fn replay(id: &str, rep: &Value) -> Option<Viol> {
    let mut c: Case = serde_json::from_value(rep["case"].clone()).ok()?;
    play(id, &mut c).0
}

pub fn minimise(id: &str, v: &Viol, rep: &Value) -> Value {
    let Ok(mut c) = serde_json::from_value::<Case>(rep["case"].clone()) else { return rep.clone() };
    let t0 = std::time::Instant::now();
    let attempt = |c: &mut Case, f: &dyn Fn(&mut Case) -> bool| {
        if t0.elapsed().as_secs() > 60 {
            return;
        }
        let mut d = c.clone();
        if f(&mut d) && matches!(play(id, &mut d.clone()).0, Some(x) if x.class == v.class) {
            *c = d;
        }
    };
    for i in (0..c.runs.len().saturating_sub(1)).rev() {
        attempt(&mut c, &|d| {
            d.runs.remove(i);
            true
        });
    }
    attempt(&mut c, &|d| std::mem::take(&mut d.stale) > 0);
    attempt(&mut c, &|d| d.damage.take().is_some());
    for i in 0..c.runs.len() {
        for k in (0..c.runs[i].plan.len()).rev() {
            attempt(&mut c, &|d| {
                d.runs[i].plan.remove(k);
                true
            });
        }
        attempt(&mut c, &|d| std::mem::take(&mut d.runs[i].short_r) > 0);
        attempt(&mut c, &|d| std::mem::take(&mut d.runs[i].short_w) > 0);
        attempt(&mut c, &|d| !std::mem::take(&mut d.runs[i].vars).is_empty());
        attempt(&mut c, &|d| std::mem::take(&mut d.runs[i].adv_io) > 0);
        attempt(&mut c, &|d| std::mem::take(&mut d.runs[i].adv_clk) > 0);
        attempt(&mut c, &|d| std::mem::take(&mut d.runs[i].relative));
        attempt(&mut c, &|d| std::mem::replace(&mut d.runs[i].level, "off".into()) != "off");
        attempt(&mut c, &|d| {
            d.runs[i].sched = 0;
            d.runs[i].seed = 0;
            d.runs[i].threads = 4;
            true
        });
    }
    json!({"prop": id, "seed": rep["seed"], "case": c})
}
