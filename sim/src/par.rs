//! Threads under the baton scheduler: clones on several threads (C09), parallel parsing (C10).
use crate::gen::{self, Profile, Scenario};
use crate::geo;
use crate::model::*;
use crate::opsim;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::run::{caught, RunOut};
use crate::world::*;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::*;
use jagua_rs::io::parser::Parser;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simsched::{fork_join, Decision, Sched, Stats};

pub fn handles(id: &str) -> bool {
    matches!(id, "C09" | "C10")
}

#[derive(Clone, Serialize, Deserialize)]
struct Agent {
    /// index of the operation after which this agent's clone is taken from the origin
    ops: Vec<Op>,
    /// run the optimiser on the clone after the operations
    lbf: Option<u64>,
    /// drop everything at the end inside the scheduled section
    drop: bool,
}

#[derive(Clone, Serialize, Deserialize)]
struct Case {
    seed: u64,
    pre: Vec<Op>,
    agents: Vec<Agent>,
    gap: u32,
    /// preference for preempting at rarely executed code: with probability 1/cold
    cold: u32,
    decisions: Option<Vec<(u32, u32)>>,
}

fn profile(seed: u64) -> Profile {
    let mut r = Rng::new(mix(seed, 3));
    Profile { must_fit: true, max_types: *r.pick(&[1, 3]), max_demand: *r.pick(&[2, 4]), allow_no_hpg: false, ..Default::default() }
}

fn gen_case(seed: u64) -> Case {
    let mut r = Rng::new(mix(seed, 31));
    let pick = |r: &mut Rng, n: usize| {
        let mut v: Vec<Op> = vec![];
        while v.len() < n {
            let p = *r.pick(&["C06", "C05", "C08"]);
            let p = opsim::prop_of(if p == "C08" && r.chance(0.7) { "C06" } else { p }).unwrap();
            v.extend(opsim::gen_ops(p, r.u64()).into_iter().take(n - v.len()));
        }
        v
    };
    let n_pre = r.below(25);
    let pre = pick(&mut r, n_pre);
    let n = 2 + r.below(3);
    let agents = (0..n)
        .map(|_| {
            let k = *r.pick(&[0usize, 3, 10, 20]);
            Agent { ops: pick(&mut r, k), lbf: if r.chance(0.4) { Some(r.u64()) } else { None }, drop: r.chance(0.5) }
        })
        .collect();
    Case { seed, pre, agents, gap: *r.pick(&[40, 400, 4000, 40_000, 400_000]), cold: *r.pick(&[0, 3, 20, 100]), decisions: None }
}

type Obs = Vec<u64>;

/// Only one simulated thread runs at a time, so handing a value over is sound here whatever it is
/// made of; whether clones are independent is for the observations to tell, not for the compiler.
struct Handover<T>(T);
unsafe impl<T> Send for Handover<T> {}
impl<T> Handover<T> {
    fn take(self) -> T {
        self.0
    }
}

fn inside_strip(w: &World) -> bool {
    let l = &w.ws[0].p.layouts()[0];
    let o = geo::bbox(&pts(&l.bin.outer));
    let e = 1e-4 * o.max_abs();
    l.placed_items().values().all(|p| {
        let b = geo::bbox(&pts(&p.shape));
        b.x0 >= o.x0 && b.x1 <= o.x1 && b.y0 >= o.y0 + e && b.y1 <= o.y1 - e
    })
}

/// one agent at work; returns everything it observed, and what it holds unless dropped
fn agent(mut w: World, a: &Agent, seed: u64) -> (Obs, Option<World>, Option<Viol>) {
    let mut obs = vec![];
    for (i, op) in a.ops.iter().enumerate() {
        match caught(|| w.exec(op)) {
            Ok(()) => {}
            Err(v) => {
                obs.push(hash_str(v.class));
                return (obs, None, Some(v));
            }
        }
        if i % 3 == 0 {
            obs.push(w.observe(mix(seed, i as u64)));
        }
    }
    obs.push(w.observe(seed));
    if let Some(s) = a.lbf {
        let r = caught(|| {
            let cfg = lbf::lbf_config::LBFConfig {
                cde_config: w.g.sc.cde,
                poly_simpl_tolerance: w.g.sc.simpl,
                prng_seed: Some(s),
                n_samples: 25,
                ls_frac: 0.2,
                ..Default::default()
            };
            w.ws[0].p.flush_changes();
            let mut o = LBFOptimizer::new(w.g.inst.clone(), cfg, rand::prelude::SmallRng::seed_from_u64(s));
            o.problem = w.ws[0].p.clone();
            // fitting an empty strip is outside the contract
            if w.g.is_strip() && o.problem.missing_item_qtys().iter().all(|m| *m <= 0) && o.problem.placed_item_qtys().sum::<usize>() == 0 {
                return Ok(0);
            }
            // and so is a strip with items that stick out of it
            if w.g.is_strip() && !inside_strip(&w) {
                return Ok(0);
            }
            let sol = o.solve();
            let sig: Vec<String> =
                sol.layout_snapshots.iter().map(|l| LM { bin: bin_key(&l.bin, &w.g), items: items_of(&l.placed_items) }.keyed_sig()).collect();
            Ok(hash_str(&format!("{sig:?}{:?}{}{}", sol.placed_item_qtys, sol.usage, o.sample_counter)))
        });
        match r {
            Ok(h) => obs.push(h),
            Err(v) => {
                obs.push(hash_str(v.class));
                return (obs, None, Some(v));
            }
        }
    }
    if a.drop {
        drop(w);
        (obs, None, None)
    } else {
        (obs, Some(w), None)
    }
}

/// origin world after the common history
fn origin(c: &Case) -> Result<World, Viol> {
    let mut w = World::new(Prop::C07, c.seed, scen(c.seed, &profile(c.seed)), 1);
    w.prop = Prop::C05; // keeps standalone layouts alive; accounting is judged elsewhere
    for op in &c.pre {
        caught(|| w.exec(op))?;
    }
    Ok(w)
}

type Out = (Obs, Option<World>, Option<Viol>);

fn spread(mut jobs: Vec<(usize, World)>, c: &Case) -> Vec<(usize, Out)> {
    let (i, w) = jobs.remove(0);
    if jobs.is_empty() {
        return vec![(i, agent(w, &c.agents[i], mix(c.seed, i as u64)))];
    }
    let jobs = Handover(jobs);
    let (a, b) = fork_join(|| vec![(i, agent(w, &c.agents[i], mix(c.seed, i as u64)))], move || Handover(spread(jobs.take(), c)));
    let mut v = a.unwrap_or_default();
    v.extend(b.map(|h| h.take()).unwrap_or_default());
    v
}

fn play9(c: &Case, cov: &mut Cov) -> (Option<Viol>, Stats, u64) {
    let none = Stats::default();
    // alone: the whole common history again, then one agent, on a thread of its own
    let mut solo: Vec<Obs> = vec![];
    for i in 0..c.agents.len() {
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || match origin(c) {
                    Ok(w) => {
                        let w = w.fork();
                        let (o, _, v) = agent(w, &c.agents[i], mix(c.seed, i as u64));
                        Ok((o, v))
                    }
                    Err(v) => Err(v),
                })
                .unwrap()
                .join()
        });
        match r {
            Ok(Ok((o, v))) => {
                if let Some(v) = v {
                    // fails alone as well: another property's business
                    cov.hit(&format!("solo.violation.{}", v.class));
                    return (None, none, 0);
                }
                solo.push(o);
            }
            Ok(Err(v)) => {
                cov.hit(&format!("origin.violation.{}", v.class));
                return (None, none, 0);
            }
            Err(_) => return (Some(Viol { class: "panic", msg: "panic while running alone".into() }), none, 0),
        }
    }
    let mut org = match origin(c) {
        Ok(w) => w,
        Err(v) => return (Some(v), none, 0),
    };
    let o0 = org.observe(77);
    // agent 0 works on the origin itself, the others on clones
    let clones: Vec<World> = (1..c.agents.len()).map(|_| org.fork()).collect();
    let spare = org.fork();
    let mut jobs = vec![(0, std::mem::replace(&mut org, spare))];
    jobs.extend(clones.into_iter().enumerate().map(|(i, w)| (i + 1, w)));
    let dec = c.decisions.as_ref().map(|d| d.iter().map(|(a, p)| Decision { after: *a, pick: *p }).collect());
    let sch = Sched::new(mix(c.seed, 32), c.gap, c.cold, dec);
    let res = sch.enter(|| spread(jobs, c));
    let st = sch.stats();
    cov.add("fault.thread_switch", st.switches);
    cov.add("lock.contended", st.blocks);
    cov.add("sched.yields", st.yields);
    cov.add("agents", c.agents.len() as u64);
    if st.free_run {
        cov.hit("sched.free_run");
    }
    let mut h = st.schedule_hash;
    for (i, (o, _, v)) in &res {
        for x in o {
            h = mix(h, *x);
        }
        if let Some(v) = v {
            return (Some(Viol { class: "panic", msg: format!("agent {i} fails only when others run: [{}] {}", v.class, v.msg) }), st, h);
        }
        if *o != solo[*i] {
            let k = o.iter().zip(&solo[*i]).position(|(a, b)| a != b).unwrap_or(0);
            return (
                Some(Viol { class: "not-independent", msg: format!("agent {i} of {} observes something else than when running alone (observation {k})", c.agents.len()) }),
                st,
                h,
            );
        }
        cov.add("observations", o.len() as u64);
    }
    if res.len() != c.agents.len() {
        return (Some(Viol { class: "panic", msg: "an agent panicked".into() }), st, h);
    }
    if org.observe(77) != o0 {
        return (Some(Viol { class: "not-independent", msg: "an untouched clone changed while the others worked".into() }), st, h);
    }
    (None, st, h)
}

// ---------------------------------------------------------------------------------------------
// C10

#[derive(Clone, Serialize, Deserialize)]
struct PCase {
    seed: u64,
    /// (schedule seed, pool size, mean gap, preference for rarely executed code)
    scheds: Vec<(u64, usize, u32, u32)>,
    decisions: Option<Vec<(u32, u32)>>,
}

fn pcase(seed: u64) -> PCase {
    let mut r = Rng::new(mix(seed, 41));
    let n = 1 + r.below(3);
    PCase { seed, scheds: (0..n).map(|_| (r.u64(), *r.pick(&[1usize, 2, 3, 8, 64]), *r.pick(&[500u32, 6000, 80_000]), *r.pick(&[0, 0, 5, 50]))).collect(), decisions: None }
}

fn pscen(seed: u64) -> Scenario {
    let mut r = Rng::new(mix(seed, 42));
    let pr = Profile { max_types: *r.pick(&[1, 4, 12]), max_demand: *r.pick(&[9, 9, 400, 100_000]), wide: r.chance(0.05), ..Default::default() };
    let mut sc = gen::gen(&mut r, &pr);
    sc.cde.hpg_n_cells = sc.cde.hpg_n_cells.min(40);
    sc.cde.quadtree_depth = sc.cde.quadtree_depth.min(4);
    sc
}

pub fn json_pts(s: &JsonShape) -> Vec<geo::P> {
    match s {
        JsonShape::Rectangle { width, height } => {
            let (w, h) = (*width as f64, *height as f64);
            vec![[0.0, 0.0], [w, 0.0], [w, h], [0.0, h]]
        }
        JsonShape::SimplePolygon(p) => sp_pts(p),
        JsonShape::Polygon(p) => sp_pts(&p.outer),
        _ => vec![],
    }
}
pub fn sp_pts(p: &JsonSimplePoly) -> Vec<geo::P> {
    let mut v: Vec<geo::P> = p.0.iter().map(|q| [q.0 as f64, q.1 as f64]).collect();
    if v.len() > 1 && v[0] == v[v.len() - 1] {
        v.pop();
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Inflate,
    Deflate,
}

/// two edges cut through each other, clearly
fn crosses_itself(p: &[geo::P], tol: f64) -> bool {
    let n = p.len();
    let side = |a: geo::P, b: geo::P, c: geo::P| {
        let l = geo::dist(a, b);
        if l == 0.0 {
            return 0.0;
        }
        ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / l
    };
    let apart = |x: f64, y: f64| (x > tol && y < -tol) || (x < -tol && y > tol);
    (0..n).any(|i| {
        let (a, b) = (p[i], p[(i + 1) % n]);
        (i + 2..n).any(|j| {
            let (c, d) = (p[j], p[(j + 1) % n]);
            apart(side(a, b, c), side(a, b, d)) && apart(side(c, d, a), side(c, d, b))
        })
    })
}

/// the shape, moved back by its pre-transformation, is the input shape up to simplification
fn same_shape(what: &str, got: &SimplePolygon, pre: &Transformation, want: &[geo::P], simpl: Option<fsize>, mode: Mode) -> Res {
    let (rot, t) = dt_parts(&pre.decompose());
    // inverse of "rotate then translate"
    let g: Vec<geo::P> = pts(got).iter().map(|p| geo::rot_pt([p[0] - t[0], p[1] - t[1]], -rot, [0.0, 0.0])).collect();
    let scale = geo::bbox(want).max_abs().max(geo::bbox(&pts(got)).max_abs());
    let tol = TOL * 2.0 * scale;
    let wa = geo::area(want).abs();
    let ga = geo::area(&g);
    if ga <= 0.0 {
        return bad("shape-orientation", format!("{what} is not counter-clockwise"));
    }
    let slack = tol * (geo::bbox(want).w() + geo::bbox(want).h()) * 4.0;
    match simpl {
        None => {
            // same cycle of vertices
            let mut w = want.to_vec();
            if geo::area(&w) < 0.0 {
                w.reverse();
            }
            let n = w.len();
            if g.len() != n {
                return bad("shape-vertices", format!("{what}: {} vertices, {} in the input", g.len(), n));
            }
            let ok = (0..n).any(|k| (0..n).all(|i| geo::dist(g[i], w[(i + k) % n]) <= tol));
            if !ok {
                return bad("shape-vertices", format!("{what}: vertices moved (first {:?}, input {:?})", g[0], w[0]));
            }
        }
        Some(f) => {
            // the stated limit on the change in area
            if (ga - wa).abs() > f as f64 * wa * 1.001 + slack {
                return bad("shape-area", format!("{what}: area {ga} instead of {wa}, tolerance {f}"));
            }
            if (mode == Mode::Inflate && ga < wa - slack) || (mode == Mode::Deflate && ga > wa + slack) {
                return bad("shape-mode", format!("{what}: area {ga} against {wa}: simplified in the wrong direction"));
            }
            // vertices of the original outside of an inflated shape, or the reverse
            let (inner, outer) = if mode == Mode::Inflate { (want, &g[..]) } else { (&g[..], want) };
            let st = FUZZ * scale;
            if let Some(p) = inner.iter().find(|p| !geo::pip(**p, outer) && geo::d_pt_border(**p, outer) > st) {
                return bad("shape-mode", format!("{what}: vertex {p:?} lies outside although the shape may only err on the safe side"));
            }
            if g.len() > want.len() {
                return bad("shape-vertices", format!("{what}: more vertices than the input"));
            }
            if crosses_itself(&g, st) && !crosses_itself(want, 0.0) {
                return bad("shape-simple", format!("{what}: the contour crosses itself, the input's does not"));
            }
        }
    }
    Ok(())
}

fn faithful(sc: &Scenario, inst: &Instance) -> Res {
    let j = &sc.json;
    if inst.items().len() != j.items.len() {
        return bad("items", format!("{} items parsed, {} in the input", inst.items().len(), j.items.len()));
    }
    for (i, ((it, q), ji)) in inst.items().iter().zip(&j.items).enumerate() {
        let what = format!("item {i}");
        if it.id != i {
            return bad("item-id", format!("item {i} has id {}", it.id));
        }
        if *q as u64 != ji.demand || inst.item_qty(i) as u64 != ji.demand {
            return bad("demand", format!("item {i}: demand {q}, {} in the input", ji.demand));
        }
        if it.base_quality != ji.base_quality {
            return bad("quality", format!("item {i}: quality {:?}, {:?} in the input", it.base_quality, ji.base_quality));
        }
        if it.value != ji.value.unwrap_or(0) {
            return bad("value", format!("item {i}: value {}, {:?} in the input", it.value, ji.value));
        }
        let ok = match (&it.allowed_rotation, &ji.allowed_orientations) {
            (AllowedRotation::Continuous, None) => true,
            (AllowedRotation::None, Some(v)) => v.iter().all(|a| *a == 0.0),
            (AllowedRotation::Discrete(d), Some(v)) => {
                d.len() == v.len() && d.iter().zip(v).all(|(a, b)| ((*a as f64) - (*b as f64) * std::f64::consts::PI / 180.0).abs() < 1e-5)
            }
            _ => false,
        };
        if !ok {
            return bad("rotations", format!("item {i}: {:?} from {:?}", it.allowed_rotation, ji.allowed_orientations));
        }
        let simpl = if matches!(ji.shape, JsonShape::Rectangle { .. }) { None } else { sc.simpl };
        same_shape(&what, &it.shape, &it.pretransform, &json_pts(&ji.shape), simpl, Mode::Inflate)?;
        if !sc.center && (it.pretransform.decompose().rotation() != 0.0 || it.pretransform.decompose().translation() != (0.0, 0.0)) {
            return bad("pretransform", format!("item {i} is moved although centring is off"));
        }
        if sc.center {
            let c = geo::centroid(&pts(&it.shape));
            let s = geo::bbox(&json_pts(&ji.shape)).max_abs();
            if c[0].hypot(c[1]) > 1e-3 * s {
                return bad("pretransform", format!("item {i} is not centred: centroid {c:?}"));
            }
        }
    }
    let total: usize = j.items.iter().map(|i| i.demand as usize).sum();
    if inst.total_item_qty() != total {
        return bad("demand", format!("total demand {}, {total} in the input", inst.total_item_qty()));
    }
    match (inst, &j.bins, &j.strip) {
        (Instance::SP(s), None, Some(js)) => {
            if s.strip_height != js.height {
                return bad("strip", format!("strip height {} instead of {}", s.strip_height, js.height));
            }
        }
        (Instance::BP(b), Some(jb), None) => {
            if b.bins.len() != jb.len() {
                return bad("bins", format!("{} bins parsed, {} in the input", b.bins.len(), jb.len()));
            }
            for (i, ((bin, stock), jbin)) in b.bins.iter().zip(jb).enumerate() {
                if bin.id != i {
                    return bad("bin-id", format!("bin {i} has id {}", bin.id));
                }
                if bin.value != jbin.cost {
                    return bad("cost", format!("bin {i}: cost {}, {} in the input", bin.value, jbin.cost));
                }
                let want = jbin.stock.map_or(usize::MAX, |s| s as usize);
                if *stock != want {
                    return bad("stock", format!("bin {i}: stock {stock}, {:?} in the input", jbin.stock));
                }
                let simpl = if matches!(jbin.shape, JsonShape::Rectangle { .. }) { None } else { sc.simpl };
                same_shape(&format!("bin {i}"), &bin.outer, &bin.pretransform, &json_pts(&jbin.shape), simpl, Mode::Deflate)?;
                let holes: Vec<Vec<geo::P>> = match &jbin.shape {
                    JsonShape::Polygon(p) => p.inner.iter().map(sp_pts).collect(),
                    _ => vec![],
                };
                if bin.holes.len() != holes.len() {
                    return bad("holes", format!("bin {i}: {} holes, {} in the input", bin.holes.len(), holes.len()));
                }
                for (k, (h, w)) in bin.holes.iter().zip(&holes).enumerate() {
                    same_shape(&format!("bin {i} hole {k}"), h, &bin.pretransform, w, sc.simpl, Mode::Inflate)?;
                }
                let area = geo::area(&pts(&bin.outer)).abs() - bin.holes.iter().map(|h| geo::area(&pts(h)).abs()).sum::<f64>();
                if !close(bin.area as f64, area, 1e-3) {
                    return bad("bin-area", format!("bin {i}: area {}, contour and holes give {area}", bin.area));
                }
                for q in 0..10 {
                    let want: Vec<&JsonQualityZone> = jbin.zones.iter().filter(|z| z.quality == q).collect();
                    let got = bin.quality_zones[q].as_ref();
                    if got.map_or(0, |z| z.zones.len()) != want.len() || got.map_or(q, |z| z.quality) != q {
                        return bad("zones", format!("bin {i}: {} zones of quality {q}, {} in the input", got.map_or(0, |z| z.zones.len()), want.len()));
                    }
                    for (k, w) in want.iter().enumerate() {
                        same_shape(&format!("bin {i} zone {q}/{k}"), &got.unwrap().zones[k], &bin.pretransform, &json_pts(&w.shape), sc.simpl, Mode::Inflate)?;
                    }
                }
            }
        }
        _ => return bad("kind", "bin and strip packing mixed up".into()),
    }
    Ok(())
}

fn show(i: &Instance) -> String {
    format!("{i:?}")
}

fn play10(c: &PCase, cov: &mut Cov) -> (Option<Viol>, Stats, u64) {
    let sc = pscen(c.seed);
    let p = Parser::new(simpl_cfg(&sc), sc.cde, sc.center);
    let mut st_all = Stats::default();
    let mut h = 0;
    rayon_core::sim_set_num_threads(1);
    let r = caught(|| {
        let base = p.parse(&sc.json);
        faithful(&sc, &base)?;
        let want = show(&base);
        h = hash_str(&want);
        for (seed, n, gap, cold) in &c.scheds {
            let dec = c.decisions.as_ref().map(|d| d.iter().map(|(a, p)| Decision { after: *a, pick: *p }).collect());
            let sch = Sched::new(*seed, *gap, *cold, dec);
            let got = sch.enter(|| {
                rayon_core::sim_set_num_threads(*n);
                p.parse(&sc.json)
            });
            let st = sch.stats();
            cov.add("fault.thread_switch", st.switches);
            cov.add("lock.contended", st.blocks);
            cov.add("sched.yields", st.yields);
            cov.add(&format!("sched.max_live.{}", st.max_live), 1);
            if st.free_run {
                cov.hit("sched.free_run");
            }
            h = mix(h, st.schedule_hash);
            st_all = st;
            if show(&got) != want {
                return bad("schedule-dependent", format!("parsing gives another instance under schedule {seed} with {n} threads"));
            }
        }
        Ok(())
    });
    rayon_core::sim_set_num_threads(0);
    (r.err(), st_all, h)
}

// ---------------------------------------------------------------------------------------------

fn out(id: &str, seed: u64, v: Option<Viol>, st: Stats, h: u64, cov: Cov, case: Value) -> RunOut {
    let mut o = RunOut { steps: st.yields, evh: h, inter: st.schedule_hash ^ seed, states: vec![h], cov, ..Default::default() };
    if let Some(v) = v {
        o.viol = Some((v, json!({"prop": id, "seed": seed, "case": case})));
    }
    o
}

pub fn run(id: &str, seed: u64) -> RunOut {
    let mut cov = Cov::default();
    if id == "C09" {
        let c = gen_case(seed);
        let (v, st, h) = play9(&c, &mut cov);
        out(id, seed, v, st, h, cov, serde_json::to_value(&c).unwrap())
    } else {
        let c = pcase(seed);
        let (v, st, h) = play10(&c, &mut cov);
        out(id, seed, v, st, h, cov, serde_json::to_value(&c).unwrap())
    }
}

pub fn replay(id: &str, rep: &Value) -> Option<Viol> {
    let mut cov = Cov::default();
    if id == "C09" {
        play9(&serde_json::from_value(rep["case"].clone()).ok()?, &mut cov).0
    } else {
        play10(&serde_json::from_value(rep["case"].clone()).ok()?, &mut cov).0
    }
}

/// freezes the schedule as an explicit list of preemptions, then shortens it: fewer of them, and
/// each one dropped that the failure does not need
fn freeze<C: Clone>(
    c: &mut C,
    fails: &dyn Fn(&C) -> Option<Stats>,
    set: &dyn Fn(&mut C, Option<Vec<(u32, u32)>>),
    get: &dyn Fn(&C) -> Option<Vec<(u32, u32)>>,
    late: &dyn Fn() -> bool,
) {
    let Some(st) = fails(c) else { return };
    if st.decisions.len() >= 8000 {
        return;
    }
    let mut d = c.clone();
    set(&mut d, Some(st.decisions.iter().map(|x| (x.after, x.pick)).collect()));
    if fails(&d).is_none() {
        return;
    }
    *c = d;
    let mut step = get(c).unwrap().len() / 2;
    while step > 0 && !late() {
        let mut l = get(c).unwrap();
        l.truncate(l.len().saturating_sub(step));
        let mut d = c.clone();
        set(&mut d, Some(l));
        if fails(&d).is_some() {
            *c = d;
        } else {
            step /= 2;
        }
    }
    // merge neighbouring preemptions (the holder runs on instead)
    let mut chunk = (get(c).unwrap().len() / 2).max(1);
    loop {
        let mut i = 0;
        while i + chunk < get(c).unwrap().len() && !late() {
            let mut l = get(c).unwrap();
            let gone: Vec<_> = l.drain(i..i + chunk).collect();
            l[i].0 = l[i].0.saturating_add(gone.iter().map(|g| g.0).fold(0u32, |a, b| a.saturating_add(b)));
            let mut d = c.clone();
            set(&mut d, Some(l));
            if fails(&d).is_some() {
                *c = d;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 || late() {
            break;
        }
        chunk /= 2;
    }
}

pub fn minimise(id: &str, v: &Viol, rep: &Value) -> Value {
    let t0 = std::time::Instant::now();
    let late = || t0.elapsed().as_secs() > 60;
    let wrap = |c: Value| json!({"prop": id, "seed": rep["seed"], "case": c});
    if id == "C10" {
        let Ok(mut c) = serde_json::from_value::<PCase>(rep["case"].clone()) else { return rep.clone() };
        let play = |c: &PCase| {
            let (x, st, _) = crate::run::fresh_thread(c.seed, || play10(c, &mut Cov::default()));
            matches!(x, Some(x) if x.class == v.class).then_some(st)
        };
        let fails = |c: &PCase| play(c).is_some();
        while c.scheds.len() > 0 && !late() {
            let mut d = c.clone();
            d.scheds.remove(0);
            if !fails(&d) {
                d = c.clone();
                d.scheds.pop();
                if !fails(&d) {
                    break;
                }
            }
            c = d;
        }
        if c.scheds.len() == 1 {
            freeze(&mut c, &play, &|c, d| c.decisions = d, &|c| c.decisions.clone(), &late);
        }
        return wrap(serde_json::to_value(&c).unwrap());
    }
    let Ok(mut c) = serde_json::from_value::<Case>(rep["case"].clone()) else { return rep.clone() };
    let fails = |c: &Case| {
        let (x, st, _) = crate::run::fresh_thread(c.seed, || play9(c, &mut Cov::default()));
        matches!(x, Some(x) if x.class == v.class).then_some(st)
    };
    for i in (0..c.agents.len()).rev() {
        if c.agents.len() > 2 && !late() {
            let mut d = c.clone();
            d.agents.remove(i);
            if fails(&d).is_some() {
                c = d;
            }
        }
    }
    for i in 0..c.agents.len() {
        let mut d = c.clone();
        d.agents[i].lbf = None;
        if !late() && fails(&d).is_some() {
            c = d;
        }
    }
    for list in 0..=c.agents.len() {
        let mut chunk = 8;
        while chunk > 0 {
            let mut i = 0;
            loop {
                let mut d = c.clone();
                let l = if list == 0 { &mut d.pre } else { &mut d.agents[list - 1].ops };
                if i >= l.len() || late() {
                    break;
                }
                let e = (i + chunk).min(l.len());
                l.drain(i..e);
                if fails(&d).is_some() {
                    c = d;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
    }
    freeze(&mut c, &fails, &|c, d| c.decisions = d, &|c| c.decisions.clone(), &late);
    wrap(serde_json::to_value(&c).unwrap())
}


pub fn describe(id: &str, seed: u64) -> Value {
    if id == "C09" {
        let c = gen_case(seed);
        json!({"common_steps": c.pre.len(), "mean_gap": c.gap, "agents": c.agents.iter().map(|a| json!({"steps": a.ops.iter().map(|o| format!("{:?}", o.k)).collect::<Vec<_>>(), "optimiser": a.lbf.is_some(), "dropped": a.drop})).collect::<Vec<_>>()})
    } else {
        serde_json::to_value(pcase(seed)).unwrap()
    }
}
