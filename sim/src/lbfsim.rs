//! The optimiser driven through histories with hostile random streams: feasibility of whatever it
//! produces (C12), progress and termination (C17).
use crate::gen::{self, Kind, Profile, Scenario};
use crate::geo::{self, Rel, P};
use crate::model::*;
use crate::oracle::*;
use crate::par::{json_pts, sp_pts};
use crate::rng::{mix, Rng};
use crate::run::{caught, RunOut};
use crate::world::hash_str;
use jagua_rs::collision_detection::hazard_filter::generate_irrelevant_hazards;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::TransformableFrom;
use jagua_rs::io::json_instance::*;
use jagua_rs::io::json_solution::{JsonContainer, JsonSolution};
use jagua_rs::io::parser::{build_solution_from_json, compose_json_solution};
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::{find_lbf_placement, sample_layout, LBFOptimizer};
use rand::rngs::SmallRng;
use rand::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn handles(id: &str) -> bool {
    matches!(id, "C12" | "C17")
}

/// A random stream the optimiser has no say in. `mode` 0 is ordinary.
pub struct Adv {
    r: Rng,
    mode: u64,
    last: u64,
    pub draws: u64,
    pub limit: u64,
}
pub const STALL: &str = "SIM: no progress";

impl Adv {
    pub fn new(seed: u64, mode: u64) -> Adv {
        Adv { r: Rng::new(seed), mode, last: 0, draws: 0, limit: u64::MAX }
    }
}
impl RngCore for Adv {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        if self.draws > self.limit {
            panic!("{STALL}: {} random numbers drawn", self.draws);
        }
        let x = self.r.u64();
        // every mode keeps some honest draws: rejection sampling needs them to terminate
        let odd = match self.mode % 8 {
            0 => 0.0,
            1 | 4 => 0.3,
            2 | 5 => 0.8,
            3 => 0.95,
            6 => 0.5,
            _ => 0.02,
        };
        let x = if self.r.chance(odd) {
            match self.mode % 8 {
                1 | 2 => 0,
                3 => *self.r.pick(&[0, u64::MAX]),
                4 | 5 => u64::MAX,
                6 => self.last,
                _ => *self.r.pick(&[0, u64::MAX, 1 << 63, u32::MAX as u64]),
            }
        } else {
            x
        };
        self.last = x;
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum K {
    /// run the optimiser to the end on the current problem
    Solve,
    /// place up to n copies with a hostile random stream
    Fill,
    /// one sample_layout call whose result is thrown away
    Probe,
    Remove,
    RemoveLayout,
    Save,
    Restore,
    Reload,
    /// replace the problem by a clone
    Clone,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Ph {
    k: K,
    a: u64,
    b: u64,
}
#[derive(Clone, Serialize, Deserialize)]
struct Case {
    seed: u64,
    ph: Vec<Ph>,
    /// the whole command line program instead of library calls
    cli: bool,
}

fn gen_case(id: &str, seed: u64) -> Case {
    let mut r = Rng::new(mix(seed, 51));
    let n = 1 + r.below(7);
    let mut ph: Vec<Ph> = (0..n)
        .map(|_| {
            let k = [K::Solve, K::Fill, K::Probe, K::Remove, K::RemoveLayout, K::Save, K::Restore, K::Reload, K::Clone][r.weighted(if id == "C17" {
                &[4, 8, 3, 5, 1, 1, 1, 1, 1]
            } else {
                &[4, 7, 0, 7, 1, 2, 2, 2, 1]
            })];
            Ph { k, a: r.u64(), b: r.u64() }
        })
        .collect();
    if r.chance(0.7) {
        ph.push(Ph { k: K::Solve, a: r.u64(), b: r.u64() });
    }
    Case { seed, ph, cli: false }
}

fn scenario(id: &str, seed: u64) -> (Scenario, LBFConfig) {
    let mut r = Rng::new(mix(seed, 52));
    let pr = Profile {
        kind: Kind::Any,
        must_fit: true,
        allow_no_hpg: false,
        max_types: *r.pick(&[1, 2, 4, 6]),
        max_demand: *r.pick(&[1, 3, 6]),
        big_grids: r.chance(0.3),
        continuous: true,
        piers: false,
        wide: r.chance(0.04),
    };
    let mut sc = gen::gen(&mut r, &pr);
    if id == "C17" && r.chance(0.5) {
        // shapes whose inscribed circle touches the bounding box, positions on cell corners
        for it in sc.json.items.iter_mut() {
            if r.chance(0.6) {
                let s = geo::bbox(&json_pts(&it.shape)).w() as fsize;
                it.shape = JsonShape::Rectangle { width: s, height: if r.chance(0.7) { s } else { s * 0.5 } };
            }
        }
    }
    if let Some(st) = sc.json.strip.as_mut() {
        if id == "C17" && r.chance(0.15) {
            // far taller than the items: the strip starts out much too narrow
            let top = if r.chance(0.15) { 20.0 } else { 7.0 };
            st.height *= r.range(2.0, top) as fsize;
        }
    }
    let mut tight = false;
    if let Some(bins) = sc.json.bins.as_mut() {
        if id == "C17" && r.chance(0.12) {
            // several single bins and more large items than they hold: small ones have to fill the gaps
            tight = true;
            let n = 2 + r.below(4);
            while bins.len() < n {
                let again = bins[r.below(bins.len())].clone();
                bins.push(again);
            }
            bins.iter_mut().for_each(|b| b.stock = Some(1));
            let bb = geo::bbox(&json_pts(&bins[0].shape));
            let s = (bb.w().min(bb.h()) * r.range(0.45, 0.7)) as fsize;
            let big = r.below(sc.json.items.len());
            sc.json.items[big].shape = JsonShape::Rectangle { width: s, height: s };
            sc.json.items[big].demand = 6 + r.below(10) as u64;
        }
    }
    let strip = sc.json.strip.is_some();
    let cfg = LBFConfig {
        cde_config: sc.cde,
        poly_simpl_tolerance: sc.simpl,
        prng_seed: None,
        n_samples: if strip { *r.pick(&[20, 60, 200, 600]) } else if tight { *r.pick(&[200, 600, 1500]) } else { *r.pick(&[1, 3, 20, 100, 400, 1500]) },
        ls_frac: *r.pick(&[0.0f32, 0.1, 0.2, 0.5, 0.8]),
        ..Default::default()
    };
    (sc, cfg)
}

// ---------------------------------------------------------------------------------------------
// C12: the file, judged against the raw input

fn raw_container(j: &JsonInstance, c: &JsonContainer) -> (Option<Vec<P>>, Vec<Vec<P>>, Vec<(usize, Vec<P>)>) {
    match (c, &j.bins) {
        (JsonContainer::Bin { index }, Some(b)) if *index < b.len() => {
            let b = &b[*index];
            let holes = match &b.shape {
                JsonShape::Polygon(p) => p.inner.iter().map(sp_pts).collect(),
                _ => vec![],
            };
            (Some(json_pts(&b.shape)), holes, b.zones.iter().map(|z| (z.quality, json_pts(&z.shape))).collect())
        }
        _ => (None, vec![], vec![]),
    }
}

pub fn feasible(js: &JsonSolution, sc: &Scenario, cov: &mut Cov) -> Res {
    let j = &sc.json;
    let mut placed = vec![0u64; j.items.len()];
    let mut used = vec![0u64; j.bins.as_ref().map_or(0, |b| b.len())];
    if j.strip.is_some() && js.layouts.len() != 1 {
        return bad("layouts", format!("{} layouts for a strip", js.layouts.len()));
    }
    for (li, l) in js.layouts.iter().enumerate() {
        let (outer, holes, zones) = raw_container(j, &l.container);
        match (&l.container, &j.strip) {
            (JsonContainer::Bin { index }, None) if *index < used.len() => used[*index] += 1,
            (JsonContainer::Strip { .. }, Some(_)) => {}
            _ => return bad("container", format!("layout {li}: unknown container")),
        }
        let mut world: Vec<(usize, Vec<P>, geo::BB, f64)> = vec![];
        for p in &l.placed_items {
            let Some(it) = j.items.get(p.index) else {
                return bad("item", format!("layout {li}: unknown item {}", p.index));
            };
            placed[p.index] += 1;
            let rot = p.transformation.rotation as f64;
            let raw = json_pts(&it.shape);
            let w = geo::rot_tr(&raw, rot, [p.transformation.translation.0 as f64, p.transformation.translation.1 as f64]);
            if let Some(v) = &it.allowed_orientations {
                let full = std::f64::consts::TAU;
                let near = |a: f64| {
                    let d = (rot - a.to_radians()).rem_euclid(full);
                    d.min(full - d) < 1e-4
                };
                let ok = if v.is_empty() { near(0.0) } else { v.iter().any(|a| near(*a as f64)) };
                if !ok {
                    return bad("rotation", format!("item {} placed at {} degrees, allowed {v:?}", p.index, rot.to_degrees()));
                }
                cov.hit("c12.rotation");
            }
            let b = geo::bbox(&w);
            let tol = FUZZ * b.max_abs().max(geo::bbox(&raw).max_abs());
            world.push((p.index, w, b, tol));
        }
        for (n, (id, w, b, tol)) in world.iter().enumerate() {
            match &outer {
                Some(o) => {
                    let tol = tol.max(FUZZ * geo::bbox(o).max_abs());
                    cov.hit("c12.container");
                    if geo::leaves(w, o, tol) == Rel::Yes {
                        return bad("outside", format!("layout {li}: item {id} lies partly outside the bin"));
                    }
                    for h in &holes {
                        cov.hit("c12.hole");
                        if geo::overlap(w, h, tol) == Rel::Yes {
                            return bad("hole", format!("layout {li}: item {id} lies on a hole"));
                        }
                    }
                    for (q, z) in &zones {
                        let applies = j.items[*id].base_quality.map_or(true, |bq| *q < bq);
                        cov.hit(if applies { "c12.zone" } else { "c12.zone_ok" });
                        if applies && geo::overlap(w, z, tol) == Rel::Yes {
                            return bad("zone", format!("layout {li}: item {id} (quality {:?}) lies on a zone of quality {q}", j.items[*id].base_quality));
                        }
                    }
                }
                None => {
                    let h = j.strip.as_ref().unwrap().height as f64;
                    if b.y0 < -tol || b.y1 > h + tol.max(FUZZ * h) {
                        return bad("outside", format!("item {id} reaches from {} to {} in a strip of height {h}", b.y0, b.y1));
                    }
                }
            }
            for (id2, w2, _, tol2) in &world[..n] {
                cov.hit("c12.pair");
                if geo::overlap(w, w2, tol.max(*tol2)) == Rel::Yes {
                    return bad("overlap", format!("layout {li}: items {id} and {id2} overlap"));
                }
            }
        }
        if let JsonContainer::Strip { width, height } = &l.container {
            if world.len() > 0 {
                let x0 = world.iter().map(|w| w.2.x0).fold(f64::INFINITY, f64::min);
                let x1 = world.iter().map(|w| w.2.x1).fold(f64::NEG_INFINITY, f64::max);
                let tol = world.iter().map(|w| w.3).fold(0.0, f64::max);
                if x1 - x0 > *width as f64 + 2.0 * tol {
                    return bad("outside", format!("items span {} in a strip of width {width}", x1 - x0));
                }
            }
            if !close(*height as f64, j.strip.as_ref().unwrap().height as f64, 1e-6) {
                return bad("container", format!("strip height {height}"));
            }
        }
    }
    for (i, n) in placed.iter().enumerate() {
        if *n > j.items[i].demand {
            return bad("demand", format!("item {i} placed {n} times, demand {}", j.items[i].demand));
        }
    }
    for (i, n) in used.iter().enumerate() {
        let st = j.bins.as_ref().unwrap()[i].stock;
        if st.map_or(false, |s| *n > s) {
            return bad("stock", format!("bin type {i} used {n} times, stock {st:?}"));
        }
    }
    Ok(())
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()).max(1e-9)
}

// ---------------------------------------------------------------------------------------------

struct Sim {
    c17: bool,
    sc: Scenario,
    inst: Instance,
    cfg: LBFConfig,
    /// one optimiser for the whole history
    opt: LBFOptimizer,
    p: Problem,
    saved: Vec<Solution>,
    cov: Cov,
    h: u64,
    steps: u64,
}

fn small_rng(a: u64, b: u64) -> SmallRng {
    match b % 6 {
        // sparse states produce long runs of extreme numbers
        0 => {
            let mut s = <SmallRng as SeedableRng>::Seed::default();
            s[(a % 32) as usize] = 1 << (b / 8 % 8);
            SmallRng::from_seed(s)
        }
        1 => SmallRng::from_seed([0xff; 32]),
        _ => SmallRng::seed_from_u64(a),
    }
}

impl Sim {
    fn new(id: &str, seed: u64) -> Sim {
        let (sc, cfg) = scenario(id, seed);
        let inst = parser(&sc).parse(&sc.json);
        let opt = LBFOptimizer::new(inst.clone(), cfg, SmallRng::seed_from_u64(0));
        let p = opt.problem.clone();
        Sim { c17: id == "C17", sc, inst, cfg, opt, p, saved: vec![], cov: Cov::default(), h: 0, steps: 0 }
    }

    fn uni(&self) -> usize {
        self.cfg.n_samples - (self.cfg.n_samples as f32 * self.cfg.ls_frac) as usize
    }

    fn judge(&mut self, sol: &Solution) -> Res {
        let js = compose_json_solution(sol, &self.inst, std::time::Instant::now());
        self.h = mix(self.h, hash_str(&serde_json::to_string(&js.layouts).unwrap_or_default()));
        if self.c17 {
            return Ok(());
        }
        // what is written is what is judged
        let text = serde_json::to_string(&js.layouts).unwrap();
        let layouts = serde_json::from_str(&text).unwrap();
        feasible(&JsonSolution { layouts, ..js }, &self.sc, &mut self.cov)
    }

    fn searchable(&self) -> usize {
        self.p.layout_indices().count() + self.p.template_layout_indices_with_stock().count()
    }

    /// extent of the internal shapes, in f64
    fn occupied(&self) -> Option<(f64, f64)> {
        let l = &self.p.layouts()[0];
        let mut r: Option<(f64, f64)> = None;
        for p in l.placed_items().values() {
            let (rot, t) = dt_parts(&p.d_transf);
            let b = geo::bbox(&geo::rot_tr(&pts(&self.inst.item(p.item_id).shape), rot, t));
            r = Some(r.map_or((b.x0, b.x1), |(a, c)| (a.min(b.x0), c.max(b.x1))));
        }
        r
    }

    fn solve(&mut self, a: u64, b: u64) -> Res {
        self.p.flush_changes();
        if matches!(self.p, Problem::SP(_)) && self.inst.total_item_qty() == 0 {
            return Ok(());
        }
        let o = &mut self.opt;
        o.problem = self.p.clone();
        o.rng = small_rng(a, b);
        o.sample_counter = 0;
        let sol = o.solve();
        let spent = o.sample_counter;
        self.p = o.problem.clone();
        self.steps += spent as u64;
        self.cov.hit("solve");
        self.cov.add("samples", spent as u64);
        if self.c17 {
            let missing: Vec<isize> = self.p.missing_item_qtys().to_vec();
            match &self.p {
                Problem::SP(sp) => {
                    if missing.iter().any(|m| *m > 0) {
                        return bad("demand", format!("the optimiser stopped with {missing:?} items missing"));
                    }
                    if let Some((x0, x1)) = self.occupied() {
                        let l = &sol.layout_snapshots[0];
                        let bb = geo::bbox(&pts(&l.bin.outer));
                        let tol = FUZZ * bb.max_abs().max(x1.abs()).max(x0.abs());
                        let (w, occ) = (sp.strip_width() as f64, x1 - x0);
                        let sw = bb.w();
                        for w in [w, sw] {
                            if w < occ - tol || w > occ * 1.001 + tol {
                                return bad("strip-width", format!("strip width {w}, items occupy {occ}"));
                            }
                        }
                        self.cov.hit("c17.strip");
                    }
                }
                Problem::BP(_) => {
                    for id in 0..missing.len() {
                        if missing[id] > 0 {
                            self.cov.hit("c17.left_out");
                            self.left_out(id, mix(a, id as u64))?;
                        }
                    }
                    let n: usize = self.inst.total_item_qty();
                    let cap = (n + self.inst.items().len()) * (n + self.sc.json.bins.as_ref().unwrap().len());
                    if spent > cap * self.cfg.n_samples {
                        return bad("budget", format!("{spent} samples spent"));
                    }
                }
            }
            if missing.iter().any(|m| *m < 0) {
                self.cov.hit("c17.over");
            }
        }
        self.judge(&sol)
    }

    /// an item was left out although bins are open or in stock: was there really no room to be found?
    fn left_out(&mut self, id: usize, seed: u64) -> Res {
        let item = self.inst.item(id);
        let uni = self.uni();
        // 1. a twentieth of the budget finds a place in each of 40 fresh streams
        if uni >= 20 {
            let cfg = LBFConfig { n_samples: uni / 20, ls_frac: 0.0, ..self.cfg };
            let hit = (0..40u64).take_while(|k| find_lbf_placement(&self.p, item, &cfg, &mut SmallRng::seed_from_u64(mix(seed, *k)), &mut 0).is_some()).count();
            if hit == 40 {
                return bad("left-out", format!("item {id} was left out, but a twentieth of the sample budget finds a place in 40 of 40 attempts"));
            }
            self.cov.hit(&format!("c17.retry.{}", (hit + 9) / 10));
        }
        // 2. plain uniform sampling finds so many places that the budget cannot have missed them all
        let cells: Vec<LayoutIndex> = self.p.layout_indices().chain((0..self.p.template_layouts().len()).map(LayoutIndex::Template)).collect();
        for idx in cells {
            if let (LayoutIndex::Template(i), Problem::BP(bp)) = (&idx, &self.p) {
                // stock re-derived from the input, not from the problem's own books
                let t = self.p.template_layouts()[*i].bin.id;
                let used = bp.layouts().iter().filter(|l| l.bin.id == t).count() as u64;
                if self.sc.json.bins.as_ref().unwrap()[t].stock.map_or(false, |s| used >= s) {
                    continue;
                }
            }
            let l = self.p.get_layout(idx);
            let irr = match &item.hazard_filter {
                None => vec![],
                Some(f) => generate_irrelevant_hazards(f, l.cde().all_hazards()),
            };
            let bb = geo::bbox(&pts(&l.bin.outer));
            let poi = [item.shape.poi.center.0 as f64, item.shape.poi.center.1 as f64];
            let mut r = Rng::new(mix(seed, 99));
            let mut buf = (*item.shape).clone();
            let mut ok = 0;
            const N: usize = 300;
            for _ in 0..N {
                let rot = match &self.sc.json.items[id].allowed_orientations {
                    None => r.range(0.0, std::f64::consts::TAU),
                    Some(v) if v.is_empty() => 0.0,
                    Some(v) => (*r.pick(v) as f64).to_radians(),
                };
                let c = [r.range(bb.x0, bb.x1), r.range(bb.y0, bb.y1)];
                let q = geo::rot_pt(poi, rot, [0.0, 0.0]);
                let d = DTransformation::new(rot as fsize, ((c[0] - q[0]) as fsize, (c[1] - q[1]) as fsize));
                buf.transform_from(&item.shape, &d.compose());
                if !l.cde().poly_collides(&buf, &irr) {
                    ok += 1;
                }
            }
            let q = ok as f64 / N as f64;
            // cells are drawn uniformly and may stick out of the container: at most a factor 4
            if (q - 0.1) * uni as f64 / 4.0 >= 40.0 {
                return bad("left-out", format!("item {id} was left out although {:.0}% of all positions in {idx:?} are free", q * 100.0));
            }
        }
        Ok(())
    }

    fn fill(&mut self, a: u64, b: u64) -> Res {
        let mut r = Rng::new(a);
        let n = 1 + r.below(12);
        self.p.flush_changes();
        let mut grown = 0;
        for k in 0..n {
            let miss: Vec<usize> = self.p.missing_item_qtys().iter().enumerate().filter(|(_, m)| **m > 0).map(|(i, _)| i).collect();
            if miss.is_empty() {
                break;
            }
            let id = *r.pick(&miss);
            let item = self.inst.item(id);
            let mode = if b % 5 == 0 { 0 } else { b / 5 };
            let mut rng = Adv::new(mix(a, k as u64), mode);
            self.cov.hit(&format!("fault.rng{}", mode % 8));
            let cap = self.searchable() * self.cfg.n_samples;
            rng.limit = if mode % 8 == 0 { cap as u64 * 40 + 4000 } else { cap as u64 * 4000 + 400_000 };
            let mut cnt = 0;
            let r0 = find_lbf_placement(&self.p, item, &self.cfg, &mut rng, &mut cnt);
            self.steps += rng.draws;
            self.cov.add("samples", cnt as u64);
            self.h = mix(self.h, cnt as u64);
            if self.c17 {
                if cnt > cap {
                    return bad("budget", format!("{cnt} samples spent on one item, budget {} for each of {} layouts", self.cfg.n_samples, self.searchable()));
                }
                let per = rng.draws as f64 / cap.max(1) as f64;
                self.cov.hit(&format!("c17.draws_per_sample.{}", per.ceil().min(20.0)));
                // a sample takes at most four numbers plus what rejection costs
                if mode % 8 == 0 && rng.draws > 10 * cap as u64 + 400 {
                    return bad("budget", format!("{} random numbers drawn for a budget of {cap} samples", rng.draws));
                }
            }
            match r0 {
                Some(o) => {
                    if o.item_id != id {
                        return bad("item", format!("asked for item {id}, got a place for item {}", o.item_id));
                    }
                    self.p.place_item(o);
                    self.cov.hit("fill.placed");
                }
                None => {
                    self.cov.hit("fill.none");
                    if let Problem::SP(sp) = &mut self.p {
                        grown += 1;
                        if grown < 4 {
                            let w = sp.strip_width() * 1.1;
                            sp.modify_strip_in_back(w);
                        }
                    }
                }
            }
        }
        let s = self.p.create_solution(None);
        self.judge(&s)
    }

    fn step(&mut self, ph: &Ph) -> Res {
        self.cov.hit(&format!("op.{:?}", ph.k));
        let mut r = Rng::new(ph.b);
        match ph.k {
            K::Solve => self.solve(ph.a, ph.b)?,
            K::Fill => self.fill(ph.a, ph.b)?,
            K::Probe => {
                self.p.flush_changes();
                let all: Vec<LayoutIndex> = self.p.layout_indices().chain(self.p.template_layout_indices_with_stock()).collect();
                if all.is_empty() {
                    return Ok(());
                }
                let li = *r.pick(&all);
                let id = r.below(self.inst.items().len());
                let mut rng = Adv::new(ph.a, ph.b >> 8);
                rng.limit = self.cfg.n_samples as u64 * 4000 + 400_000;
                let mut cnt = 7;
                let _ = sample_layout(&self.p, li, self.inst.item(id), &self.cfg, &mut rng, &mut cnt);
                self.cov.hit("c17.probe");
                self.steps += rng.draws;
                self.h = mix(self.h, cnt as u64);
                if self.c17 && (cnt < 7 || cnt - 7 > self.cfg.n_samples) {
                    return bad("budget", format!("{} samples spent in one layout, budget {}", cnt as i64 - 7, self.cfg.n_samples));
                }
            }
            K::Remove => {
                let n = 1 + r.below(6);
                for _ in 0..n {
                    let all: Vec<(usize, _)> = self.p.layouts().iter().enumerate().flat_map(|(i, l)| l.placed_items().keys().map(move |k| (i, k))).collect();
                    if all.is_empty() {
                        break;
                    }
                    let (i, k) = all[r.below(all.len())];
                    self.p.remove_item(LayoutIndex::Real(i), k, r.chance(0.5));
                }
                if r.chance(0.7) {
                    self.p.flush_changes();
                }
            }
            K::RemoveLayout => {
                if let Problem::BP(bp) = &mut self.p {
                    if !bp.layouts().is_empty() {
                        let i = r.below(bp.layouts().len());
                        bp.remove_layout(LayoutIndex::Real(i));
                    }
                }
            }
            K::Save => {
                let s = self.p.create_solution(None);
                self.judge(&s)?;
                self.saved.push(s);
            }
            K::Restore => {
                if !self.saved.is_empty() {
                    let i = r.below(self.saved.len());
                    self.p.restore_to_solution(&self.saved[i]);
                    let s = self.p.create_solution(None);
                    self.judge(&s)?;
                }
            }
            K::Reload => {
                if let (Problem::BP(_), Instance::BP(bi)) = (&self.p, &self.inst) {
                    // restart from the file
                    let s = self.p.create_solution(None);
                    let js = compose_json_solution(&s, &self.inst, std::time::Instant::now());
                    let sol = build_solution_from_json(&self.inst, &js.layouts, self.sc.cde);
                    let mut p: Problem = BPProblem::new(bi.clone()).into();
                    p.restore_to_solution(&sol);
                    self.p = p;
                    self.saved.clear();
                    self.cov.hit("fault.restart");
                }
            }
            K::Clone => self.p = self.p.clone(),
        }
        Ok(())
    }
}

/// what the shipped program writes, with and without a seed in the configuration
fn shipped(seed: u64, cov: &mut Cov) -> Res {
    let mut r = Rng::new(mix(seed, 53));
    let mut s = crate::cli::setup(seed);
    if r.chance(0.6) {
        let mut v: Value = serde_json::from_str(&s.cfg_text).unwrap();
        v["prng_seed"] = Value::Null;
        s.cfg_text = v.to_string();
        cov.hit("fault.entropy");
    }
    let mut e = crate::cli::plain();
    e.seed = r.u64();
    e.sched = r.u64();
    e.threads = *r.pick(&[1, 4, 16]);
    let (o, f) = crate::cli::undisturbed(&s, &e);
    if o.code != 0 {
        cov.hit("shipped.failed");
        return Ok(());
    }
    let Some(js) = f.get("sol_inst.json").and_then(|b| serde_json::from_slice::<Value>(b).ok()).and_then(|v| serde_json::from_value::<JsonSolution>(v["Solution"].clone()).ok()) else {
        cov.hit("shipped.unreadable");
        return Ok(());
    };
    cov.hit("shipped.judged");
    feasible(&js, &s.sc, cov)
}

fn play(id: &str, c: &Case) -> (Option<(usize, Viol)>, Sim) {
    if c.cli {
        let mut s = Sim::new(id, c.seed);
        let mut cov = Cov::default();
        let r = caught(|| shipped(c.seed, &mut cov));
        s.cov = cov;
        return (r.err().map(|v| (0, v)), s);
    }
    let mut s = Sim::new(id, c.seed);
    for (i, ph) in c.ph.iter().enumerate() {
        let r = caught(|| s.step(ph));
        if let Err(mut v) = r {
            if v.class == "panic" && v.msg.contains(STALL) {
                v.class = "no-progress";
            }
            return (Some((i, v)), s);
        }
    }
    (None, s)
}

fn rep(id: &str, c: &Case) -> Value {
    json!({"prop": id, "seed": c.seed, "case": serde_json::to_value(c).unwrap()})
}

pub fn run(id: &str, seed: u64) -> RunOut {
    let mut c = gen_case(id, seed);
    if id == "C12" && seed % 25 == 0 {
        c.cli = true;
        c.ph.clear();
    }
    let (v, s) = play(id, &c);
    let inter = hash_str(&format!("{:?}", c.ph.iter().map(|p| p.k).collect::<Vec<_>>()));
    let mut o = RunOut { cov: s.cov, inter: mix(inter, s.steps), evh: mix(s.h, s.steps), states: vec![s.h], steps: s.steps, ..Default::default() };
    if let Some((_, v)) = v {
        o.viol = Some((v, rep(id, &c)));
    }
    o
}

pub fn replay(id: &str, r: &Value) -> Option<Viol> {
    let c: Case = serde_json::from_value(r["case"].clone()).ok()?;
    play(id, &c).0.map(|x| x.1)
}

pub fn minimise(id: &str, v: &Viol, r: &Value) -> Value {
    let Ok(mut c) = serde_json::from_value::<Case>(r["case"].clone()) else { return r.clone() };
    let t0 = std::time::Instant::now();
    let fails = |c: &Case| play(id, c).0.filter(|x| x.1.class == v.class).map(|x| x.0);
    if let Some(i) = fails(&c) {
        c.ph.truncate(i + 1);
    }
    let mut i = 0;
    while i < c.ph.len() && t0.elapsed().as_secs() < 60 {
        let mut d = c.clone();
        d.ph.remove(i);
        if fails(&d).is_some() {
            c = d;
        } else {
            i += 1;
        }
    }
    rep(id, &c)
}

pub fn describe(id: &str, seed: u64) -> Value {
    serde_json::to_value(gen_case(id, seed)).unwrap()
}
