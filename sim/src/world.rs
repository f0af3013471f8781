//! The simulated world: optimisation workers on problems, standalone layouts, solutions on the
//! bus, files on the disk. Every step is one `Op` whose raw arguments are resolved against the
//! current state, so any subsequence of a trace is again a valid trace.
use crate::gen::{self, Profile};
use crate::geo::{self, Rel, BB};
use crate::model::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::{occupied_range, SPProblem};
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::io::json_solution::JsonSolution;
use jagua_rs::io::parser::{build_solution_from_json, compose_json_solution};
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::find_lbf_placement;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum K {
    Place,
    Remove,
    Refill,
    RemoveLayout,
    Solve,
    SolveInc,
    Restore,
    Flush,
    Fork,
    Crash,
    Persist,
    Load,
    ReReg,
    StripBack,
    StripFront,
    StripCentered,
    StripRect,
    FitStrip,
    DropSol,
    Lbf,
    LNew,
    LPlace,
    LRemove,
    LFlush,
    LSnap,
    LRestore,
    LFrom,
    LClone,
    LChangeBin,
    LDrop,
    SDrop,
    Burst,
}
pub const KINDS: [K; 32] = [
    K::Place,
    K::Remove,
    K::Refill,
    K::RemoveLayout,
    K::Solve,
    K::SolveInc,
    K::Restore,
    K::Flush,
    K::Fork,
    K::Crash,
    K::Persist,
    K::Load,
    K::ReReg,
    K::StripBack,
    K::StripFront,
    K::StripCentered,
    K::StripRect,
    K::FitStrip,
    K::DropSol,
    K::Lbf,
    K::LNew,
    K::LPlace,
    K::LRemove,
    K::LFlush,
    K::LSnap,
    K::LRestore,
    K::LFrom,
    K::LClone,
    K::LChangeBin,
    K::LDrop,
    K::SDrop,
    K::Burst,
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Op {
    pub k: K,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// seed of the checks made after this step
    pub q: u32,
}

/// what is judged
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C01,
    C02,
    C03,
    C04,
    C05,
    C06,
    C07,
    C08,
    C15,
}

#[derive(Clone)]
pub struct ML {
    pub lm: LM,
    /// removals deferred and not yet flushed
    pub pend: Vec<HazardEntity>,
}

#[derive(Clone)]
pub struct PM {
    pub layouts: Vec<ML>,
    pub missing: Vec<isize>,
    pub stock: Vec<usize>,
}

#[derive(Clone)]
pub struct Worker {
    pub p: Problem,
    pub m: PM,
    /// solution this worker's problem may build on incrementally
    pub ref_uid: Option<u64>,
}

#[derive(Clone)]
pub struct SolRec {
    pub uid: u64,
    pub sol: Solution,
    pub m: PM,
    pub usage: f64,
    pub sig: String,
}

#[derive(Clone)]
pub struct LRec {
    pub l: Layout,
    pub m: ML,
}
#[derive(Clone)]
pub struct SnapRec {
    pub s: LayoutSnapshot,
    pub lm: LM,
    pub usage: fsize,
    pub dbg: u64,
}

/// one version of the saved solution on the simulated disk
#[derive(Clone)]
pub struct DiskRec {
    pub text: String,
    pub torn: bool,
    pub m: PM,
    pub usage: f64,
    pub json: Option<JsonSolution>,
}

pub struct World {
    pub g: Arc<Golden>,
    pub prop: Prop,
    pub shapes: Vec<QShape>,
    pub ws: Vec<Worker>,
    pub pristine: Problem,
    pub pool: Vec<SolRec>,
    pub ls: Vec<LRec>,
    pub snaps: Vec<SnapRec>,
    pub disk: Vec<DiskRec>,
    pub cov: Cov,
    pub states: std::collections::BTreeSet<u64>,
    pub messy: bool,
    pub vary_y: bool,
    pub w0: f64,
    next_uid: u64,
    next_lid: usize,
    lbf_cfg: LBFConfig,
    nq: usize,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn strip_width0(g: &Golden) -> fsize {
    let a: f64 = g.items.iter().map(|i| i.area * i.demand as f64).sum();
    (a * 2.0 / g.strip_h).max(0.4 * g.strip_h) as fsize
}

pub fn new_problem(g: &Golden) -> Problem {
    match &g.inst {
        Instance::BP(b) => BPProblem::new(b.clone()).into(),
        Instance::SP(s) => SPProblem::new(s.clone(), strip_width0(g), g.sc.cde).into(),
    }
}

pub fn probes(r: &mut Rng, g: &Golden) -> Vec<Probe> {
    let s = match &g.twin {
        Instance::BP(b) => b.bins[0].0.outer.bbox().width() as f64,
        Instance::SP(_) => g.strip_h,
    };
    let mk = |p: &[geo::P]| {
        let v: Vec<Point> = p.iter().map(|p| Point(p[0] as fsize, p[1] as fsize)).collect();
        let mut p = SimplePolygon::new(v);
        p.generate_surrogate(g.sc.cde.item_surrogate_config);
        p
    };
    let mut v: Vec<Probe> = [0.02, 0.1, 0.6, 3.5]
        .iter()
        .map(|f| {
            let u = gen::unit_shape(r);
            (mk(&u.iter().map(|p| [p[0] * f * s, p[1] * f * s]).collect::<Vec<_>>()), None)
        })
        .collect();
    // shapes that follow the contour of an item, the container, a hole or a zone at a small distance
    let mut bases: Vec<(Option<usize>, geo::Poly)> = g.items.iter().enumerate().map(|(i, it)| (Some(i), it.pts.clone())).collect();
    if let Instance::BP(b) = &g.twin {
        let b = &b.bins[r.below(b.bins.len())].0;
        bases.extend(bin_hazards(b).into_iter().map(|h| (None, h.poly.to_vec())));
    }
    for _ in 0..2 {
        let (what, mut p) = r.pick(&bases).clone();
        if geo::area(&p) < 0.0 {
            p.reverse();
        }
        let bb = geo::bbox(&p);
        let d = bb.w().min(bb.h()) * r.range(0.02, 0.12) * if r.chance(0.5) { 1.0 } else { -1.0 };
        if let Some(o) = geo::offset(&p, d) {
            v.push((mk(&o), Some(what)));
        }
    }
    v
}

/// Parsed scenario; the expensive ones (with piers) are drawn from a small pool and shared
/// between runs, which changes nothing: they are a pure function of their own seed.
pub struct Scen {
    pub g: Arc<Golden>,
    pub probes: Vec<Probe>,
}

pub fn scen(seed: u64, profile: &Profile) -> Arc<Scen> {
    use std::sync::OnceLock;
    static POOL: std::sync::Mutex<std::collections::BTreeMap<(u64, String), Arc<OnceLock<Arc<Scen>>>>> =
        std::sync::Mutex::new(std::collections::BTreeMap::new());
    let mk = || {
        let mut r = Rng::new(mix(seed, 1));
        let g = Arc::new(Golden::new(gen::gen(&mut r, profile)));
        let probes = probes(&mut r, &g);
        Arc::new(Scen { g, probes })
    };
    if !profile.piers {
        return mk();
    }
    let cell = POOL.lock().unwrap().entry((seed, format!("{profile:?}"))).or_default().clone();
    cell.get_or_init(mk).clone()
}

impl PM {
    fn of_new(p: &Problem, g: &Golden) -> PM {
        PM {
            layouts: p.layouts().iter().map(|l| ML { lm: LM::of(l, g), pend: vec![] }).collect(),
            missing: g.items.iter().map(|i| i.demand as isize).collect(),
            stock: g.stock.clone(),
        }
    }
    fn sigs(&self) -> Vec<String> {
        let mut v: Vec<String> = self.layouts.iter().map(|l| l.lm.keyed_sig()).collect();
        v.sort();
        v
    }
    fn usage(&self, g: &Golden) -> f64 {
        let b: f64 = self.layouts.iter().map(|l| l.lm.bin_area(g)).sum();
        let i: f64 = self.layouts.iter().map(|l| l.lm.item_area(g)).sum();
        if b > 0.0 { i / b } else { 0.0 }
    }
}

pub fn sol_sig(s: &Solution, g: &Golden) -> String {
    let mut v: Vec<String> = s
        .layout_snapshots
        .iter()
        .map(|l| format!("{}:{}:{}", l.id, LM { bin: bin_key(&l.bin, g), items: items_of(&l.placed_items) }.keyed_sig(), l.usage))
        .collect();
    v.push(format!("{} {:?} {:?} {:?}", s.usage, s.placed_item_qtys, s.target_item_qtys, s.bin_qtys));
    v.join("|")
}

fn snap_dbg(s: &LayoutSnapshot) -> u64 {
    hash_str(&format!("{:?}", s.cde_snapshot))
}

impl World {
    pub fn new(prop: Prop, seed: u64, scen: Arc<Scen>, nq: usize) -> World {
        let g = scen.g.clone();
        let mut r2 = Rng::new(mix(seed, 2));
        let pr = scen.probes.clone();
        let p = new_problem(&g);
        let m = PM::of_new(&p, &g);
        let lbf_cfg = LBFConfig {
            cde_config: g.sc.cde,
            poly_simpl_tolerance: g.sc.simpl,
            prng_seed: Some(0),
            n_samples: 60,
            ls_frac: 0.3,
            ..Default::default()
        };
        let shapes = query_shapes(&g, &pr);
        let w0 = strip_width_of(&p);
        World {
            prop,
            shapes,
            ws: vec![Worker { p: p.clone(), m, ref_uid: None }],
            pristine: p,
            pool: vec![],
            ls: vec![],
            snaps: vec![],
            disk: vec![],
            cov: Cov::default(),
            states: Default::default(),
            messy: r2.chance(0.15),
            vary_y: prop == Prop::C08,
            w0,
            next_uid: 1,
            next_lid: 100,
            lbf_cfg,
            nq,
            g,
        }
    }

    /// a clone of everything this world holds (problems, layouts, solutions, snapshots)
    pub fn fork(&self) -> World {
        World {
            g: self.g.clone(),
            prop: self.prop,
            shapes: self.shapes.clone(),
            ws: self.ws.clone(),
            pristine: self.pristine.clone(),
            pool: self.pool.clone(),
            ls: self.ls.clone(),
            snaps: self.snaps.clone(),
            disk: self.disk.clone(),
            cov: Cov::default(),
            states: Default::default(),
            messy: self.messy,
            vary_y: self.vary_y,
            w0: self.w0,
            next_uid: self.next_uid,
            next_lid: self.next_lid,
            lbf_cfg: self.lbf_cfg,
            nq: self.nq,
        }
    }

    /// what an observer of this world's own problems and layouts sees, without any identifiers
    pub fn observe(&mut self, seed: u64) -> u64 {
        let mut r = Rng::new(seed);
        let mut h = 0u64;
        let mut lays: Vec<&Layout> = vec![];
        for w in &mut self.ws {
            let m = format!("{:?}", w.p.missing_item_qtys());
            h = mix(h, hash_str(&format!("{m}{:?}{}", w.p.placed_item_qtys().collect::<Vec<_>>(), w.p.usage())));
        }
        for w in &self.ws {
            lays.extend(w.p.layouts());
        }
        lays.extend(self.ls.iter().map(|x| &x.l));
        for l in lays {
            h = mix(h, hash_str(&LM::of(l, &self.g).keyed_sig()));
            h = mix(h, hash_str(&format!("{}", l.usage())));
            let v = View::of(l, &self.g);
            for _ in 0..2 {
                let q = gen_query(&mut r, &v, &self.g, &self.shapes);
                let mut buf = (*q.s.shape).clone();
                let a = l.cde().surrogate_or_poly_collides(&q.s.shape, &q.dt.compose(), &mut buf, &q.ignore);
                let mut det = vec![];
                use jagua_rs::geometry::geo_traits::TransformableFrom;
                buf.transform_from(&q.s.shape, &q.dt.compose());
                l.cde().collect_poly_collisions(&buf, &q.ignore, &mut det);
                let mut d: Vec<String> = det.iter().map(|e| format!("{e:?}")).collect();
                d.sort();
                h = mix(h, hash_str(&format!("{a}{d:?}")));
            }
            if self.g.sc.cde.hpg_n_cells == 0 {
                continue;
            }
            if let Ok(hpg) = l.cde().haz_prox_grid() {
                let mut k = 0u64;
                for c in hpg.grid.cells.iter().flatten() {
                    for q in [None, Some(0usize), Some(5), Some(10)] {
                        k = k.wrapping_mul(31).wrapping_add(c.hazard_proximity(q).to_bits() as u64);
                    }
                }
                h = mix(h, k);
            }
        }
        h
    }

    fn bin_for(&self, a: u32) -> Bin {
        match &self.g.inst {
            Instance::BP(b) => b.bins[a as usize % b.bins.len()].0.clone(),
            Instance::SP(_) => {
                let w = (self.w0 * (0.5 + 0.25 * (a % 7) as f64)) as fsize;
                // also strips of one size in several places
                let x = (self.w0 * [0.0, 0.0, 0.25, -0.5][a as usize / 7 % 4]) as fsize;
                Bin::from_strip(AARectangle::new(x, 0.0, x + w, self.g.strip_h as fsize), self.g.sc.cde)
            }
        }
    }

    fn gen_dt(&self, l: &Layout, id: usize, mode: u32, seed: u32) -> Option<DTransformation> {
        let mut r = Rng::new(seed as u64);
        let it = &self.g.items[id];
        let v = BBof(l);
        let grow = if self.messy { 0.4 } else { -0.02 };
        let pick = |r: &mut Rng| {
            let rot = match &it.rots {
                Some(rs) => *r.pick(rs),
                None => r.range(-3.1, 3.1),
            };
            let b = geo::bbox(&geo::rot_tr(&it.pts, rot, [0.0, 0.0]));
            if self.messy {
                return dt_centered(&it.pts, rot, pt_in(r, &v, grow));
            }
            // keep the bounding box inside the container's where it fits
            let t = [
                if b.w() < v.w() { r.range(v.x0 - b.x0, v.x1 - b.x1) } else { (v.x0 + v.x1) / 2.0 },
                if b.h() < v.h() { r.range(v.y0 - b.y0, v.y1 - b.y1) } else { (v.y0 + v.y1) / 2.0 },
            ];
            DTransformation::new(rot as fsize, (t[0] as fsize, t[1] as fsize))
        };
        let mut dt = pick(&mut r);
        match mode % 8 {
            0..=4 => {
                // look for a free spot
                let item = self.g.inst.item(id);
                let irr: Vec<HazardEntity> = match &item.hazard_filter {
                    None => vec![],
                    Some(f) => jagua_rs::collision_detection::hazard_filter::generate_irrelevant_hazards(f, l.cde().all_hazards()),
                };
                let mut buf = (*item.shape).clone();
                for _ in 0..12 {
                    if !l.cde().surrogate_or_poly_collides(&item.shape, &dt.compose(), &mut buf, &irr) {
                        break;
                    }
                    dt = pick(&mut r);
                }
            }
            5 => {
                // crowd an existing item
                let its: Vec<_> = l.placed_items().values().collect();
                if !its.is_empty() {
                    let o = its[r.below(its.len())];
                    let (rr, t) = dt_parts(&o.d_transf);
                    let e = (v.w() + v.h()) * *r.pick(&[1e-4, 0.01, 0.05]);
                    dt = DTransformation::new(rr as fsize, ((t[0] + r.range(-e, e)) as fsize, (t[1] + r.range(-e, e)) as fsize));
                    // or a twin that differs from it in the rotation, or in one coordinate, only
                    if let (Some(o), true) = (its.iter().find(|o| o.item_id == id), r.chance(0.4)) {
                        let (x, y) = o.d_transf.translation();
                        let a = o.d_transf.rotation();
                        dt = match r.below(4) {
                            0 => DTransformation::new(a, (x + r.range(-e, e) as fsize, y)),
                            1 => DTransformation::new(a, (x, y + r.range(-e, e) as fsize)),
                            2 => DTransformation::new(a + r.range(0.1, 6.0) as fsize, (x, y)),
                            _ => DTransformation::new(dt.rotation(), (fsize::from_bits(x.to_bits() ^ 1), y)),
                        };
                    }
                }
            }
            _ => {}
        }
        if l.placed_items().values().any(|p| p.item_id == id && p.d_transf == dt) {
            return None;
        }
        Some(dt)
    }

    fn acct(&self) -> bool {
        self.prop == Prop::C07
    }

    /// run one step; Ok also when the step does not apply in this state
    pub fn exec(&mut self, op: &Op) -> Res {
        let g = self.g.clone();
        let nw = self.ws.len();
        let wi = op.w as usize % nw.max(1);
        self.cov.hit(&format!("op.{:?}", op.k));
        match op.k {
            K::Place => {
                let w = &self.ws[wi];
                let id = op.a as usize % g.items.len();
                if w.m.missing[id] <= 0 && op.c % 8 != 0 {
                    return Ok(());
                }
                let n_real = w.p.layouts().len();
                let idx = if g.is_strip() {
                    STRIP_LAYOUT_IDX
                } else {
                    let t: Vec<usize> = (0..g.stock.len()).filter(|i| w.m.stock[*i] > 0).collect();
                    let n_opt = n_real + t.len();
                    if n_opt == 0 {
                        return Ok(());
                    }
                    // prefer open bins
                    let c = if n_real > 0 && op.b % 4 != 0 { op.b as usize / 4 % n_real } else { op.b as usize / 4 % n_opt };
                    if c < n_real {
                        LayoutIndex::Real(c)
                    } else {
                        LayoutIndex::Template(t[c - n_real])
                    }
                };
                let Some(dt) = self.gen_dt(w.p.get_layout(idx), id, op.c, mix(op.a as u64, op.b as u64) as u32) else {
                    return Ok(());
                };
                self.place(wi, PlacingOption { layout_idx: idx, item_id: id, d_transf: dt })?;
            }
            K::Lbf => {
                if g.sc.cde.hpg_n_cells == 0 {
                    return Ok(());
                }
                let w = &mut self.ws[wi];
                let id = op.a as usize % g.items.len();
                if w.m.missing[id] <= 0 {
                    return Ok(());
                }
                w.p.flush_changes();
                w.m.layouts.iter_mut().for_each(|l| l.pend.clear());
                let mut rng = <rand::rngs::SmallRng as rand::SeedableRng>::seed_from_u64(op.b as u64);
                let mut cnt = 0;
                if let Some(p) = find_lbf_placement(&w.p, g.inst.item(id), &self.lbf_cfg, &mut rng, &mut cnt) {
                    if w.p.get_layout(p.layout_idx).placed_items().values().any(|q| q.item_id == id && q.d_transf == p.d_transf) {
                        return Ok(());
                    }
                    self.place(wi, p)?;
                    self.cov.hit("lbf.placed");
                }
            }
            K::Remove | K::Refill => {
                let w = &self.ws[wi];
                let tot: usize = w.m.layouts.iter().map(|l| l.lm.items.len()).sum();
                if tot == 0 {
                    return Ok(());
                }
                let mut n = op.a as usize % tot;
                let mut li = 0;
                while n >= w.m.layouts[li].lm.items.len() {
                    n -= w.m.layouts[li].lm.items.len();
                    li += 1;
                }
                let opt = self.remove(wi, li, n, op.b % 2 == 0)?;
                if op.k == K::Refill {
                    // hand the returned option back, possibly after other things happened to the bin list
                    let w = &self.ws[wi];
                    let mut o = opt;
                    if let LayoutIndex::Real(i) = o.layout_idx {
                        if i >= w.p.layouts().len() || i >= w.m.layouts.len() || self.ws[wi].m.layouts.len() != w.p.layouts().len() {
                            return Ok(());
                        }
                        if g.is_strip() || op.c % 2 == 0 {
                            o.layout_idx = LayoutIndex::Real(i);
                        }
                    }
                    if w.p.get_layout(o.layout_idx).placed_items().values().any(|q| q.item_id == o.item_id && q.d_transf == o.d_transf) {
                        return Ok(());
                    }
                    self.place(wi, o)?;
                }
            }
            K::RemoveLayout => {
                let w = &mut self.ws[wi];
                if w.m.layouts.is_empty() {
                    return Ok(());
                }
                let li = op.a as usize % w.m.layouts.len();
                if let Problem::BP(bp) = &mut w.p {
                    bp.remove_layout(LayoutIndex::Real(li));
                    let l = w.m.layouts.remove(li);
                    for (_, id, _) in &l.lm.items {
                        w.m.missing[*id] += 1;
                    }
                    if let BinKey::Type(t) = l.lm.bin {
                        w.m.stock[t] += 1;
                    }
                    self.content(wi, self.acct(), "removing a layout")?;
                }
            }
            K::ReReg => {
                // hand a bin over: take a copy out, drop the original, register the copy again
                let w = &mut self.ws[wi];
                if w.m.layouts.is_empty() {
                    return Ok(());
                }
                let li = op.a as usize % w.m.layouts.len();
                if let Problem::BP(bp) = &mut w.p {
                    // a registered layout needs an id of its own
                    self.next_lid += 1;
                    let id = 1_000_000 + self.next_lid;
                    let copy = bp.layouts[li].clone_with_id(id);
                    bp.remove_layout(LayoutIndex::Real(li));
                    let idx = bp.register_layout(copy);
                    let l = w.m.layouts.remove(li);
                    w.m.layouts.push(l);
                    if self.prop == Prop::C07 && idx != LayoutIndex::Real(w.m.layouts.len() - 1) {
                        return bad("register-index", format!("register_layout returned {:?}", idx));
                    }
                    self.content(wi, self.acct(), "re-registering a layout")?;
                }
            }
            K::Solve | K::SolveInc => {
                let w = &mut self.ws[wi];
                // the old solution: the last one of this worker; for strips any earlier one will do
                let any = matches!(w.p, Problem::SP(_)) && op.b % 2 == 1;
                let base = match (op.k, w.ref_uid) {
                    (K::SolveInc, _) if any && !self.pool.is_empty() => Some(&self.pool[self.pool.len() - 1 - op.a as usize % self.pool.len()]),
                    (K::SolveInc, Some(u)) => self.pool.iter().find(|s| s.uid == u),
                    _ => None,
                };
                if base.is_some() {
                    self.cov.hit("sol.incremental");
                }
                let sol = w.p.create_solution(base.map(|b| &b.sol));
                w.m.layouts.iter_mut().for_each(|l| l.pend.clear());
                let uid = self.next_uid;
                self.next_uid += 1;
                w.ref_uid = Some(uid);
                let m = w.m.clone();
                let judged = matches!(self.prop, Prop::C06 | Prop::C07);
                if judged {
                    sol_matches(&sol, &m, &g, "new solution")?;
                }
                self.content(wi, self.prop == Prop::C06, "taking a solution")?;
                let m = self.ws[wi].m.clone();
                let sig = sol_sig(&sol, &g);
                let usage = sol.usage as f64;
                self.pool.push(SolRec { uid, sol, m, usage, sig });
                if self.pool.len() > 12 {
                    self.pool.remove(0);
                }
            }
            K::Restore => {
                if self.pool.is_empty() {
                    return Ok(());
                }
                // delivery of a solution from the bus: any one, any number of times, in any order;
                // usually a recent one
                let n = self.pool.len();
                let si = if op.b % 2 == 0 { n - 1 - (op.a as usize % n.min(2)) } else { op.a as usize % n };
                self.restore(wi, si)?;
            }
            K::Flush => {
                let w = &mut self.ws[wi];
                w.p.flush_changes();
                w.m.layouts.iter_mut().for_each(|l| l.pend.clear());
            }
            K::Fork => {
                if nw >= 4 {
                    return Ok(());
                }
                let w = &self.ws[wi];
                let c = Worker { p: w.p.clone(), m: w.m.clone(), ref_uid: w.ref_uid };
                self.ws.push(c);
            }
            K::Crash => {
                // the worker dies with all its state; another takes its place from scratch
                self.ws[wi] = Worker { p: self.pristine.clone(), m: PM::of_new(&self.pristine, &g), ref_uid: None };
                self.cov.hit("fault.crash");
            }
            K::Persist => {
                if self.pool.is_empty() {
                    return Ok(());
                }
                let n = self.pool.len();
                let s = &self.pool[n - 1 - op.a as usize % n];
                if s.m.layouts.iter().any(|l| matches!(l.lm.bin, BinKey::Strip(_, a, _, b) if ((b - a) as f64 - g.strip_h).abs() > 1e-5 * g.strip_h)) {
                    return Ok(());
                }
                let js = compose_json_solution(&s.sol, &g.inst, std::time::Instant::now());
                let text = serde_json::to_string_pretty(&js).unwrap();
                let rec = match op.b % 6 {
                    0 => {
                        self.cov.hit("fault.torn_write");
                        let cut = op.c as usize % text.len().max(1);
                        DiskRec { text: text[..cut].to_string(), torn: true, m: s.m.clone(), usage: s.usage, json: None }
                    }
                    1 => {
                        self.cov.hit("fault.lost_write");
                        return Ok(());
                    }
                    _ => DiskRec { text, torn: false, m: s.m.clone(), usage: s.usage, json: Some(js) },
                };
                if self.prop == Prop::C15 {
                    if let Some(js) = &rec.json {
                        check_json(js, &rec.m, rec.usage, &g)?;
                    }
                }
                self.disk.push(rec);
            }
            K::Load => {
                // newest readable version wins
                let mut skip = op.a as usize % 2;
                for di in (0..self.disk.len()).rev() {
                    let d = &self.disk[di];
                    let parsed: Result<JsonSolution, _> = serde_json::from_str(&d.text);
                    match parsed {
                        Err(_) => {
                            if !d.torn {
                                return if self.prop == Prop::C15 { bad("json-unreadable", "a completely written solution cannot be read back".into()) } else { Ok(()) };
                            }
                            self.cov.hit("fault.torn_detected");
                            continue;
                        }
                        Ok(js) => {
                            if skip > 0 {
                                skip -= 1;
                                continue;
                            }
                            self.load(wi, di, js, op.b % 2 == 0)?;
                            break;
                        }
                    }
                }
            }
            K::StripBack | K::StripFront | K::StripCentered | K::StripRect => self.resize(wi, op)?,
            K::FitStrip => self.fit(wi)?,
            K::DropSol => {
                if self.pool.len() > 1 {
                    let i = op.a as usize % self.pool.len();
                    self.pool.remove(i);
                    self.cov.hit("fault.solution_lost");
                }
            }
            K::Burst => {
                // a burst of deferred removals, the ruin half of ruin-and-recreate
                let n = if op.a % 16 == 0 { 12 + op.b as usize % 20 } else { 2 + op.a as usize % 5 };
                for j in 0..n {
                    let o = Op { k: K::Remove, w: op.w, a: mix(op.b as u64, j as u64) as u32, b: if op.c % 4 == 0 { mix(op.c as u64, j as u64) as u32 } else { 1 }, c: 0, q: op.q };
                    self.exec(&o)?;
                }
                return Ok(());
            }
            _ => return self.exec_layout(op),
        }
        self.after_worker(wi, op)
    }

    fn place(&mut self, wi: usize, po: PlacingOption) -> Res {
        let g = self.g.clone();
        let w = &mut self.ws[wi];
        let (idx, key) = w.p.place_item(po);
        let li = match po.layout_idx {
            LayoutIndex::Template(t) => {
                w.m.stock[t] -= 1;
                w.m.layouts.push(ML { lm: LM { bin: BinKey::Type(t), items: vec![] }, pend: vec![] });
                w.m.layouts.len() - 1
            }
            LayoutIndex::Real(i) => i,
        };
        let lm = &mut w.m.layouts[li].lm;
        let dup = lm.items.iter().any(|x| x.0 == key);
        lm.items.push((key, po.item_id, po.d_transf));
        lm.items.sort_by_key(|x| x.0);
        w.m.missing[po.item_id] -= 1;
        if self.acct() {
            if idx != LayoutIndex::Real(li) {
                return bad("place-index", format!("place_item returned {:?}, the item is in layout {}", idx, li));
            }
            if dup {
                return bad("place-key", "place_item returned a key already in use".into());
            }
        }
        let _ = g;
        self.content(wi, self.acct(), "placing an item")
    }

    fn remove(&mut self, wi: usize, li: usize, n: usize, commit: bool) -> Result<PlacingOption, Viol> {
        let g = self.g.clone();
        let acct = self.acct();
        let w = &mut self.ws[wi];
        let (key, id, dt) = w.m.layouts[li].lm.items[n];
        let idx = LayoutIndex::Real(li);
        let opt = w.p.remove_item(idx, key, commit);
        w.m.layouts[li].lm.items.remove(n);
        w.m.missing[id] += 1;
        if !commit {
            w.m.layouts[li].pend.push(HazardEntity::PlacedItem { id, dt });
        }
        if !g.is_strip() && w.m.layouts[li].lm.items.is_empty() {
            let l = w.m.layouts.remove(li);
            if let BinKey::Type(t) = l.lm.bin {
                w.m.stock[t] += 1;
            }
            self.cov.hit("bin.closed");
        }
        if acct && (opt.item_id != id || opt.d_transf != dt || opt.layout_idx != idx) {
            return bad("remove-option", format!("remove_item returned {:?} for item {} at {:?} in {:?}", opt, id, dt_parts(&dt), idx));
        }
        self.content(wi, acct, "removing an item")?;
        Ok(opt)
    }

    /// actual content against the model; when somebody else's property is judged, follow the system
    fn content(&mut self, wi: usize, judged: bool, what: &str) -> Res {
        let g = self.g.clone();
        let w = &mut self.ws[wi];
        let act: Vec<LM> = w.p.layouts().iter().map(|l| LM::of(l, &g)).collect();
        let same = act.len() == w.m.layouts.len() && act.iter().zip(&w.m.layouts).all(|(a, b)| a.keyed_sig() == b.lm.keyed_sig());
        if !same {
            if judged {
                let d: Vec<String> = w.m.layouts.iter().map(|l| format!("{}x", l.lm.items.len())).collect();
                let e: Vec<String> = act.iter().map(|l| format!("{}x", l.items.len())).collect();
                return bad("content", format!("after {}: layouts hold {:?}, expected {:?}", what, e, d));
            }
            self.resync(wi);
        }
        Ok(())
    }

    fn resync(&mut self, wi: usize) {
        let g = self.g.clone();
        let w = &mut self.ws[wi];
        let mut missing: Vec<isize> = g.items.iter().map(|i| i.demand as isize).collect();
        let mut stock = g.stock.clone();
        let old = std::mem::take(&mut w.m.layouts);
        for (i, l) in w.p.layouts().iter().enumerate() {
            let lm = LM::of(l, &g);
            for (_, id, _) in &lm.items {
                missing[*id] -= 1;
            }
            if let BinKey::Type(t) = lm.bin {
                stock[t] = stock[t].saturating_sub(1);
            }
            w.m.layouts.push(ML { lm, pend: old.get(i).map(|o| o.pend.clone()).unwrap_or_default() });
        }
        w.m.missing = missing;
        w.m.stock = stock;
    }

    fn restore(&mut self, wi: usize, si: usize) -> Res {
        let g = self.g.clone();
        let judged = self.prop == Prop::C06;
        let w = &mut self.ws[wi];
        let s = &self.pool[si];
        w.p.restore_to_solution(&s.sol);
        self.cov.hit(if w.ref_uid == Some(s.uid) { "restore.incremental" } else { "restore.full" });
        w.ref_uid = Some(s.uid);
        w.m = s.m.clone();
        let mut got: Vec<String> = w.p.layouts().iter().map(|l| LM::of(l, &g).keyed_sig()).collect();
        got.sort();
        if judged && got != s.m.sigs() {
            return bad("restore-content", format!("restored problem has {} layouts {} / solution has {} layouts {}", got.len(), short(&got), s.m.layouts.len(), short(&s.m.sigs())));
        }
        self.reorder(wi);
        if judged {
            let w = &mut self.ws[wi];
            let s = &self.pool[si];
            if w.p.missing_item_qtys() != &s.m.missing[..] {
                return bad("restore-missing", format!("missing {:?} after restoring, the solution had {:?}", w.p.missing_item_qtys(), s.m.missing));
            }
            if !g.is_strip() && w.p.bin_qtys() != &s.m.stock[..] {
                return bad("restore-stock", format!("stock {:?} after restoring, the solution had {:?}", w.p.bin_qtys(), s.m.stock));
            }
            let u = w.p.usage() as f64;
            let su = s.m.usage(&g);
            if !close(u, su, 1e-3) {
                return bad("restore-usage", format!("usage {} after restoring, the solution had {}", u, su));
            }
            self.fresh_all(wi, s_seed(si, wi), 4)?;
        }
        Ok(())
    }

    /// the order of the layouts after a restore is the system's choice
    fn reorder(&mut self, wi: usize) {
        let g = self.g.clone();
        let w = &mut self.ws[wi];
        w.m.layouts = w.p.layouts().iter().map(|l| ML { lm: LM::of(l, &g), pend: vec![] }).collect();
        if self.prop != Prop::C07 {
            self.resync(wi);
        }
    }

    fn fresh_all(&mut self, wi: usize, seed: u64, nq: usize) -> Res {
        let g = self.g.clone();
        for (i, l) in self.ws[wi].p.layouts().iter().enumerate() {
            let pend = self.ws[wi].m.layouts.get(i).map(|m| &m.pend[..]);
            check_fresh(l, &g, &self.shapes, &mut Rng::new(mix(seed, i as u64)), nq, pend, &mut self.cov)?;
        }
        Ok(())
    }

    fn load(&mut self, wi: usize, di: usize, js: JsonSolution, fresh_proc: bool) -> Res {
        let g = self.g.clone();
        let d = &self.disk[di];
        // a new process parses the instance again
        let sol = if fresh_proc {
            self.cov.hit("fault.restart");
            let (_, s) = parser(&g.sc).parse_and_build_solution(&g.sc.json, &js.layouts);
            s
        } else {
            build_solution_from_json(&g.inst, &js.layouts, g.sc.cde)
        };
        if self.prop == Prop::C15 {
            check_reloaded(&sol, &js, &d.m, d.usage, &g, &self.shapes, &mut self.cov)?;
        }
        let missing = d.m.missing.clone();
        let stock = d.m.stock.clone();
        let w = &mut self.ws[wi];
        if fresh_proc {
            *w = Worker { p: new_problem(&g), m: PM::of_new(&self.pristine, &g), ref_uid: None };
        }
        let uid = self.next_uid;
        self.next_uid += 1;
        let layouts: Vec<ML> = sol
            .layout_snapshots
            .iter()
            .map(|l| ML { lm: LM { bin: bin_key(&l.bin, &g), items: items_of(&l.placed_items) }, pend: vec![] })
            .collect();
        let m = PM { layouts, missing, stock };
        let sig = sol_sig(&sol, &g);
        let usage = sol.usage as f64;
        self.pool.push(SolRec { uid, sol, m, usage, sig });
        let si = self.pool.len() - 1;
        self.restore(wi, si)?;
        if self.prop == Prop::C15 {
            let w = &mut self.ws[wi];
            let m = &self.pool[si].m;
            let mut got: Vec<String> = w.p.layouts().iter().map(|l| LM::of(l, &g).sig()).collect();
            got.sort();
            let mut want: Vec<String> = m.layouts.iter().map(|l| l.lm.sig()).collect();
            want.sort();
            if got != want {
                return bad("reload-restore", "a problem restored from the reloaded solution has other content".into());
            }
            if w.p.missing_item_qtys() != &m.missing[..] || (!g.is_strip() && w.p.bin_qtys() != &m.stock[..]) {
                return bad("reload-restore", format!("missing {:?} stock {:?} after reload, expected {:?} {:?}", w.p.missing_item_qtys(), w.p.bin_qtys(), m.missing, m.stock));
            }
        }
        Ok(())
    }

    fn resize(&mut self, wi: usize, op: &Op) -> Res {
        let g = self.g.clone();
        if !g.is_strip() {
            return Ok(());
        }
        let judged = self.prop == Prop::C08;
        let w0 = self.w0;
        let w = &mut self.ws[wi];
        let Problem::SP(sp) = &mut w.p else { return Ok(()) };
        let mut r = Rng::new(op.b as u64);
        let b = sp.layout.bin.bbox();
        let cur = b.width() as f64;
        let f = r.range(0.45, 1.8);
        let mut nw = (cur * f).clamp(0.3 * w0, 4.0 * w0);
        let occ = occupied_range(&sp.layout);
        if r.chance(0.25) {
            // cut close to the items
            if let Some((a, z)) = occ {
                let (a, z, x0, x1) = (a as f64, z as f64, b.x_min as f64, b.x_max as f64);
                let t = match op.k {
                    K::StripBack => z - x0,
                    K::StripFront => x1 - a,
                    _ => z - a,
                };
                let near = *r.pick(&[0.01, 0.01, 1e-3, 1e-4]);
                let t = t * (1.0 + r.range(-near, near));
                if t > 0.1 * w0 && t < 4.0 * w0 {
                    nw = t;
                }
            }
        }
        // as wide as it was
        let same = r.chance(0.08);
        if same {
            nw = cur;
        }
        let nwf = nw as fsize;
        let (x0, y0, x1, y1) = (b.x_min as f64, b.y_min as f64, b.x_max as f64, b.y_max as f64);
        let before: Vec<(usize, DTransformation)> = sp.layout.placed_items().values().map(|p| (p.item_id, p.d_transf)).collect();
        let want = match op.k {
            K::StripBack => {
                sp.modify_strip_in_back(nwf);
                BB { x0, y0, x1: x0 + nw, y1 }
            }
            K::StripFront => {
                sp.modify_strip_at_front(nwf);
                BB { x0: x1 - nw, y0, x1, y1 }
            }
            K::StripCentered => {
                sp.modify_strip_centered(nwf);
                let (a, z) = occ.unwrap_or((0.0, 0.0));
                let m = (a as f64 + z as f64) / 2.0;
                BB { x0: m - nw / 2.0, y0, x1: m + nw / 2.0, y1 }
            }
            _ => {
                let nx = x0 + if same { *r.pick(&[0.0, 0.25, -0.25, 0.125]) } else { r.range(-0.4, 0.4) } * cur;
                let (mut ny0, mut ny1) = (y0, y1);
                if self.vary_y {
                    let e = (y1 - y0) * 0.3;
                    ny0 += r.range(-e, e * 0.5);
                    ny1 += r.range(-e * 0.5, e);
                    if ny1 - ny0 < 0.3 * g.strip_h || ny1 - ny0 > 3.0 * g.strip_h {
                        (ny0, ny1) = (y0, y1);
                    }
                } else if r.chance(0.4) {
                    // same height, elsewhere
                    let e = (y1 - y0) * r.range(-0.5, 0.5);
                    if (y0 + e).abs() < 3.0 * g.strip_h {
                        ny0 += e;
                        ny1 += e;
                    }
                }
                sp.modify_strip(AARectangle::new(nx as fsize, ny0 as fsize, (nx + nw) as fsize, ny1 as fsize));
                BB { x0: nx, y0: ny0, x1: nx + nw, y1: ny1 }
            }
        };
        self.cov.hit("strip.resized");
        if judged {
            check_resized(&self.ws[wi].p, &g, &want, &before, &mut self.cov)?;
        }
        // ids, keys and (within contact tolerance) membership are the system's choice
        let w = &mut self.ws[wi];
        w.m.layouts.iter_mut().for_each(|l| l.pend.clear());
        w.ref_uid = None;
        self.resync(wi);
        if judged {
            self.strip_acct(wi)?;
            self.fresh_all(wi, op.q as u64, 4)?;
        }
        Ok(())
    }

    fn strip_acct(&mut self, wi: usize) -> Res {
        let w = &mut self.ws[wi];
        if w.p.missing_item_qtys() != &w.m.missing[..] {
            return bad("strip-missing", format!("missing {:?} after resizing, the layout's content leaves {:?}", w.p.missing_item_qtys(), w.m.missing));
        }
        Ok(())
    }

    fn fit(&mut self, wi: usize) -> Res {
        let g = self.g.clone();
        let judged = self.prop == Prop::C08;
        let w = &mut self.ws[wi];
        let Problem::SP(sp) = &mut w.p else { return Ok(()) };
        let b = sp.layout.bin.bbox();
        if sp.layout.is_empty() {
            return Ok(());
        }
        let before: Vec<(usize, DTransformation)> = sp.layout.placed_items().values().map(|p| (p.item_id, p.d_transf)).collect();
        let mut bb = BB { x0: f64::MAX, y0: f64::MAX, x1: f64::MIN, y1: f64::MIN };
        for (i, d) in &before {
            let o = geo::bbox(&g.world_shape(*i, d));
            bb = BB { x0: bb.x0.min(o.x0), y0: bb.y0.min(o.y0), x1: bb.x1.max(o.x1), y1: bb.y1.max(o.y1) };
        }
        let tol = TOL * bb.max_abs().max(b.y_max.abs() as f64) * 4.0;
        // the margin fit_strip grants is relative to the occupied width
        let margin = bb.w() * 1e-4;
        if bb.y0 < b.y_min as f64 + tol || bb.y1 > b.y_max as f64 - tol || margin < tol {
            return Ok(());
        }
        sp.fit_strip();
        self.cov.hit("strip.fitted");
        if judged {
            let m = (bb.x0 + bb.x1) / 2.0;
            let p = &self.ws[wi].p;
            let nb = p.layouts()[0].bin.bbox();
            let (nx0, nx1) = (nb.x_min as f64, nb.x_max as f64);
            let got = nx1 - nx0;
            // fitted: the occupied width plus the library's rounding allowance, centred on the items
            if got < bb.w() - tol || got > bb.w() * 1.002 + tol {
                return bad("fit-width", format!("fitted strip is {} wide, the items occupy {}", got, bb.w()));
            }
            if ((nx0 + nx1) / 2.0 - m).abs() > bb.w() * 2e-3 + tol {
                return bad("fit-place", format!("fitted strip [{}, {}] is not around the items [{}, {}]", nx0, nx1, bb.x0, bb.x1));
            }
            if nb.y_min != b.y_min || nb.y_max != b.y_max {
                return bad("fit-height", "fitting changed the strip height".into());
            }
            let mut a: Vec<_> = before.iter().map(|(i, d)| (*i, bits(d))).collect();
            let mut c: Vec<_> = p.layouts()[0].placed_items().values().map(|p| (p.item_id, bits(&p.d_transf))).collect();
            a.sort();
            c.sort();
            if a != c {
                return bad("fit-items", format!("fitting changed the items: {} before, {} after", a.len(), c.len()));
            }
        }
        let w = &mut self.ws[wi];
        w.m.layouts.iter_mut().for_each(|l| l.pend.clear());
        w.ref_uid = None;
        self.resync(wi);
        if judged {
            self.strip_acct(wi)?;
            self.fresh_all(wi, 77, 4)?;
        }
        Ok(())
    }

    fn after_worker(&mut self, wi: usize, op: &Op) -> Res {
        let g = self.g.clone();
        let mut r = Rng::new(op.q as u64);
        {
            let s: Vec<String> = self.ws[wi].m.layouts.iter().map(|l| format!("{}{:?}", l.lm.sig(), l.pend.len())).collect();
            self.states.insert(hash_str(&s.join("/")));
        }
        match self.prop {
            Prop::C07 => {
                for i in 0..self.ws.len() {
                    check_acct(&mut self.ws[i], &g)?;
                    self.cov.hit("acct.checks");
                }
            }
            Prop::C08 => {
                if op.q % 4 == 0 {
                    self.fresh_all(wi, op.q as u64, 2)?;
                }
                self.strip_acct(wi)?;
            }
            Prop::C06 => {
                if op.q % 6 == 0 {
                    self.fresh_all(wi, op.q as u64, 2)?;
                }
                for s in &self.pool {
                    if sol_sig(&s.sol, &g) != s.sig {
                        return bad("solution-changed", format!("solution {} changed after it was taken", s.uid));
                    }
                }
            }
            Prop::C01 | Prop::C02 | Prop::C03 | Prop::C04 => {
                for (i, l) in self.ws[wi].p.layouts().iter().enumerate() {
                    // a burst of checks now and then, so that many steps pass unobserved as well
                    if op.q % 3 == 0 {
                        let st = self.ws[wi].m.layouts.get(i).map(|m| &m.pend[..]);
                        engine_check(self.prop, l, &g, &self.shapes, &mut r, self.nq, st, &mut self.cov)?;
                    }
                }
                // clones and the other workers
                if op.q % 11 == 0 {
                    for j in 0..self.ws.len() {
                        for (i, l) in self.ws[j].p.layouts().iter().enumerate() {
                            let st = self.ws[j].m.layouts.get(i).map(|m| &m.pend[..]);
                            engine_check(self.prop, l, &g, &self.shapes, &mut r, 2, st, &mut self.cov)?;
                        }
                        for l in self.ws[j].p.template_layouts() {
                            engine_check(self.prop, l, &g, &self.shapes, &mut r, 1, Some(&[]), &mut self.cov)?;
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn exec_layout(&mut self, op: &Op) -> Res {
        let g = self.g.clone();
        let judged = self.prop == Prop::C05;
        if op.k == K::LNew || self.ls.is_empty() {
            if self.ls.len() < 4 {
                self.next_lid += 1;
                let l = Layout::new(self.next_lid, self.bin_for(op.a));
                let m = ML { lm: LM::of(&l, &g), pend: vec![] };
                self.ls.push(LRec { l, m });
            }
            return Ok(());
        }
        let li = op.w as usize % self.ls.len();
        let mut force = false;
        match op.k {
            K::LPlace => {
                let id = op.a as usize % g.items.len();
                let Some(dt) = self.gen_dt(&self.ls[li].l, id, op.c, mix(op.a as u64, op.b as u64) as u32) else { return Ok(()) };
                if self.ls[li].m.lm.items.len() >= 48 {
                    return Ok(());
                }
                let x = &mut self.ls[li];
                let key = x.l.place_item(g.inst.item(id), dt);
                if judged && x.m.lm.items.iter().any(|y| y.0 == key) {
                    return bad("place-key", "place_item returned a key already in use".into());
                }
                x.m.lm.items.push((key, id, dt));
                x.m.lm.items.sort_by_key(|y| y.0);
            }
            K::LRemove => {
                let x = &mut self.ls[li];
                if x.m.lm.items.is_empty() {
                    return Ok(());
                }
                let n = op.a as usize % x.m.lm.items.len();
                let (key, id, dt) = x.m.lm.items.remove(n);
                let commit = op.b % 2 == 0;
                let pi = x.l.remove_item(key, commit);
                if !commit {
                    x.m.pend.push(HazardEntity::PlacedItem { id, dt });
                }
                if judged && (pi.item_id != id || pi.d_transf != dt) {
                    return bad("layout-remove", format!("removed item {} at {:?}, key named item {} at {:?}", pi.item_id, dt_parts(&pi.d_transf), id, dt_parts(&dt)));
                }
                if op.c % 4 == 0 {
                    // ... and straight back
                    let key = x.l.place_item(g.inst.item(id), dt);
                    x.m.lm.items.push((key, id, dt));
                    x.m.lm.items.sort_by_key(|y| y.0);
                }
            }
            K::LFlush => {
                self.ls[li].l.flush_changes();
                self.ls[li].m.pend.clear();
            }
            K::LSnap => {
                let x = &mut self.ls[li];
                let s = x.l.create_snapshot();
                x.m.pend.clear();
                let lm = x.m.lm.clone();
                let usage = s.usage;
                if judged {
                    let got = LM { bin: bin_key(&s.bin, &g), items: items_of(&s.placed_items) };
                    if got.keyed_sig() != lm.keyed_sig() || s.id != x.l.id() {
                        return bad("snapshot-content", "a snapshot differs from the layout it was taken of".into());
                    }
                    let u = lm.item_area(&g) / lm.bin_area(&g);
                    if !close(usage as f64, u, 1e-3) {
                        return bad("snapshot-usage", format!("snapshot says usage {}, content has {}", usage, u));
                    }
                }
                let dbg = if judged { snap_dbg(&s) } else { 0 };
                self.snaps.push(SnapRec { s, lm, usage, dbg });
                if self.snaps.len() > 10 {
                    self.snaps.remove(0);
                }
            }
            K::LRestore => {
                let id = self.ls[li].l.id();
                let c: Vec<usize> = (0..self.snaps.len()).filter(|i| self.snaps[*i].s.id == id).collect();
                if c.is_empty() {
                    return Ok(());
                }
                let s = &self.snaps[c[op.a as usize % c.len()]];
                let x = &mut self.ls[li];
                if x.m.lm.bin != s.lm.bin {
                    self.cov.hit("lrestore.other_bin");
                }
                if !x.m.pend.is_empty() {
                    self.cov.hit("lrestore.with_pending");
                }
                x.l.restore(&s.s);
                x.m = ML { lm: s.lm.clone(), pend: vec![] };
                if judged && x.l.usage() != s.usage {
                    return bad("restore-usage", format!("usage {} after restoring a snapshot with {}", x.l.usage(), s.usage));
                }
                force = true;
            }
            K::LFrom => {
                if self.snaps.is_empty() {
                    return Ok(());
                }
                let s = &self.snaps[op.a as usize % self.snaps.len()];
                let l = Layout::from_snapshot(&s.s);
                let m = ML { lm: s.lm.clone(), pend: vec![] };
                if judged && l.usage() != s.usage {
                    return bad("restore-usage", format!("usage {} of a layout built from a snapshot with {}", l.usage(), s.usage));
                }
                self.ls[li] = LRec { l, m };
                force = true;
            }
            K::LClone => {
                let x = &self.ls[li];
                let l = if op.a % 2 == 0 {
                    x.l.clone()
                } else {
                    self.next_lid += 1;
                    x.l.clone_with_id(self.next_lid)
                };
                let m = x.m.clone();
                if self.ls.len() < 4 {
                    self.ls.push(LRec { l, m });
                } else {
                    let j = op.b as usize % self.ls.len();
                    self.ls[j] = LRec { l, m };
                }
            }
            K::LChangeBin => {
                let b = self.bin_for(op.a);
                let x = &mut self.ls[li];
                x.l.change_bin(b);
                x.m.lm.bin = bin_key(&x.l.bin, &g);
                x.m.pend.clear();
            }
            K::LDrop => {
                if self.ls.len() > 1 {
                    self.ls.remove(li);
                    self.cov.hit("fault.layout_dropped");
                }
                return Ok(());
            }
            K::SDrop => {
                if self.snaps.len() > 1 {
                    let i = op.a as usize % self.snaps.len();
                    self.snaps.remove(i);
                    self.cov.hit("fault.snapshot_lost");
                }
                return Ok(());
            }
            _ => return Ok(()),
        }
        let mut r = Rng::new(op.q as u64);
        let x = &mut self.ls[li];
        self.states.insert(hash_str(&format!("{}{}", x.m.lm.sig(), x.m.pend.len())));
        let act = LM::of(&x.l, &g);
        if act.keyed_sig() != x.m.lm.keyed_sig() {
            if judged {
                return bad("layout-content", format!("after {:?}: layout holds {} items, expected {} (or other items, keys or container)", op.k, act.items.len(), x.m.lm.items.len()));
            }
            x.m.lm = act;
        }
        if judged {
            if force || op.q % 4 == 0 {
                check_fresh(&x.l, &g, &self.shapes, &mut r, 4, Some(&x.m.pend[..]), &mut self.cov)?;
                if g.sc.cde.hpg_n_cells > 0 && x.m.pend.is_empty() && x.l.cde().haz_prox_grid().is_err() {
                    return bad("restore-grid", "proximity grid refused although nothing is pending".into());
                }
            }
            for s in &self.snaps {
                let got = LM { bin: bin_key(&s.s.bin, &g), items: items_of(&s.s.placed_items) };
                if got.keyed_sig() != s.lm.keyed_sig() || s.s.usage != s.usage {
                    return bad("snapshot-changed", "a snapshot changed after it was taken".into());
                }
            }
        } else if op.q % 2 == 0 {
            engine_check(self.prop, &x.l, &g, &self.shapes, &mut r, self.nq, Some(&x.m.pend[..]), &mut self.cov)?;
        }
        Ok(())
    }

    /// end of run: faults have stopped; everything still held must still be good
    pub fn finish(&mut self) -> Res {
        let g = self.g.clone();
        match self.prop {
            Prop::C06 => {
                for i in 0..self.pool.len() {
                    if sol_sig(&self.pool[i].sol, &g) != self.pool[i].sig {
                        return bad("solution-changed", format!("solution {} changed after it was taken", self.pool[i].uid));
                    }
                    self.ws.push(Worker { p: self.pristine.clone(), m: PM::of_new(&self.pristine, &g), ref_uid: None });
                    let wi = self.ws.len() - 1;
                    let r = self.restore(wi, i);
                    self.ws.pop();
                    r?;
                }
            }
            Prop::C05 => {
                for i in 0..self.snaps.len() {
                    let s = &self.snaps[i];
                    if snap_dbg(&s.s) != s.dbg {
                        return bad("snapshot-changed", "a snapshot's engine state changed after it was taken".into());
                    }
                    let l = Layout::from_snapshot(&s.s);
                    if LM::of(&l, &g).keyed_sig() != s.lm.keyed_sig() {
                        return bad("from-snapshot", "layout built from an old snapshot has other content".into());
                    }
                    check_fresh(&l, &g, &self.shapes, &mut Rng::new(i as u64), 3, Some(&[]), &mut self.cov)?;
                }
            }
            Prop::C01 | Prop::C02 | Prop::C03 | Prop::C04 => {
                let mut r = Rng::new(99);
                for w in &mut self.ws {
                    if self.prop == Prop::C04 {
                        w.p.flush_changes();
                        w.m.layouts.iter_mut().for_each(|l| l.pend.clear());
                    }
                    for (i, l) in w.p.layouts().iter().enumerate() {
                        let st = w.m.layouts.get(i).map(|m| &m.pend[..]);
                        engine_check(self.prop, l, &g, &self.shapes, &mut r, self.nq * 2, st, &mut self.cov)?;
                    }
                }
                for x in &self.ls {
                    engine_check(self.prop, &x.l, &g, &self.shapes, &mut r, self.nq * 2, Some(&x.m.pend[..]), &mut self.cov)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
}

#[allow(non_snake_case)]
fn BBof(l: &Layout) -> BB {
    let b = l.bin.bbox();
    BB { x0: b.x_min as f64, y0: b.y_min as f64, x1: b.x_max as f64, y1: b.y_max as f64 }
}

fn s_seed(a: usize, b: usize) -> u64 {
    mix(a as u64 + 13, b as u64)
}

fn short(v: &[String]) -> String {
    v.iter().map(|s| format!("{:08x}", hash_str(s) as u32)).collect::<Vec<_>>().join(" ")
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()).max(1e-9)
}

pub fn strip_width_of(p: &Problem) -> f64 {
    match p {
        Problem::SP(s) => s.strip_width() as f64,
        _ => 0.0,
    }
}

fn engine_check(p: Prop, l: &Layout, g: &Golden, shapes: &[QShape], r: &mut Rng, nq: usize, gone: Option<&[HazardEntity]>, cov: &mut Cov) -> Res {
    match p {
        Prop::C01 => check_geo(l, g, shapes, r, nq, cov),
        Prop::C02 => check_fresh(l, g, shapes, r, nq, gone, cov),
        Prop::C03 => check_collect(l, g, shapes, r, nq, cov),
        Prop::C04 => check_hpg(l, g, r, nq, if gone.is_some_and(|g| g.is_empty()) { Grid::Readable } else { Grid::Either }, cov),
        _ => Ok(()),
    }
}

fn placed_counts(m: &PM, g: &Golden) -> Vec<usize> {
    let mut v = vec![0; g.items.len()];
    for l in &m.layouts {
        for (_, id, _) in &l.lm.items {
            v[*id] += 1;
        }
    }
    v
}

/// C07 for one worker
fn check_acct(w: &mut Worker, g: &Golden) -> Res {
    let cnt = placed_counts(&w.m, g);
    // counted from what is really there
    let mut real = vec![0usize; g.items.len()];
    for l in w.p.layouts() {
        for pi in l.placed_items().values() {
            real[pi.item_id] += 1;
        }
    }
    if real != cnt {
        return bad("acct-content", format!("layouts hold {:?}, history says {:?}", real, cnt));
    }
    for i in 0..g.items.len() {
        let want = g.items[i].demand as isize - cnt[i] as isize;
        if w.p.missing_item_qtys()[i] != want {
            return bad("acct-missing", format!("item {}: {} placed of {} but {} reported missing", i, cnt[i], g.items[i].demand, w.p.missing_item_qtys()[i]));
        }
        if w.m.missing[i] != want {
            return bad("acct-model", format!("item {}: history says {} missing, content says {}", i, w.m.missing[i], want));
        }
    }
    let pq: Vec<usize> = w.p.placed_item_qtys().collect();
    if pq != cnt {
        return bad("acct-placed", format!("placed_item_qtys {:?}, layouts hold {:?}", pq, cnt));
    }
    if !g.is_strip() {
        let mut used = vec![0usize; g.stock.len()];
        for l in w.p.layouts() {
            used[l.bin.id] += 1;
            if l.is_empty() {
                return bad("acct-empty-bin", "an empty bin stays open".into());
            }
        }
        for t in 0..g.stock.len() {
            if w.p.bin_qtys()[t] != g.stock[t] - used[t] {
                return bad("acct-stock", format!("bin type {}: stock {} of {} with {} in use", t, w.p.bin_qtys()[t], g.stock[t], used[t]));
            }
        }
        let ti: Vec<usize> = w.p.template_layout_indices_with_stock().map(|i| i.into()).collect();
        let want: Vec<usize> = (0..g.stock.len()).filter(|t| g.stock[*t] > used[*t]).collect();
        let mut tids: Vec<usize> = ti.iter().map(|i| w.p.template_layouts()[*i].bin.id).collect();
        tids.sort();
        if tids != want {
            return bad("acct-templates", format!("bin types offered {:?}, in stock {:?}", tids, want));
        }
        if w.p.template_layouts().iter().any(|l| !l.is_empty()) {
            return bad("acct-template-used", "a template layout is not empty".into());
        }
        let cost: u64 = match &g.twin {
            Instance::BP(b) => w.p.layouts().iter().map(|l| b.bins[l.bin.id].0.value).sum(),
            _ => 0,
        };
        if w.p.used_bin_cost() != cost {
            return bad("acct-cost", format!("used_bin_cost {} but the open bins cost {}", w.p.used_bin_cost(), cost));
        }
        if w.p.layout_indices().count() != w.p.layouts().len() {
            return bad("acct-indices", "layout_indices does not enumerate the layouts".into());
        }
    }
    {
        let (a, b) = (w.p.usage() as f64, w.m.usage(g));
        if !close(a, b, 1e-3) {
            return bad("acct-usage", format!("usage {} but the content has {}", a, b));
        }
        for (l, m) in w.p.layouts().iter().zip(&w.m.layouts) {
            let (a, b) = (l.usage() as f64, m.lm.item_area(g) / m.lm.bin_area(g));
            if !close(a, b, 1e-3) {
                return bad("acct-layout-usage", format!("layout usage {} but the content has {}", a, b));
            }
        }
    }
    Ok(())
}

fn sol_matches(s: &Solution, m: &PM, g: &Golden, what: &str) -> Res {
    let mut got: Vec<String> =
        s.layout_snapshots.iter().map(|l| LM { bin: bin_key(&l.bin, g), items: items_of(&l.placed_items) }.keyed_sig()).collect();
    got.sort();
    if got != m.sigs() {
        return bad("solution-content", format!("{}: {} layouts [{}], the problem had {} [{}]", what, got.len(), short(&got), m.layouts.len(), short(&m.sigs())));
    }
    let cnt = placed_counts(m, g);
    let dem: Vec<usize> = g.items.iter().map(|i| i.demand).collect();
    if s.placed_item_qtys != cnt {
        return bad("solution-placed", format!("{}: placed {:?}, content {:?}", what, s.placed_item_qtys, cnt));
    }
    if s.target_item_qtys != dem {
        return bad("solution-target", format!("{}: targets {:?}, demands {:?}", what, s.target_item_qtys, dem));
    }
    if !g.is_strip() && s.bin_qtys != m.stock {
        return bad("solution-stock", format!("{}: bin quantities {:?}, stock left {:?}", what, s.bin_qtys, m.stock));
    }
    if !m.layouts.is_empty() && !close(s.usage as f64, m.usage(g), 1e-3) {
        return bad("solution-usage", format!("{}: usage {}, content {}", what, s.usage, m.usage(g)));
    }
    for l in &s.layout_snapshots {
        let lm = LM { bin: bin_key(&l.bin, g), items: items_of(&l.placed_items) };
        if !close(l.usage as f64, lm.item_area(g) / lm.bin_area(g), 1e-3) {
            return bad("solution-usage", format!("{}: layout usage {}", what, l.usage));
        }
    }
    if s.n_items_placed() != cnt.iter().sum::<usize>() {
        return bad("solution-count", format!("{}: n_items_placed {}", what, s.n_items_placed()));
    }
    if s.missing_item_qtys(&g.inst) != m.missing {
        return bad("solution-missing", format!("{}: missing {:?}, history {:?}", what, s.missing_item_qtys(&g.inst), m.missing));
    }
    let complete = cnt.iter().zip(&dem).all(|(a, b)| a >= b);
    let ic = match &g.inst {
        Instance::BP(b) => s.is_complete(b),
        Instance::SP(b) => s.is_complete(b),
    };
    if ic != complete {
        return bad("solution-complete", format!("{}: is_complete {}", what, ic));
    }
    let tot: f64 = g.items.iter().map(|i| i.area * i.demand as f64).sum();
    let have: f64 = g.items.iter().zip(&cnt).map(|(i, c)| i.area * *c as f64).sum();
    if !close(s.completeness(&g.inst) as f64, have / tot, 1e-3) {
        return bad("solution-completeness", format!("{}: completeness {} content {}", what, s.completeness(&g.inst), have / tot));
    }
    Ok(())
}

fn check_resized(p: &Problem, g: &Golden, want: &BB, before: &[(usize, DTransformation)], cov: &mut Cov) -> Res {
    let l = &p.layouts()[0];
    let b = l.bin.bbox();
    let tol = TOL * want.max_abs().max(want.w()) * 2.0;
    let got = BB { x0: b.x_min as f64, y0: b.y_min as f64, x1: b.x_max as f64, y1: b.y_max as f64 };
    if (got.x0 - want.x0).abs() > tol || (got.x1 - want.x1).abs() > tol || (got.y0 - want.y0).abs() > tol || (got.y1 - want.y1).abs() > tol {
        return bad("strip-extent", format!("strip is {:?}, requested {:?}", got, want));
    }
    if let Problem::SP(sp) = p {
        if !close(sp.strip_width() as f64, got.w(), 1e-4) || !close(sp.strip_height() as f64, got.h(), 1e-4) {
            return bad("strip-extent", format!("strip_width {} strip_height {} for {:?}", sp.strip_width(), sp.strip_height(), got));
        }
    }
    if !close(l.bin.area as f64, got.w() * got.h(), 1e-3) {
        return bad("strip-area", format!("strip area {} for {:?}", l.bin.area, got));
    }
    let mut after: Vec<_> = l.placed_items().values().map(|p| (p.item_id, bits(&p.d_transf))).collect();
    let rect = got.poly();
    for (id, d) in before {
        let e = (*id, bits(d));
        let pos = after.iter().position(|x| *x == e);
        let w = g.world_shape(*id, d);
        let wb = geo::bbox(&w);
        match geo::leaves(&w, &rect, TOL * wb.max_abs().max(got.max_abs()).max(got.w())) {
            Rel::No => {
                cov.hit("strip.kept");
                if pos.is_none() {
                    return bad("strip-lost", format!("item {} at {:?} fits the new strip {:?} but is gone", id, dt_parts(d), got));
                }
            }
            Rel::Yes => {
                cov.hit("strip.dropped");
                if pos.is_some() {
                    return bad("strip-kept", format!("item {} at {:?} does not fit the new strip {:?} but was kept", id, dt_parts(d), got));
                }
            }
            Rel::Unclear => cov.hit("strip.unclear"),
        }
        if let Some(i) = pos {
            after.remove(i);
        }
    }
    if !after.is_empty() {
        return bad("strip-new", format!("{} items appeared or moved during resizing", after.len()));
    }
    if let Problem::SP(sp) = p {
        let r = occupied_range(&sp.layout);
        let real = l.placed_items().values().map(|pi| geo::bbox(&g.world_shape(pi.item_id, &pi.d_transf))).fold(None, |a: Option<(f64, f64)>, b| {
            Some(a.map_or((b.x0, b.x1), |(x, y)| (x.min(b.x0), y.max(b.x1))))
        });
        match (r, real) {
            (None, None) => {}
            (Some((a, b)), Some((c, d))) if (a as f64 - c).abs() < tol && (b as f64 - d).abs() < tol => {}
            _ => return bad("strip-occupied", format!("occupied range {:?}, items span {:?}", r, real)),
        }
    }
    Ok(())
}

/// offset from the container of a layout in internal coordinates to the one in the input file
fn raw_offset(bin: &BinKey, g: &Golden) -> [f64; 2] {
    match bin {
        BinKey::Strip(x, y, _, _) => [-(*x as f64), -(*y as f64)],
        BinKey::Type(t) => match (&g.raw, &g.twin) {
            (Instance::BP(r), Instance::BP(c)) => {
                let (a, b) = (r.bins[*t].0.outer.points[0], c.bins[*t].0.outer.points[0]);
                [a.0 as f64 - b.0 as f64, a.1 as f64 - b.1 as f64]
            }
            _ => unreachable!(),
        },
    }
}

/// where an item of a layout sits relative to the input file's container
fn abs_world(lm: &LM, id: usize, d: &DTransformation, g: &Golden) -> geo::Poly {
    let o = raw_offset(&lm.bin, g);
    g.world_shape(id, d).iter().map(|p| [p[0] + o[0], p[1] + o[1]]).collect()
}

fn raw_pts(id: usize, g: &Golden) -> geo::Poly {
    pts(&g.raw.item(id).shape)
}

fn json_world(p: &jagua_rs::io::json_solution::JsonPlacedItem, g: &Golden) -> geo::Poly {
    geo::rot_tr(&raw_pts(p.index, g), p.transformation.rotation as f64, [p.transformation.translation.0 as f64, p.transformation.translation.1 as f64])
}

fn far(a: &[geo::P], b: &[geo::P]) -> f64 {
    if a.len() != b.len() {
        return f64::MAX;
    }
    a.iter().zip(b).map(|(p, q)| geo::dist(*p, *q)).fold(0.0, f64::max)
}

fn pos_tol(w: &[geo::P], raw: &[geo::P]) -> f64 {
    TOL * (geo::bbox(w).max_abs() + geo::bbox(raw).max_abs()) * 2.0
}

/// C15, writing side: positions in the file are relative to the input shapes
fn check_json(js: &JsonSolution, m: &PM, usage: f64, g: &Golden) -> Res {
    use jagua_rs::io::json_solution::JsonContainer;
    if js.layouts.len() != m.layouts.len() {
        return bad("json-layouts", format!("{} layouts in the file, {} in the solution", js.layouts.len(), m.layouts.len()));
    }
    if !m.layouts.is_empty() && !close(js.usage as f64, usage, 1e-6) {
        return bad("json-usage", format!("usage {} in the file, {} in the solution", js.usage, usage));
    }
    let mut left: Vec<&ML> = m.layouts.iter().collect();
    for jl in &js.layouts {
        let pos = left.iter().position(|l| {
            let c = match (&jl.container, &l.lm.bin) {
                (JsonContainer::Bin { index }, BinKey::Type(t)) => index == t,
                (JsonContainer::Strip { width, height }, BinKey::Strip(a, b, c, d)) => {
                    close(*width as f64, *c as f64 - *a as f64, 1e-4) && close(*height as f64, *d as f64 - *b as f64, 1e-4)
                }
                _ => false,
            };
            c && jl.placed_items.len() == l.lm.items.len() && {
                let mut it: Vec<_> = l.lm.items.iter().map(|(_, id, d)| (*id, abs_world(&l.lm, *id, d, g))).collect();
                jl.placed_items.iter().all(|p| {
                    let jw = json_world(p, g);
                    let raw = raw_pts(p.index, g);
                    match it.iter().position(|(id, w)| *id == p.index && far(w, &jw) < pos_tol(w, &raw)) {
                        Some(i) => {
                            it.remove(i);
                            true
                        }
                        None => false,
                    }
                })
            }
        });
        match pos {
            Some(i) => {
                let l = left.remove(i);
                let u = l.lm.item_area(g) / l.lm.bin_area(g);
                if !close(jl.statistics.usage as f64, u, 1e-3) {
                    return bad("json-usage", format!("layout usage {} in the file, content {}", jl.statistics.usage, u));
                }
            }
            None => return bad("json-position", "a layout in the file matches no layout of the solution (container or absolute item positions)".into()),
        }
    }
    Ok(())
}

/// C15, reading side
fn check_reloaded(sol: &Solution, js: &JsonSolution, m: &PM, usage: f64, g: &Golden, _s: &[QShape], cov: &mut Cov) -> Res {
    if sol.layout_snapshots.len() != js.layouts.len() {
        return bad("reload-layouts", format!("{} layouts reloaded, {} in the file", sol.layout_snapshots.len(), js.layouts.len()));
    }
    let mut left: Vec<usize> = (0..m.layouts.len()).collect();
    for sl in &sol.layout_snapshots {
        let lm = LM { bin: bin_key(&sl.bin, g), items: items_of(&sl.placed_items) };
        let pos = left.iter().position(|i| {
            let o = &m.layouts[*i].lm;
            let c = match (&lm.bin, &o.bin) {
                (BinKey::Type(a), BinKey::Type(b)) => a == b,
                (BinKey::Strip(a, b, c, d), BinKey::Strip(e, f, h, i)) => {
                    close(*c as f64 - *a as f64, *h as f64 - *e as f64, 1e-4) && close(*d as f64 - *b as f64, *i as f64 - *f as f64, 1e-4)
                }
                _ => false,
            };
            c && lm.items.len() == o.items.len() && {
                let mut it: Vec<_> = o.items.iter().map(|(_, id, d)| (*id, abs_world(o, *id, d, g))).collect();
                lm.items.iter().all(|(_, id, d)| {
                    let w = abs_world(&lm, *id, d, g);
                    let raw = raw_pts(*id, g);
                    match it.iter().position(|(j, x)| j == id && far(x, &w) < 2.0 * pos_tol(x, &raw)) {
                        Some(k) => {
                            it.remove(k);
                            true
                        }
                        None => false,
                    }
                })
            }
        });
        match pos {
            Some(i) => {
                let o = &m.layouts[left.remove(i)].lm;
                cov.hit("reload.layouts");
                if !close(sl.usage as f64, o.item_area(g) / o.bin_area(g), 1e-3) {
                    return bad("reload-usage", format!("layout usage {} after reload", sl.usage));
                }
                // collision-free stays collision-free
                let l = Layout::from_snapshot(sl);
                let v = View::of(&l, g);
                for (_, pi) in l.placed_items() {
                    let me = HazardEntity::PlacedItem { id: pi.item_id, dt: pi.d_transf };
                    let w = g.world_shape(pi.item_id, &pi.d_transf);
                    let wb = geo::bbox(&w);
                    let bq = g.items[pi.item_id].bq;
                    let mut irr = vec![me];
                    irr.extend(v.haz.iter().map(|h| h.e).filter(|e| matches!(e, HazardEntity::InferiorQualityZone { quality, .. } if bq.map_or(false, |b| *quality >= b))));
                    let free = v.haz.iter().filter(|h| !irr.contains(&h.e)).all(|h| rel_poly(h, &w, &wb, 4.0 * v.tol) == Rel::No);
                    if free {
                        cov.hit("reload.free_items");
                        if l.cde().poly_collides(&pi.shape, &irr) {
                            return bad("reload-collides", format!("item {} collides after reload although it is free", pi.item_id));
                        }
                    }
                }
            }
            None => return bad("reload-content", "a reloaded layout matches no layout that was saved (container, items or absolute positions)".into()),
        }
    }
    let cnt = placed_counts(m, g);
    if sol.placed_item_qtys != cnt {
        return bad("reload-placed", format!("placed {:?} after reload, saved {:?}", sol.placed_item_qtys, cnt));
    }
    if !g.is_strip() && sol.bin_qtys != m.stock {
        return bad("reload-stock", format!("stock {:?} after reload, saved {:?}", sol.bin_qtys, m.stock));
    }
    if !m.layouts.is_empty() && !close(sol.usage as f64, usage, 2e-3) {
        return bad("reload-usage", format!("usage {} after reload, saved {}", sol.usage, usage));
    }
    Ok(())
}
