//! Query generation and the geometric / rebuild oracles, judged against the layout's own content.
use crate::geo::{self, Rel, BB, P};
use crate::model::*;
use crate::rng::Rng;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::collision_detection::hazard_filter::{generate_irrelevant_hazards, BinHazardFilter, EntityHazardFilter, HazardFilter};
use jagua_rs::collision_detection::hpg::hpg_cell::HPGCell;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::quality_zone::N_QUALITIES;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use std::sync::Arc;
use tribool::Tribool;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn bad<T>(class: &'static str, msg: String) -> Result<T, Viol> {
    Err(Viol { class, msg })
}

#[derive(Default, Clone, Debug)]
pub struct Cov {
    pub c: std::collections::BTreeMap<String, u64>,
}
impl Cov {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.c.get_mut(k) {
            *v += n;
        } else {
            self.c.insert(k.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: &Cov) {
        for (k, v) in &o.c {
            self.add(k, *v);
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        *self.c.get(k).unwrap_or(&0)
    }
}

/// A query shape: an item of the instance or an arbitrary probe polygon.
#[derive(Clone)]
pub struct QShape {
    pub item: Option<usize>,
    /// slightly larger or smaller than this item (or than something fixed in the container)
    pub nest: Option<Option<usize>>,
    pub shape: Arc<SimplePolygon>,
    pub pts: Arc<geo::Poly>,
}

pub struct Query {
    pub s: QShape,
    pub dt: DTransformation,
    pub world: geo::Poly,
    pub ignore: Vec<HazardEntity>,
}

pub type Probe = (SimplePolygon, Option<Option<usize>>);

pub fn query_shapes(g: &Golden, probes: &[Probe]) -> Vec<QShape> {
    let mut v: Vec<QShape> = g
        .twin
        .items()
        .iter()
        .enumerate()
        .map(|(i, (it, _))| QShape { item: Some(i), nest: None, shape: it.shape.clone(), pts: Arc::new(g.items[i].pts.clone()) })
        .collect();
    for (p, nest) in probes {
        v.push(QShape { item: None, nest: *nest, shape: Arc::new(p.clone()), pts: Arc::new(pts(p)) });
    }
    v
}

pub fn pt_in(r: &mut Rng, b: &BB, grow: f64) -> P {
    let (w, h) = (b.w(), b.h());
    [r.range(b.x0 - grow * w, b.x1 + grow * w), r.range(b.y0 - grow * h, b.y1 + grow * h)]
}

/// transformation putting the centroid of `p` at `c` under rotation `rot`
pub fn dt_centered(p: &[P], rot: f64, c: P) -> DTransformation {
    let m = geo::rot_pt(geo::centroid(p), rot, [0.0, 0.0]);
    DTransformation::new(rot as fsize, ((c[0] - m[0]) as fsize, (c[1] - m[1]) as fsize))
}

pub fn gen_ignore(r: &mut Rng, v: &View, g: &Golden, item: Option<usize>) -> Vec<HazardEntity> {
    let filt = |i: Option<usize>| -> Vec<HazardEntity> {
        match i.and_then(|i| g.items[i].bq) {
            None => vec![],
            Some(bq) => v
                .haz
                .iter()
                .filter(|h| matches!(h.e, HazardEntity::InferiorQualityZone { quality, .. } if quality >= bq))
                .map(|h| h.e)
                .collect(),
        }
    };
    let mut ig = match r.below(8) {
        0 | 1 => vec![],
        2 | 3 => filt(item),
        4 => v.haz.iter().filter(|h| matches!(h.e, HazardEntity::PlacedItem { .. })).map(|h| h.e).collect(),
        5 => v.haz.iter().filter(|h| h.e != HazardEntity::BinExterior).filter(|_| r.chance(0.7)).map(|h| h.e).collect(),
        6 => {
            let keep = r.below(v.haz.len());
            v.haz.iter().enumerate().filter(|(i, _)| *i != keep).map(|(_, h)| h.e).collect()
        }
        _ => v.haz.iter().filter(|_| r.chance(0.4)).map(|h| h.e).collect(),
    };
    if r.chance(0.12) {
        // entities that are not there: close relatives of ones that are
        for _ in 0..1 + r.below(3) {
            let e = match v.haz[r.below(v.haz.len())].e {
                HazardEntity::PlacedItem { id, dt } => {
                    let (rot, t) = dt_parts(&dt);
                    match r.below(3) {
                        0 => HazardEntity::PlacedItem { id: id + 1, dt },
                        1 => HazardEntity::PlacedItem { id, dt: DTransformation::new(rot as fsize, ((t[0] + 0.01) as fsize, t[1] as fsize)) },
                        _ => HazardEntity::PlacedItem { id, dt: DTransformation::new((rot + 0.01) as fsize, (t[0] as fsize, t[1] as fsize)) },
                    }
                }
                HazardEntity::BinHole { id } => HazardEntity::BinHole { id: id + 1 },
                HazardEntity::InferiorQualityZone { quality, id } => HazardEntity::InferiorQualityZone { quality, id: id + 7 },
                HazardEntity::BinExterior => HazardEntity::BinHole { id: 77 },
            };
            if !v.haz.iter().any(|h| h.e == e) {
                ig.push(e);
            }
        }
    }
    if !ig.is_empty() && r.chance(0.06) {
        // the same one twice
        let e = *r.pick(&ig);
        ig.push(e);
    }
    ig
}

pub fn gen_query(r: &mut Rng, v: &View, g: &Golden, shapes: &[QShape]) -> Query {
    let s = shapes[r.below(shapes.len())].clone();
    let rot = match s.item.and_then(|i| g.items[i].rots.clone()) {
        Some(rs) if r.chance(0.7) => *r.pick(&rs),
        _ => r.range(-3.2, 6.4),
    };
    // around, or inside of, what the shape was made from
    let at = match s.nest {
        Some(None) => Some((0.0, [0.0, 0.0])),
        Some(Some(i)) => {
            let on: Vec<DTransformation> = v
                .haz
                .iter()
                .filter_map(|h| match h.e {
                    HazardEntity::PlacedItem { id, dt } if id == i => Some(dt),
                    _ => None,
                })
                .collect();
            if on.is_empty() {
                None
            } else {
                Some(dt_parts(r.pick(&on)))
            }
        }
        None => None,
    };
    let nested = at.filter(|_| r.chance(0.8));
    let dt = match if nested.is_some() { 9 } else { r.below(5) } {
        9 => {
            let (rot, t) = nested.unwrap();
            DTransformation::new(rot as fsize, (t[0] as fsize, t[1] as fsize))
        }
        0 | 1 => dt_centered(&s.pts, rot, pt_in(r, &v.bin_bb, 0.05)),
        2 => {
            // on top of some hazard
            let h = &v.haz[r.below(v.haz.len())];
            dt_centered(&s.pts, rot, pt_in(r, &h.bb, 0.0))
        }
        3 => {
            // pushed next to some hazard
            let h = &v.haz[r.below(v.haz.len())];
            let b = geo::bbox(&geo::rot_tr(&s.pts, rot, [0.0, 0.0]));
            let eps = v.tol * r.range(-6.0, 30.0);
            let mut c = pt_in(r, &h.bb, 0.1);
            match r.below(4) {
                0 => c[0] = h.bb.x1 + b.w() / 2.0 + eps,
                1 => c[0] = h.bb.x0 - b.w() / 2.0 - eps,
                2 => c[1] = h.bb.y1 + b.h() / 2.0 + eps,
                _ => c[1] = h.bb.y0 - b.h() / 2.0 - eps,
            }
            let t = [c[0] - (b.x0 + b.x1) / 2.0, c[1] - (b.y0 + b.y1) / 2.0];
            DTransformation::new(rot as fsize, (t[0] as fsize, t[1] as fsize))
        }
        _ => {
            // some vertex of the shape onto some vertex of a hazard, pushed apart a little
            let h = &v.haz[r.below(v.haz.len())];
            let a = *r.pick(&h.poly);
            let b = geo::rot_pt(*r.pick(&s.pts), rot, [0.0, 0.0]);
            let e = v.tol * 50.0;
            let t = [a[0] - b[0] + r.range(-e, e), a[1] - b[1] + r.range(-e, e)];
            DTransformation::new(rot as fsize, (t[0] as fsize, t[1] as fsize))
        }
    };
    let (rr, t) = dt_parts(&dt);
    let world = geo::rot_tr(&s.pts, rr, t);
    let ignore = gen_ignore(r, v, g, s.item);
    Query { s, dt, world, ignore }
}

pub fn rel_poly(h: &Haz, world: &[P], wb: &BB, tol: f64) -> Rel {
    if h.interior {
        if h.bb.apart(wb, tol) {
            return Rel::No;
        }
        geo::overlap(world, &h.poly, tol)
    } else {
        geo::leaves(world, &h.poly, tol)
    }
}

/// tolerance of a query: coordinates may lie well outside the container
fn qtol(v: &View, b: &BB) -> f64 {
    v.tol.max(TOL * b.max_abs())
}

pub fn inside_bb(a: &BB, b: &BB, tol: f64) -> bool {
    a.x0 > b.x0 + tol && a.y0 > b.y0 + tol && a.x1 < b.x1 - tol && a.y1 < b.y1 - tol
}

fn ent(h: &HazardEntity) -> String {
    match h {
        HazardEntity::PlacedItem { id, dt } => {
            let (r, t) = dt_parts(dt);
            format!("item{}@({:.6},{:.6},{:.6})", id, r, t[0], t[1])
        }
        o => format!("{:?}", o),
    }
}
fn ents(v: &[HazardEntity]) -> String {
    v.iter().map(ent).collect::<Vec<_>>().join(",")
}

/// expected answer of the yes/no question
fn expect(v: &View, q: &Query, tol: f64) -> (Rel, String) {
    let wb = geo::bbox(&q.world);
    let mut unclear = false;
    for h in v.haz.iter().filter(|h| !q.ignore.contains(&h.e)) {
        match rel_poly(h, &q.world, &wb, tol) {
            Rel::Yes => return (Rel::Yes, ent(&h.e)),
            Rel::Unclear => unclear = true,
            Rel::No => {}
        }
    }
    (if unclear { Rel::Unclear } else { Rel::No }, String::new())
}

fn t3(t: Tribool) -> &'static str {
    match t {
        Tribool::True => "true",
        Tribool::False => "false",
        Tribool::Indeterminate => "indeterminate",
    }
}

/// C01 — answers of the engine against the geometry.
pub fn check_geo(l: &Layout, g: &Golden, shapes: &[QShape], r: &mut Rng, n: usize, cov: &mut Cov) -> Res {
    let v = View::of(l, g);
    // the stored shapes are where their transformations say
    for (k, pi) in l.placed_items() {
        let want = g.world_shape(pi.item_id, &pi.d_transf);
        let got = pts(&pi.shape);
        let t = v.tol.max(TOL * geo::bbox(&want).max_abs());
        if want.len() != got.len() || want.iter().zip(&got).any(|(a, b)| geo::dist(*a, *b) > t) {
            return bad("placed-shape", format!("placed item {:?} (type {}) is not at its transformation", k, pi.item_id));
        }
    }
    for _ in 0..n {
        let q = gen_query(r, &v, g, shapes);
        let wb = geo::bbox(&q.world);
        let tol = qtol(&v, &wb);
        let ext_ignored = q.ignore.contains(&HazardEntity::BinExterior);
        let in_bb = inside_bb(&wb, &v.cde_bb, tol);
        if ext_ignored && !in_bb {
            cov.hit("q.skipped_outside");
            continue;
        }
        let (e, who) = expect(&v, &q, tol);
        let tr = q.dt.compose();
        let ws = q.s.shape.transform_clone(&tr);
        let a = l.cde().poly_collides(&ws, &q.ignore);
        let mut buf = (*q.s.shape).clone();
        buf.surrogate = None;
        let b = l.cde().surrogate_or_poly_collides(&q.s.shape, &tr, &mut buf, &q.ignore);
        let s = l.cde().surrogate_collides(q.s.shape.surrogate(), &tr, &q.ignore);
        let desc = || format!("shape {:?} at {:?} ignoring [{}] with {} hazards", q.s.item, dt_parts(&q.dt), ents(&q.ignore), v.haz.len());
        match e {
            Rel::Yes => {
                cov.hit("q.colliding");
                if !a {
                    return bad("missed-collision", format!("poly_collides=false but it truly collides with {}: {}", who, desc()));
                }
                if !b {
                    return bad("missed-collision", format!("surrogate_or_poly_collides=false but it truly collides with {}: {}", who, desc()));
                }
            }
            Rel::No => {
                cov.hit("q.free");
                if a {
                    return bad("phantom-collision", format!("poly_collides=true but the placement is free: {}", desc()));
                }
                if b {
                    return bad("phantom-collision", format!("surrogate_or_poly_collides=true but the placement is free: {}", desc()));
                }
                if s {
                    return bad("phantom-surrogate", format!("surrogate_collides=true but the placement is free: {}", desc()));
                }
            }
            Rel::Unclear => cov.hit("q.unclear"),
        }
        // definite answers
        let p = pt_in(r, &v.cde_bb, 0.02);
        let h = &v.haz[r.below(v.haz.len())];
        let ans = l.cde().point_definitely_collides_with(&Point(p[0] as fsize, p[1] as fsize), h.e);
        let truth = geo::point_in(p, &h.poly, h.interior, v.tol);
        if (ans == Tribool::True && truth == Rel::No) || (ans == Tribool::False && truth == Rel::Yes) {
            return bad("definite-point", format!("point {:?} vs {}: engine says {}, geometry says {:?}", p, ent(&h.e), t3(ans), truth));
        }
        cov.hit(if ans == Tribool::Indeterminate { "def.ind" } else { "def.det" });
        let rad = r.range(0.005, 0.2) * v.cde_bb.w();
        let c = Circle::new(Point(p[0] as fsize, p[1] as fsize), rad as fsize);
        let in_cde = p[0] > v.cde_bb.x0 + v.tol && p[1] > v.cde_bb.y0 + v.tol && p[0] < v.cde_bb.x1 - v.tol && p[1] < v.cde_bb.y1 - v.tol;
        // nothing is promised about hazards beyond the engine's bounding box
        let whole = p[0] - rad > v.cde_bb.x0 && p[1] - rad > v.cde_bb.y0 && p[0] + rad < v.cde_bb.x1 && p[1] + rad < v.cde_bb.y1;
        if whole || !ext_ignored {
            let ans = l.cde().circle_definitely_collides(&c, &q.ignore);
            let rels: Vec<Rel> =
                v.haz.iter().filter(|h| !q.ignore.contains(&h.e)).map(|h| geo::disc_meets(p, rad, &h.poly, h.interior, v.tol)).collect();
            let truth = any3(&rels);
            if (ans == Tribool::True && truth == Rel::No) || (ans == Tribool::False && truth == Rel::Yes) {
                return bad("definite-circle", format!("circle {:?} r={} ignoring [{}]: engine says {}, geometry says {:?}", p, rad, ents(&q.ignore), t3(ans), truth));
            }
        }
        let p2 = pt_in(r, &v.cde_bb, 0.02);
        let in2 = p2[0] > v.cde_bb.x0 + v.tol && p2[1] > v.cde_bb.y0 + v.tol && p2[0] < v.cde_bb.x1 - v.tol && p2[1] < v.cde_bb.y1 - v.tol;
        if (in_cde && in2 || !ext_ignored) && geo::dist(p, p2) > 10.0 * v.tol {
            let e = Edge::new(Point(p[0] as fsize, p[1] as fsize), Point(p2[0] as fsize, p2[1] as fsize));
            let ans = l.cde().edge_definitely_collides(&e, &q.ignore);
            let rels: Vec<Rel> =
                v.haz.iter().filter(|h| !q.ignore.contains(&h.e)).map(|h| geo::seg_meets(p, p2, &h.poly, h.interior, v.tol)).collect();
            let truth = any3(&rels);
            if (ans == Tribool::True && truth == Rel::No) || (ans == Tribool::False && truth == Rel::Yes) {
                return bad("definite-edge", format!("edge {:?}-{:?} ignoring [{}]: engine says {}, geometry says {:?}", p, p2, ents(&q.ignore), t3(ans), truth));
            }
        }
    }
    // the items' own hazard filters: exactly the zones good enough for the item are irrelevant
    for (i, (it, _)) in g.twin.items().iter().enumerate() {
        let got: Vec<HazardEntity> = match &it.hazard_filter {
            None => vec![],
            Some(f) => generate_irrelevant_hazards(f, l.cde().all_hazards()),
        };
        let want: Vec<HazardEntity> = match g.items[i].bq {
            None => vec![],
            Some(bq) => v
                .haz
                .iter()
                .filter(|h| matches!(h.e, HazardEntity::InferiorQualityZone { quality, .. } if quality >= bq))
                .map(|h| h.e)
                .collect(),
        };
        if got.len() != want.len() || want.iter().any(|w| !got.contains(w)) {
            return bad("quality-filter", format!("item {} (quality {:?}) ignores [{}], should ignore [{}]", i, g.items[i].bq, ents(&got), ents(&want)));
        }
    }
    for (k, pi) in l.placed_items() {
        let item = g.twin.item(pi.item_id);
        for h in &v.haz {
            let of = |f: &Option<_>| f.as_ref().is_some_and(|f: &jagua_rs::collision_detection::hazard_filter::QZHazardFilter| f.is_irrelevant(&h.e));
            if of(&item.hazard_filter) != of(&pi.hazard_filter) {
                return bad("quality-filter", format!("placed item {:?} (type {}) and its item disagree on ignoring {}", k, pi.item_id, ent(&h.e)));
            }
        }
    }
    // the caller's filters: the container's own hazards, an explicit list
    let list = gen_ignore(r, &v, g, None);
    let (fb, fe) = (BinHazardFilter, EntityHazardFilter(list.clone()));
    let in_b = |e: &HazardEntity| !matches!(e, HazardEntity::PlacedItem { .. });
    for (name, got, want) in [
        ("container filter", generate_irrelevant_hazards(&fb, l.cde().all_hazards()), v.haz.iter().filter(|h| in_b(&h.e)).map(|h| h.e).collect::<Vec<_>>()),
        ("entity filter", generate_irrelevant_hazards(&fe, l.cde().all_hazards()), v.haz.iter().filter(|h| list.contains(&h.e)).map(|h| h.e).collect()),
    ] {
        if got.len() != want.len() || want.iter().any(|w| !got.contains(w)) {
            return bad("hazard-filter", format!("{} deems [{}] irrelevant, should be [{}]", name, ents(&got), ents(&want)));
        }
    }
    cov.hit("q.filters");
    Ok(())
}

fn any3(v: &[Rel]) -> Rel {
    if v.iter().any(|x| *x == Rel::Yes) {
        Rel::Yes
    } else if v.iter().all(|x| *x == Rel::No) {
        Rel::No
    } else {
        Rel::Unclear
    }
}

/// what was added to a buffer; nothing if it lost something
fn minus(det: &[HazardEntity], prefill: &[HazardEntity]) -> Option<Vec<HazardEntity>> {
    let mut v = det.to_vec();
    for e in prefill {
        let i = v.iter().position(|x| x == e)?;
        v.remove(i);
    }
    Some(v)
}

/// C03 — the collected sets against the geometry.
pub fn check_collect(l: &Layout, g: &Golden, shapes: &[QShape], r: &mut Rng, n: usize, cov: &mut Cov) -> Res {
    let v = View::of(l, g);
    for _ in 0..n {
        let q = gen_query(r, &v, g, shapes);
        let wb = geo::bbox(&q.world);
        let tol = qtol(&v, &wb);
        let ws = q.s.shape.transform_clone(&q.dt.compose());
        // prefilled buffer (entries the caller already knows about)
        let prefill: Vec<HazardEntity> = if r.chance(0.3) {
            // now and then also ones that are to be ignored anyway, or that are long gone
            let also = r.chance(0.4);
            let mut p: Vec<HazardEntity> = v.haz.iter().filter(|h| also || !q.ignore.contains(&h.e)).filter(|_| r.chance(0.3)).map(|h| h.e).collect();
            if also {
                p.extend(q.ignore.iter().filter(|e| !v.haz.iter().any(|h| h.e == **e)));
            }
            p
        } else {
            vec![]
        };
        let desc = |k: &str, got: &[HazardEntity]| {
            format!(
                "{} shape {:?} at {:?} ignoring [{}] buffer [{}] -> [{}]",
                k,
                q.s.item,
                dt_parts(&q.dt),
                ents(&q.ignore),
                ents(&prefill),
                ents(got)
            )
        };
        let mut det = prefill.clone();
        l.cde().collect_poly_collisions(&ws, &q.ignore, &mut det);
        let Some(new) = minus(&det, &prefill) else {
            return bad("collect-buffer", desc("buffer changed:", &det));
        };
        let new = &new[..];
        for (i, e) in new.iter().enumerate() {
            if new[..i].contains(e) {
                return bad("collect-twice", desc(&format!("{} reported twice:", ent(e)), new));
            }
            if q.ignore.contains(e) {
                return bad("collect-ignored", desc(&format!("{} was to be ignored:", ent(e)), new));
            }
            if !v.haz.iter().any(|h| h.e == *e) {
                return bad("collect-ghost", desc(&format!("{} is not in the layout:", ent(e)), new));
            }
            let key = l.hazard_to_p_item_key(e);
            let ok = match (e, key) {
                (HazardEntity::PlacedItem { .. }, Some(k)) => l.placed_items().get(k).map_or(false, |pi| HazardEntity::from(pi) == *e),
                (HazardEntity::PlacedItem { .. }, None) => false,
                (_, k) => k.is_none(),
            };
            if !ok {
                return bad("collect-key", desc(&format!("{} leads to the wrong placed item:", ent(e)), new));
            }
        }
        let in_bb = inside_bb(&wb, &v.cde_bb, tol);
        let mut n_yes = 0;
        for h in v.haz.iter() {
            if q.ignore.contains(&h.e) || prefill.contains(&h.e) {
                continue;
            }
            // parts of hazards outside the engine's box are not represented there
            let far = h.interior && h.e != HazardEntity::BinExterior && !in_bb;
            let has = new.contains(&h.e);
            match rel_poly(h, &q.world, &wb, tol) {
                Rel::Yes => {
                    n_yes += 1;
                    if !has && !far {
                        return bad("collect-missed", desc(&format!("true collision with {} not reported:", ent(&h.e)), new));
                    }
                }
                Rel::No => {
                    if has {
                        return bad("collect-phantom", desc(&format!("{} reported but does not collide:", ent(&h.e)), new));
                    }
                }
                Rel::Unclear => {}
            }
        }
        cov.hit(match n_yes {
            0 => "c.none",
            1 => "c.one",
            2 => "c.two",
            _ => "c.many",
        });
        if prefill.is_empty() && in_bb {
            let any = l.cde().poly_collides(&ws, &q.ignore);
            if any == det.is_empty() {
                return bad("collect-vs-bool", desc(&format!("poly_collides={} but the collected set disagrees:", any), &det));
            }
        }
        // surrogate: a subset of the true collisions
        let mut det = prefill.clone();
        l.cde().collect_surrogate_collisions(q.s.shape.surrogate(), &q.dt.compose(), &q.ignore, &mut det);
        let Some(new) = minus(&det, &prefill) else {
            return bad("collect-buffer", desc("surrogate: buffer changed:", &det));
        };
        let new = &new[..];
        for (i, e) in new.iter().enumerate() {
            if new[..i].contains(e) || q.ignore.contains(e) || prefill.contains(e) {
                return bad("collect-twice", desc(&format!("surrogate: {} again or ignored:", ent(e)), new));
            }
            match v.haz.iter().find(|h| h.e == *e) {
                None => return bad("collect-ghost", desc(&format!("surrogate: {} is not in the layout:", ent(e)), new)),
                Some(h) => {
                    if rel_poly(h, &q.world, &wb, tol) == Rel::No {
                        return bad("collect-phantom", desc(&format!("surrogate: {} does not collide:", ent(e)), new));
                    }
                }
            }
        }
        if !new.is_empty() != l.cde().surrogate_collides(q.s.shape.surrogate(), &q.dt.compose(), &q.ignore) && prefill.is_empty() {
            return bad("collect-vs-bool", desc("surrogate: yes/no answer disagrees with the collected set:", new));
        }
        // hazards within a circle / edge / rectangle
        let (mut c, mut c2) = (pt_in(r, &v.cde_bb, 0.0), pt_in(r, &v.cde_bb, 0.0));
        if r.chance(0.25) {
            // around the engine's box, sometimes entirely outside it
            c = pt_in(r, &v.cde_bb, 0.6);
            c2 = if r.chance(0.5) { pt_in(r, &v.cde_bb, 0.6) } else { [c[0] + r.range(-0.2, 0.2) * v.cde_bb.w(), c[1] + r.range(-0.2, 0.2) * v.cde_bb.h()] };
        }
        let rad = r.range(0.01, 0.3) * v.cde_bb.w();
        let kind = r.below(3);
        let mut det = prefill.clone();
        let rb = BB { x0: c[0].min(c2[0]), y0: c[1].min(c2[1]), x1: c[0].max(c2[0]), y1: c[1].max(c2[1]) };
        if rb.w() < 20.0 * v.tol || rb.h() < 20.0 * v.tol {
            continue;
        }
        let pt = |p: P| Point(p[0] as fsize, p[1] as fsize);
        match kind {
            0 => l.cde().hazards_within(&Circle::new(pt(c), rad as fsize), &q.ignore, &mut det),
            1 => l.cde().hazards_within(&Edge::new(pt(c), pt(c2)), &q.ignore, &mut det),
            _ => l.cde().hazards_within(
                &AARectangle::new(rb.x0 as fsize, rb.y0 as fsize, rb.x1 as fsize, rb.y1 as fsize),
                &q.ignore,
                &mut det,
            ),
        }
        let name = ["circle", "edge", "rectangle"][kind];
        let wdesc = |m: String| {
            format!("{} {} {:?} {:?} r={} ignoring [{}] buffer [{}] -> [{}]", m, name, c, c2, rad, ents(&q.ignore), ents(&prefill), ents(&det))
        };
        let Some(new) = minus(&det, &prefill) else {
            return bad("within-buffer", wdesc("buffer changed:".into()));
        };
        let new = &new[..];
        for (i, e) in new.iter().enumerate() {
            if new[..i].contains(e) || q.ignore.contains(e) || prefill.contains(e) {
                return bad("within-twice", wdesc(format!("{} again or ignored:", ent(e))));
            }
            if !v.haz.iter().any(|h| h.e == *e) {
                return bad("within-ghost", wdesc(format!("{} is not in the layout:", ent(e))));
            }
        }
        let sb = match kind {
            0 => BB { x0: c[0] - rad, y0: c[1] - rad, x1: c[0] + rad, y1: c[1] + rad },
            _ => BB { x0: rb.x0, y0: rb.y0, x1: rb.x1, y1: rb.y1 },
        };
        let beyond = sb.x0 > v.cde_bb.x1 + v.tol || sb.x1 < v.cde_bb.x0 - v.tol || sb.y0 > v.cde_bb.y1 + v.tol || sb.y1 < v.cde_bb.y0 - v.tol;
        if beyond {
            cov.hit("within.beyond");
        }
        for h in v.haz.iter() {
            if q.ignore.contains(&h.e) || prefill.contains(&h.e) {
                continue;
            }
            let has = new.contains(&h.e);
            let (must, cannot) = match kind {
                0 => (geo::disc_hits_border(c, rad, &h.poly, v.tol), geo::disc_meets(c, rad, &h.poly, h.interior, v.tol) == Rel::No),
                1 => (geo::seg_hits_border(c, c2, &h.poly, v.tol), geo::seg_meets(c, c2, &h.poly, h.interior, v.tol) == Rel::No),
                _ => {
                    let rp = rb.poly();
                    let rel = if h.interior { geo::overlap(&rp, &h.poly, v.tol) } else { geo::leaves(&rp, &h.poly, v.tol) };
                    (geo::rect_hits_border(&rb, &h.poly, v.tol), rel == Rel::No)
                }
            };
            // everything outside the engine's box is outside the bin
            let must = must || (!h.interior && beyond);
            // border parts outside the engine's box are not represented there
            let in_box = inside_bb(&h.bb, &v.cde_bb, -v.tol) || !h.interior;
            if must && !has && in_box {
                return bad("within-missed", wdesc(format!("{} not reported:", ent(&h.e))));
            }
            if cannot && has {
                return bad("within-phantom", wdesc(format!("{} reported without contact:", ent(&h.e))));
            }
        }
        cov.hit(&format!("within.{}", name));
    }
    Ok(())
}

/// A layout built from scratch from the golden data with the same content, in another order.
pub fn rebuild(l: &Layout, g: &Golden, r: &mut Rng) -> Layout {
    let bin = match &g.twin {
        Instance::BP(b) => b.bins[l.bin.id].0.clone(),
        Instance::SP(_) => {
            let b = l.bin.bbox();
            Bin::from_strip(AARectangle::new(b.x_min, b.y_min, b.x_max, b.y_max), g.sc.cde)
        }
    };
    let mut f = Layout::new(7, bin);
    let mut its: Vec<(usize, DTransformation)> = l.placed_items().values().map(|p| (p.item_id, p.d_transf)).collect();
    for i in (1..its.len()).rev() {
        its.swap(i, r.below(i + 1));
    }
    for (i, d) in its {
        f.place_item(g.twin.item(i), d);
    }
    f
}

fn sorted(mut v: Vec<HazardEntity>) -> Vec<String> {
    let mut s: Vec<String> = v.drain(..).map(|e| format!("{:?}", e)).collect();
    s.sort();
    s
}

/// C02 — same content, same answers.
pub fn check_fresh(l: &Layout, g: &Golden, shapes: &[QShape], r: &mut Rng, n: usize, gone: Option<&[HazardEntity]>, cov: &mut Cov) -> Res {
    // which removals are pending, if known
    let pend = gone.map_or(true, |g| !g.is_empty());
    let gone = gone.unwrap_or(&[]);
    let f = rebuild(l, g, r);
    let v = View::of(l, g);
    let a: Vec<HazardEntity> = l.cde().dynamic_hazards().iter().map(|h| h.entity).collect();
    let b: Vec<HazardEntity> = f.cde().dynamic_hazards().iter().map(|h| h.entity).collect();
    if sorted(a) != sorted(b) {
        return bad("hazard-set", format!("registered items differ from the layout's content ({} items)", l.placed_items().len()));
    }
    let a: Vec<HazardEntity> = l.cde().static_hazards().iter().map(|h| h.entity).collect();
    let b: Vec<HazardEntity> = f.cde().static_hazards().iter().map(|h| h.entity).collect();
    if sorted(a) != sorted(b) {
        return bad("hazard-set", "container hazards differ".into());
    }
    if l.cde().bbox() != f.cde().bbox() {
        return bad("engine-bbox", format!("engine box {:?}, fresh {:?}", l.cde().bbox(), f.cde().bbox()));
    }
    let (ua, ub) = (l.usage() as f64, f.usage() as f64);
    if (ua - ub).abs() > 1e-4 * ub.abs() {
        return bad("usage", format!("usage {} but a fresh layout has {}", ua, ub));
    }
    for _ in 0..n {
        let q = gen_query(r, &v, g, shapes);
        let tr = q.dt.compose();
        let ws = q.s.shape.transform_clone(&tr);
        let desc = || format!("shape {:?} at {:?} ignoring [{}]", q.s.item, dt_parts(&q.dt), ents(&q.ignore));
        macro_rules! same {
            ($what:expr, $a:expr, $b:expr) => {{
                let (x, y) = ($a, $b);
                if x != y {
                    return bad("history", format!("{}: got {:?}, a freshly built layout answers {:?}: {}", $what, x, y, desc()));
                }
            }};
        }
        same!("poly_collides", l.cde().poly_collides(&ws, &q.ignore), f.cde().poly_collides(&ws, &q.ignore));
        same!(
            "surrogate_collides",
            l.cde().surrogate_collides(q.s.shape.surrogate(), &tr, &q.ignore),
            f.cde().surrogate_collides(q.s.shape.surrogate(), &tr, &q.ignore)
        );
        let (mut x, mut y) = (vec![], vec![]);
        l.cde().collect_poly_collisions(&ws, &q.ignore, &mut x);
        f.cde().collect_poly_collisions(&ws, &q.ignore, &mut y);
        same!("collect_poly_collisions", sorted(x), sorted(y));
        let (mut x, mut y) = (vec![], vec![]);
        l.cde().collect_surrogate_collisions(q.s.shape.surrogate(), &tr, &q.ignore, &mut x);
        f.cde().collect_surrogate_collisions(q.s.shape.surrogate(), &tr, &q.ignore, &mut y);
        same!("collect_surrogate_collisions", sorted(x), sorted(y));
        let p = pt_in(r, &v.cde_bb, 0.02);
        let p2 = pt_in(r, &v.cde_bb, 0.02);
        let c = Circle::new(Point(p[0] as fsize, p[1] as fsize), (r.range(0.005, 0.2) * v.cde_bb.w()) as fsize);
        let e = Edge::new(Point(p[0] as fsize, p[1] as fsize), Point(p2[0] as fsize, p2[1] as fsize));
        let h = &v.haz[r.below(v.haz.len())];
        same!(
            "point_definitely_collides_with",
            t3(l.cde().point_definitely_collides_with(&c.center, h.e)),
            t3(f.cde().point_definitely_collides_with(&c.center, h.e))
        );
        if !gone.is_empty() {
            // something removed is not there, wherever one looks
            let e = *r.pick(gone);
            let p = match e {
                HazardEntity::PlacedItem { id, dt } => {
                    let (rot, t) = dt_parts(&dt);
                    pt_in(r, &geo::bbox(&geo::rot_tr(&g.items[id].pts, rot, t)), -0.1)
                }
                _ => p,
            };
            let p = Point(p[0] as fsize, p[1] as fsize);
            same!(
                format!("point_definitely_collides_with removed {}", ent(&e)),
                t3(l.cde().point_definitely_collides_with(&p, e)),
                t3(f.cde().point_definitely_collides_with(&p, e))
            );
            cov.hit("fresh.gone");
        }
        same!(
            "circle_definitely_collides",
            t3(l.cde().circle_definitely_collides(&c, &q.ignore)),
            t3(f.cde().circle_definitely_collides(&c, &q.ignore))
        );
        same!(
            "edge_definitely_collides",
            t3(l.cde().edge_definitely_collides(&e, &q.ignore)),
            t3(f.cde().edge_definitely_collides(&e, &q.ignore))
        );
        let (mut x, mut y) = (vec![], vec![]);
        l.cde().hazards_within(&c, &q.ignore, &mut x);
        f.cde().hazards_within(&c, &q.ignore, &mut y);
        same!("hazards_within circle", sorted(x), sorted(y));
        let (mut x, mut y) = (vec![], vec![]);
        l.cde().hazards_within(&e, &q.ignore, &mut x);
        f.cde().hazards_within(&e, &q.ignore, &mut y);
        same!("hazards_within edge", sorted(x), sorted(y));
        cov.hit("fresh.q");
    }
    if g.sc.cde.hpg_n_cells > 0 && !pend {
        if let (Ok(a), Ok(b)) = (l.cde().haz_prox_grid(), f.cde().haz_prox_grid()) {
            if a.grid.cells.len() != b.grid.cells.len() {
                return bad("hpg-history", "grids of different size".into());
            }
            for (i, (x, y)) in a.grid.cells.iter().zip(&b.grid.cells).enumerate() {
                match (x, y) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        let d = (x.uni_prox.0 as f64 - y.uni_prox.0 as f64).abs();
                        let lim = 1e-4 * v.cde_bb.w();
                        let dz = x.qz_prox.iter().zip(&y.qz_prox).any(|(p, q)| p != q);
                        if x.bbox != y.bbox || d > lim || dz {
                            return bad(
                                "hpg-history",
                                format!("grid cell {}: proximity {} but a fresh layout has {}", i, x.uni_prox.0, y.uni_prox.0),
                            );
                        }
                    }
                    _ => return bad("hpg-history", format!("grid cell {} exists in only one of the grids", i)),
                }
            }
            cov.hit("fresh.hpg");
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Grid {
    /// no removal is pending: must be readable
    Readable,
    /// removals are pending: refused, or readable and exact all the same
    Either,
}

/// C04 — the proximity grid.
pub fn check_hpg(l: &Layout, g: &Golden, r: &mut Rng, n_feas: usize, state: Grid, cov: &mut Cov) -> Res {
    if g.sc.cde.hpg_n_cells == 0 {
        return Ok(());
    }
    let grid = match (l.cde().haz_prox_grid(), state) {
        (Err(_), Grid::Readable) => return bad("hpg-refused", "grid refused although no removal is pending".into()),
        (Err(_), _) => {
            cov.hit("hpg.refused");
            return Ok(());
        }
        (Ok(x), _) => x,
    };
    cov.hit("hpg.read");
    let v = View::of(l, g);
    // poles of everything placed
    let mut poles: Vec<(HazardEntity, P, f64)> = vec![];
    for (_, pi) in l.placed_items() {
        let (rr, t) = dt_parts(&pi.d_transf);
        for (c, rad) in &g.items[pi.item_id].poles {
            poles.push((HazardEntity::PlacedItem { id: pi.item_id, dt: pi.d_transf }, geo::rot_pt(*c, rr, t), *rad));
        }
    }
    let tol = (8.0 * v.tol).max(FUZZ * v.cde_bb.max_abs());
    let prox = |p: P, h: &Haz| if geo::pip(p, &h.poly) == h.interior { 0.0 } else { geo::d_pt_border(p, &h.poly) };
    for (i, cell) in grid.grid.cells.iter().enumerate() {
        let Some(cell) = cell else { continue };
        let c = [cell.centroid.0 as f64, cell.centroid.1 as f64];
        let bb = &cell.bbox;
        let mid = [(bb.x_min as f64 + bb.x_max as f64) / 2.0, (bb.y_min as f64 + bb.y_max as f64) / 2.0];
        if geo::dist(c, mid) > tol {
            return bad("hpg-cell", format!("cell {} centroid off its box", i));
        }
        let stat = v.haz[..v.n_static]
            .iter()
            .filter(|h| !matches!(h.e, HazardEntity::InferiorQualityZone { .. }))
            .map(|h| prox(c, h))
            .fold(f64::MAX, f64::min);
        let dynm = poles.iter().map(|(_, q, rad)| (geo::dist(c, *q) - rad).max(0.0)).fold(f64::MAX, f64::min);
        let want = stat.min(dynm);
        let got = cell.uni_prox.0 as f64;
        if (got - want).abs() > tol {
            return bad("hpg-value", format!("cell {} at {:?}: proximity {} but the nearest hazard is at {} ({} items)", i, c, got, want, l.placed_items().len()));
        }
        if (cell.static_uni_prox.0 as f64 - stat).abs() > tol {
            return bad("hpg-static", format!("cell {}: static proximity {} should be {}", i, cell.static_uni_prox.0, stat));
        }
        // the named hazard is present and really that close
        let d = match cell.uni_prox.1 {
            HazardEntity::PlacedItem { .. } => poles
                .iter()
                .filter(|(e, _, _)| *e == cell.uni_prox.1)
                .map(|(_, q, rad)| (geo::dist(c, *q) - rad).max(0.0))
                .fold(f64::MAX, f64::min),
            e => v.haz[..v.n_static].iter().find(|h| h.e == e).map(|h| prox(c, h)).unwrap_or(f64::MAX),
        };
        if (d - got).abs() > tol {
            return bad("hpg-label", format!("cell {}: nearest hazard named {} which is at {} (cell says {})", i, ent(&cell.uni_prox.1), d, got));
        }
        for q in 0..cell.qz_prox.len() {
            let want = v.haz[..v.n_static]
                .iter()
                .filter(|h| matches!(h.e, HazardEntity::InferiorQualityZone { quality, .. } if quality == q))
                .map(|h| prox(c, h))
                .fold(f64::MAX, f64::min);
            let got = cell.qz_prox[q] as f64;
            let both_max = want == f64::MAX && cell.qz_prox[q] == fsize::MAX;
            if !both_max && (got - want).abs() > tol {
                return bad("hpg-zone", format!("cell {}: quality {} proximity {} should be {}", i, q, got, want));
            }
        }
        // what a caller reads for a required quality: only the zones below it count
        let q = r.below(N_QUALITIES + 2).checked_sub(1);
        let want = (0..q.unwrap_or(N_QUALITIES)).map(|q| cell.qz_prox[q]).fold(cell.uni_prox.0, fsize::min);
        let got = cell.hazard_proximity(q);
        if (got as f64 - want as f64).abs() > tol {
            return bad("hpg-quality", format!("cell {}: proximity {} for quality {:?} should be {}", i, got, q, want));
        }
        cov.hit("hpg.cells");
    }
    // cells holding a feasible reference point are not ruled out
    let its = g.twin.items();
    let feasible = |id: usize, dt: &DTransformation| {
        let world = g.world_shape(id, dt);
        let wb = geo::bbox(&world);
        let bq = g.items[id].bq;
        v.haz.iter().all(|h| match h.e {
            HazardEntity::InferiorQualityZone { quality, .. } if bq.map_or(false, |b| quality >= b) => true,
            _ => rel_poly(h, &world, &wb, v.tol) == Rel::No,
        })
    };
    // from the side of the cells: no position within a cell that is ruled out may be feasible; the
    // cells that come closest to being usable say most
    for _ in 0..(n_feas / 4).max(1) {
        let id = r.below(its.len());
        let bq = g.items[id].bq;
        let prox = |c: &HPGCell| {
            let z = (0..bq.unwrap_or(N_QUALITIES)).map(|q| c.qz_prox[q] as f64).fold(f64::MAX, f64::min);
            (c.uni_prox.0 as f64).min(z)
        };
        let mut out: Vec<(f64, &HPGCell)> =
            grid.grid.cells.iter().flatten().filter(|c| !c.could_accommodate_item(&its[id].0)).map(|c| (prox(c), c)).collect();
        out.sort_by(|a, b| b.0.total_cmp(&a.0));
        for _ in 0..6 {
            if out.is_empty() {
                break;
            }
            let k = r.below(out.len().min(24));
            let b = &out[k].1.bbox;
            cov.hit("hpg.ruled-out");
            let rot = match &g.items[id].rots {
                Some(rs) => *r.pick(rs),
                None => r.range(0.0, 6.28),
            };
            for j in 0..5 {
                let f = match j {
                    0 => [r.range(0.0, 1.0), r.range(0.0, 1.0)],
                    j => [if j & 1 == 0 { 0.03 } else { 0.97 }, if j & 2 == 0 { 0.03 } else { 0.97 }],
                };
                let at = [
                    b.x_min as f64 + f[0] * (b.x_max as f64 - b.x_min as f64),
                    b.y_min as f64 + f[1] * (b.y_max as f64 - b.y_min as f64),
                ];
                let q = geo::rot_pt(g.items[id].poi.0, rot, [0.0, 0.0]);
                let dt = DTransformation::new(rot as fsize, ((at[0] - q[0]) as fsize, (at[1] - q[1]) as fsize));
                if feasible(id, &dt) {
                    return bad("hpg-ruled-out", format!("cell {:?} ruled out for item {} although {:?} is feasible", b, id, dt_parts(&dt)));
                }
            }
        }
    }
    for _ in 0..n_feas {
        let id = r.below(its.len());
        let rot = match &g.items[id].rots {
            Some(rs) => *r.pick(rs),
            None => r.range(0.0, 6.28),
        };
        let dt = dt_centered(&g.items[id].pts, rot, pt_in(r, &v.bin_bb, 0.0));
        let free = feasible(id, &dt);
        if !free {
            continue;
        }
        cov.hit("hpg.feasible");
        let (rr, t) = dt_parts(&dt);
        let poi = geo::rot_pt(g.items[id].poi.0, rr, t);
        let mut found = false;
        for cell in grid.grid.cells.iter().flatten() {
            let b = &cell.bbox;
            let e = v.tol;
            if poi[0] >= b.x_min as f64 - e && poi[0] <= b.x_max as f64 + e && poi[1] >= b.y_min as f64 - e && poi[1] <= b.y_max as f64 + e {
                found = true;
                if !cell.could_accommodate_item(&its[id].0) {
                    return bad("hpg-ruled-out", format!("cell {:?} ruled out for item {} although {:?} is feasible", b, id, dt_parts(&dt)));
                }
            }
        }
        if !found {
            return bad("hpg-no-cell", format!("no grid cell covers the feasible reference point {:?} of item {}", poi, id));
        }
    }
    Ok(())
}

