//! Swarm-style scenario generation: instances, engine tuning, parser settings.
use crate::geo::{self, P, Poly};
use crate::rng::Rng;
use jagua_rs::fsize;
use jagua_rs::io::json_instance::*;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};

#[derive(Clone)]
pub struct Scenario {
    pub json: JsonInstance,
    pub cde: CDEConfig,
    pub simpl: Option<fsize>,
    pub center: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Any,
    Bin,
    Strip,
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub kind: Kind,
    /// every item fits in the container in every allowed rotation
    pub must_fit: bool,
    pub allow_no_hpg: bool,
    pub max_types: usize,
    pub max_demand: usize,
    pub big_grids: bool,
    pub continuous: bool,
    /// generate piers (expensive: about a second per pier and shape in release builds)
    pub piers: bool,
    /// many item types, copies, containers, holes and zones; small items
    pub wide: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile { kind: Kind::Any, must_fit: false, allow_no_hpg: true, max_types: 5, max_demand: 5, big_grids: false, continuous: true, piers: false, wide: false }
    }
}

/// A simple polygon of about unit size (bbox within [-0.5,0.5]^2), thick everywhere.
pub fn unit_shape(r: &mut Rng) -> Poly {
    let k = r.below(11);
    let mut p: Poly = match k {
        0 => {
            let h = r.range(0.35, 1.0) / 2.0;
            vec![[-0.5, -h], [0.5, -h], [0.5, h], [-0.5, h]]
        }
        1 => {
            // convex: points on an ellipse
            let n = 3 + r.below(7);
            let e = r.range(0.5, 1.0);
            let ph = r.range(0.0, 6.28);
            (0..n)
                .map(|i| {
                    let a = ph + 6.283185 * (i as f64 + r.range(-0.25, 0.25)) / n as f64;
                    [0.5 * a.cos(), 0.5 * e * a.sin()]
                })
                .collect()
        }
        2 => {
            let n = 5 + r.below(8);
            (0..n)
                .map(|i| {
                    let a = 6.283185 * (i as f64 + r.range(-0.2, 0.2)) / n as f64;
                    let q = r.range(0.28, 0.5);
                    [q * a.cos(), q * a.sin()]
                })
                .collect()
        }
        3 => {
            // L
            let (tx, ty) = (r.range(0.25, 0.6), r.range(0.25, 0.6));
            vec![[-0.5, -0.5], [0.5, -0.5], [0.5, -0.5 + ty], [-0.5 + tx, -0.5 + ty], [-0.5 + tx, 0.5], [-0.5, 0.5]]
        }
        4 => {
            // U
            let t = r.range(0.22, 0.32);
            let d = r.range(0.2, 0.35);
            vec![
                [-0.5, -0.5],
                [0.5, -0.5],
                [0.5, 0.5],
                [0.5 - t, 0.5],
                [0.5 - t, -0.5 + d],
                [-0.5 + t, -0.5 + d],
                [-0.5 + t, 0.5],
                [-0.5, 0.5],
            ]
        }
        5 => {
            // comb
            let n = 2 + r.below(3);
            let base = r.range(0.2, 0.4);
            let w = 1.0 / (2 * n - 1) as f64;
            let mut v = vec![[-0.5, -0.5], [0.5, -0.5]];
            for i in (0..n).rev() {
                let x0 = -0.5 + 2.0 * i as f64 * w;
                v.push([x0 + w, 0.5]);
                v.push([x0, 0.5]);
                if i > 0 {
                    v.push([x0, -0.5 + base]);
                    v.push([x0 - w, -0.5 + base]);
                }
            }
            v
        }
        6 => {
            // many vertices
            let n = match r.below(20) {
                0 => 100 + r.below(150),
                1 | 2 => 60 + r.below(35),
                _ => 14 + r.below(28),
            };
            let amp = r.range(0.0, 0.12);
            let fr = 2.0 + r.below(5) as f64;
            (0..n)
                .map(|i| {
                    let a = 6.283185 * i as f64 / n as f64;
                    let q = 0.38 + amp * (fr * a).sin();
                    [q * a.cos(), q * a.sin()]
                })
                .collect()
        }
        8 => {
            // slender, at any angle
            let h = r.range(0.05, 0.15) / 2.0;
            let n = 2 + r.below(3);
            let mut v: Poly = (0..n).map(|i| [-0.5 + i as f64 / (n - 1) as f64, -h]).collect();
            v.extend((0..n).rev().map(|i| [-0.5 + i as f64 / (n - 1) as f64, h]));
            geo::rot_tr(&v, r.range(0.0, 6.28), [0.0, 0.0])
        }
        9 => {
            // deep notches
            let n = 4 + r.below(5);
            (0..2 * n)
                .map(|i| {
                    let a = 6.283185 * (i as f64 + r.range(-0.15, 0.15)) / (2 * n) as f64;
                    let q = if i % 2 == 0 { r.range(0.35, 0.5) } else { r.range(0.1, 0.2) };
                    [q * a.cos(), q * a.sin()]
                })
                .collect()
        }
        7 => vec![[-0.5, -0.45], [0.5, -0.4], [r.range(-0.4, 0.4), 0.5]],
        _ => {
            // plus / T
            let t = r.range(0.15, 0.25);
            vec![
                [-t, -0.5],
                [t, -0.5],
                [t, -t],
                [0.5, -t],
                [0.5, t],
                [t, t],
                [t, 0.5],
                [-t, 0.5],
                [-t, t],
                [-0.5, t],
                [-0.5, -t],
                [-t, -t],
            ]
        }
    };
    // rotate a bit and jitter: no runs of equal x
    let a = if r.chance(0.5) { 0.0 } else { r.range(0.0, 6.28) };
    p = geo::rot_tr(&p, a, [0.0, 0.0]);
    let j = (0.4 / p.len() as f64).min(0.01);
    for q in p.iter_mut() {
        q[0] += r.range(-j, j);
        q[1] += r.range(-j, j);
    }
    if geo::area(&p) < 0.0 {
        p.reverse();
    }
    p
}

fn to_json(p: &[P], r: &mut Rng) -> JsonSimplePoly {
    let mut v: Vec<(fsize, fsize)> = p.iter().map(|q| (q[0] as fsize, q[1] as fsize)).collect();
    if r.chance(0.3) {
        v.reverse();
    }
    if r.chance(0.5) {
        v.push(v[0]);
    }
    JsonSimplePoly(v)
}

fn scaled(p: &[P], sx: f64, sy: f64, o: P) -> Poly {
    p.iter().map(|q| [q[0] * sx + o[0], q[1] * sy + o[1]]).collect()
}

pub fn gen_cfg(r: &mut Rng, pr: &Profile) -> (CDEConfig, Option<fsize>, bool) {
    let hpg = if pr.big_grids {
        *r.pick(&[10usize, 50, 100, 300, 600, 1200, 2000])
    } else if pr.allow_no_hpg && r.chance(0.1) {
        0
    } else {
        *r.pick(&[1usize, 2, 7, 10, 40, 100, 250, 500])
    };
    let cde = CDEConfig {
        quadtree_depth: r.below(8) as u8,
        hpg_n_cells: hpg,
        item_surrogate_config: SPSurrogateConfig {
            pole_coverage_goal: *r.pick(&[0.0, 0.5, 0.9, 0.95]) as fsize,
            max_poles: 1 + r.below(12),
            n_ff_poles: r.below(4),
            n_ff_piers: if pr.piers { 1 + r.below(2) } else { 0 },
        },
    };
    let simpl = if r.chance(0.5) { None } else { Some(*r.pick(&[0.0005, 0.001, 0.005, 0.01]) as fsize) };
    (cde, simpl, r.chance(0.7))
}

fn gen_rotations(r: &mut Rng, continuous: bool) -> Option<Vec<fsize>> {
    match r.below(9) {
        // long lists: fine steps, repeated, negative and more than a full turn
        7 => {
            let n = 5 + r.below(20);
            Some((0..n).map(|i| 360.0 / n as fsize * i as fsize).collect())
        }
        8 => {
            let mut v: Vec<fsize> = (0..2 + r.below(6)).map(|_| r.range(-720.0, 720.0) as fsize).collect();
            let again = v[r.below(v.len())];
            v.push(again);
            Some(v)
        }
        0 => Some(vec![]),
        6 => Some(vec![*r.pick(&[90.0, 180.0, 270.0, 45.0, -90.0, 360.0])]),
        1 => Some(vec![0.0]),
        2 => Some(vec![0.0, 180.0]),
        3 => Some(vec![0.0, 90.0, 180.0, 270.0]),
        4 => Some((0..1 + r.below(4)).map(|_| r.range(0.0, 360.0) as fsize).collect()),
        _ => {
            if continuous {
                None
            } else {
                Some(vec![*r.pick(&[90.0, 180.0, 270.0, 45.0, -90.0, 360.0])])
            }
        }
    }
}

/// mirrors a bin with its holes and zones in the y axis
fn mirror(b: &mut JsonBin) {
    fn flip(s: &mut JsonSimplePoly) {
        s.0.iter_mut().for_each(|q| q.0 = -q.0);
    }
    fn shape(s: &mut JsonShape) {
        match s {
            JsonShape::SimplePolygon(p) => flip(p),
            JsonShape::Polygon(p) => {
                flip(&mut p.outer);
                p.inner.iter_mut().for_each(flip);
            }
            JsonShape::Rectangle { width, height } => {
                let (w, h) = (*width, *height);
                *s = JsonShape::SimplePolygon(JsonSimplePoly(vec![(-w, 0.0), (0.0, 0.0), (0.0, h), (-w, h)]));
            }
            _ => {}
        }
    }
    shape(&mut b.shape);
    b.zones.iter_mut().for_each(|z| shape(&mut z.shape));
}

pub fn gen(r: &mut Rng, pr: &Profile) -> Scenario {
    let (cde, simpl, center) = gen_cfg(r, pr);
    let strip = match pr.kind {
        Kind::Any => r.chance(0.4),
        Kind::Bin => false,
        Kind::Strip => true,
    };
    let scale = *r.pick(&[1.0, 10.0, 100.0, 100.0, 1000.0]) * r.range(0.5, 2.0);

    let n_types = if pr.wide { 3 + r.below(10) } else { 1 + r.below(pr.max_types) };
    let max_demand = if pr.wide { *r.pick(&[4, 12, 30]) } else { pr.max_demand };
    let mut items = vec![];
    for n in 0..n_types {
        if n > 0 && r.chance(0.12) {
            // the same shape again under other conditions
            let twin: &JsonItem = &items[r.below(n)];
            let twin = JsonItem {
                demand: 1 + r.below(max_demand) as u64,
                allowed_orientations: gen_rotations(r, pr.continuous),
                shape: twin.shape.clone(),
                value: twin.value,
                base_quality: if r.chance(0.5) { twin.base_quality } else { Some(r.below(11)) },
            };
            items.push(twin);
            continue;
        }
        let s = scale
            * match (pr.wide, r.chance(0.07)) {
                (_, true) => r.range(0.006, 0.06),
                (true, _) => r.range(0.04, 0.16),
                _ => r.range(0.08, if pr.must_fit { 0.3 } else { 0.45 }),
            };
        let us = unit_shape(r);
        let (sx, sy) = (s, s * r.range(0.7, 1.0));
        let off = if r.chance(0.5) { [0.0, 0.0] } else { [r.range(-2.0, 2.0) * s, r.range(-2.0, 2.0) * s] };
        let shape = if r.chance(0.15) {
            JsonShape::Rectangle { width: sx as fsize, height: (sy * r.range(0.4, 1.0)) as fsize }
        } else {
            JsonShape::SimplePolygon(to_json(&scaled(&us, sx, sy, off), r))
        };
        items.push(JsonItem {
            demand: if n > 0 && r.chance(0.04) { 0 } else { 1 + r.below(max_demand) as u64 },
            allowed_orientations: gen_rotations(r, pr.continuous),
            shape,
            value: if r.chance(0.5) { None } else { Some(r.below(100) as u64) },
            base_quality: match r.below(4) {
                0 | 1 => None,
                2 => Some(r.below(11)),
                _ => Some(5),
            },
        });
    }
    let name = format!("sim{}", r.u32());
    if strip {
        let h = scale * r.range(0.5, 1.2);
        return Scenario { json: JsonInstance { name, items, bins: None, strip: Some(JsonStrip { height: h as fsize }) }, cde, simpl, center };
    }
    let mut bins = vec![];
    for _ in 0..if pr.wide { 1 + r.below(7) } else { 1 + r.below(3) } {
        let (w, h) = (scale * r.range(0.8, 1.5), scale * r.range(0.5, 1.3));
        let off = if r.chance(0.6) { [0.0, 0.0] } else { [r.range(-1.0, 1.0) * scale, r.range(-1.0, 1.0) * scale] };
        let zones_n = if pr.wide { r.below(8) } else { *r.pick(&[0usize, 0, 0, 1, 2, 4]) };
        let holes_n = if pr.wide { r.below(7) } else { *r.pick(&[0usize, 0, 1, 2, 3]) };
        let kind = r.below(4);
        let rect: Poly = vec![[off[0], off[1]], [off[0] + w, off[1]], [off[0] + w, off[1] + h], [off[0], off[1] + h]];
        let outer: Poly = match kind {
            0 | 1 => rect.clone(),
            _ => {
                let us = unit_shape(r);
                scaled(&us, 1.3 * w, 1.3 * h, [off[0] + w / 2.0, off[1] + h / 2.0])
            }
        };
        // candidate cells for holes and zones: a 3x3 raster of the outer bbox
        let ob = geo::bbox(&outer);
        let mut cells: Vec<usize> = (0..9).collect();
        let blob = |r: &mut Rng, cells: &mut Vec<usize>, exclusive: bool| -> Option<Poly> {
            for _ in 0..6 {
                if cells.is_empty() {
                    return None;
                }
                let ci = r.below(cells.len());
                let c = cells[ci];
                let (cw, ch) = (ob.w() / 3.0, ob.h() / 3.0);
                let cc = [ob.x0 + (c % 3) as f64 * cw + cw / 2.0, ob.y0 + (c / 3) as f64 * ch + ch / 2.0];
                let f = if r.chance(0.1) { r.range(0.03, 0.25) } else { r.range(0.25, 0.8) };
                let us = unit_shape(r);
                let p = scaled(&us, cw * f, ch * f, cc);
                if geo::leaves(&p, &outer, 0.002 * scale) == geo::Rel::No {
                    if exclusive {
                        cells.remove(ci);
                    }
                    return Some(p);
                }
            }
            None
        };
        let mut holes = vec![];
        for _ in 0..holes_n {
            if let Some(p) = blob(r, &mut cells, true) {
                holes.push(p);
            }
        }
        let mut zones = vec![];
        let mut all: Vec<usize> = (0..9).collect();
        for _ in 0..zones_n {
            if let Some(p) = blob(r, &mut all, false) {
                let q = r.below(10);
                zones.push(JsonQualityZone { quality: q, shape: JsonShape::SimplePolygon(to_json(&p, r)) });
            }
        }
        let shape = if !holes.is_empty() || r.chance(0.2) {
            JsonShape::Polygon(JsonPoly { outer: to_json(&outer, r), inner: holes.iter().map(|h| to_json(h, r)).collect() })
        } else if kind == 0 {
            JsonShape::Rectangle { width: w as fsize, height: h as fsize }
        } else {
            JsonShape::SimplePolygon(to_json(&outer, r))
        };
        // zones were made for the offset contour; a plain rectangle sits at the origin
        if let JsonShape::Rectangle { .. } = shape {
            for z in zones.iter_mut() {
                if let JsonShape::SimplePolygon(JsonSimplePoly(v)) = &mut z.shape {
                    for q in v.iter_mut() {
                        q.0 -= off[0] as fsize;
                        q.1 -= off[1] as fsize;
                    }
                }
            }
        }
        if r.chance(0.08) {
            // a zone that reaches over the border of the bin
            let ci = r.below(outer.len());
            let f = r.range(0.15, 0.4);
            let us = unit_shape(r);
            let o = if let JsonShape::Rectangle { .. } = shape { [outer[ci][0] - off[0], outer[ci][1] - off[1]] } else { outer[ci] };
            let p = scaled(&us, f * w, f * h, o);
            zones.push(JsonQualityZone { quality: r.below(10), shape: JsonShape::SimplePolygon(to_json(&p, r)) });
        }
        if let (JsonShape::Rectangle { .. }, true) = (&shape, r.chance(0.1)) {
            // the lower left part of a plain rectangle
            let (fw, fh) = (r.range(0.2, 0.6), r.range(0.2, 1.0));
            zones.push(JsonQualityZone { quality: r.below(10), shape: JsonShape::Rectangle { width: (fw * w) as fsize, height: (fh * h) as fsize } });
        }
        bins.push(JsonBin {
            cost: if r.chance(0.05) { 4_000_000_000 + r.below(1_000_000_000) as u64 } else { 1 + r.below(50) as u64 },
            stock: match r.below(4) {
                0 => None,
                _ if r.chance(0.04) => Some([300, 70_000, 5_000_000_000][r.below(3)]),
                _ => Some(1 + r.below(if pr.wide { 9 } else { 3 }) as u64),
            },
            shape,
            zones,
        });
    }
    if bins.len() > 1 && r.chance(0.2) {
        // one outline twice: with other zones, mirrored, or shifted; the area stays the same
        let (i, j) = (r.below(bins.len()), r.below(bins.len()));
        if i != j {
            let (shape, zones) = (bins[i].shape.clone(), bins[i].zones.clone());
            bins[j].shape = shape;
            bins[j].zones = zones;
            match r.below(3) {
                0 => {
                    if bins[j].zones.pop().is_none() {
                        mirror(&mut bins[j]);
                    }
                }
                1 => bins[j].zones.iter_mut().for_each(|z| z.quality = (z.quality + 3) % 10),
                _ => mirror(&mut bins[j]),
            }
        }
    }
    // out of stock, as long as some other bin is left
    if bins.len() > 1 && r.chance(0.12) {
        let i = r.below(bins.len());
        bins[i].stock = Some(0);
    }
    Scenario { json: JsonInstance { name, items, bins: Some(bins), strip: None }, cde, simpl, center }
}
