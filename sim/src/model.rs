//! Golden (independently parsed) instance data and the view of a layout the oracles work on.
use crate::gen::Scenario;
use crate::geo::{self, BB, P, Poly};
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::io::parser::Parser;
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use std::sync::Arc;

pub const F64: bool = std::mem::size_of::<fsize>() == 8;
/// contact tolerance of the oracles, relative to the coordinate range
pub const TOL: f64 = if F64 { 1e-7 } else { 2e-5 };

/// the library compares coordinates with a relative tolerance of sqrt(epsilon); its point-in-polygon
/// test is only meant to be right beyond that distance from the border
pub const FUZZ: f64 = if F64 { 2e-8 } else { 4e-4 };

pub fn pts(p: &SimplePolygon) -> Poly {
    p.points.iter().map(|q| [q.0 as f64, q.1 as f64]).collect()
}

pub fn dt_parts(d: &DTransformation) -> (f64, P) {
    let t = d.translation();
    (d.rotation() as f64, [t.0 as f64, t.1 as f64])
}

pub struct GItem {
    pub pts: Poly,
    pub area: f64,
    pub centroid: P,
    pub bq: Option<usize>,
    /// allowed rotations in radians, None = continuous
    pub rots: Option<Vec<f64>>,
    pub demand: usize,
    /// centre and radius of the surrogate poles of the unplaced item
    pub poles: Vec<(P, f64)>,
    pub poi: (P, f64),
}

pub struct Golden {
    pub sc: Scenario,
    /// instance handed to the system under test
    pub inst: Instance,
    /// separately parsed twin, never handed out for mutation
    pub twin: Instance,
    /// parsed without centring: the input's own coordinates
    pub raw: Instance,
    pub items: Vec<GItem>,
    pub stock: Vec<usize>,
    pub strip_h: f64,
}

// parsed once, never changed afterwards
unsafe impl Send for Golden {}
unsafe impl Sync for Golden {}

pub fn parser(sc: &Scenario) -> Parser {
    Parser::new(simpl_cfg(sc), sc.cde, sc.center)
}
pub fn simpl_cfg(sc: &Scenario) -> PolySimplConfig {
    match sc.simpl {
        Some(tolerance) => PolySimplConfig::Enabled { tolerance },
        None => PolySimplConfig::Disabled,
    }
}

impl Golden {
    pub fn new(sc: Scenario) -> Golden {
        let inst = parser(&sc).parse(&sc.json);
        let mut cheap = sc.cde;
        cheap.item_surrogate_config.n_ff_piers = 0;
        let twin = Parser::new(simpl_cfg(&sc), cheap, sc.center).parse(&sc.json);
        let raw = Parser::new(simpl_cfg(&sc), cheap, false).parse(&sc.json);
        let items = twin
            .items()
            .iter()
            .map(|(it, q)| {
                let p = pts(&it.shape);
                GItem {
                    area: geo::area(&p).abs(),
                    centroid: geo::centroid(&p),
                    bq: it.base_quality,
                    rots: match &it.allowed_rotation {
                        AllowedRotation::None => Some(vec![0.0]),
                        AllowedRotation::Continuous => None,
                        AllowedRotation::Discrete(v) => Some(v.iter().map(|x| *x as f64).collect()),
                    },
                    demand: *q,
                    poles: it
                        .shape
                        .surrogate()
                        .poles
                        .iter()
                        .map(|c| ([c.center.0 as f64, c.center.1 as f64], c.radius as f64))
                        .collect(),
                    poi: ([it.shape.poi.center.0 as f64, it.shape.poi.center.1 as f64], it.shape.poi.radius as f64),
                    pts: p,
                }
            })
            .collect();
        let (stock, strip_h) = match &twin {
            Instance::BP(b) => (b.bins.iter().map(|(_, q)| *q).collect(), 0.0),
            Instance::SP(s) => (vec![], s.strip_height as f64),
        };
        Golden { sc, inst, twin, raw, items, stock, strip_h }
    }
    pub fn is_strip(&self) -> bool {
        matches!(self.twin, Instance::SP(_))
    }
    pub fn world_shape(&self, id: usize, d: &DTransformation) -> Poly {
        let (r, t) = dt_parts(d);
        geo::rot_tr(&self.items[id].pts, r, t)
    }
}

/// One hazard as the oracle sees it.
#[derive(Clone)]
pub struct Haz {
    pub e: HazardEntity,
    pub poly: Arc<Poly>,
    pub bb: BB,
    /// true: hazardous inside, false: hazardous outside
    pub interior: bool,
}

/// A layout's content, read from its public state, with oracle geometry.
#[derive(Clone)]
pub struct View {
    pub haz: Vec<Haz>,
    pub bin_bb: BB,
    pub cde_bb: BB,
    pub tol: f64,
    pub n_static: usize,
}

pub fn bin_hazards(b: &Bin) -> Vec<Haz> {
    let mk = |e, p: &SimplePolygon, interior| {
        let poly = Arc::new(pts(p));
        Haz { e, bb: geo::bbox(&poly), poly, interior }
    };
    let mut v = vec![mk(HazardEntity::BinExterior, &b.outer, false)];
    for (id, h) in b.holes.iter().enumerate() {
        v.push(mk(HazardEntity::BinHole { id }, h, true));
    }
    for z in b.quality_zones.iter().flatten() {
        for (id, s) in z.zones.iter().enumerate() {
            v.push(mk(HazardEntity::InferiorQualityZone { quality: z.quality, id }, s, true));
        }
    }
    v
}

pub fn inflate_square(b: &BB) -> BB {
    let (w, h) = (b.w(), b.h());
    let dx = if w < h { (h - w) / 2.0 } else { 0.0 };
    let dy = if h < w { (w - h) / 2.0 } else { 0.0 };
    BB { x0: b.x0 - dx, y0: b.y0 - dy, x1: b.x1 + dx, y1: b.y1 + dy }
}

impl View {
    pub fn of(l: &Layout, g: &Golden) -> View {
        let mut haz = bin_hazards(&l.bin);
        let n_static = haz.len();
        let bin_bb = haz[0].bb;
        let cde_bb = inflate_square(&bin_bb);
        for (_, pi) in l.placed_items() {
            let poly = Arc::new(g.world_shape(pi.item_id, &pi.d_transf));
            haz.push(Haz {
                e: HazardEntity::PlacedItem { id: pi.item_id, dt: pi.d_transf },
                bb: geo::bbox(&poly),
                poly,
                interior: true,
            });
        }
        let s = cde_bb.max_abs().max(cde_bb.w());
        View { haz, bin_bb, cde_bb, tol: TOL * s, n_static }
    }
}

/// (key, item id, transformation) triples, sorted by key: what a layout contains.
pub type Items = Vec<(PItemKey, usize, DTransformation)>;

pub fn items_of(m: &slotmap::SlotMap<PItemKey, jagua_rs::entities::placed_item::PlacedItem>) -> Items {
    let mut v: Items = m.iter().map(|(k, p)| (k, p.item_id, p.d_transf)).collect();
    v.sort_by_key(|x| x.0);
    v
}

pub fn bits(d: &DTransformation) -> (u64, u64, u64) {
    let (r, t) = dt_parts(d);
    ((r + 0.0).to_bits(), (t[0] + 0.0).to_bits(), (t[1] + 0.0).to_bits())
}

#[derive(Clone, Debug, PartialEq)]
pub enum BinKey {
    Type(usize),
    Strip(fsize, fsize, fsize, fsize),
}

pub fn bin_key(b: &Bin, g: &Golden) -> BinKey {
    if g.is_strip() {
        let r = b.bbox();
        BinKey::Strip(r.x_min, r.y_min, r.x_max, r.y_max)
    } else {
        BinKey::Type(b.id)
    }
}

#[derive(Clone, Debug)]
pub struct LM {
    pub bin: BinKey,
    pub items: Items,
}

impl LM {
    pub fn of(l: &Layout, g: &Golden) -> LM {
        LM { bin: bin_key(&l.bin, g), items: items_of(l.placed_items()) }
    }
    /// content without keys, for multiset comparison
    pub fn sig(&self) -> String {
        let mut v: Vec<_> = self.items.iter().map(|(_, i, d)| (*i, bits(d))).collect();
        v.sort();
        format!("{:?}{:?}", self.bin, v)
    }
    pub fn keyed_sig(&self) -> String {
        let v: Vec<_> = self.items.iter().map(|(k, i, d)| (*k, *i, bits(d))).collect();
        format!("{:?}{:?}", self.bin, v)
    }
    pub fn bin_area(&self, g: &Golden) -> f64 {
        match &self.bin {
            BinKey::Strip(a, b, c, d) => (*c as f64 - *a as f64) * (*d as f64 - *b as f64),
            BinKey::Type(i) => {
                if let Instance::BP(bp) = &g.twin {
                    let b = &bp.bins[*i].0;
                    geo::area(&pts(&b.outer)).abs() - b.holes.iter().map(|h| geo::area(&pts(h)).abs()).sum::<f64>()
                } else {
                    0.0
                }
            }
        }
    }
    pub fn item_area(&self, g: &Golden) -> f64 {
        self.items.iter().map(|(_, i, _)| g.items[*i].area).sum()
    }
}
