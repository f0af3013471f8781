//! Independent double-precision geometry: the oracle side. Three-valued: anything closer to a
//! contact than the tolerance is `Unclear` and never judged.
pub type P = [f64; 2];
pub type Poly = Vec<P>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Yes,
    No,
    Unclear,
}

pub fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn cross(a: P, b: P) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn dist(a: P, b: P) -> f64 {
    let d = sub(a, b);
    dot(d, d).sqrt()
}

pub fn area(p: &[P]) -> f64 {
    let n = p.len();
    let mut s = 0.0;
    for i in 0..n {
        s += cross(p[i], p[(i + 1) % n]);
    }
    0.5 * s
}

pub fn centroid(p: &[P]) -> P {
    let n = p.len();
    let o = p[0];
    let (mut cx, mut cy, mut a) = (0.0, 0.0, 0.0);
    for i in 0..n {
        let u = sub(p[i], o);
        let v = sub(p[(i + 1) % n], o);
        let c = cross(u, v);
        a += c;
        cx += (u[0] + v[0]) * c;
        cy += (u[1] + v[1]) * c;
    }
    [o[0] + cx / (3.0 * a), o[1] + cy / (3.0 * a)]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct BB {
    pub x0: f64,
    pub y0: f64,
    pub x1: f64,
    pub y1: f64,
}
impl BB {
    pub fn w(&self) -> f64 {
        self.x1 - self.x0
    }
    pub fn h(&self) -> f64 {
        self.y1 - self.y0
    }
    pub fn poly(&self) -> Poly {
        vec![[self.x0, self.y0], [self.x1, self.y0], [self.x1, self.y1], [self.x0, self.y1]]
    }
    pub fn apart(&self, o: &BB, tol: f64) -> bool {
        self.x0 > o.x1 + tol || o.x0 > self.x1 + tol || self.y0 > o.y1 + tol || o.y0 > self.y1 + tol
    }
    pub fn max_abs(&self) -> f64 {
        self.x0.abs().max(self.x1.abs()).max(self.y0.abs()).max(self.y1.abs())
    }
}

pub fn bbox(p: &[P]) -> BB {
    let mut b = BB { x0: f64::MAX, y0: f64::MAX, x1: f64::MIN, y1: f64::MIN };
    for q in p {
        b.x0 = b.x0.min(q[0]);
        b.x1 = b.x1.max(q[0]);
        b.y0 = b.y0.min(q[1]);
        b.y1 = b.y1.max(q[1]);
    }
    b
}

pub fn rot_tr(p: &[P], r: f64, t: P) -> Poly {
    let (s, c) = r.sin_cos();
    p.iter().map(|q| [q[0] * c - q[1] * s + t[0], q[0] * s + q[1] * c + t[1]]).collect()
}
pub fn rot_pt(q: P, r: f64, t: P) -> P {
    let (s, c) = r.sin_cos();
    [q[0] * c - q[1] * s + t[0], q[0] * s + q[1] * c + t[1]]
}

pub fn d_pt_seg(p: P, a: P, b: P) -> f64 {
    let ab = sub(b, a);
    let l2 = dot(ab, ab);
    if l2 == 0.0 {
        return dist(p, a);
    }
    let t = (dot(sub(p, a), ab) / l2).clamp(0.0, 1.0);
    dist(p, [a[0] + t * ab[0], a[1] + t * ab[1]])
}

pub fn d_pt_border(p: P, poly: &[P]) -> f64 {
    let n = poly.len();
    (0..n).map(|i| d_pt_seg(p, poly[i], poly[(i + 1) % n])).fold(f64::MAX, f64::min)
}

/// even-odd rule, half-open on y
pub fn pip(p: P, poly: &[P]) -> bool {
    let n = poly.len();
    let mut c = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if (a[1] > p[1]) != (b[1] > p[1]) {
            let x = a[0] + (p[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]);
            if p[0] < x {
                c = !c;
            }
        }
    }
    c
}

fn line_d(p: P, a: P, b: P) -> f64 {
    let ab = sub(b, a);
    cross(ab, sub(p, a)) / dot(ab, ab).sqrt()
}

/// Segments cross properly, each end clearly on its own side of the other's line.
pub fn seg_cross_clear(a: P, b: P, c: P, d: P, tol: f64) -> bool {
    let (u, v) = (line_d(a, c, d), line_d(b, c, d));
    if !((u > tol && v < -tol) || (u < -tol && v > tol)) {
        return false;
    }
    let (u, v) = (line_d(c, a, b), line_d(d, a, b));
    (u > tol && v < -tol) || (u < -tol && v > tol)
}

fn seg_cross_any(a: P, b: P, c: P, d: P) -> bool {
    let o = |p: P, q: P, r: P| cross(sub(q, p), sub(r, p));
    let (o1, o2, o3, o4) = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b));
    (o1 > 0.0) != (o2 > 0.0) && (o3 > 0.0) != (o4 > 0.0)
}

pub fn d_seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    if seg_cross_any(a, b, c, d) {
        return 0.0;
    }
    d_pt_seg(a, c, d).min(d_pt_seg(b, c, d)).min(d_pt_seg(c, a, b)).min(d_pt_seg(d, a, b))
}

fn edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ {
    let n = p.len();
    (0..n).map(move |i| (p[i], p[(i + 1) % n]))
}

fn border_cross_clear(a: &[P], b: &[P], tol: f64) -> bool {
    let bb = bbox(b);
    for (p, q) in edges(a) {
        if bbox(&[p, q]).apart(&bb, 0.0) {
            continue;
        }
        for (r, s) in edges(b) {
            if seg_cross_clear(p, q, r, s, tol) {
                return true;
            }
        }
    }
    false
}

fn border_dist_gt(a: &[P], b: &[P], tol: f64) -> bool {
    for (p, q) in edges(a) {
        let e = bbox(&[p, q]);
        for (r, s) in edges(b) {
            if e.apart(&bbox(&[r, s]), tol) {
                continue;
            }
            if d_seg_seg(p, q, r, s) <= tol {
                return false;
            }
        }
    }
    true
}

fn any_vertex_deep(a: &[P], b: &[P], tol: f64) -> bool {
    let bb = bbox(b);
    a.iter().any(|&p| {
        p[0] > bb.x0 && p[0] < bb.x1 && p[1] > bb.y0 && p[1] < bb.y1 && pip(p, b) && d_pt_border(p, b) > tol
    })
}

/// Do the regions overlap (interior hazard)?
pub fn overlap(a: &[P], b: &[P], tol: f64) -> Rel {
    if bbox(a).apart(&bbox(b), tol) {
        return Rel::No;
    }
    if border_cross_clear(a, b, tol) || any_vertex_deep(a, b, tol) || any_vertex_deep(b, a, tol) {
        return Rel::Yes;
    }
    if border_dist_gt(a, b, tol) {
        // no contact at all, and no vertex of one inside the other
        if pip(a[0], b) || pip(b[0], a) {
            return Rel::Unclear;
        }
        return Rel::No;
    }
    Rel::Unclear
}

/// Does `a` leave the container `c`?
pub fn leaves(a: &[P], c: &[P], tol: f64) -> Rel {
    if a.iter().any(|&p| !pip(p, c) && d_pt_border(p, c) > tol) {
        return Rel::Yes;
    }
    if border_cross_clear(a, c, tol) || any_vertex_deep(c, a, tol) {
        return Rel::Yes;
    }
    if border_dist_gt(a, c, tol) && a.iter().all(|&p| pip(p, c)) && !pip(c[0], a) {
        return Rel::No;
    }
    Rel::Unclear
}

/// Does the closed disc meet the region (interior = true) or its complement (false)?
pub fn disc_meets(c: P, r: f64, poly: &[P], interior: bool, tol: f64) -> Rel {
    let inside = pip(c, poly);
    let d = d_pt_border(c, poly);
    let gap = if inside == interior { 0.0 } else { d };
    if inside == interior && d <= tol {
        return Rel::Unclear;
    }
    if gap + tol < r || (inside == interior && d > tol) {
        Rel::Yes
    } else if gap > r + tol {
        Rel::No
    } else {
        Rel::Unclear
    }
}

pub fn seg_meets(a: P, b: P, poly: &[P], interior: bool, tol: f64) -> Rel {
    for p in [a, b] {
        if pip(p, poly) == interior && d_pt_border(p, poly) > tol {
            return Rel::Yes;
        }
    }
    if edges(poly).any(|(r, s)| seg_cross_clear(a, b, r, s, tol)) {
        return Rel::Yes;
    }
    if edges(poly).all(|(r, s)| d_seg_seg(a, b, r, s) > tol) && pip(a, poly) != interior {
        return Rel::No;
    }
    Rel::Unclear
}

pub fn point_in(p: P, poly: &[P], interior: bool, tol: f64) -> Rel {
    if d_pt_border(p, poly) <= tol {
        Rel::Unclear
    } else if pip(p, poly) == interior {
        Rel::Yes
    } else {
        Rel::No
    }
}

/// Clear contact between an entity and the *border* of a polygon.
pub fn seg_hits_border(a: P, b: P, poly: &[P], tol: f64) -> bool {
    edges(poly).any(|(r, s)| seg_cross_clear(a, b, r, s, tol))
}
pub fn disc_hits_border(c: P, r: f64, poly: &[P], tol: f64) -> bool {
    d_pt_border(c, poly) + tol < r
}
pub fn rect_hits_border(rc: &BB, poly: &[P], tol: f64) -> bool {
    let rp = rc.poly();
    border_cross_clear(&rp, poly, tol)
        || poly.iter().any(|p| p[0] > rc.x0 + tol && p[0] < rc.x1 - tol && p[1] > rc.y0 + tol && p[1] < rc.y1 - tol)
}

#[cfg(test)]
mod t {}

/// `p` (counter-clockwise) with every edge moved outwards by `d` (inwards if negative); nothing if
/// the result is not a proper nested polygon
pub fn offset(p: &[P], d: f64) -> Option<Poly> {
    let n = p.len();
    let nrm = |a: P, b: P| {
        let e = sub(b, a);
        let l = dot(e, e).sqrt();
        [e[1] / l, -e[0] / l]
    };
    let mut v = vec![];
    for i in 0..n {
        let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
        let (m, q) = (nrm(a, b), nrm(b, c));
        let k = 1.0 + dot(m, q);
        if !(k > 0.15) {
            return None;
        }
        v.push([b[0] + d * (m[0] + q[0]) / k, b[1] + d * (m[1] + q[1]) / k]);
    }
    for i in 0..n {
        if dist(v[i], v[(i + 1) % n]) < 0.2 * dist(p[i], p[(i + 1) % n]).min(d.abs()) {
            return None;
        }
        for j in i + 2..n {
            if (i, j) != (0, n - 1) && d_seg_seg(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]) < 0.05 * d.abs() {
                return None;
            }
        }
    }
    let (inner, outer) = if d > 0.0 { (p, &v[..]) } else { (&v[..], p) };
    if area(&v) <= 0.0 || leaves(inner, outer, 0.1 * d.abs()) != Rel::No {
        return None;
    }
    Some(v)
}
