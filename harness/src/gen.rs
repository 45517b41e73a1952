//! Workload generators shared by the properties, and small exact-geometry helpers.
use crate::big::{err_d, ldexp, Dy, Q};
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;

pub type P = (f64, f64);

pub fn c(p: P) -> Coordinate {
    let h = (p.0.to_bits() ^ p.1.to_bits().rotate_left(17)).wrapping_mul(0x9E3779B97F4A7C15);
    // some points carry Z or M, which nothing planar may depend on
    let pick = |k: u32| match (h >> k) & 7 {
        0 => 0.0,
        1 => 7.0,
        2 => -100.0,
        _ => f64::NAN,
    };
    match h >> 62 {
        0 => Coordinate::new_xyzm(p.0, p.1, pick(40), pick(50)),
        _ => Coordinate::new_xy(p.0, p.1),
    }
}
/// without Z or M
pub fn cxy(p: P) -> Coordinate {
    Coordinate::new_xy(p.0, p.1)
}
pub fn cs(ps: &[P]) -> Vec<Coordinate> {
    ps.iter().map(|&p| c(p)).collect()
}
pub fn fmt_ps(ps: &[P]) -> String {
    let v: Vec<String> = ps.iter().map(|p| format!("({:?} {:?})", p.0, p.1)).collect();
    v.join(" ")
}
pub fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// all four ordinates bitwise equal (NaN = NaN)
pub fn same_c(a: &Coordinate, b: &Coordinate) -> bool {
    same_bits(a.x, b.x) && same_bits(a.y, b.y) && same_bits(a.z, b.z) && same_bits(a.m, b.m)
}
pub fn same_cs(a: &[Coordinate], b: &[Coordinate]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_c(x, y))
}
pub fn fmt_cs(v: &[Coordinate]) -> String {
    let s: Vec<String> = v
        .iter()
        .map(|p| format!("({:?} {:?} {:?} {:?})", p.x, p.y, p.z, p.m))
        .collect();
    format!("[{}]", s.join(" "))
}

#[derive(Clone, Copy, Debug)]
pub enum Style {
    /// integers in -r..=r
    Grid(i64),
    /// integers up to 2^bits, times 2^e: differences and products are exact in ~106 bits
    Lattice(u32, i32),
    /// uniform in [-s, s]
    Uni(f64),
    /// centre (far away), spread
    Offset(f64, f64),
    /// integers times an inexact decimal step
    Decimal(i64, f64),
    /// integers up to 2^bits, times 2^e in x and 2^f in y
    Flat(u32, i32, i32),
    /// the whole range of doubles, subnormals and signed zeros to 1e300 (where only order counts)
    Wild,
}

impl Style {
    pub fn any(r: &mut Rng) -> Style {
        match r.below(17) {
            16 => Style::Flat(r.pick(&[2, 4, 10, 20, 40]), r.int(-60, 60) as i32, r.int(-60, 60) as i32),
            k => Style::round(k / 2, r),
        }
    }
    fn round(k: u64, r: &mut Rng) -> Style {
        match k {
            0 | 1 => Style::grid(r),
            2 | 3 => Style::lattice(r),
            4 | 5 => Style::Uni(r.pick(&[1.0, 10.0, 1000.0, 1e6, 1e-4, 1e-9, 1e13, 1e20, 1e-20])),
            6 => Style::Offset(r.pick(&[1e3, 5e5, 4.5e6, -1e7]), r.pick(&[1.0, 100.0, 1e4])),
            _ => Style::Decimal(r.pick(&[5, 20, 1000]), r.pick(&[0.1, 0.01, 1.0 / 3.0])),
        }
    }
    pub fn grid(r: &mut Rng) -> Style {
        Style::Grid(r.pick(&[1, 2, 3, 5, 10, 50]))
    }
    pub fn lattice(r: &mut Rng) -> Style {
        Style::Lattice(r.pick(&[2, 4, 10, 20, 30, 40, 50]), r.int(-100, 60) as i32)
    }
    /// lattice points with the axes scaled apart: steep and flat lines, exact all the same
    pub fn flat(r: &mut Rng) -> Style {
        Style::Flat(r.pick(&[2, 4, 10, 20, 40]), r.int(-50, 50) as i32, r.int(-50, 50) as i32)
    }
    pub fn exact(r: &mut Rng) -> Style {
        if r.bool() { Style::grid(r) } else { Style::lattice(r) }
    }
    pub fn is_exact(&self) -> bool {
        matches!(self, Style::Grid(_) | Style::Lattice(_, _))
    }
    pub fn ord(&self, r: &mut Rng) -> f64 {
        match *self {
            Style::Grid(k) => {
                let v = r.int(-k, k);
                if v == 0 && r.chance(1, 3) { -0.0 } else { v as f64 }
            }
            Style::Lattice(b, e) => {
                let m = 1i64 << b;
                r.int(-m, m) as f64 * 2f64.powi(e)
            }
            Style::Uni(s) => r.range(-s, s),
            Style::Offset(c, s) => c + r.range(-s, s),
            Style::Decimal(k, st) => r.int(-k, k) as f64 * st,
            Style::Flat(b, e, _) => {
                let m = 1i64 << b;
                r.int(-m, m) as f64 * 2f64.powi(e)
            }
            Style::Wild => wild(r),
        }
    }
    pub fn pt(&self, r: &mut Rng) -> P {
        let (x, y) = (self.ord(r), self.ord(r));
        match *self {
            Style::Flat(_, e, f) => (x, y * 2f64.powi(f - e)),
            _ => (x, y),
        }
    }
    pub fn pts(&self, r: &mut Rng, n: usize) -> Vec<P> {
        (0..n).map(|_| self.pt(r)).collect()
    }
    /// magnitude of the style's values (for tolerances and for picking distances)
    pub fn mag(&self) -> f64 {
        match *self {
            Style::Grid(k) => k as f64,
            Style::Lattice(b, e) => 2f64.powi(b as i32 + e),
            Style::Uni(s) => s,
            Style::Offset(c, s) => c.abs() + s,
            Style::Decimal(k, st) => k as f64 * st,
            Style::Flat(b, e, f) => 2f64.powi(b as i32 + e.max(f)),
            Style::Wild => 1e300,
        }
    }
}

pub fn wild(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => r.pick(&[0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.3e-308, 1e-300, -1e-300, 1e-160, 1e100, -1e100, 1e300, -1e300]),
        1 => r.int(-3, 3) as f64,
        2 => ldexp(r.range(-1.0, 1.0), r.int(-60, 60)),
        _ => ldexp(r.range(-1.0, 1.0), r.int(-1070, 996)),
    }
}
pub fn nudge(x: f64, k: i64) -> f64 {
    // move by k units in the last place
    if x == 0.0 {
        return k as f64 * 2f64.powi(-400);
    }
    let b = x.to_bits() as i64;
    let y = f64::from_bits(if x > 0.0 { b + k } else { b - k } as u64);
    if y.is_finite() { y } else { x }
}
pub fn ulp(x: f64) -> f64 {
    let a = x.abs();
    if a < f64::MIN_POSITIVE {
        return f64::from_bits(1);
    }
    f64::from_bits(a.to_bits() + 1) - a
}

/// exact doubled signed area of (a, b, q): > 0 when q is left of a->b
pub fn det3(a: P, b: P, q: P) -> Dy {
    let (ax, ay, bx, by, qx, qy) = (Dy::f(a.0), Dy::f(a.1), Dy::f(b.0), Dy::f(b.1), Dy::f(q.0), Dy::f(q.1));
    bx.sub(&ax).mul(&qy.sub(&ay)).sub(&by.sub(&ay).mul(&qx.sub(&ax)))
}
pub fn orient(a: P, b: P, q: P) -> i32 {
    match quick_orient(a, b, q) {
        Some(s) => s,
        None => det3(a, b, q).sign(),
    }
}
/// the sign where plain doubles settle it: forward error bound (no underflow), or
/// integers whose products are exact
fn quick_orient(a: P, b: P, q: P) -> Option<i32> {
    let l = (a.0 - q.0) * (b.1 - q.1);
    let r = (a.1 - q.1) * (b.0 - q.0);
    let d = l - r;
    let s = l.abs() + r.abs();
    if s > 1e-250 && d.abs() > s * 1e-15 {
        return Some(if d > 0.0 { 1 } else { -1 });
    }
    let small = |p: P| p.0.abs() < 16777216.0 && p.1.abs() < 16777216.0 && p.0 == p.0.trunc() && p.1 == p.1.trunc();
    if small(a) && small(b) && small(q) {
        return Some(if d > 0.0 { 1 } else if d < 0.0 { -1 } else { 0 });
    }
    None
}
/// sum of the magnitudes of the two products of the determinant (any vertex as pivot: the largest)
pub fn perm3(a: P, b: P, q: P) -> Dy {
    let d = |u: f64, v: f64| Dy::f(u).sub(&Dy::f(v)).abs();
    let t1 = d(b.0, a.0).mul(&d(q.1, b.1)).add(&d(b.1, a.1).mul(&d(q.0, b.0)));
    let t2 = d(b.0, a.0).mul(&d(q.1, a.1)).add(&d(b.1, a.1).mul(&d(q.0, a.0)));
    t1.max(&t2)
}
/// Is the sign of the determinant decided beyond doubt by ~100-bit arithmetic?
pub fn decidable(a: P, b: P, q: P) -> bool {
    let d = det3(a, b, q).abs();
    perm3(a, b, q).scale2(-95).lt(&d)
}
/// q on the closed segment ab, exactly
pub fn on_seg(q: P, a: P, b: P) -> bool {
    orient(a, b, q) == 0
        && q.0 >= a.0.min(b.0)
        && q.0 <= a.0.max(b.0)
        && q.1 >= a.1.min(b.1)
        && q.1 <= a.1.max(b.1)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Meet {
    None,
    /// an endpoint of one segment lies on the other: the point, exactly
    Touch(P),
    /// interiors cross in one point
    Proper,
    /// collinear overlap of positive length, between two input endpoints
    Overlap(P, P),
}

/// Exact intersection of two closed non-degenerate segments.
pub fn meet(p1: P, p2: P, q1: P, q2: P) -> Meet {
    let o = [orient(p1, p2, q1), orient(p1, p2, q2), orient(q1, q2, p1), orient(q1, q2, p2)];
    if o == [0, 0, 0, 0] {
        // collinear: endpoints of either lying on the other
        let mut v: Vec<P> = vec![];
        let mut push = |p: P| {
            if !v.contains(&p) {
                v.push(p);
            }
        };
        if on_seg(q1, p1, p2) { push(q1) }
        if on_seg(q2, p1, p2) { push(q2) }
        if on_seg(p1, q1, q2) { push(p1) }
        if on_seg(p2, q1, q2) { push(p2) }
        return match v.len() {
            0 => Meet::None,
            1 => Meet::Touch(v[0]),
            _ => Meet::Overlap(v[0], v[1]),
        };
    }
    for (p, a, b) in [(q1, p1, p2), (q2, p1, p2), (p1, q1, q2), (p2, q1, q2)] {
        if on_seg(p, a, b) {
            return Meet::Touch(p);
        }
    }
    if o[0] * o[1] < 0 && o[2] * o[3] < 0 {
        Meet::Proper
    } else {
        Meet::None
    }
}

pub struct Cross {
    pub x: Q,
    pub y: Q,
    /// sums of magnitudes of the terms of the homogeneous x, y over |w|
    pub cx: f64,
    pub cy: f64,
}

/// Exact crossing point of the two lines (None if parallel), with the
/// condition terms of the homogeneous computation.
pub fn cross_lines(p1: P, p2: P, q1: P, q2: P) -> Option<Cross> {
    let d = |p: P| (Dy::f(p.0), Dy::f(p.1));
    let ((ax, ay), (bx, by), (cx, cy), (ex, ey)) = (d(p1), d(p2), d(q1), d(q2));
    let (px, py) = (ay.sub(&by), bx.sub(&ax));
    let pw = ax.mul(&by).sub(&bx.mul(&ay));
    let (qx, qy) = (cy.sub(&ey), ex.sub(&cx));
    let qw = cx.mul(&ey).sub(&ex.mul(&cy));
    let w = px.mul(&qy).sub(&qx.mul(&py));
    if w.is_zero() {
        return None;
    }
    let pwm = ax.mul(&by).abs().add(&bx.mul(&ay).abs());
    let qwm = cx.mul(&ey).abs().add(&ex.mul(&cy).abs());
    let tx = py.abs().mul(&qwm).add(&qy.abs().mul(&pwm));
    let ty = qx.abs().mul(&pwm).add(&px.abs().mul(&qwm));
    let wm = px.mul(&qy).abs().add(&qx.mul(&py).abs());
    let x = Q::new(py.mul(&qw).sub(&qy.mul(&pw)), w.clone());
    let y = Q::new(qx.mul(&pw).sub(&px.mul(&qw)), w.clone());
    let aw = w.abs();
    // numerator error + relative error of w carried to the quotient
    let cw = Q::new(wm, aw.clone()).to_f64();
    let cxx = Q::new(tx, aw.clone()).to_f64() + cw * x.to_f64().abs();
    let cyy = Q::new(ty, aw).to_f64() + cw * y.to_f64().abs();
    Some(Cross { x, y, cx: cxx, cy: cyy })
}

/// three points close to collinear, in several exactness regimes; the bool says
/// whether all coordinates are on one lattice of at most 50 bits
pub fn near_collinear(r: &mut Rng) -> (P, P, P, bool) {
    match r.below(4) {
        0 => {
            // lattice, small direction, long multiples, offset by at most a few units
            let e = r.int(-60, 60) as i32;
            let s = 2f64.powi(e);
            let db = r.int(2, 24) as u32;
            let kb = r.int(1, 24) as u32;
            let (dx, dy) = (r.int(-(1 << db), 1 << db), r.int(-(1 << db), 1 << db));
            let (bx, by) = (r.int(-(1 << 46), 1 << 46), r.int(-(1 << 46), 1 << 46));
            let (k1, k2) = (r.int(-(1 << kb), 1 << kb), r.int(-(1 << kb), 1 << kb));
            let j = |r: &mut Rng| if r.bool() { 0 } else { r.int(-2, 2) };
            let f = |v: i64| v as f64 * s;
            let (jx, jy) = (j(r), j(r));
            (
                (f(bx), f(by)),
                (f(bx + k1 * dx), f(by + k1 * dy)),
                (f(bx + k2 * dx + jx), f(by + k2 * dy + jy)),
                true,
            )
        }
        1 => {
            // lattice determinants of +-1: neighbouring Farey-like directions
            let b = r.int(4, 48) as u32;
            let (mut a, mut bb) = ((1i64, 0i64), (0i64, 1i64));
            // walk the Stern-Brocot tree
            while a.0 + bb.0 < (1 << b) && a.1 + bb.1 < (1 << b) {
                let k = r.int(1, 5);
                if r.bool() {
                    a = (a.0 + k * bb.0, a.1 + k * bb.1);
                } else {
                    bb = (bb.0 + k * a.0, bb.1 + k * a.1);
                }
            }
            let cap = |v: i64| v.min(1 << 49);
            let p1 = (0.0, 0.0);
            let p2 = (cap(a.0) as f64, cap(a.1) as f64);
            let q = (cap(bb.0) as f64, cap(bb.1) as f64);
            let sx = if r.bool() { 1.0 } else { -1.0 };
            let sy = if r.bool() { 1.0 } else { -1.0 };
            let m = |p: P| (p.0 * sx, p.1 * sy);
            (p1, m(p2), m(q), true)
        }
        2 => {
            // rounded point of a segment with double coordinates, nudged by ulps
            let s = r.pick(&[1.0, 100.0, 1e6, 1e-3]);
            let st = Style::Uni(s);
            let (a, b) = (st.pt(r), st.pt(r));
            let t = r.range(-0.5, 1.5);
            let q = (
                nudge(a.0 + t * (b.0 - a.0), r.int(-2, 2)),
                nudge(a.1 + t * (b.1 - a.1), r.int(-2, 2)),
            );
            (a, b, q, false)
        }
        _ => {
            // exactly collinear doubles: power-of-two multiples
            let st = Style::Uni(r.pick(&[1.0, 1e3]));
            let d = st.pt(r);
            let k = |r: &mut Rng| 2f64.powi(r.int(-6, 6) as i32) * if r.bool() { 1.0 } else { -1.0 };
            let (k1, k2) = (k(r), k(r));
            let a = (0.0, 0.0);
            let mut q = (d.0 * k2, d.1 * k2);
            if r.bool() {
                q = (nudge(q.0, r.int(-1, 1)), nudge(q.1, r.int(-1, 1)));
            }
            (a, (d.0 * k1, d.1 * k1), q, false)
        }
    }
}

/// A simple polygon ring (closed, no self-touching), star-shaped around a centre,
/// on integer coordinates times `s` shifted by the centre. Exactly simple: angles
/// are made distinct by construction and checked exactly.
pub fn star_ring(r: &mut Rng, n: usize, rad: i64, s: f64, off: (i64, i64)) -> Vec<P> {
    let mut v: Vec<(i64, i64)> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 60 * n {
        tries += 1;
        let (x, y) = (r.int(-rad, rad), r.int(-rad, rad));
        if x == 0 && y == 0 {
            continue;
        }
        // distinct directions
        if v.iter().any(|&(a, b)| a * y == b * x && a * x + b * y > 0) {
            continue;
        }
        v.push((x, y));
    }
    let half = |p: &(i64, i64)| if p.1 > 0 || (p.1 == 0 && p.0 > 0) { 0 } else { 1 };
    v.sort_by(|a, b| {
        half(a).cmp(&half(b)).then_with(|| 0.cmp(&(a.0 * b.1 - a.1 * b.0)))
    });
    let mut out: Vec<P> = v
        .iter()
        .map(|p| ((p.0 + off.0) as f64 * s, (p.1 + off.1) as f64 * s))
        .collect();
    if let Some(&f) = out.first() {
        out.push(f);
    }
    out
}

/// exact doubled signed area (> 0 counter-clockwise) of a closed ring
pub fn area2(ring: &[P]) -> Dy {
    let mut s = Dy::zero();
    for w in ring.windows(2) {
        let (a, b) = (w[0], w[1]);
        s = s.add(&Dy::f(a.0).mul(&Dy::f(b.1)).sub(&Dy::f(b.0).mul(&Dy::f(a.1))));
    }
    s
}

/// exact simplicity of a closed ring (no repeated points, no touching edges)
pub fn is_simple_ring(ring: &[P]) -> bool {
    let n = ring.len() - 1;
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (ring[i], ring[i + 1]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (e, f) = (ring[j], ring[j + 1]);
            if e == f {
                return false;
            }
            let m = meet(a, b, e, f);
            let adj = j == i + 1 || (i == 0 && j == n - 1);
            if adj {
                let shared = if j == i + 1 { b } else { a };
                if n > 2 && m != Meet::Touch(shared) {
                    return false;
                }
            } else if m != Meet::None {
                return false;
            }
        }
    }
    true
}

/// random simple ring by uncrossing (2-opt) a random small-grid tour; falls back to a star
/// (now and then squashed, or scaled, by powers of two)
pub fn simple_ring(r: &mut Rng) -> Vec<P> {
    let v = simple_ring_near_unit(r);
    if !r.chance(1, 6) {
        return v;
    }
    let a = ldexp(1.0, r.int(-60, 60));
    let b = if r.bool() { a } else { ldexp(1.0, r.int(-60, 60)) };
    v.iter().map(|p| (p.0 * a, p.1 * b)).collect()
}
fn simple_ring_near_unit(r: &mut Rng) -> Vec<P> {
    match r.below(5) {
        0 => {
            // rectilinear "histogram" polygon: flat runs, collinear vertices
            let k = 1 + r.us(6);
            let mut v: Vec<P> = vec![];
            let mut x = r.int(-5, 5);
            let base = r.int(-5, 0);
            v.push((x as f64, base as f64));
            let mut tops: Vec<P> = vec![];
            for _ in 0..k {
                let h = base + 1 + r.int(0, 3);
                tops.push((x as f64, h as f64));
                x += r.int(1, 3);
                tops.push((x as f64, h as f64));
            }
            v.push((x as f64, base as f64));
            tops.reverse();
            v.extend(tops);
            v.dedup();
            let f = v[0];
            v.push(f);
            let mut v = orient_random(r, v);
            if r.bool() {
                // transpose: vertical runs
                for p in v.iter_mut() {
                    *p = (p.1, p.0);
                }
            }
            v
        }
        1 => {
            // 2-opt on a small grid
            let k = r.int(2, 6);
            let n = 3 + r.us(6);
            let mut v: Vec<P> = vec![];
            for _ in 0..40 {
                let p = (r.int(-k, k) as f64, r.int(-k, k) as f64);
                if !v.contains(&p) {
                    v.push(p);
                }
                if v.len() == n {
                    break;
                }
            }
            for _ in 0..60 {
                let m = v.len();
                let mut changed = false;
                'l: for i in 0..m {
                    for j in i + 2..m {
                        if i == 0 && j == m - 1 {
                            continue;
                        }
                        if meet(v[i], v[i + 1], v[j], v[(j + 1) % m]) != Meet::None {
                            v[i + 1..=j].reverse();
                            changed = true;
                            break 'l;
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
            let f = v[0];
            v.push(f);
            if v.len() >= 4 && is_simple_ring(&v) {
                return orient_random(r, v);
            }
            let rg = star_ring(r, 5, 10, 1.0, (0, 0));
            if is_simple_ring(&rg) { orient_random(r, rg) } else { tri(r) }
        }
        2 => {
            let v = star_ring_auto(r);
            orient_random(r, v)
        }
        3 => tri(r),
        _ => {
            let n = 4 + r.len(12);
            let e = r.int(-20, 20) as i32;
            let rad = r.pick(&[20i64, 1000, 1 << 20]);
            let off = (r.int(-rad * 4, rad * 4), r.int(-rad * 4, rad * 4));
            let v = star_ring(r, n, rad, 2f64.powi(e), off);
            if v.len() >= 4 && is_simple_ring(&v) {
                orient_random(r, v)
            } else {
                tri(r)
            }
        }
    }
}
fn star_ring_auto(r: &mut Rng) -> Vec<P> {
    for _ in 0..10 {
        let n = 3 + r.len(8);
        let v = star_ring(r, n, 8, 1.0, (0, 0));
        if v.len() >= 4 && is_simple_ring(&v) {
            return v;
        }
    }
    tri(r)
}
pub fn tri(r: &mut Rng) -> Vec<P> {
    loop {
        let st = if r.bool() { Style::Grid(6) } else { Style::Lattice(20, r.int(-10, 10) as i32) };
        let (a, b, d) = (st.pt(r), st.pt(r), st.pt(r));
        if orient(a, b, d) != 0 {
            return vec![a, b, d, a];
        }
    }
}
pub fn orient_random(r: &mut Rng, mut v: Vec<P>) -> Vec<P> {
    if r.bool() {
        v.reverse();
    }
    // random start
    if v.len() > 2 {
        let n = v.len() - 1;
        let k = r.us(n);
        let mut w: Vec<P> = (0..n).map(|i| v[(i + k) % n]).collect();
        let f = w[0];
        w.push(f);
        v = w;
    }
    v
}
/// insert repeated points and collinear midpoints (keeps the same point set)
pub fn decorate(r: &mut Rng, v: &[P]) -> Vec<P> {
    let mut out = vec![];
    for i in 0..v.len() {
        out.push(v[i]);
        if i + 1 < v.len() {
            if r.chance(1, 4) {
                out.push(v[i]);
            }
            if r.chance(1, 5) {
                let m = ((v[i].0 + v[i + 1].0) / 2.0, (v[i].1 + v[i + 1].1) / 2.0);
                if on_seg(m, v[i], v[i + 1]) {
                    out.push(m);
                }
            }
        }
    }
    out
}
/// exact location of a point: 0 interior, 1 boundary, 2 exterior (even-odd rule)
pub fn locate(p: P, ring: &[P]) -> i32 {
    let mut inside = false;
    for w in ring.windows(2) {
        let (a, b) = (w[0], w[1]);
        if on_seg(p, a, b) {
            return 1;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            // crossing strictly to the right of p: p is left of the upward edge
            if orient(lo, hi, p) > 0 {
                inside = !inside;
            }
        }
    }
    if inside { 0 } else { 2 }
}
/// largest magnitude among the ordinates
pub fn max_abs(ps: &[P]) -> f64 {
    ps.iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs()))
}
pub fn fo(g: &Option<Coordinate>) -> String {
    match g {
        None => "None".into(),
        Some(g) => f1(g),
    }
}
pub fn f1(p: &Coordinate) -> String {
    fmt_cs(&[*p])
}
/// orientation certain to be computed: well above extended precision, or exactly representable
pub fn decided(a: P, b: P, q: P) -> bool {
    if quick_orient(a, b, q).is_some() {
        return true;
    }
    if decidable(a, b, q) {
        return true;
    }
    // exact zero with short differences (all products exact in double-double)
    let ex = |u: f64, v: f64| {
        let d = Dy::f(u).sub(&Dy::f(v));
        d.is_zero() || err_d(d.to_f64(), &d) == 0.0
    };
    orient(a, b, q) == 0 && ex(b.0, a.0) && ex(b.1, a.1) && ex(q.0, b.0) && ex(q.1, b.1) && ex(q.0, a.0) && ex(q.1, a.1)
}
