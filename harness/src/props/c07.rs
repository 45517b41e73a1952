//! Centroids.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::props::c06::{any_ring, sequence};
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::centroid::Centroid;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::line_string::LineString;
use geos_rs::verif_hooks::geom::linear_ring::LinearRing;
use geos_rs::verif_hooks::geom::multi_polygon::MultiPolygon;
use geos_rs::verif_hooks::geom::point::Point;
use geos_rs::verif_hooks::geom::polygon::Polygon;
use geos_rs::verif_hooks::geom::precision_model::PrecisionModel;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        quick: 1_200_000,
        families: vec![
            Family { name: "polygons with holes", weight: 4, run: polygon },
            Family { name: "multipolygons", weight: 3, run: multi },
            Family { name: "lines", weight: 2, run: lines },
            Family { name: "points and mixtures", weight: 2, run: mixed },
            Family { name: "zero-area polygons", weight: 2, run: flat },
        ],
        rule: "Simple shells with simple holes in either direction, multipolygons, lines with repeated points, points, mixtures added one after another in any order, flat polygons, empties, far from the origin; with and without a fixed precision model. Oracle: exact rational area centroid (area minus holes), length-weighted midpoint mean, mean of points, of the highest dimension present.",
        assumptions: &["rings are simple, so that their direction is defined", "compared within the conditioning of the area sum (or exactly where zero area must be recognised, on small integer grids)"],
        need: &[("area centroid", 50000), ("with holes", 20000), ("several polygons", 20000), ("line centroid", 20000), ("point centroid", 5000), ("no centroid", 2000), ("precision model", 5000), ("tiny or huge unit", 50000)],
    }
}

/// reference accumulator of everything added
#[derive(Default)]
struct Ref {
    rings: Vec<(Vec<P>, bool)>, // ring, is shell
    lines: Vec<Vec<P>>,
    pts: Vec<P>,
    /// the unit: a power of two, 0 for 1
    unit: f64,
}
struct Want {
    kind: &'static str,
    p: P,
    tol: P,
}
impl Ref {
    fn shell(&mut self, g: &[P]) {
        self.rings.push((g.to_vec(), true));
        self.lines.push(g.to_vec());
    }
    fn hole(&mut self, g: &[P]) {
        self.rings.push((g.to_vec(), false));
        self.lines.push(g.to_vec());
    }
    fn want(&self) -> Option<Option<Want>> {
        // None: undecided; Some(None): no centroid
        let mut all: Vec<P> = self.lines.iter().flatten().cloned().collect();
        all.extend(self.pts.iter());
        let m = max_abs(&all);
        let (mut a, mut sx, mut sy) = (Dy::zero(), Dy::zero(), Dy::zero());
        let mut mag = 0.0;
        let mut steps = 0usize;
        let mut base: Option<P> = None;
        for (g, shell) in &self.rings {
            if *shell {
                if let Some(&f) = g.first() {
                    base = Some(f);
                }
            }
            let s = area2(g).sign();
            let k = if (s < 0) == *shell { -1 } else { 1 };
            let sg = Dy::int(k);
            for w in g.windows(2) {
                let (x0, y0, x1, y1) = (Dy::f(w[0].0), Dy::f(w[0].1), Dy::f(w[1].0), Dy::f(w[1].1));
                let cr = x0.mul(&y1).sub(&x1.mul(&y0)).mul(&sg);
                a = a.add(&cr);
                sx = sx.add(&cr.mul(&x0.add(&x1)));
                sy = sy.add(&cr.mul(&y0.add(&y1)));
                if let Some(b) = base {
                    mag += ((w[0].0 - b.0) * (w[1].1 - b.1)).abs() + ((w[1].0 - b.0) * (w[0].1 - b.1)).abs();
                }
                steps += 1;
            }
        }
        if !a.is_zero() {
            let den = a.mul(&Dy::int(3));
            let p = (Q::new(sx, den.clone()).to_f64(), Q::new(sy, den).to_f64());
            let rel = mag / a.abs().to_f64() * (steps as f64 + 8.0) * 2.3e-16;
            if rel > 1e-3 {
                return None;
            }
            let tx = rel * (m + p.0.abs()) * 2.0;
            let ty = rel * (m + p.1.abs()) * 2.0;
            return Some(Some(Want { kind: "area", p, tol: (tx, ty) }));
        }
        let u = if self.unit > 0.0 { self.unit } else { 1.0 };
        let grid = m / u < 1e5 && all.iter().all(|p| p.0 / u == (p.0 / u).trunc() && p.1 / u == (p.1 / u).trunc());
        if !self.rings.is_empty() && !grid {
            return None; // zero area not recognisable in doubles
        }
        let (mut l, mut lx, mut ly) = (0.0, 0.0, 0.0);
        let mut pts: Vec<P> = self.pts.clone();
        let mut n = 0;
        for g in &self.lines {
            let mut ll = 0.0;
            for w in g.windows(2) {
                let (dx, dy) = (Dy::f(w[0].0).sub(&Dy::f(w[1].0)), Dy::f(w[0].1).sub(&Dy::f(w[1].1)));
                let d = dx.sqr().add(&dy.sqr()).to_f64().sqrt();
                ll += d;
                lx += d * ((w[0].0 + w[1].0) / 2.0);
                ly += d * ((w[0].1 + w[1].1) / 2.0);
                n += 1;
            }
            l += ll;
            if ll == 0.0 {
                if let Some(&f) = g.first() {
                    pts.push(f);
                }
            }
        }
        if l > 0.0 {
            let t = m * (n as f64 + 8.0) * 1e-15;
            return Some(Some(Want { kind: "line", p: (lx / l, ly / l), tol: (t, t) }));
        }
        if pts.is_empty() {
            return Some(None);
        }
        let mut s = (Dy::zero(), Dy::zero());
        for p in &pts {
            s = (s.0.add(&Dy::f(p.0)), s.1.add(&Dy::f(p.1)));
        }
        let k = Dy::int(pts.len() as i64);
        let t = m * (pts.len() as f64 + 4.0) * 4.5e-16;
        Some(Some(Want { kind: "point", p: (Q::new(s.0, k.clone()).to_f64(), Q::new(s.1, k).to_f64()), tol: (t, t) }))
    }
}

fn judge(cx: &mut Cx, what: &str, got: Option<Coordinate>, rf: &Ref) -> R {
    let d = || format!("rings (shell?) {:?} lines {:?} points {:?}", rf.rings, rf.lines.len() - rf.rings.len(), rf.pts);
    match rf.want() {
        None => {
            cx.ev("not asserted (ill-conditioned)");
        }
        Some(None) => {
            cx.ev("no centroid");
            ensure!(cx, got.is_none(), "{} of nothing is {} ({})", what, fo(&got), d());
        }
        Some(Some(w)) => {
            cx.ev(match w.kind {
                "area" => "area centroid",
                "line" => "line centroid",
                _ => "point centroid",
            });
            let ok = match &got {
                Some(g) => (g.x - w.p.0).abs() <= w.tol.0 && (g.y - w.p.1).abs() <= w.tol.1,
                None => false,
            };
            ensure!(cx, ok, "{} is {} but the {} centroid is ({:?} {:?}) +- {:?}: {} all lines {:?}", what, fo(&got), w.kind, w.p.0, w.p.1, w.tol, d(), rf.lines);
        }
    }
    Ok(())
}

/// shell and holes; holes are scaled-down copies placed anywhere (the sum does not care)
fn rings(r: &mut Rng) -> Vec<Vec<P>> {
    let n = r.len(4);
    let mut v = vec![];
    let far = if r.chance(1, 4) { Some((r.int(-1000, 1000) as f64 * 1024.0, r.int(-1000, 1000) as f64 * 1024.0)) } else { None };
    for i in 0..=n {
        let mut g = simple_ring(r);
        // comparable sizes
        while max_abs(&g) > 1e4 || max_abs(&g) < 1e-3 {
            g = simple_ring(r);
        }
        if i > 0 && r.bool() {
            for p in g.iter_mut() {
                *p = (p.0 / 8.0, p.1 / 8.0);
            }
        }
        if let Some(f) = far {
            for p in g.iter_mut() {
                *p = (p.0 + f.0, p.1 + f.1);
            }
            if !is_simple_ring(&g) {
                g = tri(r);
            }
        }
        if r.chance(1, 3) {
            g = decorate(r, &g);
        }
        v.push(g);
    }
    v
}
fn make(r: &mut Rng, v: &[Vec<P>]) -> Polygon {
    let lr: Vec<LinearRing> = v
        .iter()
        .map(|g| {
            let s = sequence(r, g);
            LinearRing::new_with_coordinate_array_sequence(&s)
        })
        .collect();
    Polygon::new_with_linear_ring_vec(&lr[0], &lr[1..].to_vec())
}
fn key(cx: &mut Cx, v: &[Vec<P>]) {
    for g in v {
        for p in g {
            cx.key(&[p.0, p.1]);
        }
        cx.key_u(7);
    }
    if v.len() > 1 {
        cx.ev("with holes");
    }
}

/// the unit of a case: mostly one, else a power of two
fn unit(cx: &mut Cx) -> f64 {
    if cx.rng.chance(1, 3) {
        cx.ev("tiny or huge unit");
        ldexp(1.0, cx.rng.int(-100, 100))
    } else {
        1.0
    }
}
fn scaled(v: Vec<P>, u: f64) -> Vec<P> {
    v.into_iter().map(|p| (p.0 * u, p.1 * u)).collect()
}
fn urings(r: &mut Rng, u: f64) -> Vec<Vec<P>> {
    rings(r).into_iter().map(|g| scaled(g, u)).collect()
}
fn polygon(cx: &mut Cx) -> R {
    let u = unit(cx);
    let v = urings(&mut cx.rng, u);
    key(cx, &v);
    cx.nontrivial();
    cx.desc(|| format!("polygon {:?}", v));
    let mut rf = Ref { unit: u, ..Ref::default() };
    rf.shell(&v[0]);
    for h in &v[1..] {
        rf.hole(h);
    }
    let p = make(&mut cx.rng, &v);
    judge(cx, "Centroid of a polygon", Centroid::get_centroid_from_polygon(&p), &rf)?;
    judge(cx, "Centroid made from a polygon", Centroid::new_from_polygon(&p).get_centroid(), &rf)?;
    let mut cen = Centroid::default();
    cen.add_shell(&cs(&v[0]));
    for h in &v[1..] {
        cen.add_hole(&cs(h));
    }
    judge(cx, "Centroid of shell and holes", cen.get_centroid(), &rf)?;
    judge(cx, "Polygon::get_centroid", p.get_centroid().get_coordinate(), &rf)?;
    if u != 1.0 {
        return parts(cx, &v);
    }
    // snapped to the polygon's precision model
    let scale = cx.rng.pick(&[1.0, 10.0, 100.0]);
    let lr: Vec<LinearRing> = v.iter().map(|g| LinearRing::new_with_coordinates(&cs(g))).collect();
    let q = Polygon::new_with_linear_ring_vec_precision_model(&lr[0], &lr[1..].to_vec(), PrecisionModel::new_with_scale(scale));
    let g = q.get_centroid().get_coordinate();
    if let Some(Some(w)) = rf.want() {
        cx.ev("precision model");
        let on = |v: f64| (v * scale).round() / scale == v;
        let ok = match &g {
            Some(g) => on(g.x) && on(g.y) && (g.x - w.p.0).abs() <= 0.5 / scale * (1.0 + 1e-9) + w.tol.0 && (g.y - w.p.1).abs() <= 0.5 / scale * (1.0 + 1e-9) + w.tol.1,
            None => false,
        };
        ensure!(cx, ok, "centroid of polygon {:?} with precision scale {} is {} but unsnapped ({:?} {:?})", v, scale, fo(&g), w.p.0, w.p.1);
    }
    Ok(())
}
/// the triangles a centroid is summed from
fn parts(cx: &mut Cx, v: &[Vec<P>]) -> R {
    let g = &v[0];
    let p = [g[0], g[1], cx.rng.pick(g)];
    let want = area2(&[p[0], p[1], p[2], p[0]]);
    let a = Centroid::area2(&c(p[0]), &c(p[1]), &c(p[2]));
    let m = max_abs(&p);
    let d = |i: usize, k: usize| (p[i].0 - p[0].0).abs() * (p[k].1 - p[0].1).abs();
    let tol = (d(1, 2) + d(2, 1)) * 2e-15;
    ensure!(cx, err_f(a, &Q::new(want, Dy::int(1))).abs() <= tol, "twice the area of {} is {:?}", fmt_ps(&p), a);
    let mut s = Coordinate::default();
    Centroid::centroid3(&c(p[0]), &c(p[1]), &c(p[2]), &mut s);
    let w = p.iter().fold((Dy::zero(), Dy::zero()), |s, p| (s.0.add(&Dy::f(p.0)), s.1.add(&Dy::f(p.1))));
    ensure!(cx, (s.x - w.0.to_f64()).abs() <= m * 2e-15 && (s.y - w.1.to_f64()).abs() <= m * 2e-15, "three times the centroid of {} is {}", fmt_ps(&p), s);
    Ok(())
}
fn multi(cx: &mut Cx) -> R {
    // seldom many
    let k = if cx.rng.chance(1, 300) { let m = if cx.rng.chance(1, 20) { 700 } else { 70 }; cx.rng.us(m) } else { cx.rng.us(4) };
    let u = unit(cx);
    let mut rf = Ref { unit: u, ..Ref::default() };
    let mut ps = vec![];
    if k > 20 {
        cx.ev("many polygons");
    }
    for _ in 0..k {
        let v = urings(&mut cx.rng, u);
        key(cx, &v);
        rf.shell(&v[0]);
        for h in &v[1..] {
            rf.hole(h);
        }
        ps.push(make(&mut cx.rng, &v));
    }
    if k > 1 {
        cx.ev("several polygons");
    }
    if k > 0 {
        cx.nontrivial();
    }
    cx.desc(|| format!("multipolygon {:?}", rf.rings));
    let mp = MultiPolygon::new_with_polygons(&ps);
    judge(cx, "Centroid made from a multipolygon", Centroid::new_from_multi_polygon(&mp).get_centroid(), &rf)?;
    judge(cx, "Centroid of a multipolygon", Centroid::get_centroid_from_multi_polygon(&mp), &rf)?;
    judge(cx, "MultiPolygon::get_centroid", mp.get_centroid().get_coordinate(), &rf)?;
    if k > 0 && u == 1.0 && cx.rng.bool() {
        let scale = cx.rng.pick(&[1.0, 10.0, 100.0]);
        let q = MultiPolygon::new_with_polygons_precision_model(&ps, PrecisionModel::new_with_scale(scale));
        let g = q.get_centroid().get_coordinate();
        if let Some(Some(w)) = rf.want() {
            cx.ev("precision model");
            let on = |v: f64| (v * scale).round() / scale == v;
            let ok = match &g {
                Some(g) => on(g.x) && on(g.y) && (g.x - w.p.0).abs() <= 0.5 / scale * (1.0 + 1e-9) + w.tol.0 && (g.y - w.p.1).abs() <= 0.5 / scale * (1.0 + 1e-9) + w.tol.1,
                None => false,
            };
            ensure!(cx, ok, "centroid of multipolygon {:?} with precision scale {} is {} but unsnapped ({:?} {:?})", rf.rings, scale, fo(&g), w.p.0, w.p.1);
        }
    }
    Ok(())
}
fn line(r: &mut Rng) -> Vec<P> {
    let st = Style::any(r);
    let n = r.len(8);
    let mut v = st.pts(r, n);
    if n > 1 && r.chance(1, 3) {
        let i = r.us(n - 1);
        v[i + 1] = v[i];
    }
    if n > 0 && r.chance(1, 8) {
        let f = v[0];
        for p in v.iter_mut() {
            *p = f;
        }
    }
    v
}
fn lines(cx: &mut Cx) -> R {
    let v = line(&mut cx.rng);
    for p in &v {
        cx.key(&[p.0, p.1]);
    }
    if v.len() > 1 {
        cx.nontrivial();
    }
    cx.desc(|| format!("line {:?}", v));
    let s = sequence(&mut cx.rng, &v);
    let mut rf = Ref::default();
    rf.lines.push(v);
    let l = LineString::new_from_coordinate_sequence(s);
    judge(cx, "Centroid of a line string", Centroid::new_from_line_string(&l).get_centroid(), &rf)
}
fn mixed(cx: &mut Cx) -> R {
    let u = unit(cx);
    let mut rf = Ref { unit: u, ..Ref::default() };
    let mut cen = Centroid::default();
    let k = cx.rng.us(6);
    let top = cx.rng.below(4); // sometimes only points, or points and lines
    let mut cnt = [0; 3];
    for _ in 0..k {
        match cx.rng.below(top.max(1)) {
            0 => {
                let p = (cx.rng.int(-20, 20) as f64 * u, cx.rng.int(-20, 20) as f64 * u);
                cx.key(&[p.0, p.1]);
                cen.add_point(&c(p));
                rf.pts.push(p);
                cnt[0] += 1;
            }
            1 => {
                let n = cx.rng.len(5);
                let v = scaled(Style::Grid(9).pts(&mut cx.rng, n), u);
                for p in &v {
                    cx.key(&[p.0, p.1]);
                }
                cen.add_line_segments(&cs(&v));
                rf.lines.push(v);
                cnt[1] += 1;
            }
            _ => {
                let v = urings(&mut cx.rng, u);
                key(cx, &v);
                cen.add_polygon(&make(&mut cx.rng, &v));
                rf.shell(&v[0]);
                for h in &v[1..] {
                    rf.hole(h);
                }
                cnt[2] += 1;
            }
        }
    }
    if k > 1 {
        cx.nontrivial();
    }
    cx.desc(|| format!("mixture of {:?} points, lines, polygons", cnt));
    judge(cx, "Centroid of a mixture", cen.get_centroid(), &rf)?;
    // a single point
    let p = Style::any(&mut cx.rng).pt(&mut cx.rng);
    let mut rf = Ref::default();
    rf.pts.push(p);
    judge(cx, "Centroid of a point", Centroid::get_centroid_from_point(&Point::new_with_coordinate(&c(p), None)), &rf)?;
    judge(cx, "Centroid made from a point", Centroid::new_from_point(&Point::new_with_coordinate(&c(p), None)).get_centroid(), &rf)?;
    judge(cx, "Centroid of an empty point", Centroid::get_centroid_from_point(&Point::default()), &Ref::default())
}
fn flat(cx: &mut Cx) -> R {
    // out-and-back shells on a small grid, single points, empties
    let u = unit(cx);
    let r = &mut cx.rng;
    let n = r.len(4);
    let st = Style::Grid(6);
    let v = scaled(st.pts(r, n), u);
    let mut w = v.clone();
    let mut back = v.clone();
    back.pop();
    back.reverse();
    w.extend(back);
    for p in &w {
        cx.key(&[p.0, p.1]);
    }
    cx.desc(|| format!("flat polygon {:?}", w));
    if n > 1 {
        cx.nontrivial();
    }
    let mut rf = Ref { unit: u, ..Ref::default() };
    rf.shell(&w);
    let p = Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(&cs(&w)));
    judge(cx, "Centroid of a flat polygon", Centroid::get_centroid_from_polygon(&p), &rf)?;
    judge(cx, "Polygon::get_centroid of a flat polygon", p.get_centroid().get_coordinate(), &rf)?;
    let _ = any_ring;
    Ok(())
}
