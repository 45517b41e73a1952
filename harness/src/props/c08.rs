//! Planar distances.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::distance::Distance;
use geos_rs::verif_hooks::geom::line_segment::LineSegment;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        quick: 2_500_000,
        families: vec![
            Family { name: "point to segment and line", weight: 4, run: point_seg },
            Family { name: "segment to segment", weight: 5, run: seg_seg },
            Family { name: "point to line string", weight: 2, run: string },
        ],
        rule: "Points and segments on grids, lattices, far from the origin and mixed doubles; points on, at the ends of, beside and beyond the segment; segments crossing, touching, collinear, overlapping, parallel, almost parallel, zero-length. Oracle: exact rational squared distance.",
        assumptions: &["compared within 1e-14 (point) or 1e-13 (two segments) of the extent of the points", "squares do not overflow or underflow"],
        need: &[("nearest inside the segment", 20000), ("nearest at an end", 20000), ("crossing segments", 20000), ("touching segments", 10000), ("disjoint segments", 20000), ("zero-length segment", 5000), ("line string", 20000)],
    }
}

/// exact squared distance of p to the closed segment; and whether the foot is strictly inside
pub fn pt_seg2(p: P, a: P, b: P) -> (Q, bool) {
    let d = |u: f64, v: f64| Dy::f(u).sub(&Dy::f(v));
    let (dx, dy) = (d(b.0, a.0), d(b.1, a.1));
    let (px, py) = (d(p.0, a.0), d(p.1, a.1));
    let l2 = dx.sqr().add(&dy.sqr());
    let dot = px.mul(&dx).add(&py.mul(&dy));
    if dot.sign() <= 0 || l2.is_zero() {
        return (Q::dy(px.sqr().add(&py.sqr())), false);
    }
    if l2.le(&dot) {
        return (Q::dy(d(p.0, b.0).sqr().add(&d(p.1, b.1).sqr())), false);
    }
    let cr = dx.mul(&py).sub(&dy.mul(&px));
    (Q::new(cr.sqr(), l2), true)
}
fn sqrt(q: &Q) -> f64 {
    q.to_f64().sqrt()
}
pub fn extent(ps: &[P]) -> f64 {
    let mut m = 0.0f64;
    for p in ps {
        m = m.max((p.0 - ps[0].0).abs()).max((p.1 - ps[0].1).abs());
    }
    2.0 * m
}

fn point_for(r: &mut Rng, st: Style, a: P, b: P) -> P {
    match r.below(7) {
        0 => a,
        1 => b,
        2 => {
            let t = r.range(-0.5, 1.5);
            (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))
        }
        3 => ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0),
        4 => {
            // beside an end, at a right angle
            let k = r.int(-3, 3) as f64 / 2.0;
            let e = if r.bool() { a } else { b };
            (e.0 - k * (b.1 - a.1), e.1 + k * (b.0 - a.0))
        }
        _ => st.pt(r),
    }
}

fn point_seg(cx: &mut Cx) -> R {
    let st = Style::any(&mut cx.rng);
    let (a, mut b) = (st.pt(&mut cx.rng), st.pt(&mut cx.rng));
    if cx.rng.chance(1, 12) {
        b = a;
    }
    let p = point_for(&mut cx.rng, st, a, b);
    cx.key(&[p.0, p.1, a.0, a.1, b.0, b.1]);
    cx.desc(|| format!("point {} segment {}", fmt_ps(&[p]), fmt_ps(&[a, b])));
    let (d2, inside) = pt_seg2(p, a, b);
    if a == b {
        cx.ev("zero-length segment");
    } else {
        cx.ev(if inside { "nearest inside the segment" } else { "nearest at an end" });
        cx.nontrivial();
    }
    let want = sqrt(&d2);
    let tol = 1e-14 * extent(&[p, a, b]);
    let (pc, ac, bc) = (c(p), c(a), c(b));
    for (n, g) in [
        ("point_to_segment", Distance::point_to_segment(&pc, &ac, &bc)),
        ("point_to_segment reversed", Distance::point_to_segment(&pc, &bc, &ac)),
        ("LineSegment::distance_coordinate", LineSegment::new_from_coordinates(&ac, &bc).distance_coordinate(&pc)),
    ] {
        ensure!(cx, (g - want).abs() <= tol, "{} of {} and {} is {:?} but exactly {:?}", n, fmt_ps(&[p]), fmt_ps(&[a, b]), g, want);
    }
    // two points
    let dd = Dy::f(p.0).sub(&Dy::f(a.0)).sqr().add(&Dy::f(p.1).sub(&Dy::f(a.1)).sqr()).to_f64().sqrt();
    let g = pc.distance(&ac);
    ensure!(cx, (g - dd).abs() <= dd * 1e-15, "distance of {} is {:?} but exactly {:?}", fmt_ps(&[p, a]), g, dd);
    let g = ac.distance(&pc);
    ensure!(cx, (g - dd).abs() <= dd * 1e-15, "distance of {} is {:?} but exactly {:?}", fmt_ps(&[a, p]), g, dd);
    if a != b {
        let det = det3(a, b, p);
        let l2 = Dy::f(b.0).sub(&Dy::f(a.0)).sqr().add(&Dy::f(b.1).sub(&Dy::f(a.1)).sqr());
        let h = det.abs().to_f64() / l2.to_f64().sqrt();
        let g = Distance::point_to_line_perpendicular(&pc, &ac, &bc);
        ensure!(cx, (g - h).abs() <= tol, "point_to_line_perpendicular of {} and {} is {:?} but exactly {:?}", fmt_ps(&[p]), fmt_ps(&[a, b]), g, h);
        // magnitude, and opposite signs on opposite sides (right positive, as computed by the formula in its documentation)
        let s = -(det.sign() as f64) * h;
        let g = Distance::point_to_line_perpendicular_signed(&pc, &ac, &bc);
        ensure!(cx, (g - s).abs() <= tol, "point_to_line_perpendicular_signed of {} and {} is {:?} but exactly {:?}", fmt_ps(&[p]), fmt_ps(&[a, b]), g, s);
        let g = Distance::point_to_line_perpendicular_signed(&pc, &bc, &ac);
        ensure!(cx, (g + s).abs() <= tol, "point_to_line_perpendicular_signed of {} and the reversed {} is {:?} but exactly {:?}", fmt_ps(&[p]), fmt_ps(&[a, b]), g, -s);
    }
    Ok(())
}

fn seg_seg(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (a, b, e, f);
    match r.below(6) {
        0 => {
            // almost collinear / parallel
            let (p, q, s, _) = near_collinear(r);
            a = p;
            b = q;
            e = s;
            f = if r.bool() { (s.0 + (q.0 - p.0), s.1 + (q.1 - p.1)) } else { (s.0 * 2.0 - p.0, s.1 * 2.0 - p.1) };
        }
        1 => {
            // collinear or parallel on a grid
            let d = (r.int(-4, 4), r.int(-4, 4));
            let o = (r.int(-5, 5), r.int(-5, 5));
            let s = if r.bool() { (0, 0) } else { (r.int(-3, 3), r.int(-3, 3)) };
            let pt = |k: i64, s: (i64, i64)| ((o.0 + k * d.0 + s.0) as f64, (o.1 + k * d.1 + s.1) as f64);
            a = pt(r.int(-4, 4), (0, 0));
            b = pt(r.int(-4, 4), (0, 0));
            e = pt(r.int(-4, 4), s);
            f = pt(r.int(-4, 4), s);
        }
        2 => {
            // an end of one on or near the other
            let st = Style::any(r);
            a = st.pt(r);
            b = st.pt(r);
            e = point_for(r, st, a, b);
            f = st.pt(r);
        }
        _ => {
            let st = Style::any(r);
            a = st.pt(r);
            b = if r.chance(1, 10) { a } else { st.pt(r) };
            e = st.pt(r);
            f = if r.chance(1, 10) { e } else { st.pt(r) };
        }
    }
    cx.key(&[a.0, a.1, b.0, b.1, e.0, e.1, f.0, f.1]);
    cx.desc(|| format!("segments {} and {}", fmt_ps(&[a, b]), fmt_ps(&[e, f])));
    let want;
    if a != b && e != f && meet(a, b, e, f) != Meet::None {
        cx.ev(if meet(a, b, e, f) == Meet::Proper { "crossing segments" } else { "touching segments" });
        want = 0.0;
        cx.nontrivial();
    } else {
        let mut m = pt_seg2(a, e, f).0;
        for (p, u, v) in [(b, e, f), (e, a, b), (f, a, b)] {
            let q = pt_seg2(p, u, v).0;
            if q.lt(&m) {
                m = q;
            }
        }
        want = sqrt(&m);
        cx.ev("disjoint segments");
        if a == b || e == f {
            cx.ev("zero-length segment");
        } else {
            cx.nontrivial();
        }
    }
    let tol = 1e-13 * extent(&[a, b, e, f]);
    let k = [c(a), c(b), c(e), c(f)];
    for (i, j, u, v) in [(0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)] {
        let g = Distance::segment_to_segment(&k[i], &k[j], &k[u], &k[v]);
        ensure!(cx, (g - want).abs() <= tol, "distance of segments {} and {} is {:?} but exactly {:?}", fmt_ps(&[a, b]), fmt_ps(&[e, f]), g, want);
    }
    let g = LineSegment::new_from_coordinates(&k[0], &k[1]).distance_line_segment(&LineSegment::new_from_coordinates(&k[2], &k[3]));
    ensure!(cx, (g - want).abs() <= tol, "LineSegment distance of {} and {} is {:?} but exactly {:?}", fmt_ps(&[a, b]), fmt_ps(&[e, f]), g, want);
    Ok(())
}

fn string(cx: &mut Cx) -> R {
    let st = Style::any(&mut cx.rng);
    let n = cx.rng.len(8);
    let mut l = st.pts(&mut cx.rng, n);
    if n > 1 && cx.rng.chance(1, 4) {
        l[1] = l[0];
    }
    let p = if n > 1 {
        let i = cx.rng.us(n - 1);
        point_for(&mut cx.rng, st, l[i], l[i + 1])
    } else {
        st.pt(&mut cx.rng)
    };
    for q in &l {
        cx.key(&[q.0, q.1]);
    }
    cx.key(&[p.0, p.1]);
    cx.desc(|| format!("point {} line {}", fmt_ps(&[p]), fmt_ps(&l)));
    let g = Distance::point_to_segment_string(&c(p), &cs(&l));
    if n == 0 {
        ensure!(cx, g.is_nan(), "distance to an empty line is {:?}, not NaN", g);
        return Ok(());
    }
    cx.ev("line string");
    let mut m = pt_seg2(p, l[0], l[0]).0;
    for w in l.windows(2) {
        let q = pt_seg2(p, w[0], w[1]).0;
        if q.lt(&m) {
            m = q;
        }
    }
    if n > 1 {
        cx.nontrivial();
    }
    let want = sqrt(&m);
    let mut all = l.clone();
    all.push(p);
    ensure!(cx, (g - want).abs() <= 1e-14 * extent(&all), "distance of {} to line {} is {:?} but exactly {:?}", fmt_ps(&[p]), fmt_ps(&l), g, want);
    Ok(())
}
