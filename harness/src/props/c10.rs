//! Operations of a directed segment.
use super::c08::{extent, pt_seg2};
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::line_segment::LineSegment;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        quick: 2_500_000,
        families: vec![
            Family { name: "point against segment", weight: 4, run: point },
            Family { name: "positions along and beside a segment", weight: 2, run: along },
            Family { name: "segment against segment", weight: 4, run: pair },
            Family { name: "order, equality, normal form", weight: 2, run: order },
        ],
        rule: "Segments of every slope and length (horizontal, vertical, zero-length where allowed) on grids, lattices, far from the origin and mixed doubles; points at, beside, beyond, on and near the segment; segments overlapping in projection at one end, both, inside, not at all. Oracle: exact rational projection and distance, exact orientation, lexicographic order.",
        assumptions: &["positions are compared within a few units of rounding of the operands", "decisions (side, projection beyond an end, crossing) are asserted where the exact value is distinguishable: always on small integer grids, elsewhere outside the rounding error of the dot product"],
        need: &[("projects before the start", 20000), ("projects inside", 20000), ("projects beyond the end", 20000), ("clipped projection", 20000), ("no projection", 20000), ("zero-length segment", 5000), ("closest points of crossing segments", 20000), ("closest points of disjoint segments", 20000), ("left", 20000), ("right", 20000), ("on the line", 10000), ("equal up to direction", 5000)],
    }
}

const U: f64 = 1.1102230246251565e-16;

fn seg(a: P, b: P) -> LineSegment {
    LineSegment::new_from_coordinates(&c(a), &c(b))
}
fn d(u: f64, v: f64) -> Dy {
    Dy::f(u).sub(&Dy::f(v))
}
/// exact projection factor and allowance for rounding
fn factor(p: P, a: P, b: P) -> (Q, f64) {
    let (dx, dy, wx, wy) = (d(b.0, a.0), d(b.1, a.1), d(p.0, a.0), d(p.1, a.1));
    let l2 = dx.sqr().add(&dy.sqr());
    let (t1, t2) = (wx.mul(&dx), wy.mul(&dy));
    let q = Q::new(t1.add(&t2), l2.clone());
    let m = (t1.abs().to_f64() + t2.abs().to_f64()) / l2.to_f64();
    let tol = 16.0 * U * (m + q.to_f64().abs());
    (q, tol)
}
/// -1 below 0, 0 in (0,1), 1 above 1, with 0/1 exactly given by `None`; undecided if within tol and not exact
fn zone(q: &Q, tol: f64, exact: bool) -> Option<i32> {
    let one = Q::f(1.0);
    let z = if q.sign() < 0 { -1 } else if one.lt(q) { 1 } else { 0 };
    if exact {
        return Some(z);
    }
    let v = q.to_f64();
    if v.abs() <= tol || (q.sub(&one)).to_f64().abs() <= tol { None } else { Some(z) }
}
fn small(ps: &[P]) -> bool {
    max_abs(ps) <= 1e5 && ps.iter().all(|p| p.0 == p.0.trunc() && p.1 == p.1.trunc())
}
fn near(g: &Coordinate, x: &Q, y: &Q, tol: f64) -> bool {
    err_f(g.x, x).abs() <= tol && err_f(g.y, y).abs() <= tol
}
fn at(a: P, b: P, t: &Q) -> (Q, Q) {
    (Q::f(a.0).add(&t.mul(&Q::dy(d(b.0, a.0)))), Q::f(a.1).add(&t.mul(&Q::dy(d(b.1, a.1)))))
}
fn ends(r: &mut Rng) -> (Style, P, P) {
    let st = Style::any(r);
    let a = st.pt(r);
    let mut b = st.pt(r);
    match r.below(8) {
        0 => b.0 = a.0,
        1 => b.1 = a.1,
        2 => b = (a.0 + (b.0 - a.0) * 1e-3, a.1 + (b.1 - a.1) * 1e-3),
        _ => {}
    }
    (st, a, b)
}
fn point_for(r: &mut Rng, st: Style, a: P, b: P) -> P {
    match r.below(8) {
        0 => a,
        1 => b,
        2 => {
            let t = if r.chance(1, 4) { r.range(-1.0, 1.0) * 2f64.powi(r.int(1, 60) as i32) } else { r.range(-1.0, 2.0) };
            (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))
        }
        3 => {
            let k = r.int(-3, 3) as f64 / 2.0;
            let e = if r.bool() { a } else { b };
            (e.0 - k * (b.1 - a.1), e.1 + k * (b.0 - a.0))
        }
        4 => {
            let k = r.int(-3, 5) as f64 / 2.0;
            (a.0 + k * (b.0 - a.0), a.1 + k * (b.1 - a.1))
        }
        _ => st.pt(r),
    }
}

fn point(cx: &mut Cx) -> R {
    let (st, a, mut b) = ends(&mut cx.rng);
    if cx.rng.chance(1, 12) {
        b = a;
    }
    let p = point_for(&mut cx.rng, st, a, b);
    cx.key(&[p.0, p.1, a.0, a.1, b.0, b.1]);
    cx.desc(|| format!("point {} segment {}", fmt_ps(&[p]), fmt_ps(&[a, b])));
    let s = seg(a, b);
    let pc = c(p);
    let n = format!("point {} segment {}", fmt_ps(&[p]), fmt_ps(&[a, b]));
    let all = [a, b, p];
    let m = max_abs(&all);
    let ext = extent(&all);
    if a == b {
        cx.ev("zero-length segment");
        let f = s.segment_fraction(&pc);
        ensure!(cx, (0.0..=1.0).contains(&f), "{}: segment fraction {:?} outside [0,1]", n, f);
        let g = s.closest_point(&pc);
        ensure!(cx, g.x == a.0 && g.y == a.1, "{}: closest point of a zero-length segment is {}", n, f1(&g));
        let h = pc.distance(&c(a));
        let (g, o) = (s.distance_perpendicular(&pc), s.distance_perpendicular_oriented(&pc));
        ensure!(cx, g == h && o == h, "{}: perpendicular distances to a zero-length segment are {:?} and {:?}, not the distance {:?}", n, g, o, h);
        return Ok(());
    }
    cx.nontrivial();
    let (q, tol) = factor(p, a, b);
    let sm = small(&all);
    let f = s.projection_factor(&pc);
    ensure!(cx, err_f(f, &q).abs() <= tol, "{}: projection factor {:?} but exactly {:?}", n, f, q.to_f64());
    if p == a {
        ensure!(cx, f == 0.0, "{}: projection factor of the start is {:?}", n, f);
    }
    if p == b {
        ensure!(cx, f == 1.0, "{}: projection factor of the end is {:?}", n, f);
    }
    let z = zone(&q, tol, sm);
    match z {
        Some(-1) => cx.ev("projects before the start"),
        Some(1) => cx.ev("projects beyond the end"),
        Some(_) => cx.ev("projects inside"),
        None => cx.ev("projects at an end, within rounding"),
    }
    let cl = if q.sign() < 0 { Q::f(0.0) } else if Q::f(1.0).lt(&q) { Q::f(1.0) } else { Q::new(q.n.clone(), q.d.clone()) };
    let f = s.segment_fraction(&pc);
    ensure!(cx, (0.0..=1.0).contains(&f) && err_f(f, &cl).abs() <= tol, "{}: segment fraction {:?} but exactly {:?}", n, f, cl.to_f64());
    // projection onto the line
    let (x, y) = at(a, b, &q);
    let ptol = 8.0 * U * (m + x.to_f64().abs() + y.to_f64().abs()) + (tol + 8.0 * U * q.to_f64().abs()) * extent(&[a, b]);
    // what is carried along with a point stays with it
    let zm = (cx.rng.pick(&[f64::NAN, 0.0, 5.0, -2e4]), cx.rng.pick(&[f64::NAN, 0.0, -7.0, 3e6]));
    let pz = Coordinate::new_xyzm(p.0, p.1, zm.0, zm.1);
    for (w, g, h) in [("projection", s.project_coordinate(&pz), s.project_coordinate(&pc)), ("reflection", s.reflect(&pz), s.reflect(&pc))] {
        let k = same_bits(g.x, h.x) && same_bits(g.y, h.y) && same_bits(g.z, zm.0) && same_bits(g.m, zm.1);
        ensure!(cx, k, "{}: {} of the point with Z {:?} and M {:?} is {}, without {}", n, w, zm.0, zm.1, f1(&g), f1(&h));
    }
    let g = s.project_coordinate(&pc);
    ensure!(cx, near(&g, &x, &y, ptol), "{}: projection {} but exactly ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
    if p == a || p == b {
        ensure!(cx, g.x == p.0 && g.y == p.1, "{}: projection of an end is {}", n, f1(&g));
    }
    // closest point of the segment
    let g = s.closest_point(&pc);
    let (x, y) = at(a, b, &cl);
    ensure!(cx, near(&g, &x, &y, ptol), "{}: closest point {} but exactly ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
    if z == Some(-1) {
        ensure!(cx, g.x == a.0 && g.y == a.1, "{}: projects before the start but the closest point is {}", n, f1(&g));
    }
    if z == Some(1) {
        ensure!(cx, g.x == b.0 && g.y == b.1, "{}: projects beyond the end but the closest point is {}", n, f1(&g));
    }
    // mirror image: p + 2 (foot - p)
    let (x, y) = at(a, b, &q);
    let two = Q::f(2.0);
    let (rx, ry) = (x.mul(&two).sub(&Q::f(p.0)), y.mul(&two).sub(&Q::f(p.1)));
    let g = s.reflect(&pc);
    ensure!(cx, near(&g, &rx, &ry, 2.0 * ptol + 64.0 * U * m), "{}: reflection {} but exactly ({:?} {:?})", n, f1(&g), rx.to_f64(), ry.to_f64());
    // side and perpendicular distance
    let h = {
        let cr = d(b.0, a.0).mul(&d(p.1, a.1)).sub(&d(b.1, a.1).mul(&d(p.0, a.0)));
        let l = d(b.0, a.0).sqr().add(&d(b.1, a.1).sqr());
        Q::new(cr.sqr(), l).to_f64().sqrt()
    };
    let htol = 1e-14 * ext;
    // distance to the segment itself
    let w = pt_seg2(p, a, b).0.to_f64().sqrt();
    let g = s.distance_coordinate(&pc);
    ensure!(cx, (g - w).abs() <= htol, "{}: distance {:?} but exactly {:?}", n, g, w);
    let g = s.distance_perpendicular(&pc);
    ensure!(cx, (g - h).abs() <= htol, "{}: perpendicular distance {:?} but exactly {:?}", n, g, h);
    if st.is_exact() && small(&all) || decided(a, b, p) {
        let o = orient(a, b, p);
        cx.ev(["right", "on the line", "left"][(o + 1) as usize]);
        let g = s.orientation_index_coordinate(&pc);
        ensure!(cx, g == o, "{}: orientation {} but exactly {}", n, g, o);
        let g = s.distance_perpendicular_oriented(&pc);
        ensure!(cx, (g - h * o as f64).abs() <= htol, "{}: oriented perpendicular distance {:?} but exactly {:?}", n, g, h * o as f64);
    }
    // direction
    let g = s.angle();
    let t = f64::atan2(d(b.1, a.1).to_f64(), d(b.0, a.0).to_f64());
    // straight back, the sign of a zero decides between the two names of the half turn
    let back = a.1 == b.1 && g.abs() == t.abs();
    ensure!(cx, (back || (g - t).abs() <= 8.0 * U * t.abs()) && g.abs() <= std::f64::consts::PI, "{}: angle {:?} but {:?}", n, g, t);
    Ok(())
}

fn along(cx: &mut Cx) -> R {
    let (_, a, b) = ends(&mut cx.rng);
    let r = &mut cx.rng;
    let t = match r.below(4) {
        0 => r.pick(&[0.0, 1.0, 0.5, -1.0, 2.0, -0.0, 1e-12, -1e-15]),
        1 => r.unit(),
        2 if r.bool() => r.range(-1.0, 1.0) * r.pick(&[1e2, 1e4, 1e7, 1e12]),
        _ => r.range(-3.0, 3.0),
    };
    let l = (b.0 - a.0).hypot(b.1 - a.1);
    let off = match r.below(4) {
        0 => r.pick(&[0.0, -0.0]),
        1 => r.pick(&[1.0, -1.0, 10.0, -0.5]),
        2 => l * r.range(-2.0, 2.0),
        _ => r.range(-100.0, 100.0),
    };
    cx.key(&[a.0, a.1, b.0, b.1, t, off]);
    cx.desc(|| format!("segment {} fraction {:?} offset {:?}", fmt_ps(&[a, b]), t, off));
    let n = format!("segment {} fraction {:?} offset {:?}", fmt_ps(&[a, b]), t, off);
    let s = seg(a, b);
    let (x, y) = at(a, b, &Q::f(t));
    let tol = 8.0 * U * (max_abs(&[a, b]) + x.to_f64().abs() + y.to_f64().abs() + t.abs() * l);
    let g = s.project_coordinate_with_projection_factor(&Coordinate::new_xyz(7.0, 8.0, 9.0), t);
    ensure!(cx, near(&g, &x, &y, tol) && g.get_z() == 9.0, "{}: projected by its factor {} but exactly ({:?} {:?} 9)", n, f1(&g), x.to_f64(), y.to_f64());
    let g = s.point_along(t);
    ensure!(cx, near(&g, &x, &y, tol), "{}: point along {} but exactly ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
    let (x2, y2) = at(a, b, &Q::f(0.5));
    for (w, g) in [("mid point", s.mid_point()), ("mid point of coordinates", LineSegment::mid_point_coordinates(&c(a), &c(b)))] {
        ensure!(cx, near(&g, &x2, &y2, 2.0 * U * max_abs(&[a, b])), "{}: {} {} but exactly ({:?} {:?})", n, w, f1(&g), x2.to_f64(), y2.to_f64());
    }
    let g = s.get_length();
    ensure!(cx, (g - d(b.0, a.0).sqr().add(&d(b.1, a.1).sqr()).to_f64().sqrt()).abs() <= 8.0 * U * l, "{}: length {:?}", n, g);
    if a == b {
        cx.ev("zero-length segment");
        return Ok(());
    }
    cx.nontrivial();
    // left of the direction is positive
    let (dx, dy) = (d(b.0, a.0).to_f64(), d(b.1, a.1).to_f64());
    let (ox, oy) = (-off * dy / l, off * dx / l);
    let otol = 32.0 * U * off.abs();
    let chk = |g: &Coordinate, t: f64| {
        let (x, y) = at(a, b, &Q::f(t));
        let tol = 8.0 * U * (max_abs(&[a, b]) + x.to_f64().abs() + y.to_f64().abs() + t.abs() * l + off.abs()) + otol;
        (near(g, &x.add(&Q::f(ox)), &y.add(&Q::f(oy)), tol), x.to_f64() + ox, y.to_f64() + oy)
    };
    let g = s.point_along_offset(t, off);
    let (k, wx, wy) = chk(&g, t);
    ensure!(cx, k, "{}: point along with offset {} but ({:?} {:?})", n, f1(&g), wx, wy);
    let g = s.offset(off);
    let ((k0, wx, wy), (k1, vx, vy)) = (chk(&g.p0, 0.0), chk(&g.p1, 1.0));
    ensure!(cx, k0 && k1, "{}: offset segment {} {} but ({:?} {:?}) ({:?} {:?})", n, f1(&g.p0), f1(&g.p1), wx, wy, vx, vy);
    Ok(())
}

fn pair(cx: &mut Cx) -> R {
    let (st, a, b) = ends(&mut cx.rng);
    let r = &mut cx.rng;
    let e = point_for(r, st, a, b);
    let mut f = point_for(r, st, a, b);
    if r.chance(1, 12) {
        f = e;
    }
    if a == b {
        return Ok(());
    }
    cx.nontrivial();
    cx.key(&[a.0, a.1, b.0, b.1, e.0, e.1, f.0, f.1]);
    let all = [a, b, e, f];
    let n = format!("segments {} and {}", fmt_ps(&[a, b]), fmt_ps(&[e, f]));
    cx.desc(|| n.clone());
    let (s, l) = (seg(a, b), seg(e, f));
    let sm = small(&all);
    let m = max_abs(&all);
    // projection of the second onto the first
    let ((q0, t0), (q1, t1)) = (factor(e, a, b), factor(f, a, b));
    if let (Some(z0), Some(z1)) = (zone(&q0, t0, sm), zone(&q1, t1, sm)) {
        let one = Q::f(1.0);
        let none = (q0.sign() <= 0 && q1.sign() <= 0) || (one.le(&q0) && one.le(&q1));
        let g = s.project_line_segment(&l);
        if none {
            cx.ev("no projection");
            ensure!(cx, g.is_none(), "{}: the second projects entirely before or beyond the first but the projection is not empty", n);
        } else {
            ensure!(cx, g.is_some(), "{}: the second projects onto the first (factors {:?} {:?}) but the projection is empty", n, q0.to_f64(), q1.to_f64());
            let g = g.unwrap();
            if z0 != 0 || z1 != 0 {
                cx.ev("clipped projection");
            }
            for (g, q, t, z) in [(&g.p0, &q0, t0, z0), (&g.p1, &q1, t1, z1)] {
                if z != 0 {
                    let w = if z < 0 { a } else { b };
                    ensure!(cx, g.x == w.0 && g.y == w.1, "{}: projection ends at {} but is clipped at {}", n, f1(g), fmt_ps(&[w]));
                } else {
                    let (x, y) = at(a, b, q);
                    let tol = 8.0 * U * m + (t + 8.0 * U) * extent(&[a, b]);
                    ensure!(cx, near(g, &x, &y, tol), "{}: projection ends at {} but exactly ({:?} {:?})", n, f1(g), x.to_f64(), y.to_f64());
                }
            }
        }
    }
    // side of a whole segment
    let dec = (st.is_exact() && sm) || (decided(a, b, e) && decided(a, b, f));
    if dec {
        let (o0, o1) = (orient(a, b, e), orient(a, b, f));
        let w = if o0 * o1 < 0 { 0 } else if o0 + o1 > 0 { 1 } else if o0 + o1 < 0 { -1 } else { 0 };
        let g = s.orientation_index_line_segment(&l);
        ensure!(cx, g == w, "{}: the ends are on sides {} {} but the orientation is {}", n, o0, o1, g);
    }
    // closest points
    if e == f || !(sm || (dec && decided(e, f, a) && decided(e, f, b))) {
        return Ok(());
    }
    let mt = meet(a, b, e, f);
    let tol = 1e-13 * extent(&all) + 4.0 * U * m;
    let i = s.intersection(&l);
    ensure!(cx, i.is_some() == (mt != Meet::None), "{}: the segments meet as {:?} but the intersection is {}", n, mt, fo(&i));
    let dist = |p: P, a: P, b: P| pt_seg2(p, a, b).0.to_f64().sqrt();
    if let Some(i) = i {
        let p = (i.x, i.y);
        ensure!(cx, dist(p, a, b) <= tol && dist(p, e, f) <= tol, "{}: intersection {} is not on both", n, fo(&Some(i)));
    }
    let g = (s.distance_line_segment(&l), l.distance_line_segment(&s));
    let w = if mt != Meet::None { 0.0 } else { [dist(a, e, f), dist(b, e, f), dist(e, a, b), dist(f, a, b)].iter().fold(f64::INFINITY, |m, &x| m.min(x)) };
    ensure!(cx, (g.0 - w).abs() <= tol && (g.1 - w).abs() <= tol, "{}: distances {:?} but exactly {:?}", n, g, w);
    let g = s.closest_points(&l);
    ensure!(cx, g.len() == 2, "{}: closest points gave {} points {}", n, g.len(), fmt_cs(&g));
    let (p, q) = ((g[0].x, g[0].y), (g[1].x, g[1].y));
    let want = if mt != Meet::None {
        cx.ev("closest points of crossing segments");
        0.0
    } else {
        cx.ev("closest points of disjoint segments");
        [dist(a, e, f), dist(b, e, f), dist(e, a, b), dist(f, a, b)].iter().fold(f64::INFINITY, |m, &x| m.min(x))
    };
    let got = (p.0 - q.0).hypot(p.1 - q.1);
    ensure!(cx, dist(p, a, b) <= tol && dist(q, e, f) <= tol && (got - want).abs() <= 2.0 * tol, "{}: closest points {} are {:?} apart but the distance is {:?} (or they are not on the segments)", n, fmt_cs(&g), got, want);
    Ok(())
}

fn order(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.bool() { Style::Grid(1) } else { Style::any(r) };
    let (mut a, b) = (st.pt(r), st.pt(r));
    if r.chance(1, 6) {
        a = b;
    }
    let (e, f) = match r.below(4) {
        0 => (a, b),
        1 => (b, a),
        2 => (a, st.pt(r)),
        _ => (st.pt(r), st.pt(r)),
    };
    cx.key(&[a.0, a.1, b.0, b.1, e.0, e.1, f.0, f.1]);
    let n = format!("segments {} and {}", fmt_ps(&[a, b]), fmt_ps(&[e, f]));
    cx.desc(|| n.clone());
    cx.nontrivial();
    let z = |p: P, z: f64| Coordinate::new_xyzm(p.0, p.1, z, -z);
    let (za, zb) = (cx.rng.pick(&[0.0, 1.0]), cx.rng.pick(&[0.0, 2.0]));
    let s = LineSegment::new_from_coordinates(&z(a, za), &z(b, zb));
    let l = LineSegment::new_from_xy(e.0, e.1, f.0, f.1);
    let lex = |p: P, q: P| if p.0 < q.0 { -1 } else if p.0 > q.0 { 1 } else if p.1 < q.1 { -1 } else if p.1 > q.1 { 1 } else { 0 };
    let w = if lex(a, e) != 0 { lex(a, e) } else { lex(b, f) };
    let (g, h) = (s.compare_to(&l), l.compare_to(&s));
    ensure!(cx, g == w && h == -w, "{}: compared as {} and {}, expected {}", n, g, h, w);
    let same = a == e && b == f;
    ensure!(cx, s.equals(&l) == same && l.equals(&s) == same, "{}: equals is {}", n, s.equals(&l));
    let topo = same || (a == f && b == e);
    if topo {
        cx.ev("equal up to direction");
    }
    ensure!(cx, s.equals_topo(&l) == topo && l.equals_topo(&s) == topo, "{}: equals_topo is {}", n, s.equals_topo(&l));
    let (h, v) = (s.is_horizontal(), s.is_vertical());
    ensure!(cx, h == (a.1 == b.1) && v == (a.0 == b.0), "{}: horizontal {} vertical {}", n, h, v);
    let g = [s.min_x(), s.max_x(), s.min_y(), s.max_y()];
    ensure!(cx, g == [a.0.min(b.0), a.0.max(b.0), a.1.min(b.1), a.1.max(b.1)], "{}: extent {:?}", n, g);
    let mut t = s;
    t.reverse();
    ensure!(cx, same_c(&t.p0, &s.p1) && same_c(&t.p1, &s.p0), "{}: reversed is {} {}", n, f1(&t.p0), f1(&t.p1));
    for start in [s, t] {
        let mut u = start;
        u.normalize();
        let w = if lex(b, a) < 0 { (z(b, zb), z(a, za)) } else { (z(a, za), z(b, zb)) };
        let k = if a == b { u.equals_topo(&start) } else { same_c(&u.p0, &w.0) && same_c(&u.p1, &w.1) };
        ensure!(cx, k, "{}: normal form is {} {}", n, f1(&u.p0), f1(&u.p1));
    }
    let mut u = if cx.rng.bool() { LineSegment::default() } else { l };
    u.set_coordinates(&s.p0, &s.p1);
    ensure!(cx, u.equals(&s), "{}: set_coordinates gave {} {}", n, f1(&u.p0), f1(&u.p1));
    let mut u = if cx.rng.bool() { LineSegment::default() } else { l };
    u.set_coordinates_from_line_segment(s);
    ensure!(cx, u.equals(&s), "{}: set from a segment gave {} {}", n, f1(&u.p0), f1(&u.p1));
    let u = LineSegment::new_from_line_segment(&s);
    ensure!(cx, same_c(&u.p0, &s.p0) && same_c(&u.p1, &s.p1) && same_c(&u.get_coordinate(0), &s.p0) && same_c(&u.get_coordinate(1), &s.p1), "{}: copy is {} {}", n, f1(&u.p0), f1(&u.p1));
    Ok(())
}
