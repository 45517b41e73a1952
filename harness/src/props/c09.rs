//! Distances in space.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::cg_algorithms_3d::CGAlgorithms3D;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        quick: 2_000_000,
        families: vec![
            Family { name: "points and segments", weight: 3, run: point_seg },
            Family { name: "two segments", weight: 5, run: seg_seg },
        ],
        rule: "Points and segments in space on grids, lattices and doubles: skew, crossing, sharing an end, parallel (overlapping or not), collinear, zero-length, nearest at every combination of ends and interiors. Oracle: exact rational minimum of the quadratic over the unit square.",
        assumptions: &["segments either exactly parallel on small integers or at an angle of more than 0.01 radians", "compared within 1e-9 of the extent of the points"],
        need: &[("nearest in both interiors", 20000), ("nearest at an end", 20000), ("parallel segments", 10000), ("zero-length segment", 10000), ("crossing segments", 2000), ("missing Z", 10000)],
    }
}

type V = [f64; 3];
fn cc(p: V) -> Coordinate {
    Coordinate::new_xyz(p[0], p[1], p[2])
}
fn d(u: V, v: V) -> [Dy; 3] {
    [Dy::f(u[0]).sub(&Dy::f(v[0])), Dy::f(u[1]).sub(&Dy::f(v[1])), Dy::f(u[2]).sub(&Dy::f(v[2]))]
}
fn dot(a: &[Dy; 3], b: &[Dy; 3]) -> Dy {
    a[0].mul(&b[0]).add(&a[1].mul(&b[1])).add(&a[2].mul(&b[2]))
}
fn pt_seg2(p: V, a: V, b: V) -> Q {
    let (u, w) = (d(b, a), d(p, a));
    let (l, t) = (dot(&u, &u), dot(&u, &w));
    if t.sign() <= 0 || l.is_zero() {
        return Q::dy(dot(&w, &w));
    }
    if l.le(&t) {
        let x = d(p, b);
        return Q::dy(dot(&x, &x));
    }
    // |w|^2 - t^2/l
    Q::new(dot(&w, &w).mul(&l).sub(&t.sqr()), l)
}
fn ext(ps: &[V]) -> f64 {
    let mut m = 0.0f64;
    for p in ps {
        for i in 0..3 {
            m = m.max((p[i] - ps[0][i]).abs());
        }
    }
    2.0 * m
}
#[derive(Clone, Copy)]
enum S {
    Grid(i64),
    Uni(f64, f64),
}
fn style(r: &mut Rng) -> S {
    match r.below(3) {
        0 => S::Grid(r.pick(&[1, 2, 5, 20])),
        1 => S::Uni(0.0, r.pick(&[1.0, 100.0, 1e-3])),
        _ => S::Uni(r.pick(&[1e3, -1e5]), 10.0),
    }
}
fn pt(r: &mut Rng, s: S) -> V {
    let mut v = [0.0; 3];
    for x in v.iter_mut() {
        *x = match s {
            S::Grid(k) => {
                let n = r.int(-k, k);
                if n == 0 && r.chance(1, 3) { -0.0 } else { n as f64 }
            }
            S::Uni(c, w) => c + r.range(-w, w),
        };
    }
    if r.chance(1, 10) {
        v[2] = match s {
            S::Grid(_) => 0.0,
            S::Uni(c, _) => c,
        };
    }
    v
}

/// powers of two to scale by: as a whole, and at times each axis by itself
fn stretch(cx: &mut Cx) -> V {
    let r = &mut cx.rng;
    let k = if r.bool() { 1.0 } else { 2f64.powi(r.int(-80, 80) as i32) };
    if r.chance(1, 6) {
        cx.ev("axes stretched apart");
        let r = &mut cx.rng;
        return [0; 3].map(|_| k * 2f64.powi(r.int(-22, 22) as i32));
    }
    [k; 3]
}

fn point_seg(cx: &mut Cx) -> R {
    let s = style(&mut cx.rng);
    let (a, mut b, mut p) = (pt(&mut cx.rng, s), pt(&mut cx.rng, s), pt(&mut cx.rng, s));
    if cx.rng.chance(1, 10) {
        b = a;
    }
    match cx.rng.below(6) {
        0 => p = a,
        1 => {
            let t = cx.rng.range(-0.5, 1.5);
            for i in 0..3 {
                p[i] = a[i] + t * (b[i] - a[i]);
            }
        }
        _ => {}
    }
    let k = stretch(cx);
    let [p, a, b] = [p, a, b].map(|v| [v[0] * k[0], v[1] * k[1], v[2] * k[2]]);
    for v in [p, a, b] {
        cx.key(&v);
    }
    cx.desc(|| format!("point {:?} segment {:?} {:?}", p, a, b));
    if a == b {
        cx.ev("zero-length segment");
    } else {
        cx.nontrivial();
    }
    let tol = 1e-14 * ext(&[p, a, b]) + 1e-15 * [p, a, b].iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let w = d(p, a);
    let want = dot(&w, &w).to_f64().sqrt();
    for (n, g) in [("CGAlgorithms3D::distance", CGAlgorithms3D::distance(&cc(p), &cc(a))), ("CGAlgorithms3D::distance swapped", CGAlgorithms3D::distance(&cc(a), &cc(p))), ("Coordinate::distance_3d", cc(p).distance_3d(&cc(a)))] {
        ensure!(cx, (g - want).abs() <= tol, "{} of {:?} and {:?} is {:?} but exactly {:?}", n, p, a, g, want);
    }
    let want = pt_seg2(p, a, b).to_f64().sqrt();
    for (n, u, v) in [("forward", a, b), ("backward", b, a)] {
        let g = CGAlgorithms3D::distance_point_segment(&cc(p), &cc(u), &cc(v));
        ensure!(cx, (g - want).abs() <= 4.0 * tol, "3D distance of {:?} and segment {:?} {:?} ({}) is {:?} but exactly {:?}", p, a, b, n, g, want);
    }
    // a missing Z: the planar distance
    let q = Coordinate::new_xy(p[0], p[1]);
    let g = CGAlgorithms3D::distance(&q, &cc(a));
    let g2 = CGAlgorithms3D::distance(&cc(a), &q);
    let want = w[0].sqr().add(&w[1].sqr()).to_f64().sqrt();
    cx.ev("missing Z");
    ensure!(cx, (g - want).abs() <= tol && (g2 - want).abs() <= tol, "distance of {:?} without Z and {:?} is {:?} / {:?} but planar {:?}", p, a, g, g2, want);
    Ok(())
}

fn seg_seg(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let s = style(r);
    let (a, mut b, mut e, mut f) = (pt(r, s), pt(r, s), pt(r, s), pt(r, s));
    match r.below(8) {
        0 => {
            // parallel on small integers
            let mut g = |k: i64| {
                let x = [r.int(-k, k), r.int(-k, k), r.int(-k, k)];
                x
            };
            let (o, dd, sh) = (g(5), g(3), g(3));
            let sh = if r.bool() { [0; 3] } else { sh };
            let mk = |k: i64, z: [i64; 3]| [(o[0] + k * dd[0] + z[0]) as f64, (o[1] + k * dd[1] + z[1]) as f64, (o[2] + k * dd[2] + z[2]) as f64];
            let t = [r.int(-4, 4), r.int(-4, 4), r.int(-4, 4), r.int(-4, 4)];
            return check(cx, mk(t[0], [0; 3]), mk(t[1], [0; 3]), mk(t[2], sh), mk(t[3], sh));
        }
        1 => {
            // share an end
            if r.bool() { e = b } else { f = a }
        }
        2 => {
            // crossing at an interior grid point
            let k = 4;
            let mut g = || [r.int(-k, k), r.int(-k, k), r.int(-k, k)];
            let (o, u, v) = (g(), g(), g());
            let (i, j, m, n) = (r.int(0, 3), r.int(0, 3), r.int(0, 3), r.int(0, 3));
            let mk = |w: [i64; 3], k: i64| [(o[0] + k * w[0]) as f64, (o[1] + k * w[1]) as f64, (o[2] + k * w[2]) as f64];
            return check(cx, mk(u, -i), mk(u, j), mk(v, -m), mk(v, n));
        }
        3 => b = a,
        4 => f = e,
        5 => {
            // one much shorter than the other
            for i in 0..3 {
                f[i] = e[i] + (f[i] - e[i]) / 16.0;
            }
        }
        _ => {}
    }
    check(cx, a, b, e, f)
}

fn check(cx: &mut Cx, a: V, b: V, e: V, f: V) -> R {
    // small integers stay exact under a power of two
    let small = [a, b, e, f].iter().flatten().all(|x| x.abs() <= 1000.0 && *x == x.trunc());
    let k = stretch(cx);
    let small = small && k[0] == k[1] && k[1] == k[2];
    let [a, b, e, f] = [a, b, e, f].map(|v| [v[0] * k[0], v[1] * k[1], v[2] * k[2]]);
    for v in [a, b, e, f] {
        cx.key(&v);
    }
    cx.desc(|| format!("segments {:?} {:?} and {:?} {:?}", a, b, e, f));
    let (u, v, w) = (d(b, a), d(f, e), d(a, e));
    let (uu, uv, vv, uw, vw) = (dot(&u, &u), dot(&u, &v), dot(&v, &v), dot(&u, &w), dot(&v, &w));
    let den = uu.mul(&vv).sub(&uv.sqr());
    if !uu.is_zero() && !vv.is_zero() {
        if den.is_zero() {
            if !small {
                return Ok(());
            }
            cx.ev("parallel segments");
        } else if den.to_f64() < 1e-4 * uu.to_f64() * vv.to_f64() {
            cx.ev("not asserted (almost parallel)");
            return Ok(());
        }
        cx.nontrivial();
    } else {
        cx.ev("zero-length segment");
    }
    let mut m = pt_seg2(a, e, f);
    for q in [pt_seg2(b, e, f), pt_seg2(e, a, b), pt_seg2(f, a, b)] {
        if q.lt(&m) {
            m = q;
        }
    }
    let mut inner = false;
    if !den.is_zero() {
        // |w + s u - t v| minimal
        let s = uv.mul(&vw).sub(&vv.mul(&uw));
        let t = uu.mul(&vw).sub(&uv.mul(&uw));
        if s.sign() >= 0 && s.le(&den) && t.sign() >= 0 && t.le(&den) {
            let n = [
                u[1].mul(&v[2]).sub(&u[2].mul(&v[1])),
                u[2].mul(&v[0]).sub(&u[0].mul(&v[2])),
                u[0].mul(&v[1]).sub(&u[1].mul(&v[0])),
            ];
            let q = Q::new(dot(&n, &w).sqr(), dot(&n, &n));
            if q.lt(&m) {
                m = q;
                inner = true;
            }
        }
    }
    cx.ev(if inner { "nearest in both interiors" } else { "nearest at an end" });
    let want = m.to_f64().sqrt();
    if want == 0.0 {
        cx.ev("crossing segments");
    }
    let tol = 1e-9 * ext(&[a, b, e, f]);
    for (x, y, z, o) in [(a, b, e, f), (b, a, e, f), (a, b, f, e), (e, f, a, b), (f, e, b, a)] {
        let g = CGAlgorithms3D::distance_segment_segment(&cc(x), &cc(y), &cc(z), &cc(o));
        ensure!(cx, (g - want).abs() <= tol, "3D distance of segments {:?} {:?} and {:?} {:?} is {:?} but exactly {:?}", x, y, z, o, g, want);
    }
    Ok(())
}
