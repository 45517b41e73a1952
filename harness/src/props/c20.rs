//! Triangles.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::triangle::Triangle;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        quick: 1_200_000,
        families: vec![
            Family { name: "direction, area, containment", weight: 3, run: basics },
            Family { name: "centres", weight: 3, run: centres },
            Family { name: "in space", weight: 2, run: space },
        ],
        rule: "Triangles on grids, lattices and doubles, of either direction: general, right, isosceles, thin, far from the origin, collapsed; points on vertices, edges, a hair off, inside, outside; vertices with Z. Oracle: exact rationals, square roots within rounding.",
        assumptions: &["triangles of non-zero area where a centre, containment or elevation is asked", "plain floating-point results are compared within their conditioning"],
        need: &[("acute", 20000), ("right", 5000), ("obtuse", 20000), ("collapsed", 5000), ("counter-clockwise", 20000), ("clockwise", 20000), ("point on the border", 20000), ("point inside", 20000), ("point outside", 20000), ("well-conditioned centre", 20000), ("bisecting line", 20000)],
    }
}

const U: f64 = 1.1102230246251565e-16;

fn triangle(r: &mut Rng) -> [P; 3] {
    let st = Style::any(r);
    let (a, b) = (st.pt(r), st.pt(r));
    let v = (b.0 - a.0, b.1 - a.1);
    let c = match r.below(8) {
        // right, isosceles, thin, collapsed
        0 => (a.0 - v.1, a.1 + v.0),
        1 => (b.0 + v.1 * 2.0, b.1 - v.0 * 2.0),
        2 => {
            let t = r.int(-3, 4) as f64 / 2.0;
            (nudge(a.0 + v.0 * t, r.int(-4, 4)), nudge(a.1 + v.1 * t, r.int(-4, 4)))
        }
        3 => {
            let k = r.pick(&[-1.0, 2.0, 3.0]);
            (a.0 + v.0 * k, a.1 + v.1 * k)
        }
        4 => r.pick(&[a, b]),
        5 => (a.0 + v.0 * 0.5 - v.1 * 0.9, a.1 + v.1 * 0.5 + v.0 * 0.9),
        _ => st.pt(r),
    };
    let mut t = [a, b, c];
    if r.chance(1, 4) {
        let s = ldexp(1.0, r.int(10, 30));
        let o = (r.int(-3, 3) as f64 * s, r.int(-3, 3) as f64 * s);
        for p in t.iter_mut() {
            *p = (p.0 + o.0, p.1 + o.1);
        }
    }
    let k = r.us(3);
    t.rotate_left(k);
    // keep products of four ordinates in range
    t.map(|p| (tame(p.0), tame(p.1)))
}
fn tame(x: f64) -> f64 {
    if x != 0.0 && x.abs() < 1e-60 {
        0.0
    } else {
        x
    }
}
fn q(x: f64) -> Q {
    Q::f(x)
}
fn sub(a: f64, b: f64) -> Dy {
    Dy::f(a).sub(&Dy::f(b))
}
/// (twice the signed area, counter-clockwise positive; sum of the sizes of its terms)
fn area2(a: P, b: P, c: P) -> (Dy, Dy) {
    let t1 = sub(b.0, a.0).mul(&sub(c.1, a.1));
    let t2 = sub(b.1, a.1).mul(&sub(c.0, a.0));
    (t1.sub(&t2), t1.abs().add(&t2.abs()))
}
/// square root of an exact square, to a couple of units
fn sqrt_d(x: &Dy) -> f64 {
    x.to_f64().sqrt()
}
fn len(a: P, b: P) -> f64 {
    sqrt_d(&sub(a.0, b.0).sqr().add(&sub(a.1, b.1).sqr()))
}

fn basics(cx: &mut Cx) -> R {
    let t = triangle(&mut cx.rng);
    let [a, b, d] = t;
    let (ca, cb, cd) = (c(a), c(b), c(d));
    for p in &t {
        cx.key(&[p.0, p.1]);
    }
    let n = fmt_ps(&t);
    cx.desc(|| n.clone());
    let tri = Triangle::new(&ca, &cb, &cd);
    let (ar, size) = area2(a, b, d);
    let tol = 4.0 * U * size.to_f64();
    if ar.is_zero() {
        cx.ev("collapsed");
    } else {
        cx.nontrivial();
    }
    // areas: clockwise positive
    for (w, g) in [("signed area", Triangle::signed_area_coordinates(&ca, &cb, &cd)), ("signed area", tri.signed_area())] {
        ensure!(cx, err_d(g, &ar.neg().scale2(-1)) <= tol, "{} of {} is {:?} but {:?}", w, n, g, -ar.to_f64() / 2.0);
    }
    for g in [Triangle::area_coordinates(&ca, &cb, &cd), tri.area()] {
        ensure!(cx, g >= 0.0 && err_d(g, &ar.abs().scale2(-1)) <= tol, "area of {} is {:?} but {:?}", n, g, ar.to_f64() / 2.0);
    }
    let g = Triangle::det_f64(a.0, a.1, b.0, b.1);
    let (u, v) = (Dy::f(a.0).mul(&Dy::f(b.1)), Dy::f(a.1).mul(&Dy::f(b.0)));
    ensure!(cx, err_d(g, &u.sub(&v)) <= 4.0 * U * (u.abs().to_f64() + v.abs().to_f64()), "determinant of {:?} {:?} is {:?} but {:?}", a, b, g, u.sub(&v).to_f64());
    // direction
    if decided(a, b, d) {
        let w = ar.sign() > 0;
        cx.ev(if w { "counter-clockwise" } else { "clockwise" });
        let (g, h) = (Triangle::is_ccw_coordinates(&ca, &cb, &cd), tri.is_ccw());
        ensure!(cx, g == w && h == w, "{} counter-clockwise is {} and {}", n, g, h);
    }
    // acute: all three dot products positive
    let mut sure = true;
    let mut signs = vec![];
    for i in 0..3 {
        let (p, o, s) = (t[(i + 2) % 3], t[i], t[(i + 1) % 3]);
        let t1 = sub(p.0, o.0).mul(&sub(s.0, o.0));
        let t2 = sub(p.1, o.1).mul(&sub(s.1, o.1));
        let dot = t1.add(&t2);
        let small = max_abs(&t) <= 1e5 && t.iter().all(|p| p.0 == p.0.trunc() && p.1 == p.1.trunc());
        sure &= small || dot.abs().to_f64() > 16.0 * U * (t1.abs().to_f64() + t2.abs().to_f64());
        signs.push(dot.sign());
    }
    if sure {
        let w = signs.iter().all(|s| *s > 0);
        cx.ev(if w { "acute" } else if signs.iter().any(|s| *s < 0) { "obtuse" } else { "right" });
        let (g, h) = (Triangle::is_acute_coordinates(&ca, &cb, &cd), tri.is_acute());
        ensure!(cx, g == w && h == w, "{} acute is {} and {}", n, g, h);
    }
    // sides
    let l = [len(a, b), len(b, d), len(d, a)];
    let sum: f64 = l.iter().sum();
    for g in [Triangle::length_coordinates(&ca, &cb, &cd), tri.length()] {
        ensure!(cx, (g - sum).abs() <= 16.0 * U * sum, "perimeter of {} is {:?} but {:?}", n, g, sum);
    }
    let m = l.iter().fold(0.0f64, |m, v| m.max(*v));
    for g in [Triangle::longest_side_length_coordinates(&ca, &cb, &cd), tri.longest_side_length()] {
        ensure!(cx, (g - m).abs() <= 8.0 * U * m, "longest side of {} is {:?} but {:?}", n, g, m);
    }
    // containment
    if ar.is_zero() || !decided(a, b, d) {
        return Ok(());
    }
    let r = &mut cx.rng;
    let p = match r.below(6) {
        0 => t[r.us(3)],
        1 => {
            let (u, v) = (t[r.us(3)], t[r.us(3)]);
            ((u.0 + v.0) / 2.0, (u.1 + v.1) / 2.0)
        }
        2 => {
            let (u, v) = (t[r.us(3)], t[r.us(3)]);
            let k = r.pick(&[0.25, 0.75, 1.5, -0.5, 2.0]);
            (nudge(u.0 + (v.0 - u.0) * k, r.int(-1, 1)), nudge(u.1 + (v.1 - u.1) * k, r.int(-1, 1)))
        }
        3 => (nudge((a.0 + b.0 + d.0) / 3.0, r.int(-1, 1)), (a.1 + b.1 + d.1) / 3.0),
        4 => {
            let (x, y) = (r.unit(), r.unit());
            (a.0 + (b.0 - a.0) * x + (d.0 - a.0) * y, a.1 + (b.1 - a.1) * x + (d.1 - a.1) * y)
        }
        _ => (r.pick(&[a.0, b.0, d.0]), r.pick(&[a.1, b.1, d.1])),
    };
    cx.key(&[p.0, p.1]);
    if !(decided(a, b, p) && decided(b, d, p) && decided(d, a, p)) {
        return Ok(());
    }
    let s = ar.sign();
    let o = [orient(a, b, p) * s, orient(b, d, p) * s, orient(d, a, p) * s];
    let w = o.iter().all(|v| *v >= 0);
    cx.ev(if !w { "point outside" } else if o.iter().all(|v| *v > 0) { "point inside" } else { "point on the border" });
    let g = Triangle::intersects_coordinates(&ca, &cb, &cd, &c(p));
    ensure!(cx, g == w, "{} meets {:?} is {}", n, p, g);
    Ok(())
}

fn centres(cx: &mut Cx) -> R {
    let t = triangle(&mut cx.rng);
    let [a, b, d] = t;
    let (ca, cb, cd) = (c(a), c(b), c(d));
    for p in &t {
        cx.key(&[p.0, p.1]);
    }
    let n = fmt_ps(&t);
    cx.desc(|| n.clone());
    let tri = Triangle::new(&ca, &cb, &cd);
    let m = max_abs(&t);
    let near = |g: &Coordinate, x: &Q, y: &Q, tx: f64, ty: f64| err_f(g.x, x) <= tx && err_f(g.y, y) <= ty;
    // centroid
    let third = |u: f64, v: f64, w: f64| q(u).add(&q(v)).add(&q(w)).div(&q(3.0));
    let (x, y) = (third(a.0, b.0, d.0), third(a.1, b.1, d.1));
    for g in [Triangle::centroid_coordinates(&ca, &cb, &cd), tri.centroid()] {
        ensure!(cx, near(&g, &x, &y, 8.0 * U * m, 8.0 * U * m), "centroid of {} is {} but ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
    }
    // perpendicular bisector of a and b, as a line
    if a != b {
        // -dx X - dy Y + w = 0 through the midpoint, observed divided by w
        let h = Triangle::perpendicular_bisector_coordinates(&ca, &cb);
        let (dx, dy) = (sub(b.0, a.0), sub(b.1, a.1));
        let w = dx.mul(&Dy::f(a.0).add(&Dy::f(b.0))).add(&dy.mul(&Dy::f(a.1).add(&Dy::f(b.1)))).scale2(-1);
        let big = (m + dx.abs().to_f64() + dy.abs().to_f64()).powi(2);
        let wn = w.abs().to_f64();
        if wn > 1e-6 * big {
            let (x, y) = (Q::new(dx.neg(), w.clone()), Q::new(dy.neg(), w.clone()));
            let e = |v: &Q| 4.0 * U * (16.0 * big.sqrt() + v.abs().to_f64() * 16.0 * big) / wn;
            let (tx, ty) = (e(&x), e(&y));
            ensure!(cx, err_f(h.get_x(), &x) <= tx && err_f(h.get_y(), &y) <= ty, "the bisector of {:?} {:?} is the line {:?} {:?} 1 but {:?} {:?} 1", a, b, h.get_x(), h.get_y(), x.to_f64(), y.to_f64());
            cx.ev("bisecting line");
        }
    }
    // where the bisector of the angle at b cuts the side a d
    if a != b || b != d {
        let (l0, l2) = (len(b, a), len(b, d));
        let f = l0 / (l0 + l2);
        let g = Triangle::angle_bisector_coordinates(&ca, &cb, &cd);
        let (x, y) = (q(a.0).add(&q(f).mul(&Q::dy(sub(d.0, a.0)))), q(a.1).add(&q(f).mul(&Q::dy(sub(d.1, a.1)))));
        ensure!(cx, near(&g, &x, &y, 32.0 * U * m, 32.0 * U * m), "the bisector at {:?} of {} cuts the other side at {} but ({:?} {:?})", b, n, f1(&g), x.to_f64(), y.to_f64());
    }
    let (ar, size) = area2(a, b, d);
    for g in [Triangle::circumradius_coordinates(&ca, &cb, &cd), tri.circumradius()] {
        if size.is_zero() {
            ensure!(cx, g == f64::INFINITY, "circumradius of the flat {} is {:?}", n, g);
        }
    }
    if ar.is_zero() {
        return Ok(());
    }
    cx.nontrivial();
    // incentre
    let l = [len(b, d), len(a, d), len(a, b)];
    let s = q(l[0]).add(&q(l[1])).add(&q(l[2]));
    let mix = |u: f64, v: f64, w: f64| q(l[0]).mul(&q(u)).add(&q(l[1]).mul(&q(v))).add(&q(l[2]).mul(&q(w))).div(&s);
    let (x, y) = (mix(a.0, b.0, d.0), mix(a.1, b.1, d.1));
    for g in [Triangle::in_centre_coordinates(&ca, &cb, &cd), tri.in_centre()] {
        ensure!(cx, near(&g, &x, &y, 32.0 * U * m, 32.0 * U * m), "incentre of {} is {} but ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
    }
    // circumcircle
    let cond = size.to_f64() / ar.abs().to_f64();
    if !cond.is_finite() {
        return Ok(());
    }
    if cond < 1e6 {
        cx.ev("well-conditioned centre");
        let w = l[0] * l[1] * l[2] / (2.0 * ar.abs().to_f64());
        for g in [Triangle::circumradius_coordinates(&ca, &cb, &cd), tri.circumradius()] {
            ensure!(cx, (g - w).abs() <= 32.0 * U * (1.0 + cond) * w, "circumradius of {} is {:?} but {:?}", n, g, w);
        }
    }
    let (ax, ay, bx, by) = (sub(a.0, d.0), sub(a.1, d.1), sub(b.0, d.0), sub(b.1, d.1));
    let (a2, b2) = (ax.sqr().add(&ay.sqr()), bx.sqr().add(&by.sqr()));
    let den = ax.mul(&by).sub(&ay.mul(&bx)).scale2(1);
    let dsz = ax.mul(&by).abs().add(&ay.mul(&bx).abs()).scale2(1).to_f64();
    let term = |u: &Dy, v: &Dy| {
        let (t1, t2) = (u.mul(&b2), v.mul(&a2));
        (t1.sub(&t2), t1.abs().add(&t2.abs()).to_f64())
    };
    let ((nx, sx), (ny, sy)) = (term(&ay, &by), term(&ax, &bx));
    let (ox, oy) = (Q::new(nx, den.clone()), Q::new(ny, den.clone()));
    let (x, y) = (q(d.0).sub(&ox), q(d.1).add(&oy));
    let dn = den.abs().to_f64();
    if dsz / dn < 1e6 {
        let e = |s: f64, o: &Q| 4.0 * (16.0 * U * s + o.abs().to_f64() * 16.0 * U * dsz) / dn;
        let (tx, ty) = (e(sx, &ox) + 4.0 * U * m, e(sy, &oy) + 4.0 * U * m);
        for g in [Triangle::circumcentre_coordinates(&ca, &cb, &cd), tri.circumcentre()] {
            ensure!(cx, near(&g, &x, &y, tx, ty), "circumcentre of {} is {} but ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
        }
    }
    if dsz / dn < 1e12 {
        let g = Triangle::circumcentre_dd_coordinates(&ca, &cb, &cd);
        // as good as one rounding, but for the accuracy of extended precision
        let k = 2f64.powi(-95);
        let tx = 4.0 * U * x.to_f64().abs() + k * (d.0.abs() + (sx + ox.abs().to_f64() * dsz) / dn);
        let ty = 4.0 * U * y.to_f64().abs() + k * (d.1.abs() + (sy + oy.abs().to_f64() * dsz) / dn);
        ensure!(cx, near(&g, &x, &y, tx, ty), "circumcentre of {} in extended precision is {} but ({:?} {:?})", n, f1(&g), x.to_f64(), y.to_f64());
    }
    Ok(())
}

fn space(cx: &mut Cx) -> R {
    let t = triangle(&mut cx.rng);
    let r = &mut cx.rng;
    let st = Style::any(r);
    let mut z = [0; 3].map(|_| tame(st.ord(r)));
    if r.chance(1, 6) {
        z = [z[0]; 3];
    }
    let p = match r.below(4) {
        0 => t[r.us(3)],
        1 => ((t[0].0 + t[1].0) / 2.0, (t[0].1 + t[1].1) / 2.0),
        2 => ((t[0].0 + t[1].0 + t[2].0) / 3.0, (t[0].1 + t[1].1 + t[2].1) / 3.0),
        _ => st.pt(r),
    };
    let p = (tame(p.0), tame(p.1));
    for i in 0..3 {
        cx.key(&[t[i].0, t[i].1, z[i]]);
    }
    cx.key(&[p.0, p.1]);
    let n = format!("{} z {:?}", fmt_ps(&t), z);
    cx.desc(|| format!("{} at {:?}", n, p));
    let co: Vec<Coordinate> = (0..3).map(|i| Coordinate::new_xyz(t[i].0, t[i].1, z[i])).collect();
    let tri = Triangle::new(&co[0], &co[1], &co[2]);
    // half the length of the cross product
    let u = [sub(t[1].0, t[0].0), sub(t[1].1, t[0].1), sub(z[1], z[0])];
    let v = [sub(t[2].0, t[0].0), sub(t[2].1, t[0].1), sub(z[2], z[0])];
    let mut s = Dy::zero();
    let mut size = 0.0f64;
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let (t1, t2) = (u[j].mul(&v[k]), u[k].mul(&v[j]));
        s = s.add(&t1.sub(&t2).sqr());
        size = size.max(t1.abs().to_f64()).max(t2.abs().to_f64());
    }
    let w = sqrt_d(&s) / 2.0;
    if size < 1e100 && size > 1e-100 {
        cx.nontrivial();
        for g in [Triangle::area_3d_coordinates(&co[0], &co[1], &co[2]), tri.area_3d()] {
            ensure!(cx, g >= 0.0 && (g - w).abs() <= 32.0 * U * size, "area in space of {} is {:?} but {:?}", n, g, w);
        }
    }
    // elevation on the plane of the triangle
    let (a, b, cc, d) = (&u[0], &v[0], &u[1], &v[1]);
    let (d1, d2) = (a.mul(d), b.mul(cc));
    let det = d1.sub(&d2);
    // sizes that hold for whichever corner the evaluation starts from
    let ext = |v: &[f64]| v.iter().fold(f64::MIN, |m, x| m.max(*x)) - v.iter().fold(f64::MAX, |m, x| m.min(*x));
    let (tx, ty) = (ext(&[t[0].0, t[1].0, t[2].0]), ext(&[t[0].1, t[1].1, t[2].1]));
    let (px, py) = (ext(&[t[0].0, t[1].0, t[2].0, p.0]), ext(&[t[0].1, t[1].1, t[2].1, p.1]));
    let dsz = 2.0 * tx * ty;
    let psz = tx * py + ty * px;
    let dn = det.abs().to_f64();
    if det.is_zero() || dsz / dn > 1e6 {
        return Ok(());
    }
    let (dx, dy) = (sub(p.0, t[0].0), sub(p.1, t[0].1));
    let part = |m0: Dy, m1: Dy| {
        let e = Q::new(m0.sub(&m1), det.clone());
        let tol = 16.0 * U * (psz + (1.0 + e.abs().to_f64()) * dsz) / dn;
        (e, tol)
    };
    let ((t_, te), (u_, ue)) = (part(d.mul(&dx), b.mul(&dy)), part(a.mul(&dy), cc.mul(&dx)));
    let w = q(z[0]).add(&t_.mul(&Q::dy(u[2].clone()))).add(&u_.mul(&Q::dy(v[2].clone())));
    let dz = ext(&z);
    let tol = 2.0 * (te + ue) * dz + 8.0 * U * (z.iter().fold(0.0, |m: f64, x| m.max(x.abs())) + (1.0 + t_.abs().to_f64() + u_.abs().to_f64()) * dz);
    for g in [Triangle::interpolate_z_coordinates(&c(p), &co[0], &co[1], &co[2]), tri.interpolate_z(&c(p))] {
        ensure!(cx, err_f(g, &w) <= tol, "elevation of {} at {:?} is {:?} but {:?}", n, p, g, w.to_f64());
    }
    Ok(())
}
