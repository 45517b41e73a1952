//! Vectors in the plane and in space.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::math::vector_2d::Vector2D;
use geos_rs::verif_hooks::math::vector_3d::Vector3D;
use std::f64::consts::PI;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        quick: 3_000_000,
        families: vec![
            Family { name: "plane", weight: 3, run: plane },
            Family { name: "turning", weight: 2, run: turning },
            Family { name: "space", weight: 2, run: space },
            Family { name: "tiny and huge vectors", weight: 1, run: extreme },
        ],
        rule: "Pairs of vectors on grids, lattices and doubles, and integers times 2^-450 to 2^450: general, parallel, opposite, perpendicular, almost parallel, zero; scalars and quarter turns of either sign. Oracle: exact components, dot products, lengths and cross products.",
        assumptions: &["well-scaled finite components", "non-zero divisors"],
        need: &[("parallel", 20000), ("a hair off parallel", 5000), ("zero vector", 5000), ("opposite", 5000), ("negative quarter turns", 20000), ("zero vector in space", 2000), ("tiny", 20000), ("huge", 20000)],
    }
}

const U: f64 = 1.1102230246251565e-16;

fn second(r: &mut Rng, st: &Style, a: P) -> P {
    match r.below(9) {
        0 => (-a.1, a.0),
        1 => (-a.0, -a.1),
        2 => {
            let k = r.int(-4, 4) as f64;
            (a.0 * k, a.1 * k)
        }
        3 => {
            let k = r.pick(&[-2.0, -1.0, 1.0, 2.0, 4.0]);
            (nudge(a.0 * k, r.int(-1, 1)), nudge(a.1 * k, r.int(-1, 1)))
        }
        4 => a,
        5 => (0.0, 0.0),
        _ => st.pt(r),
    }
}
fn show(v: &Vector2D) -> String {
    format!("[{:?} {:?}]", v.get_x(), v.get_y())
}
/// |got - (sum of products)| within a few units of the terms' size
fn close(got: f64, terms: &[(f64, f64)]) -> bool {
    let mut s = Dy::zero();
    let mut m = 0.0;
    for (a, b) in terms {
        let t = Dy::f(*a).mul(&Dy::f(*b));
        m += t.abs().to_f64();
        s = s.add(&t);
    }
    err_d(got, &s) <= 4.0 * U * m
}
/// is it f of a and the rest of b, however that is arranged?
fn between(got: f64, f: f64, a: f64, b: f64) -> bool {
    let w = Dy::f(f).mul(&Dy::f(a)).add(&Dy::f(1.0).sub(&Dy::f(f)).mul(&Dy::f(b)));
    err_d(got, &w) <= 6.0 * U * (a.abs() + b.abs()) * (1.0 + f.abs())
}
/// is `got` the root of this sum of squares?
fn root(got: f64, sq: &Dy) -> bool {
    got >= 0.0 && Dy::f(got).sqr().sub(sq).abs().to_f64() <= 12.0 * U * sq.to_f64()
}

fn plane(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let a = if r.chance(1, 20) { (0.0, 0.0) } else { st.pt(r) };
    let b = second(r, &st, a);
    let d = match r.below(4) {
        0 => r.int(-5, 5) as f64,
        1 => r.range(-2.0, 2.0),
        2 => 0.5,
        _ => r.range(-1000.0, 1000.0),
    };
    cx.key(&[a.0, a.1, b.0, b.1, d]);
    cx.nontrivial();
    let n = format!("{} and {:?}", fmt_ps(&[a, b]), d);
    cx.desc(|| n.clone());
    let (va, vb) = (Vector2D::new_from_xy(a.0, a.1), Vector2D::new_from_coordinate(&c(b)));
    let is = |cx: &mut Cx, w: &str, v: &Vector2D, x: f64, y: f64| -> R {
        ensure!(cx, v.get_x() == x && v.get_y() == y && v.get_component(0) == x && v.get_component(1) == y, "{} of {} is {} but [{:?} {:?}]", w, n, show(v), x, y);
        Ok(())
    };
    is(cx, "vector", &va, a.0, a.1)?;
    is(cx, "vector", &vb, b.0, b.1)?;
    is(cx, "zero vector", &Vector2D::default(), 0.0, 0.0)?;
    is(cx, "copy", &Vector2D::create_from_vector_2d(&va), a.0, a.1)?;
    is(cx, "vector", &Vector2D::create_from_coodinate(&c(a)), a.0, a.1)?;
    is(cx, "copy", &Vector2D::new_from_vector_2d(&va), a.0, a.1)?;
    is(cx, "vector from to", &Vector2D::new_from_coordinate_from_to(&c(a), &c(b)), b.0 - a.0, b.1 - a.1)?;
    is(cx, "vector from to", &Vector2D::create_from_coordinate_from_to(&c(a), &c(b)), b.0 - a.0, b.1 - a.1)?;
    is(cx, "sum", &va.add(&vb), a.0 + b.0, a.1 + b.1)?;
    is(cx, "difference", &va.subtract(&vb), a.0 - b.0, a.1 - b.1)?;
    is(cx, "multiple", &va.multiply(d), a.0 * d, a.1 * d)?;
    is(cx, "negation", &va.negate(), -a.0, -a.1)?;
    let near = |g: &Vector2D, x: &[(f64, f64)], y: &[(f64, f64)]| close(g.get_x(), x) && close(g.get_y(), y);
    if d != 0.0 {
        let g = va.divide(d);
        ensure!(cx, Q::f(g.get_x()).mul(&Q::f(d)).sub(&Q::f(a.0)).abs().to_f64() <= 4.0 * U * a.0.abs() && Q::f(g.get_y()).mul(&Q::f(d)).sub(&Q::f(a.1)).abs().to_f64() <= 4.0 * U * a.1.abs(), "quotient of {} is {}", n, show(&g));
    }
    let g = va.average(&vb);
    ensure!(cx, between(g.get_x(), 0.5, a.0, b.0) && between(g.get_y(), 0.5, a.1, b.1), "average of {} is {}", n, show(&g));
    let f = cx.rng.pick(&[0.0, 1.0, 0.25, 0.5, 0.75, 0.3, 0.9, -0.5, -2.0, 1.5, 3.0, -0.1, 1.1]);
    let g = va.weighted_sum(&vb, f);
    ensure!(cx, between(g.get_x(), f, a.0, b.0) && between(g.get_y(), f, a.1, b.1), "sum of {} weighted {:?} is {}", n, f, show(&g));
    let t = va.translate(&c(b));
    ensure!(cx, t.x == a.0 + b.0 && t.y == a.1 + b.1, "{} translated is {}", n, f1(&t));
    let t = va.to_coordinate();
    ensure!(cx, t.x == a.0 && t.y == a.1, "coordinate of {} is {}", n, f1(&t));
    ensure!(cx, va.equals(&vb) == (a == b) && va.equals(&va), "equality of {} is {}", n, va.equals(&vb));
    // lengths
    let sq = |v: P| Dy::f(v.0).sqr().add(&Dy::f(v.1).sqr());
    ensure!(cx, root(va.length(), &sq(a)), "length of {:?} is {:?}", a, va.length());
    ensure!(cx, close(va.length_squared(), &[(a.0, a.0), (a.1, a.1)]), "squared length of {:?} is {:?}", a, va.length_squared());
    ensure!(cx, close(va.dot(&vb), &[(a.0, b.0), (a.1, b.1)]), "dot product of {} is {:?}", n, va.dot(&vb));
    let del = (b.0 - a.0, b.1 - a.1);
    ensure!(cx, root(va.distance(&vb), &sq(del)) && va.distance(&vb) == vb.distance(&va), "distance of {} is {:?}", n, va.distance(&vb));
    let g = va.normalize();
    if a == (0.0, 0.0) {
        cx.ev("zero vector");
        is(cx, "unit vector", &g, 0.0, 0.0)?;
    } else {
        let l = va.length();
        ensure!(cx, (g.get_x() * l - a.0).abs() <= 8.0 * U * l && (g.get_y() * l - a.1).abs() <= 8.0 * U * l && (g.length() - 1.0).abs() < 1e-15, "unit vector of {:?} is {}", a, show(&g));
    }
    // parallel
    let cross = Dy::f(a.0).mul(&Dy::f(b.1)).sub(&Dy::f(a.1).mul(&Dy::f(b.0)));
    let size = Dy::f(a.0).mul(&Dy::f(b.1)).abs().add(&Dy::f(a.1).mul(&Dy::f(b.0)).abs());
    if cross.is_zero() || size.mul(&Dy::pow2(-95)).lt(&cross.abs()) {
        let w = cross.is_zero();
        if w {
            cx.ev("parallel");
        } else if cross.abs().lt(&size.mul(&Dy::pow2(-45))) {
            cx.ev("a hair off parallel");
        }
        ensure!(cx, va.is_parallel(&vb) == w && vb.is_parallel(&va) == w, "parallel is {} for {} with cross product {:?}", va.is_parallel(&vb), n, cross.to_f64());
    }
    Ok(())
}

fn circ(x: f64) -> f64 {
    (x - (x / (2.0 * PI)).round() * 2.0 * PI).abs()
}

fn turning(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let a = st.pt(r);
    let b = second(r, &st, a);
    let k = r.int(-9, 9) as i32;
    let ang = match r.below(3) {
        0 => r.int(-8, 8) as f64 * (PI / 4.0),
        1 => r.range(-7.0, 7.0),
        _ => r.range(-1e-3, 1e-3),
    };
    if a == (0.0, 0.0) || b == (0.0, 0.0) {
        return Ok(());
    }
    cx.key(&[a.0, a.1, b.0, b.1, ang]);
    cx.nontrivial();
    let n = fmt_ps(&[a, b]);
    cx.desc(|| format!("{} {} quarters, angle {:?}", n, k, ang));
    let (va, vb) = (Vector2D::create_from_xy(a.0, a.1), Vector2D::create_from_xy(b.0, b.1));
    let t = 8e-15;
    ensure!(cx, (va.angle() - f64::atan2(a.1, a.0)).abs() <= 1e-15, "direction of {:?} is {:?}", a, va.angle());
    let (t1, t2) = (Dy::f(a.0).mul(&Dy::f(b.0)), Dy::f(a.1).mul(&Dy::f(b.1)));
    let dot = t1.add(&t2);
    let cross = Dy::f(a.0).mul(&Dy::f(b.1)).sub(&Dy::f(a.1).mul(&Dy::f(b.0)));
    let want = if dot.is_zero() && cross.is_zero() { 0.0 } else { f64::atan2(cross.to_f64(), dot.to_f64()) };
    if cross.is_zero() && dot.sign() < 0 {
        cx.ev("opposite");
    }
    let g = va.angle_to(&vb);
    ensure!(cx, g > -PI && g <= PI && circ(g - want) <= t, "angle from {:?} to {:?} is {:?} but {:?}", a, b, g, want);
    let g = va.angle_vector_2d(&vb);
    ensure!(cx, (0.0..=PI).contains(&g) && (g - want.abs()).abs() <= t && g == vb.angle_vector_2d(&va), "angle between {:?} and {:?} is {:?} but {:?}", a, b, g, want.abs());
    let g = va.rotate(ang);
    let l = va.length();
    let (x, y) = (a.0 * ang.cos() - a.1 * ang.sin(), a.0 * ang.sin() + a.1 * ang.cos());
    ensure!(cx, (g.get_x() - x).abs() <= 8.0 * U * l && (g.get_y() - y).abs() <= 8.0 * U * l, "{:?} rotated by {:?} is {} but [{:?} {:?}]", a, ang, show(&g), x, y);
    if k < 0 {
        cx.ev("negative quarter turns");
    }
    let w = [(a.0, a.1), (-a.1, a.0), (-a.0, -a.1), (a.1, -a.0)][k.rem_euclid(4) as usize];
    match va.rotate_by_quarter_circle(k) {
        Some(g) => {
            ensure!(cx, (g.get_x(), g.get_y()) == w, "{:?} rotated by {} quarter turns is {} but {:?}", a, k, show(&g), w);
        }
        None => {
            ensure!(cx, false, "{:?} rotated by {} quarter turns is nothing", a, k);
        }
    }
    Ok(())
}

fn space(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let mut v: Vec<[f64; 3]> = (0..4).map(|_| [st.ord(r), st.ord(r), st.ord(r)]).collect();
    match r.below(8) {
        0 => v[1] = v[0],
        1 => v[0] = [0.0; 3],
        2 => v[1] = [v[0][0], v[0][1], st.ord(r)],
        3 => v[1] = [v[0][1], -v[0][0], 0.0],
        4 => {
            // axes scaled apart
            let k = [0; 3].map(|_| 2f64.powi(r.int(-24, 24) as i32));
            for p in v.iter_mut() {
                for i in 0..3 {
                    p[i] *= k[i];
                }
            }
        }
        _ => {}
    }
    let d = r.pick(&[1.0, 2.0, -3.0, 0.5, 7.0]);
    for p in &v {
        cx.key(p);
    }
    cx.nontrivial();
    let n = format!("{:?}", v);
    cx.desc(|| n.clone());
    let co: Vec<Coordinate> = v.iter().map(|p| Coordinate::new_xyz(p[0], p[1], p[2])).collect();
    let va = Vector3D::new_from_xyz(v[0][0], v[0][1], v[0][2]);
    let vb = Vector3D::new_from_coordinate(&co[1]);
    let is = |cx: &mut Cx, w: &str, g: &Vector3D, e: [f64; 3]| -> R {
        ensure!(cx, [g.get_x(), g.get_y(), g.get_z()] == e, "{} of {} is [{:?} {:?} {:?}] but {:?}", w, n, g.get_x(), g.get_y(), g.get_z(), e);
        Ok(())
    };
    let m = |f: &dyn Fn(usize) -> f64| [f(0), f(1), f(2)];
    is(cx, "vector", &va, v[0])?;
    is(cx, "vector", &vb, v[1])?;
    is(cx, "vector", &Vector3D::create_from_coordinate(&co[2]), v[2])?;
    is(cx, "vector", &Vector3D::create_from_xyz(v[2][0], v[2][1], v[2][2]), v[2])?;
    is(cx, "vector from to", &Vector3D::new_from_to_coordinates(&co[0], &co[1]), m(&|i| v[1][i] - v[0][i]))?;
    is(cx, "sum", &va.add(&vb), m(&|i| v[0][i] + v[1][i]))?;
    is(cx, "difference", &va.subtract(&vb), m(&|i| v[0][i] - v[1][i]))?;
    let q = va.divide(d);
    for (i, g) in [q.get_x(), q.get_y(), q.get_z()].iter().enumerate() {
        ensure!(cx, err_d(*g * d, &Dy::f(v[0][i])) <= 4.0 * U * v[0][i].abs(), "quotient of {} by {:?} has component {:?}", n, d, g);
    }
    let dots = |a: [f64; 3], b: [f64; 3]| vec![(a[0], b[0]), (a[1], b[1]), (a[2], b[2])];
    let g = va.dot(&vb);
    ensure!(cx, close(g, &dots(v[0], v[1])), "dot product of {} is {:?}", n, g);
    let g = Vector3D::dot_2(&co[0], &co[1]);
    ensure!(cx, close(g, &dots(v[0], v[1])), "dot product of {} is {:?}", n, g);
    let g = Vector3D::dot_4(&co[0], &co[1], &co[2], &co[3]);
    ensure!(cx, close(g, &dots(m(&|i| v[1][i] - v[0][i]), m(&|i| v[3][i] - v[2][i]))), "dot product of the differences of {} is {:?}", n, g);
    let sq = Dy::f(v[0][0]).sqr().add(&Dy::f(v[0][1]).sqr()).add(&Dy::f(v[0][2]).sqr());
    ensure!(cx, root(va.length(), &sq) && root(Vector3D::length_of_coordinate(&co[0]), &sq), "length of {:?} is {:?} and {:?}", v[0], va.length(), Vector3D::length_of_coordinate(&co[0]));
    let u = va.normalize();
    if sq.is_zero() {
        cx.ev("zero vector in space");
        is(cx, "unit vector", &u, [0.0; 3])?;
    } else {
        let l = va.length();
        let uc = Vector3D::normalize_coordinate(&co[0]);
        for (i, (g, h)) in [(u.get_x(), uc.x), (u.get_y(), uc.y), (u.get_z(), uc.get_z())].iter().enumerate() {
            ensure!(cx, (g * l - v[0][i]).abs() <= 8.0 * U * l && (h * l - v[0][i]).abs() <= 8.0 * U * l, "unit vector of {:?} has components {:?} and {:?}", v[0], g, h);
        }
    }
    ensure!(cx, va.equals(&vb) == (v[0] == v[1]) && va.equals(&va), "equality of {} is {}", n, va.equals(&vb));
    Ok(())
}

/// small integers times a power of two: every exact result is that of the integers, scaled
fn extreme(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let e = r.pick(&[-450, -400, -333, -90, 90, 333, 400, 450]);
    let k = r.pick(&[2, 9, 1000]);
    let mut v = || -> [f64; 3] { [0; 3].map(|_| r.int(-k, k) as f64) };
    let (a, b) = (v(), v());
    let s = |x: [f64; 3]| x.map(|t| ldexp(t, e));
    let (sa, sb) = (s(a), s(b));
    cx.key(&[a[0], a[1], a[2], b[0], b[1], b[2], e as f64]);
    cx.nontrivial();
    let n = format!("{:?} and {:?} times 2^{}", a, b, e);
    cx.desc(|| n.clone());
    cx.ev(if e < 0 { "tiny" } else { "huge" });
    let rel = |g: f64, w: f64| (g - w).abs() <= 8.0 * U * w.abs();
    // in the plane
    let (va, vb) = (Vector2D::new_from_xy(sa[0], sa[1]), Vector2D::new_from_xy(sb[0], sb[1]));
    let l = (a[0] * a[0] + a[1] * a[1]).sqrt();
    ensure!(cx, rel(va.length(), ldexp(l, e)), "length of {} is {:?}", n, va.length());
    let d = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt();
    ensure!(cx, rel(va.distance(&vb), ldexp(d, e)), "distance of {} is {:?}", n, va.distance(&vb));
    let dot = a[0] * b[0] + a[1] * b[1];
    ensure!(cx, rel(va.dot(&vb), ldexp(dot, 2 * e)), "dot product of {} is {:?}", n, va.dot(&vb));
    let u = va.normalize();
    let w = if l == 0.0 { (0.0, 0.0) } else { (a[0] / l, a[1] / l) };
    ensure!(cx, rel(u.get_x(), w.0) && rel(u.get_y(), w.1), "unit vector of {} is {}", n, show(&u));
    let par = a[0] * b[1] == a[1] * b[0];
    ensure!(cx, va.is_parallel(&vb) == par, "{} are parallel: {}", n, va.is_parallel(&vb));
    ensure!(cx, (va.angle() - a[1].atan2(a[0])).abs() <= 1e-15 * 8.0, "angle of {} is {:?}", n, va.angle());
    // in space
    let (va, vb) = (Vector3D::new_from_xyz(sa[0], sa[1], sa[2]), Vector3D::new_from_xyz(sb[0], sb[1], sb[2]));
    let l = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    let co = Coordinate::new_xyz(sa[0], sa[1], sa[2]);
    ensure!(cx, rel(va.length(), ldexp(l, e)) && rel(Vector3D::length_of_coordinate(&co), ldexp(l, e)), "length in space of {} is {:?} and {:?}", n, va.length(), Vector3D::length_of_coordinate(&co));
    let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    ensure!(cx, rel(va.dot(&vb), ldexp(dot, 2 * e)), "dot product in space of {} is {:?}", n, va.dot(&vb));
    let u = va.normalize();
    let w = if l == 0.0 { [0.0; 3] } else { a.map(|t| t / l) };
    ensure!(cx, rel(u.get_x(), w[0]) && rel(u.get_y(), w[1]) && rel(u.get_z(), w[2]), "unit vector in space of {} is [{:?} {:?} {:?}]", n, u.get_x(), u.get_y(), u.get_z());
    if l > 0.0 {
        let u = Vector3D::normalize_coordinate(&co);
        ensure!(cx, rel(u.x, w[0]) && rel(u.y, w[1]) && rel(u.get_z(), w[2]), "unit vector in space of {} is {}", n, f1(&u));
    }
    Ok(())
}
