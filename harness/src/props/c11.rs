//! Angles.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::angle::Angle;
use std::f64::consts::PI;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        quick: 3_000_000,
        families: vec![
            Family { name: "angle at a vertex", weight: 4, run: vertex },
            Family { name: "normal forms and differences", weight: 3, run: numbers },
            Family { name: "sine, cosine, projection, conversion", weight: 2, run: trig },
        ],
        rule: "Pairs of vectors on grids, lattices and doubles: general, parallel, opposite, perpendicular, almost so, along the axes; angle values around every multiple of a quarter turn up to forty turns either way, a few units in the last place off, tiny and negative-tiny. Oracle: arc tangent of the exact cross and dot product; congruence modulo a full turn and the documented range.",
        assumptions: &["angle values of at most forty turns", "vectors of non-zero length", "angles compared within 8e-15"],
        need: &[("acute", 20000), ("obtuse", 20000), ("right angle", 20000), ("straight", 20000), ("turns left", 20000), ("turns right", 20000), ("already normal", 20000), ("negative zero side", 5000), ("snapped to zero", 5000)],
    }
}

const T2: f64 = 2.0 * PI;
const TOL: f64 = 8e-15;
const U: f64 = 1.1102230246251565e-16;

/// distance of x from a multiple of a full turn
fn circ(x: f64) -> f64 {
    let k = (x / T2).round();
    (x - k * T2).abs()
}

fn vertex(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let t = st.pt(r);
    let p = st.pt(r);
    let v = (p.0 - t.0, p.1 - t.1);
    let q = match r.below(7) {
        0 => (t.0 - v.1, t.1 + v.0),
        1 => (t.0 + v.1, t.1 - v.0),
        2 => (t.0 - v.0, t.1 - v.1),
        3 => (t.0 + 2.0 * v.0, t.1 + 2.0 * v.1),
        4 => {
            let k = r.pick(&[-1.0, 1.0]);
            (nudge(t.0 + k * v.0, r.int(-2, 2)), nudge(t.1 + k * v.1, r.int(-2, 2)))
        }
        _ => st.pt(r),
    };
    let (p, q) = match r.below(8) {
        0 => ((p.0, t.1), q),
        1 => ((t.0, p.1), q),
        2 => (p, (q.0, t.1)),
        3 => (p, (t.0, q.1)),
        _ => (p, q),
    };
    if p == t || q == t {
        return Ok(());
    }
    cx.nontrivial();
    cx.key(&[p.0, p.1, t.0, t.1, q.0, q.1]);
    let n = fmt_ps(&[p, t, q]);
    cx.desc(|| n.clone());
    let d = |a: f64, b: f64| Dy::f(a).sub(&Dy::f(b));
    let (ax, ay, bx, by) = (d(p.0, t.0), d(p.1, t.1), d(q.0, t.0), d(q.1, t.1));
    let (t1, t2) = (ax.mul(&bx), ay.mul(&by));
    let dot = t1.add(&t2);
    let cross = ax.mul(&by).sub(&ay.mul(&bx));
    // one common scale, so that neither vanishes in the conversion
    let want = if dot.is_zero() && cross.is_zero() { 0.0 } else { f64::atan2(cross.to_f64(), dot.to_f64()) };
    let (pc, tc, qc) = (c(p), c(t), c(q));
    // sharpness
    let all = [p, t, q];
    let small = max_abs(&all) <= 1e5 && all.iter().all(|p| p.0 == p.0.trunc() && p.1 == p.1.trunc());
    if small || dot.abs().to_f64() > 16.0 * U * (t1.abs().to_f64() + t2.abs().to_f64()) {
        let s = dot.sign();
        cx.ev(["obtuse", "right angle", "acute"][(s + 1) as usize]);
        let (a, o) = (Angle::is_acute(&pc, &tc, &qc), Angle::is_obtuse(&pc, &tc, &qc));
        ensure!(cx, a == (s > 0) && o == (s < 0), "angle {} has dot product {:?} but acute is {} and obtuse {}", n, dot.to_f64(), a, o);
    }
    if cross.is_zero() && dot.sign() < 0 {
        cx.ev("straight");
    }
    if want > TOL && want < PI - TOL {
        cx.ev("turns left");
    } else if want < -TOL && want > TOL - PI {
        cx.ev("turns right");
    }
    // direction
    let a0 = f64::atan2(ay.to_f64(), ax.to_f64());
    let a1 = f64::atan2(by.to_f64(), bx.to_f64());
    let g = Angle::angle_coordinates(&tc, &pc);
    ensure!(cx, g.abs() <= PI && ((g - a0).abs() <= 1e-15 || t.1 == p.1 && g.abs() == a0.abs()), "direction {} of {} but {:?}", g, n, a0);
    let g = Angle::angle_coordinate(&pc);
    ensure!(cx, g.abs() <= PI && (g - f64::atan2(p.1, p.0)).abs() <= 1e-15, "direction {} of the point {:?}", g, p);
    // between
    let g = Angle::angle_between(&pc, &tc, &qc);
    ensure!(cx, (0.0..=PI).contains(&g) && (g - want.abs()).abs() <= TOL, "angle between {} is {:?} but exactly {:?}", n, g, want.abs());
    let h = Angle::angle_between(&qc, &tc, &pc);
    ensure!(cx, g == h, "angle between {} is {:?} one way and {:?} the other", n, g, h);
    let g = Angle::angle_between_oriented(&pc, &tc, &qc);
    ensure!(cx, g > -PI && g <= PI && circ(g - want) <= TOL, "oriented angle {} is {:?} but exactly {:?}", n, g, want);
    let g = Angle::interior_angle(&pc, &tc, &qc);
    ensure!(cx, g >= 0.0 && g < T2 && circ(g - want) <= TOL, "interior angle {} is {:?} but exactly {:?} up to a turn", n, g, want);
    let g = Angle::bisector(&pc, &tc, &qc);
    let b = a0 + want / 2.0;
    let straight = want.abs() > PI - TOL;
    ensure!(cx, g > -PI && g <= PI && (circ(g - b) <= TOL || straight && circ(g - b + PI) <= TOL), "bisector of {} is {:?} but {:?} up to a turn", n, g, b);
    // turn from one direction to the other
    if want.abs() > TOL && want.abs() < PI - TOL {
        let g = Angle::get_turn(a0, a1);
        let w = if want > 0.0 { Angle::COUNTERCLOCKWISE } else { Angle::CLOCKWISE };
        ensure!(cx, g == w, "turn of {} is {} but the oriented angle is {:?}", n, g, want);
    }
    Ok(())
}

fn angle(r: &mut Rng, turns: i64) -> f64 {
    match r.below(7) {
        6 if turns >= 10 => r.int(-500, 500) as f64 * 0.5,
        6 => r.int(-720, 720) as f64 * r.pick(&[0.5, 0.25, 1.0, 5.0]) / 4.0,
        0 => nudge(r.int(-4 * turns, 4 * turns) as f64 * (PI / 2.0), r.int(-3, 3)),
        1 => r.int(-2 * turns, 2 * turns) as f64 * PI,
        2 => r.pick(&[0.0, -0.0, 1e-20, -1e-20, 1e-300, -1e-300, -1e-16, 1e-16, PI, -PI, T2, -T2]),
        3 => r.range(-PI, PI),
        4 => r.range(0.0, T2),
        _ => r.range(-T2, T2) * turns as f64,
    }
}

fn numbers(cx: &mut Cx) -> R {
    let a = angle(&mut cx.rng, 40);
    cx.key(&[a]);
    cx.nontrivial();
    cx.desc(|| format!("angle {:?}", a));
    let turns = (a.abs() / T2).ceil() + 1.0;
    let tol = turns * (ulp(a) + ulp(T2)) + TOL;
    let g = Angle::normalize(a);
    ensure!(cx, g > -PI && g <= PI && circ(g - a) <= tol, "normalize({:?}) = {:?}", a, g);
    if a > -PI && a <= PI {
        cx.ev("already normal");
        ensure!(cx, g == a, "normalize({:?}) = {:?} though in range", a, g);
    }
    let g = Angle::normalize_positive(a);
    ensure!(cx, g >= 0.0 && g < T2 && circ(g - a) <= tol, "normalize_positive({:?}) = {:?}", a, g);
    if a >= 0.0 && a < T2 {
        ensure!(cx, g == a, "normalize_positive({:?}) = {:?} though in range", a, g);
    }
    if a < 0.0 && a > -1e-15 {
        cx.ev("negative zero side");
    }
    // differences of normalized angles
    let r = &mut cx.rng;
    let (x, y) = (r.range(-PI, PI), r.range(-PI, PI));
    let pk = |r: &mut Rng, v: f64| match r.below(4) {
        0 => r.int(-4, 4) as f64 * (PI / 4.0),
        1 => r.pick(&[PI, -PI, 0.0, -0.0, 0.5, 1.0, -2.5, 3.0, -1.5]),
        _ => v,
    };
    let (x, y) = (pk(r, x), pk(r, y));
    cx.key(&[x, y]);
    let (g, h) = (Angle::diff(x, y), Angle::diff(y, x));
    ensure!(cx, g == h && (0.0..=PI).contains(&g) && (g - circ(x - y)).abs() <= TOL, "diff of {:?} and {:?} is {:?} one way, {:?} the other", x, y, g, h);
    // the turn between angles of several turns
    let r = &mut cx.rng;
    let m = r.pick(&[1, 3, 40, 100000]);
    let (kx, ky) = (r.int(-m, m), r.int(-m, m));
    let (bx, by) = (x + kx as f64 * T2, y + ky as f64 * T2);
    let slack = TOL + 4e-16 * (bx.abs() + by.abs());
    let w = circ(x - y);
    if w > slack && w < PI - slack {
        let g = Angle::get_turn(bx, by);
        let up = f64::sin(y - x) > 0.0;
        ensure!(cx, g == if up { 1 } else { -1 }, "turn from {:?} to {:?} is {}", bx, by, g);
        cx.ev("turn over several turns");
    }
    let dl = y - x;
    let w = if dl > PI { dl - T2 } else if dl < -PI { dl + T2 } else { dl };
    let g = Angle::get_turn(x, y);
    if w == 0.0 && x == y {
        ensure!(cx, g == Angle::NONE, "turn from {:?} to itself is {}", x, g);
    } else if w.abs() > TOL && w.abs() < PI - TOL {
        ensure!(cx, g == if w > 0.0 { 1 } else { -1 }, "turn from {:?} to {:?} is {}", x, y, g);
    }
    Ok(())
}

fn trig(cx: &mut Cx) -> R {
    let mut a = angle(&mut cx.rng, 3);
    let r = &mut cx.rng;
    if r.chance(1, 8) {
        // many turns, and degrees
        let s = r.pick(&[100.0, 1e4, 1e8, 1e15]);
        a = r.range(-s, s);
        if r.bool() {
            a = a.round();
        }
    }
    let st = Style::any(r);
    let p = if r.chance(1, 8) { (0.0, 0.0) } else { st.pt(r) };
    let l = r.pick(&[0.0, 1.0, 2.5, -3.0, 1000.0, 1e12, -1e-9, 1e-15]);
    cx.key(&[a, p.0, p.1, l]);
    cx.nontrivial();
    cx.desc(|| format!("angle {:?} point {:?} distance {:?}", a, p, l));
    for (w, g, e) in [("sin", Angle::sin_snap(a), a.sin()), ("cos", Angle::cos_snap(a), a.cos())] {
        if e.abs() < 4.9e-16 {
            cx.ev("snapped to zero");
            ensure!(cx, g == 0.0, "snapped {} of {:?} is {:?}, not zero", w, a, g);
        } else if e.abs() > 5.1e-16 {
            ensure!(cx, (g - e).abs() <= 2.0 * ulp(e), "snapped {} of {:?} is {:?} but {:?}", w, a, g, e);
        }
    }
    ensure!(cx, Angle::PI_TIMES_2 == T2 && Angle::PI_OVER_2 == PI / 2.0 && Angle::PI_OVER_4 == PI / 4.0, "the constant fractions of a turn are {:?} {:?} {:?}", Angle::PI_TIMES_2, Angle::PI_OVER_2, Angle::PI_OVER_4);
    let g = Angle::project(&c(p), a, l);
    let (x, y) = (p.0 + l * a.cos(), p.1 + l * a.sin());
    let t = 4.0 * U * (max_abs(&[p]) + l.abs()) + l.abs() * 6e-16;
    ensure!(cx, (g.x - x).abs() <= t && (g.y - y).abs() <= t, "projecting {:?} by {:?} at angle {:?} gives {} but ({:?} {:?})", p, l, a, f1(&g), x, y);
    if a != 0.0 && a.abs() < 1e-290 {
        return Ok(());
    }
    let (d, b) = (Angle::to_degrees(a), Angle::to_radians(a));
    ensure!(cx, (d - a / PI * 180.0).abs() <= 4.0 * ulp(d), "{:?} radians are {:?} degrees", a, d);
    ensure!(cx, (b - a / 180.0 * PI).abs() <= 4.0 * ulp(b), "{:?} degrees are {:?} radians", a, b);
    let (g, h) = (Angle::to_radians(d), Angle::to_degrees(b));
    ensure!(cx, (g - a).abs() <= 8.0 * ulp(a) && (h - a).abs() <= 8.0 * ulp(a), "{:?} is {:?} and {:?} after conversion there and back", a, g, h);
    Ok(())
}
