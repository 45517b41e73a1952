//! Precision models.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::precision_model::{PrecisionModel, PrecisionModelType};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        quick: 4_000_000,
        families: vec![
            Family { name: "rounding to a scale", weight: 4, run: scale },
            Family { name: "rounding to a grid size", weight: 3, run: grid },
            Family { name: "floating models", weight: 2, run: floating },
            Family { name: "models compared", weight: 2, run: compared },
        ],
        rule: "Scales 1, powers of ten and two, odd decimals, and explicit grid sizes; numbers on the grid, half-way between grid points, one unit in the last place off either, negative, large, tiny, NaN. Oracle: exact nearest grid point, half-way cases towards positive infinity.",
        assumptions: &["scales between 1e-15 and 1e15 in magnitude", "numbers below 2^50 grid steps"],
        need: &[("half-way", 20000), ("half-way below zero", 20000), ("on the grid", 20000), ("a hair off half-way", 20000), ("NaN", 5000), ("single precision changes the number", 20000), ("equal models", 20000)],
    }
}

/// the number of steps the exact value `t` rounds to, or None if rounding errors of
/// the one floating-point product (or quotient) may decide
fn steps(t: &Q) -> Option<i64> {
    let f = t.to_f64();
    let half = t.add(&Q::f(0.5));
    let (n, d) = (&half.n, &half.d);
    // floor of the quotient: estimate, then correct exactly
    let mut k = half.to_f64().floor() as i64;
    for _ in 0..4 {
        if n.lt(&Dy::int(k).mul(d)) {
            k -= 1;
        } else if !n.lt(&Dy::int(k + 1).mul(d)) {
            k += 1;
        } else {
            break;
        }
    }
    let up = Q::dy(Dy::int(k)).sub(&half).abs().to_f64();
    let dn = Q::dy(Dy::int(k + 1)).sub(&half).abs().to_f64();
    // (adding one half to the product may round once more)
    if up.min(dn) <= 2.0 * ulp(f.abs().max(1.0)) && !(up == 0.0) {
        return None;
    }
    Some(k)
}
fn number(r: &mut Rng, step: f64) -> f64 {
    let big = r.chance(1, 6);
    let n = if big { r.int(-(1 << 48), 1 << 48) } else { r.int(-2000, 2000) } as f64;
    match r.below(7) {
        0 => n * step,
        1 | 2 => (n + 0.5) * step,
        3 => nudge((n + 0.5) * step, if r.bool() { r.int(-2, 2) } else { r.int(-12, 12) }),
        4 => nudge(n * step, r.int(-2, 2)),
        5 => r.range(-3.0, 3.0) * step,
        _ => (n + r.unit()) * step,
    }
}
fn events(cx: &mut Cx, t: &Q) {
    let f = t.to_f64();
    let h = Q::f(f.floor() + 0.5);
    if t.sub(&Q::f(f.round())).sign() == 0 {
        cx.ev("on the grid");
    } else if t.sub(&h).sign() == 0 {
        cx.ev("half-way");
        if t.sign() < 0 {
            cx.ev("half-way below zero");
        }
    } else if t.sub(&h).abs().to_f64() <= 4.0 * ulp(f) {
        cx.ev("a hair off half-way");
    }
}
/// observe one rounding: `t` exact steps, `back` from steps to numbers
fn check(cx: &mut Cx, pm: &mut PrecisionModel, what: &str, v: f64, t: &Q, back: &dyn Fn(f64) -> f64) -> R {
    events(cx, t);
    let g = pm.make_precise(v);
    if let Some(k) = steps(t) {
        let w = back(k as f64);
        ensure!(cx, (g - w).abs() <= ulp(w), "{:?} at {} is {:?} but {:?}, {} steps", v, what, g, w, k);
    } else {
        let (a, b) = (back(t.to_f64().floor()), back(t.to_f64().floor() + 1.0));
        let (a, b) = if (t.to_f64() - t.to_f64().round()).abs() < 0.25 { (back(t.to_f64().round() - 1.0), back(t.to_f64().round() + 1.0)) } else { (a, b) };
        ensure!(cx, g >= a.min(b) && g <= a.max(b), "{:?} at {} is {:?}, not within [{:?} {:?}]", v, what, g, a, b);
    }
    // precise numbers stay as they are, and order is kept
    let h = pm.make_precise(g);
    ensure!(cx, h == g, "{:?} at {} is {:?}, which itself becomes {:?}", v, what, g, h);
    let n = nudge(v, cx.rng.int(0, 3));
    let h = pm.make_precise(n);
    ensure!(cx, if n >= v { h >= g } else { h <= g }, "at {} {:?} becomes {:?} but {:?} becomes {:?}", what, v, g, n, h);
    // a coordinate: x and y, and nothing else
    let mut c = Coordinate::new_xyz(v, n, v);
    pm.make_precise_coordinate(&mut c);
    ensure!(cx, c.x == g && c.y == h && c.get_z() == v, "coordinate ({:?} {:?} {:?}) at {} is ({:?} {:?} {:?})", v, n, v, what, c.x, c.y, c.get_z());
    if cx.rng.chance(1, 50) {
        cx.ev("NaN");
        ensure!(cx, pm.make_precise(f64::NAN).is_nan(), "NaN at {} is {:?}", what, pm.make_precise(f64::NAN));
    }
    Ok(())
}
fn a_scale(r: &mut Rng) -> f64 {
    match r.below(7) {
        6 => r.pick(&[1e11, 1e12, 1e14, 1e15, 1e-10, 1e-12, 1e-15, 1e10 / 3.0]),
        0 => 1.0,
        1 => r.pick(&[10.0, 100.0, 1000.0, 1e6, 1e9, 0.1, 0.01, 0.001]),
        2 => ldexp(1.0, r.int(-20, 20)),
        3 => r.int(1, 20) as f64,
        4 => r.range(0.01, 500.0),
        _ => r.pick(&[2.5, 0.5, 0.25, 3.0, 1.25]),
    }
}

fn scale(cx: &mut Cx) -> R {
    let s = a_scale(&mut cx.rng);
    let v = number(&mut cx.rng, 1.0 / s);
    cx.key(&[s, v]);
    cx.nontrivial();
    cx.desc(|| format!("{:?} at scale {:?}", v, s));
    let mut pm = if s == 1.0 && cx.rng.bool() { PrecisionModel::new_with_type(PrecisionModelType::Fixed) } else { PrecisionModel::new_with_scale(s) };
    if cx.rng.chance(1, 4) {
        pm = PrecisionModel::new_with_scale(cx.rng.pick(&[1.0, -1.0, 1000.0, -8.0]));
        pm.set_scale(s);
        cx.ev("scale changed");
    }
    if cx.rng.bool() {
        pm = PrecisionModel::from_precision_model(pm);
    }
    ensure!(cx, pm.get_scale() == s && pm.grid_size() == 1.0 / s && !pm.is_floating() && pm.get_type() == PrecisionModelType::Fixed, "scale {:?} gives scale {:?} and grid size {:?}", s, pm.get_scale(), pm.grid_size());
    let t = Q::f(v).mul(&Q::f(s));
    check(cx, &mut pm, &format!("scale {:?}", s), v, &t, &|k| k / s)
}

fn grid(cx: &mut Cx) -> R {
    let s = a_scale(&mut cx.rng);
    let v = number(&mut cx.rng, s);
    cx.key(&[s, v]);
    cx.nontrivial();
    cx.desc(|| format!("{:?} on grid size {:?}", v, s));
    let mut pm = PrecisionModel::new_with_scale(-s);
    if cx.rng.chance(1, 4) {
        pm = PrecisionModel::new_with_scale(cx.rng.pick(&[1.0, -1.0, 1000.0, -8.0]));
        pm.set_scale(-s);
        cx.ev("scale changed");
    }
    if cx.rng.bool() {
        pm = PrecisionModel::from_precision_model(pm);
    }
    ensure!(cx, pm.get_scale() == 1.0 / s && pm.grid_size() == s && !pm.is_floating(), "grid size {:?} gives scale {:?} and grid size {:?}", s, pm.get_scale(), pm.grid_size());
    let t = Q::f(v).div(&Q::f(s));
    check(cx, &mut pm, &format!("grid size {:?}", s), v, &t, &|k| k * s)
}

fn floating(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let v = match r.below(4) {
        0 => r.int(-1000, 1000) as f64,
        1 => nudge(ldexp(1.0 + (2 * r.below(1 << 22) + 1) as f64 / 16777216.0, r.int(-20, 20)), r.int(-1, 1)),
        2 => r.range(-1e6, 1e6),
        _ => ldexp(r.range(-1.0, 1.0), r.int(-100, 100)),
    };
    cx.key(&[v]);
    cx.nontrivial();
    cx.desc(|| format!("{:?}", v));
    let mut pm = if cx.rng.bool() { PrecisionModel::default() } else { PrecisionModel::new_with_type(PrecisionModelType::Floating) };
    ensure!(cx, pm.is_floating() && pm.make_precise(v) == v && pm.grid_size().is_nan(), "{:?} in a floating model is {:?}", v, pm.make_precise(v));
    let mut c = Coordinate::new_xyz(v, -v, v);
    pm.make_precise_coordinate(&mut c);
    ensure!(cx, c.x == v && c.y == -v && c.get_z() == v, "a coordinate of {:?} in a floating model is {}", v, f1(&c));
    let mut pm = PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle);
    let g = pm.make_precise(v);
    if g != v {
        cx.ev("single precision changes the number");
    }
    // a 24-bit number, and none nearer
    let h = ldexp(1.0, ulp(v).log2() as i64 + 29);
    ensure!(cx, pm.is_floating() && g as f32 as f64 == g && err_d(g, &Dy::f(v)) <= 0.5 * h, "{:?} in single precision is {:?}", v, g);
    ensure!(cx, g == v as f32 as f64 && pm.make_precise(g) == g, "{:?} in single precision is {:?}", v, g);
    let mut c = Coordinate::new_xyz(v, -v, v);
    pm.make_precise_coordinate(&mut c);
    ensure!(cx, c.x == g && c.y == -g && c.get_z() == v, "a coordinate of {:?} in single precision is {}", v, f1(&c));
    if cx.rng.chance(1, 20) {
        cx.ev("NaN");
        ensure!(cx, pm.make_precise(f64::NAN).is_nan(), "NaN in single precision is {:?}", pm.make_precise(f64::NAN));
    }
    Ok(())
}

fn compared(cx: &mut Cx) -> R {
    let mut one = |r: &mut Rng| -> (PrecisionModel, String, i32, f64) {
        match r.below(6) {
            0 => (PrecisionModel::default(), "floating".into(), 0, 16.0),
            1 => (PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), "single".into(), 1, 6.0),
            2 => {
                let s = r.pick(&[1.0, 10.0, 100.0]);
                (PrecisionModel::new_with_scale(-s), format!("grid {:?}", s), 2, 1.0 / s)
            }
            _ => {
                let s = if r.bool() { r.pick(&[1.0, 10.0, 100.0, 1000.0, 0.1]) } else { a_scale(r) };
                (PrecisionModel::new_with_scale(s), format!("scale {:?}", s), 3, s)
            }
        }
    };
    let r = &mut cx.rng;
    let (a, an, ak, asc) = one(r);
    let (b, bn, bk, bsc) = one(r);
    cx.key(&[asc, bsc]);
    cx.key_u((ak * 4 + bk) as u64);
    cx.nontrivial();
    cx.desc(|| format!("{} and {}", an, bn));
    let digits = |k: i32, s: f64| -> (i32, i32) {
        if k < 2 {
            return (s as i32, s as i32);
        }
        // one more than the decimal places, rounded up (a power of ten may round up)
        let l = s.log10();
        (1 + (l - 1e-9).ceil() as i32, 1 + (l + 1e-9).ceil() as i32)
    };
    let (da, db) = (digits(ak, asc), digits(bk, bsc));
    let (ga, gb) = (a.get_maximum_significant_digits(), b.get_maximum_significant_digits());
    ensure!(cx, ga == da.0 || ga == da.1, "model {} has {} significant digits", an, ga);
    // no such doubt about whole powers of ten from one up
    if ak == 3 && [1.0, 10.0, 100.0, 1000.0, 1e6, 1e9].contains(&asc) {
        ensure!(cx, ga == 1 + asc.log10().round() as i32, "model {} has {} significant digits", an, ga);
        cx.ev("digits of a power of ten");
    }
    let w = if ga < gb { -1 } else if ga > gb { 1 } else { 0 };
    ensure!(cx, a.compare_to(&b).signum() == w && b.compare_to(&a).signum() == -w, "comparing models {} and {} of {} and {} digits gives {}", an, bn, ga, gb, a.compare_to(&b));
    if ak == bk && asc > 10.0 * bsc && ak >= 2 {
        ensure!(cx, a.compare_to(&b) > 0, "model {} is not finer than {} (db {:?})", an, bn, db);
    }
    let same = if ak < 2 || bk < 2 { ak == bk } else { asc == bsc };
    if same {
        cx.ev("equal models");
    }
    ensure!(cx, a.equals(b) == same && b.equals(a) == same, "models {} and {} equal is {}", an, bn, a.equals(b));
    Ok(())
}
