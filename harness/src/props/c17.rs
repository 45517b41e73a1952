//! Extended-precision (double-double) arithmetic.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::math::dd::DD;
use std::cmp::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        quick: 1_500_000,
        families: vec![
            Family { name: "arithmetic of two numbers", weight: 4, run: binary },
            Family { name: "one number", weight: 4, run: unary },
            Family { name: "order", weight: 2, run: order },
            Family { name: "accumulated in place", weight: 2, run: history },
            Family { name: "decimal magnitude", weight: 1, run: magnitude },
        ],
        rule: "Normalized pairs of doubles with exponents within +-200: integers, plain doubles, full 106-bit values, values with a gap between the parts, a hair above or below integers and halves, almost cancelling pairs, NaN. Oracle: exact big-integer rationals.",
        assumptions: &["normalized pairs with exponents within +-200 (or zero, or NaN)", "non-zero divisors", "powers of at most 50000 whose result stays in range"],
        need: &[("almost cancelling", 20000), ("just below an integer", 5000), ("half-way", 2000), ("NaN operand", 5000), ("negative power", 5000), ("equal numbers", 5000), ("differ in the low part only", 20000), ("below one", 2000), ("at a power of ten", 2000)],
    }
}

#[derive(Clone, Copy)]
struct N {
    hi: f64,
    lo: f64,
}
impl N {
    fn dd(&self) -> DD {
        DD::new_hi_lo(self.hi, self.lo)
    }
    fn ex(&self) -> Dy {
        Dy::f(self.hi).add(&Dy::f(self.lo))
    }
}
fn norm(hi: f64, lo: f64) -> N {
    let s = hi + lo;
    let l = Dy::f(hi).add(&Dy::f(lo)).sub(&Dy::f(s)).to_f64();
    N { hi: s, lo: l }
}
/// what the number holds
fn parts(d: &DD) -> N {
    let s = d.dump();
    let s = s.trim_start_matches("DD<").trim_end_matches('>');
    let mut it = s.split(", ");
    let mut g = || it.next().and_then(|t| t.trim().parse::<f64>().ok()).expect("HARNESS dump");
    let hi = g();
    N { hi, lo: g() }
}
fn double(r: &mut Rng) -> f64 {
    let s = if r.bool() { 1.0 } else { -1.0 };
    s * match r.below(8) {
        0 if r.chance(1, 4) => 0.0,
        0 => r.below(50) as f64,
        1 => (r.below(2000) as f64) / 2.0,
        2 => ldexp(1.0 + r.below(1 << 20) as f64, r.int(-60, 60)),
        3 => ldexp(1.0, r.int(-100, 100)),
        4 | 5 => ldexp(1.0 + r.unit(), r.int(-4, 4)),
        6 => ldexp(1.0 + r.unit(), r.int(-200, 200)),
        _ => ldexp(1.0 + r.unit(), 52) .floor(),
    }
}
fn num(r: &mut Rng) -> N {
    let hi = double(r);
    if hi == 0.0 {
        return N { hi: 0.0, lo: 0.0 };
    }
    let e = hi.abs().log2().floor() as i64;
    let s = if r.bool() { 1.0 } else { -1.0 };
    let lo = s * match r.below(6) {
        0 => 0.0,
        1 => ldexp(1.0 + r.unit(), e - 54),
        2 => ldexp(1.0 + r.unit(), e - 54 - r.below(60) as i64),
        3 => ldexp(1.0, e - 54 - r.below(40) as i64),
        4 => 0.25 * (r.below(8) as f64),
        _ => ldexp(1.0 + r.unit(), e - 54),
    };
    if lo.abs() >= hi.abs() {
        return N { hi, lo: 0.0 };
    }
    norm(hi, lo)
}
/// Is `d` within rel * 2^-100 of the exact value, and normalized?
fn near(cx: &mut Cx, what: &str, d: &DD, want: &Q, mul: i64, args: &str) -> R {
    let g = parts(d);
    ensure!(cx, g.hi.is_finite() && g.lo.is_finite(), "{} of {} is <{:?} {:?}>", what, args, g.hi, g.lo);
    let err = Q::dy(g.ex()).sub(want).abs();
    let lim = want.abs().mul(&Q::dy(Dy::int(mul).mul(&Dy::pow2(-100))));
    ensure!(cx, err.le(&lim), "{} of {} is <{:?} {:?}>, off by {:.3e} relative", what, args, g.hi, g.lo, err.to_f64() / want.abs().to_f64().max(1e-300));
    ensure!(cx, g.hi == g.hi + g.lo && d.double_value() == g.hi, "{} of {} is <{:?} {:?}>, whose double value is {:?}", what, args, g.hi, g.lo, d.double_value());
    Ok(())
}
fn same(cx: &mut Cx, what: &str, d: &DD, n: &N) -> R {
    let g = parts(d);
    ensure!(cx, g.hi == n.hi && g.lo == n.lo, "{} changed its operand from <{:?} {:?}> to <{:?} {:?}>", what, n.hi, n.lo, g.hi, g.lo);
    Ok(())
}
fn related(r: &mut Rng, a: &N) -> (N, bool) {
    match r.below(6) {
        0 => (N { hi: -a.hi, lo: -a.lo }, true),
        1 => {
            // cancels the leading part
            let lo = if a.lo != 0.0 { a.lo * r.range(-1.0, 1.0) } else { a.hi * ldexp(r.unit(), -55) };
            (norm(-a.hi, lo), true)
        }
        2 => (norm(a.hi * (1.0 + ldexp(1.0, -r.int(1, 52))) * if r.bool() { -1.0 } else { 1.0 }, a.lo), true),
        _ => (num(r), false),
    }
}

fn binary(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let a = num(r);
    let (b, close) = related(r, &a);
    let y = if r.chance(1, 4) { -a.hi } else { double(r) };
    let nan = r.chance(1, 40);
    cx.key(&[a.hi, a.lo, b.hi, b.lo, y]);
    cx.nontrivial();
    let s = format!("<{:?} {:?}> and <{:?} {:?}>", a.hi, a.lo, b.hi, b.lo);
    let t = format!("<{:?} {:?}> and {:?}", a.hi, a.lo, y);
    cx.desc(|| format!("{} / {:?}", s, y));
    if close {
        cx.ev("almost cancelling");
    }
    let (da, db) = (a.dd(), b.dd());
    if nan {
        cx.ev("NaN operand");
        let q = DD::create_nan();
        let l: Vec<(&str, DD)> = vec![
            ("sum", da.add_dd(&q)), ("sum", q.add_dd(&da)), ("sum", da.add_f64(f64::NAN)), ("sum", q.add_f64(y)),
            ("difference", da.subtract_dd(&q)), ("difference", q.subtract_dd(&da)), ("difference", q.subtract_f64(y)), ("difference", da.subtract_f64(f64::NAN)),
            ("product", da.multiply_dd(&q)), ("product", q.multiply_dd(&da)), ("product", q.multiply_f64(y)), ("product", da.multiply_f64(f64::NAN)),
            ("quotient", da.divide_dd(&q)), ("quotient", q.divide_dd(&da)), ("quotient", q.divide_f64(y)), ("quotient", da.divide_f64(f64::NAN)),
            ("negation", q.negate()), ("floor", q.floor()), ("ceiling", q.ceil()), ("truncation", q.trunc()), ("absolute value", q.abs()), ("square", q.sqr()), ("square root", q.sqrt_dd()),
        ];
        for (w, d) in l {
            ensure!(cx, d.is_nan(), "{} with NaN and {} is {}", w, s, d.dump());
        }
        ensure!(cx, q.is_nan() && !da.is_nan() && DD::new_nan().is_nan(), "NaN is not recognised");
        return Ok(());
    }
    let (ea, eb, ey) = (Q::dy(a.ex()), Q::dy(b.ex()), Q::f(y));
    near(cx, "sum", &da.add_dd(&db), &ea.add(&eb), 1, &s)?;
    near(cx, "difference", &da.subtract_dd(&db), &ea.sub(&eb), 1, &s)?;
    near(cx, "product", &da.multiply_dd(&db), &ea.mul(&eb), 1, &s)?;
    near(cx, "sum", &da.add_f64(y), &ea.add(&ey), 1, &t)?;
    near(cx, "difference", &da.subtract_f64(y), &ea.sub(&ey), 1, &t)?;
    near(cx, "product", &da.multiply_f64(y), &ea.mul(&ey), 1, &t)?;
    if b.hi != 0.0 {
        near(cx, "quotient", &da.divide_dd(&db), &ea.div(&eb), 1, &s)?;
    }
    if y != 0.0 {
        near(cx, "quotient", &da.divide_f64(y), &ea.div(&ey), 1, &t)?;
    }
    // in place
    let mut d = a.dd();
    d.self_add_dd(&db);
    near(cx, "sum in place", &d, &ea.add(&eb), 1, &s)?;
    let mut d = a.dd();
    d.self_subtract_dd(&db);
    near(cx, "difference in place", &d, &ea.sub(&eb), 1, &s)?;
    let mut d = a.dd();
    d.self_multiply_dd(&db);
    near(cx, "product in place", &d, &ea.mul(&eb), 1, &s)?;
    let mut d = a.dd();
    d.self_add_f64(y);
    near(cx, "sum in place", &d, &ea.add(&ey), 1, &t)?;
    let mut d = a.dd();
    d.self_subtract_f64(y);
    near(cx, "difference in place", &d, &ea.sub(&ey), 1, &t)?;
    let mut d = a.dd();
    d.self_multiply_f64(y);
    near(cx, "product in place", &d, &ea.mul(&ey), 1, &t)?;
    if b.hi != 0.0 && y != 0.0 {
        let mut d = a.dd();
        d.self_divide_dd(&db);
        near(cx, "quotient in place", &d, &ea.div(&eb), 1, &s)?;
        let mut d = a.dd();
        d.self_divide_f64(y);
        near(cx, "quotient in place", &d, &ea.div(&ey), 1, &t)?;
    }
    let mut d = DD::new_from_dd(&da);
    d.self_add_hi_lo(b.hi, b.lo);
    near(cx, "sum in place", &d, &ea.add(&eb), 1, &s)?;
    let mut d = DD::new_from_dd(&da);
    d.self_multiply_hi_lo(b.hi, b.lo);
    near(cx, "product in place", &d, &ea.mul(&eb), 1, &s)?;
    if b.hi != 0.0 {
        let mut d = DD::new_from_dd(&da);
        d.self_divide_hi_lo(b.hi, b.lo);
        near(cx, "quotient in place", &d, &ea.div(&eb), 1, &s)?;
    }
    ensure!(cx, DD::default().is_zero() && parts(&DD::default()).lo == 0.0, "the default number is not zero");
    let g = parts(&DD::new_x(y));
    ensure!(cx, g.hi == y && g.lo == 0.0, "{:?} as an extended number is <{:?} {:?}>", y, g.hi, g.lo);
    let (pi, pi_lo) = (std::f64::consts::PI, 1.2246467991473531772e-16);
    for (w, d, hi, lo) in [
        ("pi", DD::new_pi(), pi, pi_lo),
        ("2 pi", DD::new_two_pi(), 2.0 * pi, 2.0 * pi_lo),
        ("pi / 2", DD::new_pi_2(), pi / 2.0, pi_lo / 2.0),
        ("e", DD::new_e(), std::f64::consts::E, 1.4456468917292501534713e-16),
    ] {
        let g = parts(&d);
        ensure!(cx, g.hi == hi && (g.lo - lo).abs() <= hi * ldexp(1.0, -100), "{} is <{:?} {:?}>", w, g.hi, g.lo);
    }
    // determinant: error relative to its two products
    let (c, e) = (num(&mut cx.rng), related(&mut cx.rng, &b).0);
    let (ec, ee) = (Q::dy(c.ex()), Q::dy(e.ex()));
    let (p, q) = (ea.mul(&ee), eb.mul(&ec));
    let g = parts(&DD::determinant_xy_dd(&da, &db, &c.dd(), &e.dd()));
    let lim = p.abs().add(&q.abs()).mul(&Q::dy(Dy::pow2(-99)));
    ensure!(cx, Q::dy(g.ex()).sub(&p.sub(&q)).abs().le(&lim), "determinant of {} over <{:?} {:?}> and <{:?} {:?}> is <{:?} {:?}> but {:?}", s, c.hi, c.lo, e.hi, e.lo, g.hi, g.lo, p.sub(&q).to_f64());
    let g = parts(&DD::determinant_xy_f64(a.hi, b.hi, c.hi, e.hi));
    let w = Dy::f(a.hi).mul(&Dy::f(e.hi)).sub(&Dy::f(b.hi).mul(&Dy::f(c.hi)));
    let l = Dy::f(a.hi).mul(&Dy::f(e.hi)).abs().add(&Dy::f(b.hi).mul(&Dy::f(c.hi)).abs()).mul(&Dy::pow2(-99));
    ensure!(cx, g.ex().sub(&w).abs().le(&l), "determinant of {:?} {:?} over {:?} {:?} is <{:?} {:?}> but {:?}", a.hi, b.hi, c.hi, e.hi, g.hi, g.lo, w.to_f64());
    same(cx, "arithmetic", &da, &a)?;
    same(cx, "arithmetic", &db, &b)
}

fn unary(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let a = match r.below(9) {
        // close to one: only such a number stays in range at a high power
        8 => norm(1.0 + ldexp(r.range(-1.0, 1.0), -r.int(1, 20)), ldexp(r.range(-1.0, 1.0), -r.int(54, 100))),
        // a hair off an integer or half-integer
        0 | 1 => {
            let v = r.int(-40, 40) as f64 / 2.0;
            norm(v, ldexp(r.unit(), -r.int(50, 180)) * if r.bool() { 1.0 } else { -1.0 })
        }
        2 => norm(r.int(-100, 100) as f64 / 2.0, 0.0),
        3 => norm(ldexp(1.0, r.int(50, 60)) + r.int(-5, 5) as f64, r.int(-8, 8) as f64 / 4.0),
        _ => num(r),
    };
    let lim = if (a.hi.abs() - 1.0).abs() < 0.51 { r.pick(&[60, 700, 5000, 50000]) } else { 60 };
    let exp = r.int(-lim, lim) as i32;
    cx.key(&[a.hi, a.lo]);
    cx.key_u(exp as u64);
    cx.nontrivial();
    let s = format!("<{:?} {:?}>", a.hi, a.lo);
    cx.desc(|| format!("{} power {}", s, exp));
    let ex = a.ex();
    let q = Q::dy(ex.clone());
    let sign = ex.sign();
    let mut d = a.dd();
    if a.hi == a.hi.trunc() && a.lo < 0.0 && a.lo > -0.5 {
        cx.ev("just below an integer");
    }
    let exactly = |cx: &mut Cx, what: &str, g: &DD, w: &Dy| -> R {
        let n = parts(g);
        ensure!(cx, n.hi.is_finite() && n.ex().eq(w), "{} of {} is <{:?} {:?}>", what, s, n.hi, n.lo);
        ensure!(cx, n.hi == n.hi + n.lo, "{} of {} is <{:?} {:?}>, not normalized", what, s, n.hi, n.lo);
        ensure!(cx, g.is_zero() == w.is_zero() && g.signum() == w.sign(), "{} of {} is <{:?} {:?}> with sign {} and zero {}", what, s, n.hi, n.lo, g.signum(), g.is_zero());
        Ok(())
    };
    let (fl, ce) = (ex.floor(), ex.ceil());
    exactly(cx, "floor", &d.floor(), &fl)?;
    exactly(cx, "ceiling", &d.ceil(), &ce)?;
    exactly(cx, "truncation", &d.trunc(), if sign > 0 { &fl } else { &ce })?;
    exactly(cx, "absolute value", &d.abs(), &ex.abs())?;
    exactly(cx, "negation", &d.negate(), &ex.neg())?;
    exactly(cx, "copy", &d.copy_self(), &ex)?;
    exactly(cx, "copy", &DD::copy(&d), &ex)?;
    // nearest integer, half-way cases up
    let half = ex.add(&Dy::pow2(-1));
    let g = d.rint();
    let n = parts(&g);
    if ex.sub(&fl).eq(&Dy::pow2(-1)) {
        cx.ev("half-way");
    }
    // (a fraction this close to a half may be lost in the sum)
    let frac = ex.sub(&fl).sub(&Dy::pow2(-1)).abs();
    if frac.is_zero() || ex.abs().max(&Dy::int(1)).mul(&Dy::pow2(-98)).le(&frac) {
        exactly(cx, "nearest integer", &g, &half.floor())?;
    } else {
        let lim = Dy::int(1).add(&ex.abs().mul(&Dy::pow2(-100)));
        ensure!(cx, n.ex().sub(&ex).abs().le(&lim), "nearest integer of {} is <{:?} {:?}>", s, n.hi, n.lo);
    }
    same(cx, "taking the nearest integer", &d, &a)?;
    // signs and conversions
    ensure!(cx, d.signum() == sign && d.is_negative() == (sign < 0) && d.is_positive() == (sign > 0) && d.is_zero() == (sign == 0), "sign of {} is {}, negative {} positive {} zero {}", s, d.signum(), d.is_negative(), d.is_positive(), d.is_zero());
    ensure!(cx, d.double_value() == ex.to_f64(), "double value of {} is {:?}", s, d.double_value());
    if a.hi.abs() < 2e9 {
        let i = Dy::int(d.int_value() as i64);
        ensure!(cx, i.sub(&ex).abs().le(&Dy::int(1)) && (a.lo != 0.0 || i.eq(if sign > 0 { &fl } else { &ce })), "integer value of {} is {}", s, d.int_value());
    }
    // powers, square, roots
    near(cx, "square", &d.sqr(), &q.mul(&q), 1, &s)?;
    let mut e = a.dd();
    e.self_sqr();
    near(cx, "square in place", &e, &q.mul(&q), 1, &s)?;
    let y = a.hi;
    near(cx, "square of a double", &d.sqr_f64(y), &Q::f(y).mul(&Q::f(y)), 1, &s)?;
    if sign != 0 {
        near(cx, "reciprocal", &d.reciprocal(), &Q::f(1.0).div(&q), 1, &s)?;
    }
    if sign < 0 {
        ensure!(cx, d.sqrt_dd().is_nan(), "square root of {} is {}", s, d.sqrt_dd().dump());
    } else {
        for (w, g, x) in [("square root", d.sqrt_dd(), ex.clone()), ("square root of a double", d.sqrt_f64(a.hi), Dy::f(a.hi))] {
            // |g^2 - x| <= 2 * 2^-98 * x
            let n = parts(&g);
            let err = n.ex().sqr().sub(&x).abs();
            ensure!(cx, n.hi >= 0.0 && err.le(&x.mul(&Dy::pow2(-97))), "{} of {} is <{:?} {:?}>, whose square is off by {:.3e} relative", w, s, n.hi, n.lo, err.to_f64() / x.to_f64());
        }
    }
    let size = (a.hi.abs().log2() * exp as f64).abs();
    if exp == 0 {
        exactly(cx, "power 0", &d.pow(0), &Dy::int(1))?;
    } else if sign != 0 && size < 900.0 {
        let k = exp.unsigned_abs();
        if k > 900 {
            cx.ev("high power");
        }
        // to 449 bits and more
        let mut w = Dy::int(1);
        for i in (0..32).rev() {
            w = w.sqr();
            if k >> i & 1 == 1 {
                w = w.mul(&ex);
            }
            w = w.cut(8);
        }
        let mut w = Q::dy(w);
        if exp < 0 {
            cx.ev("negative power");
            w = Q::f(1.0).div(&w);
        }
        near(cx, "power", &d.pow(exp), &w, 2 * k as i64, &format!("{} to {}", s, exp))?;
    }
    same(cx, "an operation", &d, &a)?;
    // assignment
    let b = num(&mut cx.rng);
    d.set_value_dd(&b.dd());
    same(cx, "assignment", &d, &b)?;
    d.set_value_f64(if b.hi == 0.0 && cx.rng.bool() { -0.0 } else { b.hi });
    same(cx, "assignment", &d, &N { hi: b.hi, lo: 0.0 })?;
    same(cx, "construction", &DD::value_of_f64(b.hi), &N { hi: b.hi, lo: 0.0 })
}

fn order(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let a = num(r);
    let b = match r.below(5) {
        0 => a,
        1 | 2 => norm(a.hi, if a.lo == 0.0 { a.hi * ldexp(r.range(-1.0, 1.0), -54) } else { a.lo * r.range(-1.0, 1.0) }),
        3 => N { hi: -a.hi, lo: -a.lo },
        _ => num(r),
    };
    cx.key(&[a.hi, a.lo, b.hi, b.lo]);
    cx.nontrivial();
    let s = format!("<{:?} {:?}> and <{:?} {:?}>", a.hi, a.lo, b.hi, b.lo);
    cx.desc(|| s.clone());
    let (da, db) = (a.dd(), b.dd());
    let o = a.ex().cmp(&b.ex());
    let i = match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    };
    if i == 0 {
        cx.ev("equal numbers");
    } else if a.hi == b.hi {
        cx.ev("differ in the low part only");
    }
    ensure!(cx, da.compare_to(&db) == i && db.compare_to(&da) == -i, "comparing {} gives {} and {}", s, da.compare_to(&db), db.compare_to(&da));
    ensure!(cx, da.gt(&db) == (i > 0) && da.ge(&db) == (i >= 0) && da.lt(&db) == (i < 0) && da.le(&db) == (i <= 0) && da.equals(&db) == (i == 0),
        "{}: > {} >= {} < {} <= {} equal {}", s, da.gt(&db), da.ge(&db), da.lt(&db), da.le(&db), da.equals(&db));
    let (mn, mx) = if i <= 0 { (&a, &b) } else { (&b, &a) };
    let (g, h) = (parts(&da.min(&db)), parts(&da.max(&db)));
    ensure!(cx, g.ex().eq(&mn.ex()) && h.ex().eq(&mx.ex()), "minimum and maximum of {} are <{:?} {:?}> and <{:?} {:?}>", s, g.hi, g.lo, h.hi, h.lo);
    Ok(())
}

/// sums and products accumulated in place stay within the sum of the step errors
fn history(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = 2 + r.len(12);
    let a = num(r);
    let mut d = a.dd();
    let mut w = Q::dy(a.ex());
    let mut err = Q::f(0.0);
    let mut s = format!("<{:?} {:?}>", a.hi, a.lo);
    cx.key(&[a.hi, a.lo]);
    let eps = Q::dy(Dy::pow2(-100));
    let one = Q::f(1.0);
    let mut steps = 0;
    for _ in 0..n {
        let r = &mut cx.rng;
        let b = if r.chance(1, 5) { let p = parts(&d); N { hi: -p.hi, lo: p.lo } } else { num(r) };
        let b = if r.chance(1, 3) { N { hi: b.hi, lo: 0.0 } } else { b };
        let e = Q::dy(b.ex());
        let m = w.to_f64().abs().max(1e-300).log2();
        let l = if b.hi == 0.0 { 0.0 } else { b.hi.abs().log2() };
        let op = r.below(4);
        cx.key(&[b.hi, b.lo]);
        cx.key_u(op);
        match op {
            0 => {
                if b.lo == 0.0 { d.self_add_f64(b.hi) } else { d.self_add_dd(&b.dd()) };
                w = w.add(&e);
            }
            1 => {
                if b.lo == 0.0 { d.self_subtract_f64(b.hi) } else { d.self_subtract_dd(&b.dd()) };
                w = w.sub(&e);
            }
            2 if (m + l).abs() < 300.0 => {
                if b.lo == 0.0 { d.self_multiply_f64(b.hi) } else { d.self_multiply_dd(&b.dd()) };
                w = w.mul(&e);
                err = err.mul(&e.abs());
            }
            3 if b.hi != 0.0 && (m - l).abs() < 300.0 => {
                if b.lo == 0.0 { d.self_divide_f64(b.hi) } else { d.self_divide_dd(&b.dd()) };
                w = w.div(&e);
                err = err.div(&e.abs());
            }
            _ => continue,
        }
        steps += 1;
        s.push_str(&format!(" {}<{:?} {:?}>", ["+", "-", "*", "/"][op as usize], b.hi, b.lo));
        // |result - exact| <= err' (1 + eps) + eps |exact|
        err = err.mul(&one.add(&eps)).add(&w.abs().mul(&eps));
        let g = parts(&d);
        ensure!(cx, g.hi.is_finite() && g.lo.is_finite(), "{} is <{:?} {:?}>", s, g.hi, g.lo);
        ensure!(cx, Q::dy(g.ex()).sub(&w).abs().le(&err), "{} is <{:?} {:?}> but {:?}", s, g.hi, g.lo, w.to_f64());
        // keep the oracle's rationals small
        w = Q::dy(g.ex());
        err = Q::f(0.0);
    }
    cx.desc(|| s.clone());
    if steps > 1 {
        cx.nontrivial();
    }
    Ok(())
}

fn pow10(k: i32) -> Q {
    let mut p = Dy::int(1);
    for _ in 0..k.abs() {
        p = p.mul(&Dy::int(10));
    }
    if k < 0 { Q::f(1.0).div(&Q::dy(p)) } else { Q::dy(p) }
}

fn magnitude(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let k = match r.below(4) {
        0 => r.int(0, 9),
        1 => r.int(-9, 22),
        _ => r.int(-280, 280),
    } as i32;
    let p = format!("1e{}", k).parse::<f64>().unwrap();
    let kind = r.below(7);
    let x = match kind {
        0 => p,
        1 => p * (1.0 + 1e-9),
        2 => p * (1.0 - 1e-9),
        3 => p * r.range(1.0, 10.0),
        // the nearest few numbers below and above
        4 => f64::from_bits(p.to_bits() - r.below(4) - 1),
        5 => f64::from_bits(p.to_bits() + r.below(4) + 1),
        _ => p * r.int(1, 9) as f64,
    };
    let x = if r.bool() { -x } else { x };
    cx.key(&[x]);
    cx.nontrivial();
    cx.desc(|| format!("magnitude of {:?}", x));
    if x.abs() < 1.0 {
        cx.ev("below one");
    }
    // the answer is about the argument, whichever number is asked
    let who = if cx.rng.bool() { DD::value_of_f64(1.0) } else { let w = num(&mut cx.rng);
        DD::new_hi_lo(w.hi, w.lo)
    };
    let g = who.magnitude(x);
    // a number within rounding of a power of ten that no double represents may go either way
    let a = Q::f(x.abs());
    let exact = |m: i32| (0..=22).contains(&m);
    let lo = a.mul(&Q::f(1.0 + if exact(g) { 0.0 } else { 1e-14 }));
    let hi = a.mul(&Q::f(1.0 - if exact(g + 1) { 0.0 } else { 1e-14 }));
    if kind == 0 && k > 0 {
        cx.ev("at a power of ten");
    }
    ensure!(cx, g.abs() <= 300 && pow10(g).le(&lo) && hi.lt(&pow10(g + 1)), "decimal magnitude of {:?} is {}", x, g);
    Ok(())
}
