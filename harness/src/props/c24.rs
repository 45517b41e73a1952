//! Numeric utilities, quadrants, positions.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use geos_rs::verif_hooks::geom::position::Position;
use geos_rs::verif_hooks::geom::quadrant::Quadrant;
use geos_rs::verif_hooks::util::math_util::MathUtil;
use geos_rs::verif_hooks::util::number_util::NumberUtil;

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        quick: 3_000_000,
        families: vec![
            Family { name: "numbers", weight: 3, run: numbers },
            Family { name: "integers", weight: 3, run: integers },
            Family { name: "shuffles", weight: 1, run: shuffles },
            Family { name: "quadrants and positions", weight: 3, run: quadrants },
        ],
        rule: "Numbers at, inside and outside ranges, ties, signed zeros; integer quotients of either sign, indexes wrapped from several turns away; permutations of 0 to 40 items; points on axes, in every quadrant, a hair off an axis; all pairs of quadrants. Oracle: the definitions in exact arithmetic.",
        assumptions: &["minimum <= maximum for clamping", "non-zero divisors, positive moduli", "quadrants 0 to 3"],
        need: &[("clamped", 20000), ("negative divisor", 20000), ("wrapped from below", 20000), ("empty shuffle", 2000), ("all orders seen", 200), ("on an axis", 20000), ("same point", 5000), ("opposite quadrants", 20000), ("half-plane east", 20000)],
    }
}

fn num(r: &mut crate::rng::Rng) -> f64 {
    match r.below(7) {
        5 => wild(r),
        6 => r.int(-1_000_000, 1_000_000) as f64,
        0 => r.int(-4, 4) as f64,
        1 => r.pick(&[0.0, -0.0, 0.5, -0.5, 1.0]),
        2 => nudge(r.int(-3, 3) as f64, r.int(-1, 1)),
        3 => r.range(-1e9, 1e9),
        _ => r.range(-2.0, 2.0),
    }
}

fn numbers(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let v = [num(r), num(r), num(r), num(r)];
    cx.key(&v);
    cx.nontrivial();
    cx.desc(|| format!("{:?}", v));
    let (lo, hi) = (v[1].min(v[2]), v[1].max(v[2]));
    let w = if v[0] < lo { lo } else if v[0] > hi { hi } else { v[0] };
    if w != v[0] {
        cx.ev("clamped");
    }
    let g = MathUtil::clamp_f64(v[0], lo, hi);
    ensure!(cx, g == w, "{:?} clamped to [{:?} {:?}] is {:?}", v[0], lo, hi, g);
    let mut s = v;
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(cx, MathUtil::min(v[0], v[1], v[2], v[3]) == s[0], "least of {:?} is {:?}", v, MathUtil::min(v[0], v[1], v[2], v[3]));
    ensure!(cx, MathUtil::max_4(v[0], v[1], v[2], v[3]) == s[3], "greatest of {:?} is {:?}", v, MathUtil::max_4(v[0], v[1], v[2], v[3]));
    let w = v[0].max(v[1]).max(v[2]);
    ensure!(cx, MathUtil::max_3(v[0], v[1], v[2]) == w, "greatest of {:?} is {:?}", &v[..3], MathUtil::max_3(v[0], v[1], v[2]));
    let g = MathUtil::average(v[0], v[1]);
    let e = Dy::f(v[0]).add(&Dy::f(v[1])).scale2(-1);
    ensure!(cx, err_d(g, &e) <= ulp(g), "average of {:?} and {:?} is {:?}", v[0], v[1], g);
    let t = v[3].abs();
    let d = Dy::f(v[0]).sub(&Dy::f(v[1])).abs();
    let off = d.sub(&Dy::f(t)).abs().to_f64();
    if off == 0.0 || off > 2.0 * ulp(d.to_f64()) {
        let w = d.le(&Dy::f(t));
        ensure!(cx, NumberUtil::equals_with_tolerance(v[0], v[1], t) == w && NumberUtil::equals_with_tolerance(v[1], v[0], t) == w, "{:?} equals {:?} within {:?} is not {}", v[0], v[1], t, w);
    }
    // the additive recurrence stays in [0, 1)
    let (c, a) = (cx.rng.unit(), cx.rng.pick(&[0.6180339887498949, 0.1, 0.5, 0.9999, 1.0, 2.5, 0.0]));
    let c = match cx.rng.below(16) {
        0 => 0.0,
        1 => cx.rng.pick(&[-0.0, 0.5, 0.25, 0.75, 1.0]),
        2 => a,
        3 => cx.rng.int(0, 100000) as f64,
        4 => cx.rng.range(0.0, 100000.0),
        _ => c,
    };
    for (g, a) in [(MathUtil::quasirandom_curr_alpha(c, a), a), (MathUtil::quasirandom_curr(c), (5f64.sqrt() - 1.0) / 2.0)] {
        let e = c + a;
        let w = e - e.floor();
        ensure!(cx, (0.0..1.0).contains(&g) && ((g - w).abs() <= 1e-14 || (e - e.round()).abs() <= 1e-9 && (g - w).abs() >= 1.0 - 1e-9 || (g - w).abs() <= 4.0 * ulp(e)), "after {:?} with step {:?} comes {:?}", c, a, g);
    }
    Ok(())
}

fn integers(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut i = || match r.below(3) {
        0 => r.int(-12, 12) as i32,
        1 => r.int(-1000, 1000) as i32,
        _ => r.int(-1_000_000_000, 1_000_000_000) as i32,
    };
    let (x, a, b) = (i(), i(), i());
    cx.key_u(x as u64);
    cx.key_u(a as u64);
    cx.key_u(b as u64);
    cx.nontrivial();
    cx.desc(|| format!("{} {} {}", x, a, b));
    let (lo, hi) = (a.min(b), a.max(b));
    let w = if x < lo { lo } else if x > hi { hi } else { x };
    ensure!(cx, MathUtil::clamp_i32(x, lo, hi) == w, "{} clamped to [{} {}] is {}", x, lo, hi, MathUtil::clamp_i32(x, lo, hi));
    ensure!(cx, MathUtil::clamp_max(x, a) == if x > a { a } else { x }, "{} clamped to at most {} is {}", x, a, MathUtil::clamp_max(x, a));
    if a != 0 {
        if a < 0 {
            cx.ev("negative divisor");
        }
        let (n, d) = (x as i64, a as i64);
        // least integer q with q >= n / d
        let q = -((-n * d.signum()).div_euclid(d.abs()));
        ensure!(cx, MathUtil::ceil(x, a) as i64 == q, "ceiling of {} / {} is {} but {}", x, a, MathUtil::ceil(x, a), q);
    }
    if b > 0 {
        let g = MathUtil::wrap(x, b);
        let w = if x >= 0 { x % b } else { b - (-x) % b };
        if x < 0 {
            cx.ev("wrapped from below");
        }
        ensure!(cx, g == w, "{} wrapped at {} is {} but {}", x, b, g, w);
    }
    Ok(())
}

fn shuffles(cx: &mut Cx) -> R {
    let n = if cx.rng.chance(1, 10) { 0 } else { cx.rng.len(40) };
    cx.key_u(n as u64);
    cx.key_u(cx.index);
    cx.nontrivial();
    cx.desc(|| format!("{} items", n));
    if n == 0 {
        cx.ev("empty shuffle");
    }
    let g = MathUtil::shuffle(n);
    let mut s = g.clone();
    s.sort();
    ensure!(cx, s == (0..n as i32).collect::<Vec<_>>(), "shuffle of {} is {:?}", n, g);
    // every order of three items comes up (a fair shuffle misses one with probability below 1e-30)
    if cx.rng.chance(1, 100) {
        let mut seen = std::collections::HashSet::new();
        for _ in 0..400 {
            seen.insert(MathUtil::shuffle(3));
        }
        ensure!(cx, seen.len() == 6, "400 shuffles of three items give only {:?}", seen);
        cx.ev("all orders seen");
    }
    Ok(())
}

fn quadrants(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let p = st.pt(r);
    let q = match r.below(7) {
        0 => p,
        1 => (p.0, st.ord(r)),
        2 => (st.ord(r), p.1),
        3 => (nudge(p.0, r.int(-1, 1)), nudge(p.1, r.int(-1, 1))),
        _ => st.pt(r),
    };
    let z = r.chance(1, 6);
    let d = if z { (r.pick(&[0.0, -0.0, 1.0, -1.0]), r.pick(&[0.0, -0.0, 1.0, -1.0])) } else { (q.0 - p.0, q.1 - p.1) };
    cx.key(&[p.0, p.1, q.0, q.1, d.0, d.1]);
    cx.nontrivial();
    cx.desc(|| format!("{:?} {:?} {:?}", p, q, d));
    // NE 0, NW 1, SW 2, SE 3, the axes belonging to the quadrant to the north or east
    let quad = |x: i32, y: i32| match (x, y) {
        (0, 0) => -1,
        (x, y) if x >= 0 && y >= 0 => 0,
        (x, _) if x >= 0 => 3,
        (_, y) if y >= 0 => 1,
        _ => 2,
    };
    let sg = |v: f64| if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 };
    let w = quad(sg(d.0), sg(d.1));
    ensure!(cx, Quadrant::quadrant_xy(d.0, d.1) == w, "quadrant of {:?} is {}", d, Quadrant::quadrant_xy(d.0, d.1));
    let cmp = |a: f64, b: f64| if b > a { 1 } else if b < a { -1 } else { 0 };
    let (sx, sy) = (cmp(p.0, q.0), cmp(p.1, q.1));
    if sx == 0 && sy == 0 {
        cx.ev("same point");
    } else if sx == 0 || sy == 0 {
        cx.ev("on an axis");
    }
    let g = Quadrant::quadrant_coordinates(&c(p), &c(q));
    ensure!(cx, g == quad(sx, sy), "quadrant from {:?} to {:?} is {}", p, q, g);
    // half-planes: quadrant h and the next one counter-clockwise
    let (a, b) = (cx.rng.int(0, 3) as i32, cx.rng.int(0, 3) as i32);
    let diff = (a - b).rem_euclid(4);
    if diff == 2 {
        cx.ev("opposite quadrants");
    }
    ensure!(cx, Quadrant::is_opposite(a, b) == (diff == 2), "quadrants {} and {} opposite is {}", a, b, Quadrant::is_opposite(a, b));
    let w = match diff {
        0 => a,
        1 => b,
        3 => a,
        _ => -1,
    };
    ensure!(cx, Quadrant::common_half_plane(a, b) == w, "half-plane common to quadrants {} and {} is {}", a, b, Quadrant::common_half_plane(a, b));
    let w = a == b || a == (b + 1) % 4;
    if b == 3 {
        cx.ev("half-plane east");
    }
    ensure!(cx, Quadrant::is_in_half_plane(a, b) == w, "quadrant {} in the half-plane with right-hand quadrant {} is {}", a, b, Quadrant::is_in_half_plane(a, b));
    ensure!(cx, Quadrant::is_northern(a) == (a < 2), "quadrant {} northern is {}", a, Quadrant::is_northern(a));
    let s = cx.rng.int(-2, 4) as i32;
    let w = match s {
        1 => 2,
        2 => 1,
        s => s,
    };
    ensure!(cx, Position::opposite(s) == w, "opposite of position {} is {}", s, Position::opposite(s));
    Ok(())
}
