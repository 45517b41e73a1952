//! Orientation predicate: exact sign.
use crate::big::{ldexp, Dy};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use geos_rs::verif_hooks::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use geos_rs::verif_hooks::algorithm::orientation::Orientation;
use geos_rs::verif_hooks::math::dd::DD;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        quick: 5_000_000,
        families: vec![
            Family { name: "grid", weight: 3, run: grid },
            Family { name: "near-collinear", weight: 6, run: near },
            Family { name: "general doubles", weight: 3, run: general },
            Family { name: "2x2 determinant sign", weight: 2, run: det2 },
        ],
        rule: "Point triples on integer grids (coincident points included), on 50-bit lattices one unit off a line, on rounded points of double segments nudged by ulps, and plain doubles of mixed styles; non-trivial = the exact determinant is zero or smaller than 1e-9 of its terms, or the points are three distinct ones. Oracle: sign of the exact determinant (big dyadic integers).",
        assumptions: &["coordinates finite, differences and products neither overflow nor underflow", "outside the 50-bit lattice the sign is asserted only where the exact determinant exceeds 2^-95 of its terms"],
        need: &[("exactly collinear", 20000), ("determinant below 1e-15 of its terms", 40000), ("left", 20000), ("right", 20000), ("far ends of the exponent range", 20000)],
    }
}

fn check(cx: &mut Cx, a: P, b: P, q: P, exact: bool) -> R {
    cx.key(&[a.0, a.1, b.0, b.1, q.0, q.1]);
    cx.desc(|| fmt_ps(&[a, b, q]));
    let d = det3(a, b, q);
    let want = d.sign();
    let perm = perm3(a, b, q);
    let small = d.abs().lt(&perm.scale2(-30)) || want == 0;
    if small || (a != b && b != q && a != q) {
        cx.nontrivial();
    }
    if want != 0 && d.abs().lt(&perm.scale2(-50)) {
        cx.ev("determinant below 1e-15 of its terms");
    }
    cx.ev(match want {
        0 => "exactly collinear",
        1 => "left",
        _ => "right",
    });
    if !exact && !decidable(a, b, q) {
        cx.ev("not asserted (beyond double-double)");
        return Ok(());
    }
    let tri = [(a, b, q, 1), (b, q, a, 1), (q, a, b, 1), (b, a, q, -1), (a, q, b, -1), (q, b, a, -1)];
    for (u, v, w, s) in tri {
        if !exact && !decidable(u, v, w) {
            continue;
        }
        let got = Orientation::index(&c(u), &c(v), &c(w));
        ensure!(cx, got == want * s, "orientation of {} is {} but the exact sign is {}", fmt_ps(&[u, v, w]), got, want * s);
        let g2 = CGAlgorithmsDD::orientation_index_coordinates(&c(u), &c(v), &c(w));
        ensure!(cx, g2 == want * s, "extended-precision orientation of {} is {} but the exact sign is {}", fmt_ps(&[u, v, w]), g2, want * s);
        let g3 = CGAlgorithmsDD::orientation_index_xy(u.0, u.1, v.0, v.1, w.0, w.1);
        ensure!(cx, g3 == want * s, "ordinate-wise orientation of {} is {} but the exact sign is {}", fmt_ps(&[u, v, w]), g3, want * s);
    }
    // the filter may decline (> 1) but must never answer wrongly
    let f = CGAlgorithmsDD::orientation_index_filter(a.0, a.1, b.0, b.1, q.0, q.1);
    ensure!(cx, f > 1 || f == want, "the fast filter answers {} for {} but the exact sign is {}", f, fmt_ps(&[a, b, q]), want);
    cx.ev(if f > 1 { "filter declined" } else { "filter answered" });
    Ok(())
}

/// now and then at the far ends of the exponent range; products stay multiples of 2^-1000 and below 2^1000
fn extreme(cx: &mut Cx, v: [P; 3]) -> [P; 3] {
    let m = max_abs(&v);
    if m == 0.0 || !cx.rng.chance(1, 8) {
        return v;
    }
    let low = |x: f64| if x == 0.0 { 2000 } else { ((x.to_bits() >> 52) & 0x7ff) as i32 - 1075 + (x.to_bits() | 1 << 52).trailing_zeros() as i32 };
    let lo = v.iter().map(|p| low(p.0).min(low(p.1))).min().unwrap();
    let hi = ((m.to_bits() >> 52) & 0x7ff) as i32 - 1022;
    let k = if cx.rng.bool() { -500 - lo + cx.rng.int(0, 40) as i32 } else { 470 - hi - cx.rng.int(0, 40) as i32 };
    cx.ev("far ends of the exponent range");
    let s = |x: f64| ldexp(x, k as i64);
    v.map(|p| (s(p.0), s(p.1)))
}
fn grid(cx: &mut Cx) -> R {
    let st = Style::exact(&mut cx.rng);
    let v = st.pts(&mut cx.rng, 3);
    let mut q = v[2];
    if cx.rng.chance(1, 12) {
        q = v[cx.rng.us(2)];
    }
    let [a, b, q] = extreme(cx, [v[0], v[1], q]);
    check(cx, a, b, q, true)
}
fn near(cx: &mut Cx) -> R {
    let (a, b, q, ex) = near_collinear(&mut cx.rng);
    let [a, b, q] = if ex { extreme(cx, [a, b, q]) } else { [a, b, q] };
    check(cx, a, b, q, ex)
}
fn general(cx: &mut Cx) -> R {
    let st = Style::any(&mut cx.rng);
    let v = st.pts(&mut cx.rng, 3);
    let mut w = v.clone();
    if cx.rng.chance(1, 3) {
        // one of the three far away / tiny
        let k = 2f64.powi(cx.rng.int(-40, 40) as i32);
        let i = cx.rng.us(3);
        w[i] = (w[i].0 * k, w[i].1 * k);
    }
    check(cx, w[0], w[1], w[2], st.is_exact() && w == v)
}
fn det2(cx: &mut Cx) -> R {
    // rows (x1 y1), (x2 y2)
    let st = Style::any(&mut cx.rng);
    let r = &mut cx.rng;
    let (x1, y1) = st.pt(r);
    let (mut x2, mut y2) = st.pt(r);
    if r.chance(2, 3) {
        let k = r.range(-3.0, 3.0);
        x2 = x1 * k;
        y2 = y1 * k;
        if r.bool() {
            y2 = nudge(y2, r.int(-1, 1));
        }
    }
    cx.key(&[x1, y1, x2, y2]);
    cx.desc(|| format!("det [{:?} {:?}; {:?} {:?}]", x1, y1, x2, y2));
    let d = Dy::f(x1).mul(&Dy::f(y2)).sub(&Dy::f(y1).mul(&Dy::f(x2)));
    let want = d.sign();
    cx.nontrivial();
    if want == 0 {
        cx.ev("2x2 zero");
    } else {
        cx.ev("2x2 nonzero");
    }
    let g = CGAlgorithmsDD::sign_of_det2x2_f64(x1, y1, x2, y2);
    ensure!(cx, g == want, "sign of det [{:?} {:?}; {:?} {:?}] is {} but exactly {}", x1, y1, x2, y2, g, want);
    // with double-double entries that carry a low part
    let lo = |r: &mut crate::rng::Rng, v: f64| v * 2f64.powi(-54 - r.int(0, 20) as i32) * r.range(-0.9, 0.9);
    let r = &mut cx.rng;
    let ls = [lo(r, x1), lo(r, y1), lo(r, x2), lo(r, y2)];
    let e = |h: f64, l: f64| Dy::f(h).add(&Dy::f(l));
    let (ex1, ey1, ex2, ey2) = (e(x1, ls[0]), e(y1, ls[1]), e(x2, ls[2]), e(y2, ls[3]));
    let (t1, t2) = (ex1.mul(&ey2), ey1.mul(&ex2));
    let dd = t1.sub(&t2);
    if t1.abs().add(&t2.abs()).scale2(-95).lt(&dd.abs()) {
        let m = |h: f64, l: f64| DD::new_hi_lo(h, l);
        let g = CGAlgorithmsDD::sign_of_det2x_2dd(&m(x1, ls[0]), &m(y1, ls[1]), &m(x2, ls[2]), &m(y2, ls[3]));
        cx.ev("2x2 double-double");
        ensure!(cx, g == dd.sign(), "double-double sign of det [{:?} {:?}; {:?} {:?}] with low parts {:?} is {} but exactly {}", x1, y1, x2, y2, ls, g, dd.sign());
    }
    Ok(())
}
