//! Coordinates hold what was written; text shows every number exactly.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate as C;
use geos_rs::verif_hooks::geom::coordinates::Coordinates;
use geos_rs::verif_hooks::geom::envelope::Envelope;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use geos_rs::verif_hooks::geom::precision_model::{PrecisionModel, PrecisionModelType};
use geos_rs::verif_hooks::math::vector_2d::Vector2D;
use geos_rs::verif_hooks::math::vector_3d::Vector3D;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        quick: 2_000_000,
        families: vec![Family { name: "histories of a coordinate", weight: 3, run: history }, Family { name: "distances", weight: 3, run: distances }, Family { name: "text", weight: 2, run: text }],
        rule: "Coordinates of every layout from every constructor, written through every setter in random order; distances in the plane and in space of doubles of every magnitude; text of coordinates, sequences, envelopes, vectors and precision models. Oracle: an array of four ordinates; exact squared distances; numbers read back from the text.",
        assumptions: &["writing an ordinate index above Z changes nothing", "distances are compared where squares neither overflow nor underflow, in the plane everywhere"],
        need: &[("written", 100000), ("copied", 50000), ("distance in the plane", 50000), ("distance in space", 50000), ("extreme distance", 5000), ("text read back", 50000)],
    }
}

fn val(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => f64::NAN,
        1 => r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324]),
        2..=4 => r.int(-4, 4) as f64,
        5 => f64::from_bits(r.u64()),
        _ => {
            let st = Style::any(r);
            st.ord(r)
        }
    }
}
fn is(g: &C, w: &[f64; 4]) -> bool {
    same_bits(g.x, w[0]) && same_bits(g.y, w[1]) && same_bits(g.z, w[2]) && same_bits(g.m, w[3]) && same_bits(g.get_x(), w[0]) && same_bits(g.get_y(), w[1]) && same_bits(g.get_z(), w[2]) && same_bits(g.get_m(), w[3])
}
fn history(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = f64::NAN;
    let v = [val(r), val(r), val(r), val(r)];
    let (mut g, mut w, name) = match r.below(12) {
        0 => (C::default(), [0.0, 0.0, n, n], "default"),
        1 => (C::create(), [0.0, 0.0, n, n], "created"),
        2 => (C::new_xy(v[0], v[1]), [v[0], v[1], n, n], "xy"),
        3 => (C::new_xyz(v[0], v[1], v[2]), [v[0], v[1], v[2], n], "xyz"),
        4 => (C::new_xym(v[0], v[1], v[3]), [v[0], v[1], n, v[3]], "xym"),
        5 => (C::new_xyzm(v[0], v[1], v[2], v[3]), v, "xyzm"),
        6 => (C::new_coordinatexy(v[0], v[1]), [v[0], v[1], n, n], "coordinate xy"),
        7 => (C::new_coordinatexym(v[0], v[1], v[3]), [v[0], v[1], n, v[3]], "coordinate xym"),
        8 => (C::new_coordinatexyzm(v[0], v[1], v[2], v[3]), v, "coordinate xyzm"),
        9 => (C::new_coordinatexy_default(), [0.0, 0.0, n, n], "xy default"),
        10 => (C::new_coordinatexym_default(), [0.0, 0.0, n, 0.0], "xym default"),
        _ => (C::new_coordinatexyzm_default(), [0.0, 0.0, 0.0, 0.0], "xyzm default"),
    };
    let mut log = format!("{} {:?}", name, v);
    cx.key(&v);
    ensure!(cx, is(&g, &w), "{}: made {}", log, f1(&g));
    for _ in 0..6 {
        let r = &mut cx.rng;
        let x = val(r);
        let k = r.below(8);
        let before = w;
        cx.key_u(k);
        cx.key(&[x]);
        let r = &mut cx.rng;
        match k {
            0 => {
                log.push_str(&format!(" x={:?}", x));
                g.set_x(x);
                w[0] = x;
            }
            1 => {
                log.push_str(&format!(" y={:?}", x));
                g.set_y(x);
                w[1] = x;
            }
            2 => {
                log.push_str(&format!(" z={:?}", x));
                g.set_z(x);
                w[2] = x;
            }
            3 => {
                log.push_str(&format!(" m={:?}", x));
                g.set_m(x);
                w[3] = x;
            }
            4 | 5 => {
                let i = r.us(3);
                log.push_str(&format!(" [{}]={:?}", i, x));
                g.set_ordinate(i as i32, x);
                w[i] = x;
            }
            6 => {
                let o = [val(r), val(r), val(r), val(r)];
                log.push_str(&format!(" set to {:?}", o));
                g.set_coordinate(&C::new_xyzm(o[0], o[1], o[2], o[3]));
                w[..3].copy_from_slice(&o[..3]);
                // the measure is not part of what is set; either outcome is accepted
                if same_bits(g.m, o[3]) {
                    w[3] = o[3];
                }
            }
            _ => {
                log.push_str(" copied");
                let h = C::from_coordinate(&g);
                cx.ev("copied");
                ensure!(cx, is(&g, &before), "{}: original is {}", log, f1(&g));
                g = h;
            }
        }
        cx.ev("written");
        ensure!(cx, is(&g, &w), "{}: is {} not {:?}", log, f1(&g), w);
        for i in 0..3 {
            let q = g.get_ordinate(i as i32);
            ensure!(cx, q.map_or(false, |q| same_bits(q, w[i])), "{}: ordinate {} is {:?}", log, i, q);
        }
        ensure!(cx, g.is_valid() == (w[0].is_finite() && w[1].is_finite()), "{}: valid is {}", log, g.is_valid());
    }
    let e = log.clone();
    cx.desc(|| e);
    cx.nontrivial();
    let d = [(2, 0, [0.0, 0.0, n, n]), (3, 0, [0.0, 0.0, n, n]), (3, 1, [0.0, 0.0, n, 0.0]), (4, 1, [0.0, 0.0, 0.0, 0.0])][cx.rng.us(4)];
    let g = Coordinates::create_dim_measures(d.0, d.1);
    ensure!(cx, is(&g, &d.2), "created with {} ordinates {} measures: {}", d.0, d.1, f1(&g));
    if d.1 == 0 {
        let g = Coordinates::create_dim(d.0);
        ensure!(cx, is(&g, &d.2), "created with {} ordinates: {}", d.0, f1(&g));
    }
    let g = A::create_coordinate(d.0, d.1);
    let h = A::new_with_size_dimension_measures(1, d.0, d.1).create_coordinate_default();
    ensure!(cx, is(&g, &d.2) && is(&h, &d.2), "a sequence with {} ordinates {} measures creates {} and {}", d.0, d.1, f1(&g), f1(&h));
    Ok(())
}

fn distances(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let extreme = r.chance(1, 10);
    let k = if extreme { 2f64.powi(r.int(-900, 900) as i32) } else { 1.0 };
    let mut o = |r: &mut Rng| st.ord(r) * k;
    let mut v = [o(r), o(r), o(r), o(r), o(r), o(r)];
    for i in 0..3 {
        if r.chance(1, 5) {
            v[i + 3] = nudge(v[i], r.int(-2, 2));
        }
    }
    let a = C::new_xyzm(v[0], v[1], v[2], val(r));
    let b = C::new_xyzm(v[3], v[4], v[5], val(r));
    cx.key(&v);
    cx.desc(|| format!("{:?}", v));
    cx.nontrivial();
    if v.iter().any(|x| !x.is_finite() || (*x != 0.0 && x.abs() < 1e-280) || x.abs() > 1e280) {
        return Ok(());
    }
    let sq = |i: usize| Dy::f(v[i]).sub(&Dy::f(v[i + 3])).sqr();
    // a rounded difference loses at most half an ulp of itself
    let scale = |d: Dy| {
        // exponent-safe square root
        let (m, e) = d.frexp();
        let odd = e.rem_euclid(2);
        ((m * if odd == 1 { 2.0 } else { 1.0 }).sqrt(), ((e - odd) / 2) as i32)
    };
    let cmp = |g: f64, d: Dy, u: f64| {
        let (m, e) = scale(d);
        let w = Dy::f(m).scale2(e as i64).to_f64();
        ((g - w).abs() <= w * u + 1e-320, w)
    };
    let g = a.distance(&b);
    cx.ev(if extreme { "extreme distance" } else { "distance in the plane" });
    let (ok, w) = cmp(g, sq(0).add(&sq(1)), 8e-16);
    ensure!(cx, ok && same_bits(g, b.distance(&a)), "distance of {} and {} is {:?} not {:?}", f1(&a), f1(&b), g, w);
    if v.iter().all(|x| *x == 0.0 || (x.abs() > 1e-120 && x.abs() < 1e120)) {
        let g = a.distance_3d(&b);
        cx.ev("distance in space");
        let (ok, w) = cmp(g, sq(0).add(&sq(1)).add(&sq(2)), 1e-15);
        ensure!(cx, ok && same_bits(g, b.distance_3d(&a)), "distance in space of {} and {} is {:?} not {:?}", f1(&a), f1(&b), g, w);
    }
    Ok(())
}

fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '+' || c == '-' || c == '.')).filter_map(|t| t.parse::<f64>().ok()).collect()
}
fn shows(s: &str, w: &[f64]) -> bool {
    let n = numbers(s);
    n.len() == w.len() && n.iter().zip(w).all(|(a, b)| same_bits(*a, *b) || (a.is_nan() && b.is_nan()) || a == b)
}
fn text(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let v: Vec<f64> = (0..12).map(|_| val(r)).collect();
    cx.key(&v);
    cx.desc(|| format!("{:?}", v));
    cx.nontrivial();
    cx.ev("text read back");
    let p = C::new_xyz(v[0], v[1], v[2]);
    let s = format!("{}", p);
    ensure!(cx, shows(&s, &v[..3]), "{} reads {:?}", f1(&p), s);
    let k = cx.rng.us(5);
    let cs: Vec<C> = (0..k).map(|i| C::new_xyz(v[i * 3 % 10], v[(i * 3 + 1) % 10], v[(i * 3 + 2) % 10])).collect();
    let w: Vec<f64> = cs.iter().flat_map(|p| [p.x, p.y, p.z]).collect();
    let s = format!("{}", A::new_with_coordinates_dimension_measures(cs.clone(), 3, 0));
    ensure!(cx, shows(&s, &w), "{} reads {:?}", fmt_cs(&cs), s);
    let s = Vector2D::create_from_xy(v[0], v[1]).to_string();
    ensure!(cx, shows(&s, &v[..2]), "vector {:?} reads {:?}", &v[..2], s);
    let s = Vector3D::create_from_xyz(v[0], v[1], v[2]).to_string();
    ensure!(cx, shows(&s, &v[..3]), "vector {:?} reads {:?}", &v[..3], s);
    if v[..4].iter().all(|x| x.is_finite()) {
        let e = Envelope::new_xy(v[0], v[1], v[2], v[3]);
        let s = format!("{}", e);
        ensure!(cx, shows(&s, &[v[0].min(v[1]), v[0].max(v[1]), v[2].min(v[3]), v[2].max(v[3])]), "envelope of {:?} reads {:?}", &v[..4], s);
    }
    if v[0].is_finite() && v[0] > 1e-300 {
        let s = format!("{}", PrecisionModel::new_with_scale(v[0]));
        ensure!(cx, shows(&s, &v[..1]), "precision model of scale {:?} reads {:?}", v[0], s);
        let t = format!("{} {}", PrecisionModel::default(), PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle));
        ensure!(cx, s.contains("Fixed") && t == "Floating Floating-Single", "precision models read {:?} and {:?}", s, t);
    }
    Ok(())
}
