//! Intersection of lines, of a line and a segment.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use geos_rs::verif_hooks::algorithm::hcoordinate::HCoordinate;
use geos_rs::verif_hooks::algorithm::intersection::Intersection;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::line_segment::LineSegment;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        quick: 3_000_000,
        families: vec![
            Family { name: "two lines", weight: 3, run: lines },
            Family { name: "almost parallel lines", weight: 2, run: almost },
            Family { name: "far from the origin", weight: 2, run: far },
            Family { name: "parallel lines", weight: 1, run: parallel },
            Family { name: "line and segment", weight: 3, run: line_seg },
        ],
        rule: "Pairs of lines through points on grids, 50-bit lattices and mixed doubles: general, almost parallel (direction one lattice unit off), exactly parallel, identical and far from the origin; lines against segments whose ends lie on the line, one unit off, both sides or one. Oracle: exact rational crossing point and exact orientations.",
        assumptions: &["products do not overflow or underflow", "floating-point (not extended) variants are compared within a backward-error bound of the cross products, and not at all where that bound exceeds the coordinates' extent"],
        need: &[("crossing compared", 50000), ("exactly parallel", 10000), ("floating-point crossing compared", 50000), ("segment end on the line", 5000), ("segment crosses the line", 5000), ("segment on one side", 5000)],
    }
}

fn fits(x: &Option<Coordinate>, cr: &Cross, slack: f64) -> bool {
    match x {
        None => false,
        Some(g) => {
            let tx = ulp(cr.x.to_f64()) + ldexp(cr.cx, -96) + slack;
            let ty = ulp(cr.y.to_f64()) + ldexp(cr.cy, -96) + slack;
            err_f(g.x, &cr.x).abs() <= tx && err_f(g.y, &cr.y).abs() <= ty
        }
    }
}

fn check_lines(cx: &mut Cx, p1: P, p2: P, q1: P, q2: P, exact: bool) -> R {
    cx.key(&[p1.0, p1.1, p2.0, p2.1, q1.0, q1.1, q2.0, q2.1]);
    cx.desc(|| format!("line {} with line {}", fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2])));
    if p1 != p2 && q1 != q2 {
        cx.nontrivial();
    }
    let (a, b, e, f) = (c(p1), c(p2), c(q1), c(q2));
    let cr = cross_lines(p1, p2, q1, q2);
    let got = [
        ("Intersection::intersection", Intersection::intersection(&a, &b, &e, &f)),
        ("CGAlgorithmsDD::intersection", CGAlgorithmsDD::intersection(&a, &b, &e, &f)),
        ("LineSegment::line_intersection", LineSegment::new_from_coordinates(&a, &b).line_intersection(LineSegment::new_from_coordinates(&e, &f))),
    ];
    match &cr {
        None => {
            cx.ev("exactly parallel");
            if exact {
                for (n, g) in &got {
                    ensure!(cx, g.is_none(), "{} of parallel lines {} and {} is {:?}, not None", n, fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2]), fo(&g));
                }
            }
        }
        Some(cr) => {
            let m = max_abs(&[p1, p2, q1, q2]);
            // extended precision has something to say
            let lost = ldexp(cr.cx.max(cr.cy), -96) > m + cr.x.to_f64().abs().max(cr.y.to_f64().abs());
            if exact || !lost {
                cx.ev("crossing compared");
                for (n, g) in &got {
                    ensure!(cx, fits(g, cr, 0.0), "{} of lines {} and {} is {:?} but exactly ({:?} {:?})", n, fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2]), fo(&g), cr.x.to_f64(), cr.y.to_f64());
                }
                // the order of the arguments does not matter
                for (u, v, s, t) in [(&b, &a, &e, &f), (&a, &b, &f, &e), (&e, &f, &a, &b)] {
                    let g = Intersection::intersection(u, v, s, t);
                    ensure!(cx, fits(&g, cr, 0.0), "intersection of lines {} and {} with the arguments reordered is {:?} but exactly ({:?} {:?})", fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2]), fo(&g), cr.x.to_f64(), cr.y.to_f64());
                }
            } else {
                cx.ev("not asserted (beyond double-double)");
            }
        }
    }
    // floating-point variants
    let small = exact && max_abs(&[p1, p2, q1, q2]) <= 1e5 && [p1, p2, q1, q2].iter().all(|p| p.0 == p.0.trunc() && p.1 == p.1.trunc());
    let fp = Intersection::intersection_fp(&a, &b, &e, &f);
    let hc = HCoordinate::intersection(&a, &b, &e, &f);
    let h4 = HCoordinate::new_with_coordinates_4(&a, &b, &e, &f);
    let hh = HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinates(&a, &b), &HCoordinate::new_with_coordinates(&e, &f));
    let hp = HCoordinate::new_with_hcoordinates(
        &HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinate(&a), &HCoordinate::new_with_xy(b.x, b.y)),
        &HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_xyw(e.x, e.y, 1.0), &HCoordinate::new_with_coordinate(&f)),
    );
    let opt = |h: &HCoordinate| {
        let g = h.get_coordinate();
        if same_bits(g.x, h.get_x()) && same_bits(g.y, h.get_y()) && !g.x.is_nan() && !g.y.is_nan() { Some(g) } else { None }
    };
    let all = [("intersection_fp", fp, true), ("HCoordinate::intersection", hc, false), ("HCoordinate of four points", opt(&h4), false), ("HCoordinate of two lines", opt(&hh), false), ("HCoordinate of joined points", opt(&hp), false)];
    match &cr {
        None => {
            if small {
                for (n, g, _) in &all {
                    ensure!(cx, g.is_none(), "{} of parallel lines {} and {} is {:?}, not empty", n, fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2]), fo(&g));
                }
                if hh.get_x().is_nan() {
                    cx.ev("parallel lines give NaN ordinates");
                }
            }
        }
        Some(cr) => {
            let u = 2f64.powi(-53);
            let w = {
                let d = |a: f64, b: f64| Dy::f(a).sub(&Dy::f(b));
                d(p1.1, p2.1).mul(&d(q2.0, q1.0)).sub(&d(q1.1, q2.1).mul(&d(p2.0, p1.0))).abs().to_f64()
            };
            let (x, y) = (cr.x.to_f64(), cr.y.to_f64());
            let bound = |d: f64, x: f64| 64.0 * u * (d * d * d + x.abs() * d * d) / w;
            // magnitude after conditioning about the middle of the envelope intersection
            let mid = |a0: f64, a1: f64, b0: f64, b1: f64| (a0.min(a1).max(b0.min(b1)) + a0.max(a1).min(b0.max(b1))) / 2.0;
            let (mx, my) = (mid(p1.0, p2.0, q1.0, q2.0), mid(p1.1, p2.1, q1.1, q2.1));
            let dsh = [p1, p2, q1, q2].iter().fold(0.0f64, |m, p| m.max((p.0 - mx).abs()).max((p.1 - my).abs()));
            let d0 = max_abs(&[p1, p2, q1, q2]);
            for (n, g, cond) in &all {
                let (d, vx, vy) = if *cond { (dsh, x - mx, y - my) } else { (d0, x, y) };
                let (tx, ty) = (bound(d, vx) + 4.0 * ulp(x), bound(d, vy) + 4.0 * ulp(y));
                if !(tx < d && ty < d) {
                    continue;
                }
                cx.ev("floating-point crossing compared");
                match g {
                    None => return Err(format!("{} of lines {} and {} is empty but they cross at ({:?} {:?})", n, fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2]), x, y)),
                    Some(g) => {
                        // conditioning adds the rounding of the midpoint shift
                        let s = if *cond { 4.0 * u * (mx.abs() + my.abs() + d) } else { 0.0 };
                        ensure!(cx, err_f(g.x, &cr.x).abs() <= tx + s && err_f(g.y, &cr.y).abs() <= ty + s, "{} of lines {} and {} is ({:?} {:?}) but exactly ({:?} {:?})", n, fmt_ps(&[p1, p2]), fmt_ps(&[q1, q2]), g.x, g.y, x, y);
                    }
                }
            }
        }
    }
    Ok(())
}

fn lines(cx: &mut Cx) -> R {
    let st = Style::any(&mut cx.rng);
    let v = st.pts(&mut cx.rng, 4);
    check_lines(cx, v[0], v[1], v[2], v[3], st.is_exact())
}
/// short lines far from the origin
fn far(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let m = 1i64 << r.int(2, 20);
    let k = r.int(20, 48);
    let off = |r: &mut Rng| if r.chance(1, 4) { 0 } else { r.int(-(1 << k), 1 << k) };
    let (ox, oy) = (off(r), off(r));
    let s = ldexp(1.0, r.int(-40, 40));
    let v: Vec<P> = (0..4).map(|_| ((ox + r.int(-m, m)) as f64 * s, (oy + r.int(-m, m)) as f64 * s)).collect();
    cx.ev("short and far away");
    check_lines(cx, v[0], v[1], v[2], v[3], true)
}
fn almost(cx: &mut Cx) -> R {
    let (a, b, q, ex) = near_collinear(&mut cx.rng);
    let r = &mut cx.rng;
    // the second line runs almost along the first, from a to q, possibly moved
    let v = match r.below(3) {
        0 => (a, b, a, q),
        1 => (a, b, q, a),
        _ => (a, b, b, q),
    };
    check_lines(cx, v.0, v.1, v.2, v.3, ex)
}
fn parallel(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let e = r.int(-30, 30) as i32;
    let s = if r.bool() { 1.0 } else { 2f64.powi(e) };
    let b = r.pick(&[2, 6, 12, 22]);
    let m = 1i64 << b;
    let d = (r.int(-m, m), r.int(-m, m));
    let p = (r.int(-m, m), r.int(-m, m));
    let q = if r.chance(1, 4) { (p.0 + 2 * d.0, p.1 + 2 * d.1) } else { (r.int(-m, m), r.int(-m, m)) };
    let (k, l) = (r.int(-5, 5), r.int(-5, 5));
    let f = |v: (i64, i64)| (v.0 as f64 * s, v.1 as f64 * s);
    check_lines(cx, f(p), f((p.0 + k * d.0, p.1 + k * d.1)), f(q), f((q.0 + l * d.0, q.1 + l * d.1)), true)
}

fn line_seg(cx: &mut Cx) -> R {
    let (l1, l2, s1, s2, exact);
    if cx.rng.bool() {
        let (a, b, q, ex) = near_collinear(&mut cx.rng);
        let r = &mut cx.rng;
        l1 = a;
        l2 = b;
        s1 = q;
        s2 = if ex && r.bool() { a } else { Style::Uni(max_abs(&[a, b, q]).max(1.0)).pt(r) };
        exact = false;
    } else {
        let st = Style::any(&mut cx.rng);
        let v = st.pts(&mut cx.rng, 4);
        l1 = v[0];
        l2 = v[1];
        s1 = v[2];
        s2 = if cx.rng.chance(1, 10) { v[0] } else { v[3] };
        exact = st.is_exact();
    }
    let (s1, s2) = if cx.rng.bool() { (s1, s2) } else { (s2, s1) };
    if l1 == l2 {
        return Ok(());
    }
    cx.key(&[l1.0, l1.1, l2.0, l2.1, s1.0, s1.1, s2.0, s2.1]);
    cx.desc(|| format!("line {} with segment {}", fmt_ps(&[l1, l2]), fmt_ps(&[s1, s2])));
    if !exact && !(decided(l1, l2, s1) && decided(l1, l2, s2)) {
        return Ok(());
    }
    cx.nontrivial();
    let (o1, o2) = (orient(l1, l2, s1), orient(l1, l2, s2));
    let g = Intersection::line_segment(&c(l1), &c(l2), &c(s1), &c(s2));
    if o1 == 0 || o2 == 0 {
        cx.ev("segment end on the line");
        let ok = match &g {
            Some(g) => (o1 == 0 && g.x == s1.0 && g.y == s1.1) || (o2 == 0 && g.x == s2.0 && g.y == s2.1),
            None => false,
        };
        ensure!(cx, ok, "line {} meets segment {} at an end point but the result is {:?}", fmt_ps(&[l1, l2]), fmt_ps(&[s1, s2]), fo(&g));
    } else if o1 == o2 {
        cx.ev("segment on one side");
        ensure!(cx, g.is_none(), "segment {} is on one side of line {} but the result is {:?}", fmt_ps(&[s1, s2]), fmt_ps(&[l1, l2]), fo(&g));
    } else {
        cx.ev("segment crosses the line");
        ensure!(cx, g.is_some(), "segment {} crosses line {} but the result is None", fmt_ps(&[s1, s2]), fmt_ps(&[l1, l2]));
        let cr = match cross_lines(l1, l2, s1, s2) {
            Some(c) => c,
            None => return Err("HARNESS: sides differ but lines parallel".into()),
        };
        let lost = ldexp(cr.cx.max(cr.cy), -96) > max_abs(&[s1, s2]) * 1e-3;
        if !lost {
            ensure!(cx, fits(&g, &cr, 0.0), "line {} crosses segment {} at ({:?} {:?}) but the result is {:?}", fmt_ps(&[l1, l2]), fmt_ps(&[s1, s2]), cr.x.to_f64(), cr.y.to_f64(), fo(&g));
        }
    }
    Ok(())
}
