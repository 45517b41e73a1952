//! Robust segment intersection.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::robust_line_intersector::RobustLineIntersector as RLI;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::precision_model::PrecisionModel;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        quick: 4_000_000,
        families: vec![
            Family { name: "small grid", weight: 4, run: grid },
            Family { name: "50-bit lattice", weight: 2, run: lattice },
            Family { name: "endpoint touching / collinear", weight: 4, run: touching },
            Family { name: "almost parallel / endpoint almost on", weight: 3, run: hard },
            Family { name: "general doubles", weight: 2, run: general },
            Family { name: "point on segment", weight: 2, run: point_on },
            Family { name: "one intersector, many questions", weight: 1, run: history },
        ],
        rule: "Pairs of non-degenerate segments on small grids, 50-bit lattices and doubles, biased to shared endpoints, T-junctions, collinear overlap of every kind, crossings next to an endpoint and almost parallel crossings, each run in 8 argument orders with Z given at random ends and a random precision model, against the exact intersection of the two point sets; non-trivial = the segments intersect or their envelopes do.",
        assumptions: &["the four orientations of the pair are representable in ~100 bits (always so on the lattice)", "segments have non-zero length (zero-length ones are only asked whether they intersect)"],
        need: &[("proper crossing", 40000), ("endpoint touch", 40000), ("collinear overlap", 20000), ("disjoint, envelopes overlap", 10000), ("Z interpolated", 10000), ("precision model applied", 10000), ("answer after a different answer", 10000)],
    }
}

fn z(p: P, z: f64) -> Coordinate {
    let mut k = cxy(p);
    if !z.is_nan() {
        k.set_z(z);
    }
    k
}

/// interpolation of Z at p on segment a-b from the Z of its ends (reference)
fn zi(p: P, a: P, za: f64, b: P, zb: f64) -> f64 {
    if za.is_nan() {
        return zb;
    }
    if zb.is_nan() {
        return za;
    }
    let l = ((b.0 - a.0).powi(2) + (b.1 - a.1).powi(2)).sqrt();
    let t = ((p.0 - a.0).powi(2) + (p.1 - a.1).powi(2)).sqrt() / l;
    za + t * (zb - za)
}
/// The Z values the documented rules allow at an input endpoint t that lies on
/// both segments: the Z of an input endpoint at t, else interpolated along the
/// other segment.
fn z_candidates(t: P, a: &[P; 4], za: &[f64; 4]) -> Vec<f64> {
    let own: Vec<f64> = (0..4).filter(|&j| a[j] == t && !za[j].is_nan()).map(|j| za[j]).collect();
    let mut cand = own.clone();
    let collinear = orient(a[0], a[1], a[2]) == 0 && orient(a[0], a[1], a[3]) == 0;
    for j in 0..4 {
        if a[j] != t || !za[j].is_nan() {
            continue;
        }
        let (o1, o2) = if j < 2 { (2, 3) } else { (0, 1) };
        let shared = t == a[o1] || t == a[o2];
        if !shared {
            cand.push(zi(t, a[o1], za[o1], a[o2], za[o2]));
        } else if collinear {
            // an end without Z at the shared location: the other end of that segment may stand in
            let (zt, zo) = if t == a[o1] { (za[o1], za[o2]) } else { (za[o2], za[o1]) };
            cand.push(if zt.is_nan() { zo } else { zt });
        } else if own.is_empty() {
            cand.push(f64::NAN);
        }
    }
    cand
}

fn znear(a: f64, b: f64, scale: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-10 * (scale + a.abs().max(b.abs()))
}

fn check(cx: &mut Cx, p1: P, p2: P, q1: P, q2: P, exact: bool) -> R {
    cx.key(&[p1.0, p1.1, p2.0, p2.1, q1.0, q1.1, q2.0, q2.1]);
    cx.desc(|| fmt_ps(&[p1, p2, q1, q2]));
    if p1 == p2 || q1 == q2 {
        cx.ev("degenerate skipped");
        return Ok(());
    }
    if !exact {
        for (a, b, q) in [(p1, p2, q1), (p1, p2, q2), (q1, q2, p1), (q1, q2, p2)] {
            if !decidable(a, b, q) || !decidable(b, a, q) {
                cx.ev("not asserted (beyond double-double)");
                return Ok(());
            }
        }
    }
    let m = meet(p1, p2, q1, q2);
    let env = p1.0.min(p2.0) <= q1.0.max(q2.0)
        && q1.0.min(q2.0) <= p1.0.max(p2.0)
        && p1.1.min(p2.1) <= q1.1.max(q2.1)
        && q1.1.min(q2.1) <= p1.1.max(p2.1);
    if env {
        cx.nontrivial();
    }
    cx.ev(match m {
        Meet::None if env => "disjoint, envelopes overlap",
        Meet::None => "disjoint",
        Meet::Touch(_) => "endpoint touch",
        Meet::Proper => "proper crossing",
        Meet::Overlap(_, _) => "collinear overlap",
    });
    // Z at random ends
    let zr = &mut cx.rng;
    let zmode = zr.below(4);
    let mut zs = [f64::NAN; 4];
    for v in zs.iter_mut() {
        if zmode == 1 || (zmode >= 2 && zr.bool()) {
            *v = zr.int(-100, 100) as f64;
        }
    }
    // a coincident endpoint pair: distinct Z values stay allowed (first segment's wins)
    let pm: Option<PrecisionModel> = match cx.rng.below(6) {
        0 => Some(PrecisionModel::new_with_scale(cx.rng.pick(&[1.0, 10.0, 1000.0]))),
        _ => None,
    };
    let scale = if pm.is_some() { pm.unwrap().get_scale() } else { 0.0 };
    let cr = if m == Meet::Proper { cross_lines(p1, p2, q1, q2) } else { None };
    let perms: [[usize; 4]; 8] = [
        [0, 1, 2, 3], [1, 0, 2, 3], [0, 1, 3, 2], [1, 0, 3, 2],
        [2, 3, 0, 1], [3, 2, 0, 1], [2, 3, 1, 0], [3, 2, 1, 0],
    ];
    let pts = [p1, p2, q1, q2];
    helpers(cx, &pts, &zs, &m)?;
    let mut li = RLI::default();
    for pe in perms {
        let a = [pts[pe[0]], pts[pe[1]], pts[pe[2]], pts[pe[3]]];
        let za = [zs[pe[0]], zs[pe[1]], zs[pe[2]], zs[pe[3]]];
        let k: Vec<Coordinate> = (0..4).map(|i| z(a[i], za[i])).collect();
        if cx.rng.bool() {
            li = RLI::default(); // otherwise reuse: a previous call must not matter
        }
        if let Some(m) = pm {
            li.set_precision_model(m);
        }
        li.compute_intersection_4(&k[0], &k[1], &k[2], &k[3]);
        let has = li.has_intersection();
        let s = || format!("segments {} | {}", fmt_ps(&a[0..2]), fmt_ps(&a[2..4]));
        ensure!(cx, has == (m != Meet::None), "{}: intersection reported = {}, exactly = {:?}", s(), has, m);
        let i0 = li.get_intersection(0);
        let i1 = li.get_intersection(1);
        let kind = li.compute_intersect(&k[0], &k[1], &k[2], &k[3]);
        let wk = match m {
            Meet::None => 0,
            Meet::Overlap(_, _) => 2,
            _ => 1,
        };
        ensure!(cx, kind == wk, "{}: kind of intersection {} (0 none, 1 point, 2 collinear), exactly {}", s(), kind, wk);
        match &m {
            Meet::None => {}
            Meet::Touch(t) => {
                ensure!(cx, i0.x == t.0 && i0.y == t.1, "{}: touching at endpoint {:?} but the point reported is ({:?} {:?})", s(), t, i0.x, i0.y);
                let cand = z_candidates(*t, &a, &za);
                ensure!(cx, cand.iter().any(|&w| znear(i0.z, w, 100.0)), "{}: z of ends {:?}: touching point has z {:?}, expected one of {:?}", s(), za, i0.z, cand);
                if !i0.z.is_nan() {
                    cx.ev("Z at touch");
                }
            }
            Meet::Overlap(u, v) => {
                let g = [(i0.x, i0.y), (i1.x, i1.y)];
                let good = (g[0] == *u && g[1] == *v) || (g[0] == *v && g[1] == *u);
                ensure!(cx, good, "{}: overlap is {:?}-{:?} but reported {:?}", s(), u, v, g);
                let n = li.compute_collinear_intersection(&k[0], &k[1], &k[2], &k[3]);
                ensure!(cx, n == 2, "{}: the overlap, taken as collinear, has kind {}", s(), n);
                for i in [&i0, &i1] {
                    let t = (i.x, i.y);
                    let cand = z_candidates(t, &a, &za);
                    ensure!(cx, cand.iter().any(|&w| znear(i.z, w, 100.0)), "{}: z of ends {:?}: overlap end ({:?} {:?}) has z {:?}, expected one of {:?}", s(), za, i.x, i.y, i.z, cand);
                }
            }
            Meet::Proper => {
                let cr = match &cr {
                    Some(q) => q,
                    None => return Err("HARNESS proper crossing of parallel lines".into()),
                };
                let (lox, hix) = (a[0].0.min(a[1].0).max(a[2].0.min(a[3].0)), a[0].0.max(a[1].0).min(a[2].0.max(a[3].0)));
                let (loy, hiy) = (a[0].1.min(a[1].1).max(a[2].1.min(a[3].1)), a[0].1.max(a[1].1).min(a[2].1.max(a[3].1)));
                let half = if scale > 0.0 { 0.5 / scale * (1.0 + 1e-9) + ulp(i0.x.abs().max(i0.y.abs())) * 2.0 } else { 0.0 };
                let inside = i0.x >= lox - half && i0.x <= hix + half && i0.y >= loy - half && i0.y <= hiy + half;
                ensure!(cx, inside, "{}: crossing point ({:?} {:?}) is outside the envelopes of the segments", s(), i0.x, i0.y);
                let tx = cr.x.to_f64().abs() * 2f64.powi(-52) + cr.cx * 2f64.powi(-96) + 1e-300 + half;
                let ty = cr.y.to_f64().abs() * 2f64.powi(-52) + cr.cy * 2f64.powi(-96) + 1e-300 + half;
                let (ex, ey) = (err_f(i0.x, &cr.x), err_f(i0.y, &cr.y));
                let acc = ex <= tx && ey <= ty;
                // ill-conditioned beyond extended precision: the nearest endpoint is the documented surrogate
                let ill = cr.cx * 2f64.powi(-96) > 0.25 * ulp(cr.x.to_f64()) || cr.cy * 2f64.powi(-96) > 0.25 * ulp(cr.y.to_f64());
                if ill {
                    cx.ev("crossing beyond extended precision");
                    let is_end = a.iter().any(|e| e.0 == i0.x && e.1 == i0.y) || scale > 0.0;
                    ensure!(cx, acc || is_end, "{}: crossing point ({:?} {:?}) is off by ({:e} {:e}) and is no endpoint", s(), i0.x, i0.y, ex, ey);
                } else {
                    ensure!(cx, acc, "{}: crossing point ({:?} {:?}) is off the exact one by ({:e} {:e}), more than ({:e} {:e})", s(), i0.x, i0.y, ex, ey, tx, ty);
                }
                // on its own, without the precision model and without the extents
                let g = li.intersection_safe(&k[0], &k[1], &k[2], &k[3]);
                let off = (err_f(g.x, &cr.x), err_f(g.y, &cr.y));
                let near = off.0 <= tx && off.1 <= ty || ill && (a.iter().any(|e| e.0 == g.x && e.1 == g.y) || off.0 <= 16.0 * tx && off.1 <= 16.0 * ty);
                ensure!(cx, near, "{}: the crossing of the lines is {} off the exact one by ({:e} {:e})", s(), g, off.0, off.1);
                if scale > 0.0 {
                    let on = |v: f64| (v * scale - (v * scale).round()).abs() <= 4.0 * ulp(v * scale) + 1e-9;
                    ensure!(cx, on(i0.x) && on(i0.y), "{}: crossing point ({:?} {:?}) is not rounded to scale {}", s(), i0.x, i0.y, scale);
                    cx.ev("precision model applied");
                }
                // Z
                let t = (cr.x.to_f64(), cr.y.to_f64());
                let za1 = zi(t, a[0], za[0], a[1], za[1]);
                let za2 = zi(t, a[2], za[2], a[3], za[3]);
                let wz = if za1.is_nan() { za2 } else if za2.is_nan() { za1 } else { (za1 + za2) / 2.0 };
                let len = |u: P, v: P| ((u.0 - v.0).powi(2) + (u.1 - v.1).powi(2)).sqrt();
                // position error of the point, relative to the shorter segment, moves Z that much
                let rel = (ex + ey + half * 4.0 + ulp(t.0) + ulp(t.1)) / len(a[0], a[1]).min(len(a[2], a[3]));
                let okz = znear(i0.z, wz, 100.0 + 1e13 * rel) || (ill && i0.z.is_nan() == wz.is_nan());
                ensure!(cx, okz, "{}: z of ends {:?}: crossing point has z {:?}, expected {:?}", s(), za, i0.z, wz);
                if !wz.is_nan() {
                    cx.ev("Z interpolated");
                }
            }
        }
    }
    Ok(())
}

/// The building blocks offered on their own: nearest end, extents, Z along a segment.
fn helpers(cx: &mut Cx, pts: &[P; 4], zs: &[f64; 4], m: &Meet) -> R {
    let mut li = RLI::default();
    let k: Vec<Coordinate> = (0..4).map(|i| z(pts[i], zs[i])).collect();
    let s = || format!("segments {} | {} z {:?}", fmt_ps(&pts[0..2]), fmt_ps(&pts[2..4]), zs);
    let ext = max_abs(pts);
    let g = li.nearest_endpoint(&k[0], &k[1], &k[2], &k[3]);
    let far = |i: usize| {
        let (a, b) = if i < 2 { (pts[2], pts[3]) } else { (pts[0], pts[1]) };
        let d2 = crate::props::c08::pt_seg2(pts[i], a, b).0;
        d2.to_f64().max(0.0).sqrt()
    };
    let best = (0..4).map(far).fold(f64::INFINITY, f64::min);
    let at: Vec<usize> = (0..4).filter(|&i| pts[i] == (g.x, g.y)).collect();
    let tol = 1e-13 * ext;
    ensure!(cx, at.iter().any(|&i| far(i) <= best + tol && same(g.z, zs[i])), "{}: nearest end is {} but the least distance is {:?}", s(), g, best);
    let j = cx.rng.us(4);
    let q = match cx.rng.below(3) {
        0 => pts[j],
        1 => (pts[j].0, pts[(j + 1) % 4].1),
        _ => (nudge(pts[j].0, cx.rng.int(-1, 1)), pts[(j + 2) % 4].1),
    };
    li.compute_intersection_4(&k[0], &k[1], &k[2], &k[3]);
    let inside = |q: P, a: P, b: P| q.0 >= a.0.min(b.0) && q.0 <= a.0.max(b.0) && q.1 >= a.1.min(b.1) && q.1 <= a.1.max(b.1);
    let w = inside(q, pts[0], pts[1]) && inside(q, pts[2], pts[3]);
    let g = li.is_in_segment_envelopes(&cxy(q));
    ensure!(cx, g == w, "{}: {:?} in the extents of both is {}", s(), q, g);
    // Z along the first segment at its ends, its middle, and with a Z of its own
    let h = ((pts[0].0 + pts[1].0) / 2.0, (pts[0].1 + pts[1].1) / 2.0);
    for (p, w) in [(pts[0], if zs[0].is_nan() { zs[1] } else { zs[0] }), (pts[1], if zs[1].is_nan() { zs[0] } else { zs[1] }), (h, zi(h, pts[0], zs[0], pts[1], zs[1]))] {
        let slack = if p == h { 200.0 * (ulp(h.0) + ulp(h.1)) / ((pts[0].0 - pts[1].0).abs() + (pts[0].1 - pts[1].1).abs()) } else { 0.0 };
        if !(slack < 1.0) {
            continue;
        }
        let ok = |g: f64| same(g, w) || (g - w).abs() <= 1e-9 + slack * 10.0;
        let g = li.z_interpolate_3(&cxy(p), &k[0], &k[1]);
        ensure!(cx, ok(g), "{}: z at {:?} along the first is {:?}, expected {:?}", s(), p, g, w);
        let g = li.copy_with_z_interpolate(&cxy(p), &k[0], &k[1]);
        ensure!(cx, ok(g.z) && (g.x, g.y) == p, "{}: {:?} with z along the first is {}, expected z {:?}", s(), p, g, w);
        let g = li.get_z_or_interpolate(&z(p, 77.0), &k[0], &k[1]);
        ensure!(cx, g == 77.0, "{}: z of a point with z 77 is {:?}", s(), g);
        let g = li.copy_with_z(&z(p, 77.0), zs[2]);
        ensure!(cx, (g.x, g.y) == p && g.z == if zs[2].is_nan() { 77.0 } else { zs[2] }, "{}: copying {:?} z 77 with z {:?} gives {}", s(), p, zs[2], g);
    }
    // both together: the mean of those there are
    if let Meet::Touch(t) = m {
        let (u, v) = (li.z_interpolate_3(&cxy(*t), &k[0], &k[1]), li.z_interpolate_3(&cxy(*t), &k[2], &k[3]));
        let g = li.z_interpolate_5(&cxy(*t), &k[0], &k[1], &k[2], &k[3]);
        let w = if u.is_nan() { v } else if v.is_nan() { u } else { (u + v) / 2.0 };
        ensure!(cx, same(g, w) || (g - w).abs() <= 1e-9 * (1.0 + w.abs()), "{}: z at {:?} of both is {:?}, expected {:?}", s(), t, g, w);
    }
    Ok(())
}

fn grid(cx: &mut Cx) -> R {
    let st = Style::grid(&mut cx.rng);
    let v = st.pts(&mut cx.rng, 4);
    check(cx, v[0], v[1], v[2], v[3], true)
}
fn lattice(cx: &mut Cx) -> R {
    let st = if cx.rng.chance(1, 4) { Style::flat(&mut cx.rng) } else { Style::lattice(&mut cx.rng) };
    let v = st.pts(&mut cx.rng, 4);
    check(cx, v[0], v[1], v[2], v[3], true)
}
fn general(cx: &mut Cx) -> R {
    let st = Style::any(&mut cx.rng);
    let mut v = st.pts(&mut cx.rng, 4);
    if cx.rng.chance(1, 3) {
        v[2] = (v[0].0 + (v[1].0 - v[0].0) * 0.5 + st.mag() * 0.01, v[2].1);
        return check(cx, v[0], v[1], v[2], v[3], false);
    }
    check(cx, v[0], v[1], v[2], v[3], st.is_exact())
}
fn touching(cx: &mut Cx) -> R {
    // lattice construction: base, primitive-ish direction, integer parameters
    let r = &mut cx.rng;
    let e = r.int(-30, 30) as i32;
    let s = 2f64.powi(e);
    let b = r.pick(&[2u32, 4, 10, 20]);
    let w = 1i64 << b;
    let (bx, by) = (r.int(-w * 8, w * 8), r.int(-w * 8, w * 8));
    let mut d = (r.int(-w, w), r.int(-w, w));
    if r.chance(1, 4) { d.0 = 0 } else if r.chance(1, 4) { d.1 = 0 }
    let f = |k: (i64, i64)| (k.0 as f64 * s, k.1 as f64 * s);
    let at = |k: i64| (bx + k * d.0, by + k * d.1);
    let rnd = |r: &mut Rng| (bx + r.int(-w * 4, w * 4), by + r.int(-w * 4, w * 4));
    let (k1, k2) = (r.int(-4, 4), r.int(-4, 4));
    let (p1, p2) = (at(k1), at(k2));
    let (q1, q2) = match r.below(4) {
        0 => (at(r.int(-5, 5)), at(r.int(-5, 5))),      // collinear
        1 => (at(r.int(-5, 5)), rnd(r)),                  // endpoint on the line
        2 => (p1, rnd(r)),                                // shared endpoint
        _ => {
            // T from the other side / parallel offset
            let o = (r.int(-1, 1), r.int(-1, 1));
            let (u, v) = (at(r.int(-5, 5)), at(r.int(-5, 5)));
            ((u.0 + o.0, u.1 + o.1), (v.0 + o.0, v.1 + o.1))
        }
    };
    check(cx, f(p1), f(p2), f(q1), f(q2), true)
}
fn hard(cx: &mut Cx) -> R {
    let (a, b, q, ex) = near_collinear(&mut cx.rng);
    let r = &mut cx.rng;
    let o = match r.below(3) {
        0 => {
            // the other end across the segment near q
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            if ex { (q.0 + (a.1 - b.1).signum() * (1.0f64).max(0.0), q.1 + dx.signum()) } else { (q.0 - dy, q.1 + dx) }
        }
        1 => (2.0 * a.0 - q.0, 2.0 * a.1 - q.1),
        _ => (b.0 + a.0 - q.0, b.1 + a.1 - q.1),
    };
    // recheck the lattice claim for the derived point
    let okl = ex && [a, b, q, o].iter().all(|p| p.0.abs() <= 2f64.powi(50) && p.1.abs() <= 2f64.powi(50) && p.0.fract() == 0.0 && p.1.fract() == 0.0);
    check(cx, a, b, q, o, okl)
}
fn point_on(cx: &mut Cx) -> R {
    let (a, b, q, ex) = if cx.rng.bool() {
        near_collinear(&mut cx.rng)
    } else {
        let st = if cx.rng.chance(1, 4) { Style::flat(&mut cx.rng) } else { Style::exact(&mut cx.rng) };
        let v = st.pts(&mut cx.rng, 3);
        let q = if cx.rng.chance(1, 4) { v[0] } else { v[2] };
        (v[0], v[1], q, true)
    };
    cx.key(&[a.0, a.1, b.0, b.1, q.0, q.1]);
    cx.desc(|| format!("point {:?} on segment {}", q, fmt_ps(&[a, b])));
    if !ex && !(decidable(a, b, q) && decidable(b, a, q)) {
        cx.ev("not asserted (beyond double-double)");
        return Ok(());
    }
    let want = on_seg(q, a, b);
    let mut li = RLI::default();
    for (u, v) in [(a, b), (b, a)] {
        li.compute_intersection_3(&c(q), &c(u), &c(v));
        ensure!(cx, li.has_intersection() == want, "point {:?} on segment {}: reported {}, exactly {}", q, fmt_ps(&[u, v]), li.has_intersection(), want);
        // and as a zero-length segment
        li.compute_intersection_4(&c(u), &c(v), &c(q), &c(q));
        ensure!(cx, li.has_intersection() == want, "segment {} against the zero-length segment at {:?}: reported {}, exactly {}", fmt_ps(&[u, v]), q, li.has_intersection(), want);
        li.compute_intersection_4(&c(q), &c(q), &c(u), &c(v));
        ensure!(cx, li.has_intersection() == want, "zero-length segment at {:?} against {}: reported {}, exactly {}", q, fmt_ps(&[u, v]), li.has_intersection(), want);
    }
    cx.ev(if want { "point on segment" } else { "point off segment" });
    if want || orient(a, b, q) == 0 {
        cx.nontrivial();
    }
    Ok(())
}

/// An intersector that has answered other questions answers as a fresh one does.
fn history(cx: &mut Cx) -> R {
    let st = match cx.rng.below(4) {
        0 => Style::flat(&mut cx.rng),
        // few points, axes far apart: repeats of the same steep and flat lines
        1 => Style::Flat(1, cx.rng.int(-30, 30) as i32, cx.rng.int(-30, 30) as i32),
        _ => Style::grid(&mut cx.rng),
    };
    let mut li = RLI::default();
    ensure!(cx, !li.has_intersection(), "an intersector that was asked nothing reports an intersection");
    let mut said: Vec<String> = vec![];
    let mut last = None;
    for _ in 0..cx.rng.int(2, 8) {
        let v = st.pts(&mut cx.rng, 4);
        let zz: Vec<f64> = (0..4).map(|_| if cx.rng.bool() { cx.rng.int(-9, 9) as f64 } else { f64::NAN }).collect();
        let k: Vec<Coordinate> = (0..4).map(|i| z(v[i], zz[i])).collect();
        cx.key(&[v[0].0, v[0].1, v[1].0, v[1].1, v[2].0, v[2].1, v[3].0, v[3].1]);
        let mut fresh = RLI::default();
        if cx.rng.bool() {
            if v[1] == v[2] { continue; }
            let on = if cx.rng.chance(1, 3) { z(v[cx.rng.int(1, 2) as usize], zz[0]) } else { k[0].clone() };
            said.push(format!("point {} on {}", on, fmt_ps(&v[1..3])));
            li.compute_intersection_3(&on, &k[1], &k[2]);
            fresh.compute_intersection_3(&on, &k[1], &k[2]);
            let want = on_seg((on.x, on.y), v[1], v[2]);
            ensure!(cx, li.has_intersection() == want && fresh.has_intersection() == want, "asked in turn: {}: the last answered {} (afresh {}), exactly {}", said.join("; "), li.has_intersection(), fresh.has_intersection(), want);
        } else {
            if v[0] == v[1] || v[2] == v[3] { continue; }
            said.push(format!("segments {} | {}", fmt_ps(&v[0..2]), fmt_ps(&v[2..4])));
            li.compute_intersection_4(&k[0], &k[1], &k[2], &k[3]);
            fresh.compute_intersection_4(&k[0], &k[1], &k[2], &k[3]);
            let m = meet(v[0], v[1], v[2], v[3]);
            ensure!(cx, li.has_intersection() == (m != Meet::None), "asked in turn: {}: the last answered {}, exactly {:?}", said.join("; "), li.has_intersection(), m);
            let n = match m { Meet::None => 0, Meet::Overlap(..) => 2, _ => 1 };
            for i in 0..n {
                let (a, b) = (li.get_intersection(i), fresh.get_intersection(i));
                ensure!(cx, same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z), "asked in turn: {}: point {} of the last answer is {} but a fresh intersector says {}", said.join("; "), i, a, b);
            }
        }
        if last.is_some() && last != Some(li.has_intersection()) {
            cx.nontrivial();
            cx.ev("answer after a different answer");
        }
        last = Some(li.has_intersection());
    }
    let d = said.join("; ");
    cx.desc(|| d);
    Ok(())
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
