//! No operation remembers: the same inputs give the same answer, bit for bit,
//! whatever was computed before, in whatever order, by whichever thread, and by
//! an object whatever it was asked before.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::ops::*;
use geos_rs::verif_hooks::algorithm::robust_line_intersector::RobustLineIntersector;
use geos_rs::verif_hooks::geom::envelope::Envelope;
use geos_rs::verif_hooks::geom::geometry_factory::GeometryFactory as GF;
use geos_rs::verif_hooks::geom::multi_polygon::MultiPolygon;
use geos_rs::verif_hooks::geom::polygon::Polygon;
use geos_rs::verif_hooks::geom::precision_model::PrecisionModel;

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        quick: 160_000,
        families: vec![
            Family { name: "order and repetition", weight: 10, run: order },
            Family { name: "threads", weight: 1, run: threads },
            Family { name: "questions to one object", weight: 10, run: questions },
        ],
        rule: "Two bundles of inputs (C26's); each operation of the catalogue is recorded bit by bit on one, then again in a random order interleaved with the other bundle, and by three threads at once; one geometry, line intersector or precision model is asked random questions and each answer compared with a fresh object's.",
        assumptions: &["thread schedules are those the operating system gives"],
        need: &[("records compared", 1_000_000), ("records compared across threads", 50_000), ("questions to an object asked before", 100_000)],
    }
}

fn rec(k: usize, a: &In) -> Vec<u64> {
    let mut o = Out::default();
    (OPS[k].1)(a, &mut o);
    o.0
}
fn pick(cx: &mut Cx) -> In {
    let h = match cx.rng.below(5) {
        0 => Hostile::Special,
        1 | 2 => Hostile::Grid,
        _ => Hostile::Finite,
    };
    make(&mut cx.rng, h)
}
/// another bundle, often one that differs in little
fn other(cx: &mut Cx, a: &In) -> In {
    if cx.rng.chance(1, 4) {
        return pick(cx);
    }
    let mut b = a.clone();
    // one ordinate, seen or unseen by the plane
    let one = |r: &mut crate::rng::Rng, p: &mut geos_rs::verif_hooks::geom::coordinate::Coordinate| {
        let g = |r: &mut crate::rng::Rng, v: f64| match r.below(4) {
            0 => -v,
            1 if v.is_finite() => nudge(v, 1),
            2 if v.is_finite() => v + 1.0,
            _ => r.int(-3, 3) as f64,
        };
        match r.below(6) {
            0 | 1 => p.x = g(r, p.x),
            2 | 3 => p.y = g(r, p.y),
            4 => p.z = g(r, p.z),
            _ => std::mem::swap(&mut p.x, &mut p.y),
        }
    };
    match cx.rng.below(10) {
        5 => {
            let i = cx.rng.us(b.p.len());
            one(&mut cx.rng, &mut b.p[i]);
        }
        6 => {
            for i in 0..b.p.len() {
                one(&mut cx.rng, &mut b.p[i]);
            }
        }
        7 => {
            // the same size and ends, another vertex
            for l in b.lists.iter_mut() {
                if l.len() > 2 {
                    let i = 1 + cx.rng.us(l.len() - 2);
                    one(&mut cx.rng, &mut l[i]);
                }
            }
        }
        8 => {
            for l in b.lists.iter_mut() {
                if l.len() > 4 && cx.rng.bool() {
                    l.remove(2);
                } else {
                    l.reverse();
                }
            }
        }
        9 => {
            let i = cx.rng.us(b.f.len());
            b.f[i] = if b.f[i].is_finite() && cx.rng.bool() { nudge(b.f[i], 1) } else { -b.f[i] };
        }
        0 => b.p.reverse(),
        1 => b.lists.rotate_left(1),
        2 => b.f.rotate_left(1),
        3 => {
            let i = cx.rng.us(b.p.len());
            b.p[i].x = if b.p[i].x.is_finite() { nudge(b.p[i].x, 1) } else { 0.5 };
        }
        _ => {
            b.scale = 1.0 / b.scale;
            b.im.reverse();
        }
    }
    b
}
fn orders(cx: &mut Cx) -> Vec<(bool, usize)> {
    let mut q: Vec<(bool, usize)> = (0..OPS.len()).flat_map(|k| [(false, k), (true, k)]).collect();
    for i in (1..q.len()).rev() {
        let j = cx.rng.us(i + 1);
        q.swap(i, j);
    }
    q
}
fn order(cx: &mut Cx) -> R {
    let a = pick(cx);
    let b = other(cx, &a);
    show(cx, &a, "first");
    cx.nontrivial();
    let ra: Vec<_> = (0..OPS.len()).map(|k| rec(k, &a)).collect();
    let rb: Vec<_> = (0..OPS.len()).rev().map(|k| rec(k, &b)).collect::<Vec<_>>().into_iter().rev().collect();
    if cx.rng.bool() {
        // one straight after the other
        for k in 0..OPS.len() {
            for (x, want) in [(&a, &ra), (&b, &rb), (&b, &rb), (&a, &ra)] {
                let got = rec(k, x);
                cx.ev("records compared");
                ensure!(cx, got == want[k], "'{}' gives something else straight after another, for {}", OPS[k].0, x.show());
            }
        }
    }
    for (w, k) in orders(cx) {
        let (x, want): (&In, &Vec<Vec<u64>>) = if w { (&b, &rb) } else { (&a, &ra) };
        let got = rec(k, x);
        cx.ev("records compared");
        ensure!(cx, got == want[k], "'{}' gives something else the second time, for {}", OPS[k].0, x.show());
    }
    Ok(())
}
fn threads(cx: &mut Cx) -> R {
    let a = pick(cx);
    let b = other(cx, &a);
    show(cx, &a, "threads");
    cx.nontrivial();
    let ra: Vec<_> = (0..OPS.len()).map(|k| rec(k, &a)).collect();
    let rb: Vec<_> = (0..OPS.len()).map(|k| rec(k, &b)).collect();
    let qs: Vec<_> = (0..3).map(|_| orders(cx)).collect();
    let bar = std::sync::Barrier::new(3);
    let bad: Vec<Option<(bool, usize)>> = std::thread::scope(|s| {
        let hs: Vec<_> = qs
            .iter()
            .map(|q| {
                let (a, b, ra, rb, bar) = (&a, &b, &ra, &rb, &bar);
                s.spawn(move || {
                    bar.wait();
                    q.iter().copied().find(|&(w, k)| if w { rec(k, b) != rb[k] } else { rec(k, a) != ra[k] })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some((false, 0)))).collect()
    });
    cx.evn("records compared across threads", 3 * 2 * OPS.len() as u64);
    for x in bad {
        ensure!(cx, x.is_none(), "'{}' gives something else on another thread", OPS[x.unwrap().1].0);
    }
    Ok(())
}

/// one object asked many questions, against a fresh object for each
fn ask<T>(cx: &mut Cx, what: &str, mk: &dyn Fn() -> T, qs: &[(&str, &dyn Fn(&mut T, &mut Out))]) -> R {
    let mut used = mk();
    let mut seen = vec![];
    for _ in 0..cx.rng.len(8) + 2 {
        let i = cx.rng.us(qs.len());
        let (mut x, mut y) = (Out::default(), Out::default());
        (qs[i].1)(&mut used, &mut x);
        (qs[i].1)(&mut mk(), &mut y);
        cx.ev("questions to an object asked before");
        cx.key_u(i as u64);
        ensure!(cx, x.0 == y.0, "{} asked {:?} and then '{}' answers otherwise than a fresh one", what, seen, qs[i].0);
        seen.push(qs[i].0);
    }
    Ok(())
}
fn questions(cx: &mut Cx) -> R {
    // the extent of not-a-number depends on where a ring starts
    let h = if cx.rng.chance(1, 2) { Hostile::Grid } else { Hostile::Finite };
    let a = make(&mut cx.rng, h);
    let b = make(&mut cx.rng, h);
    show(cx, &a, "questions");
    cx.nontrivial();
    let (p, q) = (&a.p, &b.p);
    let rings = a.lists.iter().all(|l| l.is_empty() || (l[0].x == l[l.len() - 1].x && l[0].y == l[l.len() - 1].y));
    match cx.rng.below(5) {
        0 => ask(cx, "a line intersector", &|| RobustLineIntersector::default(), &[
            ("segments", &|li: &mut RobustLineIntersector, o| {
                li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
                answers(li, o)
            }),
            ("other segments", &|li, o| {
                li.compute_intersection_4(&q[0], &q[1], &q[3], &q[2]);
                answers(li, o)
            }),
            ("touching segments", &|li, o| {
                li.compute_intersection_4(&p[0], &p[1], &p[1], &q[2]);
                answers(li, o)
            }),
            ("overlapping segments", &|li, o| {
                li.compute_intersection_4(&p[0], &p[1], &p[1], &p[0]);
                answers(li, o)
            }),
            ("a point", &|li, o| {
                li.compute_intersection_3(&p[0], &p[1], &p[2]);
                o.u(li.has_intersection() as u64);
            }),
            ("an end point", &|li, o| {
                li.compute_intersection_3(&p[1], &p[1], &p[2]);
                o.u(li.has_intersection() as u64);
            }),
        ]),
        1 => ask(cx, "a polygon", &|| a.polygon(), &[
            ("area", &|g: &mut Polygon, o| o.f(g.get_area())),
            ("length", &|g, o| o.f(g.get_length())),
            ("envelope", &|g, o| ext(o, &g.get_envelope_internal())),
            ("coordinates", &|g, o| o.cs(&g.get_coordinates())),
            ("rectangle", &|g, o| o.u(g.is_rectangle() as u64)),
            ("reverse", &|g, o| {
                let mut h = g.reverse();
                o.cs(&h.get_coordinates());
                ext(o, &h.get_envelope_internal());
            }),
            ("centroid", &|g, o| o.oc(&g.get_centroid().get_coordinate())),
            ("comparison", &|g, o| {
                o.u(g.compare_to(&b.polygon()) as u64);
                o.u(g.equals_exact(&b.polygon(), 0.5) as u64);
            }),
            ("normal form of a copy", &|g, o| {
                let mut h = g.clone();
                h.self_normalize();
                o.cs(&h.get_coordinates());
                // the normal form of a ring that is none covers something else
                if rings {
                    ext(o, &h.get_envelope_internal());
                }
            }),
        ]),
        2 => ask(cx, "a collection of polygons", &|| MultiPolygon::new_with_polygons(&vec![a.polygon(), b.polygon()]), &[
            ("area", &|g: &mut MultiPolygon, o| o.f(g.get_area())),
            ("centroid", &|g, o| o.oc(&g.get_centroid().get_coordinate())),
            ("reverse", &|g, o| {
                let r = g.reverse();
                o.f(r.get_area());
                o.oc(&r.get_centroid().get_coordinate());
                o.u(r.equals_exact(MultiPolygon::new_with_polygons(&vec![a.polygon(), b.polygon()]), 1.0) as u64);
            }),
            ("equality", &|g, o| o.u(g.equals_exact(MultiPolygon::new_with_polygons(&vec![b.polygon(), a.polygon()]), 1.0) as u64)),
        ]),
        3 => ask(cx, "a precision model", &|| PrecisionModel::new_with_scale(a.scale), &[
            ("a number", &|m: &mut PrecisionModel, o| o.f(m.make_precise(a.f[0]))),
            ("another number", &|m, o| o.f(m.make_precise(a.f[1]))),
            ("a coordinate", &|m, o| {
                let mut c = p[0];
                m.make_precise_coordinate(&mut c);
                o.c(&c);
            }),
            ("digits", &|m, o| o.u(m.get_maximum_significant_digits() as u64)),
            ("grid", &|m, o| o.f(m.grid_size())),
            ("scale", &|m, o| o.f(m.get_scale())),
        ]),
        _ => ask(cx, "a line", &|| GF::create_line_string_coordinate_array_sequence(&a.seq(0)), &[
            ("length", &|g, o| o.f(g.get_length())),
            ("envelope", &|g, o| ext(o, &g.compute_envelope_internal())),
            ("closed", &|g, o| o.u(g.is_closed() as u64)),
            ("reverse", &|g, o| o.cs(&g.reverse().get_coordinates())),
            ("normal form of a copy", &|g, o| {
                let mut h = g.clone();
                h.normalize();
                o.cs(&h.get_coordinates());
            }),
            ("comparison", &|g, o| o.u(g.compare_to(&GF::create_line_string_coordinate_array_sequence(&b.seq(0))) as u64)),
            ("point", &|g, o| o.u(g.is_coordinate(&p[0]) as u64)),
        ]),
    }
}
/// an extent, the sign of zero apart: it may be that of any of the points there
fn ext(o: &mut Out, e: &Envelope) {
    o.u(e.is_null() as u64);
    for x in [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()] {
        o.f(x + 0.0);
    }
}
fn answers(li: &mut RobustLineIntersector, o: &mut Out) {
    o.u(li.has_intersection() as u64);
    if li.has_intersection() {
        o.c(&li.get_intersection(0));
    }
}
