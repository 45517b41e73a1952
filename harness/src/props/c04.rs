//! Point location: rings, lines, segments.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::point_location::PointLocation;
use geos_rs::verif_hooks::algorithm::ray_crossing_counter::RayCrossingCounter;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;
use geos_rs::verif_hooks::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble;
use geos_rs::verif_hooks::geom::location::Location;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        quick: 4_000_000,
        families: vec![
            Family { name: "point in simple ring", weight: 4, run: simple },
            Family { name: "point in arbitrary closed ring", weight: 3, run: arbitrary },
            Family { name: "point in rings fed to one counter", weight: 2, run: counter },
            Family { name: "point on line and segment", weight: 3, run: on_line },
        ],
        rule: "Simple rings (rectilinear with flat runs, untangled tours, stars, triangles), self-crossing and degenerate closed rings, several rings fed segment by segment in shuffled order; test points at vertices, on edges, one ulp or one unit off an edge, level with vertices, far away, random. Oracle: exact even-odd crossing parity with exact boundary test.",
        assumptions: &["rings are closed (first point equals last)", "outside the exact lattices only edges whose orientation is decided above extended precision"],
        need: &[("interior", 50000), ("boundary", 50000), ("exterior", 50000), ("level with a vertex", 50000), ("on line", 20000), ("off line", 20000)],
    }
}

/// a test point related to the ring
fn probe(r: &mut Rng, ring: &[P], st: Option<Style>) -> P {
    let n = ring.len();
    let v = ring[r.us(n)];
    let w = ring[r.us(n)];
    match r.below(8) {
        0 => v,
        1 => {
            let i = r.us(n.max(2) - 1);
            let (a, b) = (ring[i], ring[(i + 1) % n]);
            ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0)
        }
        2 => (w.0, v.1),
        3 => ((v.0 + w.0) / 2.0, v.1),
        4 => {
            let i = r.us(n.max(2) - 1);
            let (a, b) = (ring[i], ring[(i + 1) % n]);
            let t = r.unit();
            (nudge(a.0 + t * (b.0 - a.0), r.int(-1, 1)), nudge(a.1 + t * (b.1 - a.1), r.int(-1, 1)))
        }
        5 => (nudge(v.0, r.int(-2, 2)), nudge(v.1, r.int(-2, 2))),
        6 => {
            // left or right of everything, level with a vertex
            let m = max_abs(ring) * 2.0 + 1.0;
            (if r.bool() { m } else { -m }, v.1)
        }
        _ => match st {
            Some(s) => s.pt(r),
            None => {
                let t = |r: &mut Rng, a: f64, b: f64| (a + b) / 2.0 + if r.bool() { 0.0 } else { (a - b) * r.unit() };
                (t(r, v.0, w.0), t(r, v.1, w.1))
            }
        },
    }
}

fn name(l: i32) -> &'static str {
    ["interior", "boundary", "exterior"][l as usize]
}
fn all_decided(p: P, ring: &[P]) -> bool {
    ring.windows(2).all(|w| w[0] == w[1] || decided(w[0], w[1], p))
}

fn with_z(r: &mut Rng, ps: &[P]) -> Vec<Coordinate> {
    ps.iter().map(|&p| Coordinate::new_xyzm(p.0, p.1, r.range(-9.0, 9.0), r.range(-9.0, 9.0))).collect()
}
fn packed(r: &mut Rng, ps: &[P]) -> PackedCoordinateSequenceDouble {
    let dim = 2 + r.us(3);
    let mut v = vec![];
    for p in ps {
        v.push(p.0);
        v.push(p.1);
        for _ in 2..dim {
            v.push(r.range(-9.0, 9.0));
        }
    }
    PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&v, dim as i32, (dim == 4) as i32)
}

fn in_ring(cx: &mut Cx, p: P, ring: &[P]) -> R {
    for q in ring {
        cx.key(&[q.0, q.1]);
    }
    cx.key(&[p.0, p.1]);
    cx.desc(|| format!("point {} in ring {}", fmt_ps(&[p]), fmt_ps(ring)));
    if !all_decided(p, ring) {
        cx.ev("not asserted (beyond double-double)");
        return Ok(());
    }
    let want = locate(p, ring);
    cx.ev(name(want));
    if ring.iter().any(|v| v.1 == p.1) {
        cx.ev("level with a vertex");
        cx.nontrivial();
    }
    if want != 2 {
        cx.nontrivial();
    }
    let pc = c(p);
    let code = [Location::INTERIOR, Location::BOUNDARY, Location::EXTERIOR][want as usize];
    let v = if cx.rng.bool() { cs(ring) } else { with_z(&mut cx.rng, ring) };
    let seq = {
        let (d, m) = cx.rng.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]);
        CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), d, m)
    };
    let pk = packed(&mut cx.rng, ring);
    let got = [
        ("PointLocation::locate_in_ring", PointLocation::locate_in_ring(&pc, &v)),
        ("RayCrossingCounter on a vector", RayCrossingCounter::locate_point_in_ring_vec(&pc, &v)),
        ("RayCrossingCounter on a sequence", RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&pc, &seq)),
        ("RayCrossingCounter on a packed sequence", RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&pc, &pk)),
    ];
    for (n, g) in got {
        ensure!(cx, g == code, "{}: point {} is {} of ring {} but located as {}", n, fmt_ps(&[p]), name(want), fmt_ps(ring), g);
    }
    let b = PointLocation::is_in_ring(&pc, &v);
    ensure!(cx, b == (want != 2), "is_in_ring says {} for point {} which is {} of ring {}", b, fmt_ps(&[p]), name(want), fmt_ps(ring));
    Ok(())
}

fn simple(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut ring = simple_ring(r);
    if r.bool() {
        ring = decorate(r, &ring);
    }
    for _ in 0..3 {
        let p = probe(&mut cx.rng, &ring, None);
        in_ring(cx, p, &ring)?;
    }
    Ok(())
}
fn arbitrary(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.chance(1, 3) { Style::any(r) } else { Style::Grid(r.pick(&[1, 2, 3, 5])) };
    let n = 1 + r.len(8);
    let mut ring = st.pts(r, n);
    let f = ring[0];
    ring.push(f);
    let p = probe(r, &ring, Some(st));
    if r.chance(1, 50) {
        // no points at all, or one elsewhere
        cx.ev("ring of fewer than two points");
        let few: Vec<P> = ring.iter().take(cx.rng.us(2)).cloned().filter(|q| *q != p).collect();
        return in_ring(cx, p, &few);
    }
    in_ring(cx, p, &ring)
}

fn counter(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let k = 1 + r.len(3);
    let mut rings: Vec<Vec<P>> = vec![];
    let st = Style::Grid(r.pick(&[3, 6]));
    for _ in 0..k {
        if r.bool() {
            rings.push(simple_ring(r));
        } else {
            let n = 2 + r.len(5);
            let mut v = st.pts(r, n);
            let f = v[0];
            v.push(f);
            rings.push(v);
        }
    }
    let i = r.us(k);
    let p = probe(r, &rings[i].clone(), Some(st));
    // segments of each ring in the ring's direction; the order of feeding is free
    let mut segs: Vec<(P, P)> = vec![];
    for g in &rings {
        let back = r.bool();
        for w in g.windows(2) {
            segs.push(if back { (w[1], w[0]) } else { (w[0], w[1]) });
        }
    }
    for i in (1..segs.len()).rev() {
        let j = r.us(i + 1);
        segs.swap(i, j);
    }
    for s in &segs {
        cx.key(&[s.0 .0, s.0 .1, s.1 .0, s.1 .1]);
    }
    cx.key(&[p.0, p.1]);
    cx.desc(|| format!("point {} against {} rings {:?}", fmt_ps(&[p]), rings.len(), rings));
    if rings.iter().any(|g| !all_decided(p, g)) {
        return Ok(());
    }
    cx.nontrivial();
    let locs: Vec<i32> = rings.iter().map(|g| locate(p, g)).collect();
    let want = if locs.contains(&1) { 1 } else if locs.iter().filter(|&&l| l == 0).count() % 2 == 1 { 0 } else { 2 };
    cx.ev(name(want));
    let mut rc = RayCrossingCounter::new_with_coordinate(&c(p));
    for (a, b) in &segs {
        rc.count_segment(&c(*a), &c(*b));
    }
    let code = [Location::INTERIOR, Location::BOUNDARY, Location::EXTERIOR][want as usize];
    let (on, loc, inp, cnt) = (rc.is_on_segment(), rc.get_location(), rc.is_point_in_polygon(), rc.get_count());
    ensure!(cx, on == (want == 1), "counter says on-segment {} but the point {} is {} of rings {:?} (segments fed {:?})", on, fmt_ps(&[p]), name(want), rings, segs);
    ensure!(cx, loc == code, "counter locates {} as {} but it is {} of rings {:?} (segments fed {:?})", fmt_ps(&[p]), loc, name(want), rings, segs);
    ensure!(cx, inp == (want != 2), "counter says in-polygon {} for {} which is {} of rings {:?}", inp, fmt_ps(&[p]), name(want), rings);
    if want != 1 {
        ensure!(cx, cnt >= 0 && (cnt % 2 == 1) == (want == 0), "counter counted {} crossings for {} which is {} of rings {:?}", cnt, fmt_ps(&[p]), name(want), rings);
    }
    Ok(())
}

fn on_line(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let line: Vec<P>;
    let p;
    if r.chance(1, 3) {
        let (a, b, q, _) = near_collinear(r);
        line = vec![a, b];
        p = q;
    } else {
        let st = Style::any(r);
        let n = r.len(6);
        let mut v = st.pts(r, n);
        if r.chance(1, 4) && n > 1 {
            v[1] = v[0];
        }
        p = if n == 0 { st.pt(r) } else { probe(r, &v, Some(st)) };
        line = v;
    }
    for q in &line {
        cx.key(&[q.0, q.1]);
    }
    cx.key(&[p.0, p.1]);
    cx.desc(|| format!("point {} on line {}", fmt_ps(&[p]), fmt_ps(&line)));
    if !all_decided(p, &line) {
        return Ok(());
    }
    if line.len() > 1 {
        cx.nontrivial();
    }
    let mut any = false;
    let v = if cx.rng.bool() { cs(&line) } else { with_z(&mut cx.rng, &line) };
    let pc = c(p);
    for (i, w) in line.windows(2).enumerate() {
        let want = on_seg(p, w[0], w[1]);
        any |= want;
        for (a, b) in [(&v[i], &v[i + 1]), (&v[i + 1], &v[i])] {
            let g = PointLocation::is_on_segment(&pc, a, b);
            ensure!(cx, g == want, "is_on_segment says {} for {} and segment {}, exactly it is {}", g, fmt_ps(&[p]), fmt_ps(&[w[0], w[1]]), want);
        }
    }
    cx.ev(if any { "on line" } else { "off line" });
    let g = PointLocation::is_on_line_coordinates(&pc, &v);
    ensure!(cx, g == any, "is_on_line says {} for {} and line {}, exactly it is {}", g, fmt_ps(&[p]), fmt_ps(&line), any);
    let (d, m) = cx.rng.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]);
    let seq = CoordinateArraySequence::new_with_coordinates_dimension_measures(v, d, m);
    let g = PointLocation::is_on_line_coordinate_array_sequence(&pc, &seq);
    ensure!(cx, g == any, "is_on_line on a sequence says {} for {} and line {}, exactly it is {}", g, fmt_ps(&[p]), fmt_ps(&line), any);
    Ok(())
}
