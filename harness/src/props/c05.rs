//! Ring direction.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use geos_rs::verif_hooks::algorithm::orientation::Orientation;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        quick: 4_000_000,
        families: vec![
            Family { name: "simple rings", weight: 6, run: simple },
            Family { name: "flat rings", weight: 1, run: flat },
            Family { name: "area sign of any closed ring", weight: 2, run: area },
        ],
        rule: "Simple rings (rectilinear with flat tops, untangled grid tours, stars, thin triangles), both directions, every kind of starting vertex, with repeated points and collinear vertices inserted; collapsed rings; arbitrary self-crossing closed rings for the area-based variant. Oracle: sign of the exact area.",
        assumptions: &["the ring is closed and simple (touching and self-crossing rings are judged only by the area-based variant)", "the area-based variant is asserted where the area exceeds the rounding bound of its sum"],
        need: &[("counter-clockwise", 50000), ("clockwise", 50000), ("flat top", 50000), ("repeated points", 50000), ("starts at a top", 20000), ("flat ring", 20000)],
    }
}

fn seq(cx: &mut Cx, v: &[Coordinate]) -> CoordinateArraySequence {
    let (d, m) = cx.rng.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]);
    CoordinateArraySequence::new_with_coordinates_dimension_measures(v.to_vec(), d, m)
}

fn area_decided(ring: &[P], a2: &Dy) -> bool {
    if ring.is_empty() {
        return true;
    }
    // rounding of sum of (x - x0)(y' - y'')
    let mut s = 0.0;
    for w in ring.windows(3) {
        s += (w[1].0 - ring[0].0).abs() * (w[0].1 - w[2].1).abs();
    }
    let m = max_abs(ring);
    let exact = m < 1e6 && ring.iter().all(|p| p.0 == p.0.trunc() && p.1 == p.1.trunc());
    exact || a2.abs().to_f64() > s * 1e-15 * (ring.len() as f64 + 4.0)
}

fn check_area(cx: &mut Cx, ring: &[P], v: &Vec<Coordinate>) -> R {
    let a2 = area2(ring);
    if area_decided(ring, &a2) {
        let g = Orientation::is_ccw_area_vec(v);
        ensure!(cx, g == (a2.sign() > 0), "is_ccw_area says {} for ring {} of doubled signed area {:?}", g, fmt_ps(ring), a2.to_f64());
        cx.ev("area variant compared");
    }
    Ok(())
}

fn simple(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let base = simple_ring(r);
    let mut ring = base;
    if r.bool() {
        ring = decorate(r, &ring);
    }
    // sometimes repeat the closing point
    if r.chance(1, 6) {
        let f = ring[0];
        ring.push(f);
    }
    if r.chance(1, 6) {
        let f = ring[0];
        ring.insert(0, f);
    }
    if ring.windows(2).any(|w| w[0] == w[1]) {
        cx.ev("repeated points");
    }
    let top = ring.iter().fold(f64::NEG_INFINITY, |m, p| m.max(p.1));
    if ring.windows(2).any(|w| w[0].1 == top && w[1].1 == top && w[0] != w[1]) {
        cx.ev("flat top");
    }
    if ring[0].1 == top {
        cx.ev("starts at a top");
    }
    for p in &ring {
        cx.key(&[p.0, p.1]);
    }
    cx.desc(|| fmt_ps(&ring));
    cx.nontrivial();
    let ccw = area2(&ring).sign() > 0;
    cx.ev(if ccw { "counter-clockwise" } else { "clockwise" });
    let v = if cx.rng.bool() {
        cs(&ring)
    } else {
        ring.iter().map(|&p| Coordinate::new_xyzm(p.0, p.1, cx.rng.range(-9.0, 9.0), cx.rng.range(-9.0, 9.0))).collect()
    };
    let g = Orientation::is_ccw_vec(&v);
    ensure!(cx, g == ccw, "is_ccw says {} for ring {} of doubled signed area {:?}", g, fmt_ps(&ring), area2(&ring).to_f64());
    let s = seq(cx, &v);
    let g = Orientation::is_ccw_coordinate_array_sequence(&s);
    ensure!(cx, g == ccw, "is_ccw of a sequence says {} for ring {} of doubled signed area {:?}", g, fmt_ps(&ring), area2(&ring).to_f64());
    let mut back = v.clone();
    back.reverse();
    let g = Orientation::is_ccw_vec(&back);
    ensure!(cx, g != ccw, "is_ccw says {} for both directions of ring {}", g, fmt_ps(&ring));
    check_area(cx, &ring, &v)
}

fn flat(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::exact(r);
    let ring: Vec<P> = match r.below(5) {
        0 => {
            // points along one sloping line, in any order
            let (a, d) = ((r.int(-50, 50), r.int(-50, 50)), (r.int(-9, 9), r.int(-9, 9)));
            let n = 1 + r.len(6);
            let mut v: Vec<P> = (0..n)
                .map(|_| {
                    let k = r.int(-9, 9);
                    ((a.0 + k * d.0) as f64, (a.1 + k * d.1) as f64)
                })
                .collect();
            let f = v[0];
            v.push(f);
            v
        }
        1 => {
            let y = st.ord(r);
            let n = 2 + r.len(5);
            let mut v: Vec<P> = (0..n).map(|_| (st.ord(r), y)).collect();
            let f = v[0];
            v.push(f);
            v
        }
        2 => {
            // a single point, repeated
            let p = st.pt(r);
            vec![p; r.len(7)]
        }
        3 => {
            // out and back
            let (a, b) = (st.pt(r), st.pt(r));
            vec![a, b, a]
        }
        _ => {
            let x = st.ord(r);
            let n = 2 + r.len(4);
            let mut v: Vec<P> = (0..n).map(|_| (x, st.ord(r))).collect();
            let f = v[0];
            v.push(f);
            v
        }
    };
    for p in &ring {
        cx.key(&[p.0, p.1]);
    }
    cx.desc(|| fmt_ps(&ring));
    cx.ev("flat ring");
    cx.nontrivial();
    let v = cs(&ring);
    let g = Orientation::is_ccw_vec(&v);
    ensure!(cx, !g, "is_ccw says true for the flat ring {}", fmt_ps(&ring));
    let s = seq(cx, &v);
    let g = Orientation::is_ccw_coordinate_array_sequence(&s);
    ensure!(cx, !g, "is_ccw of a sequence says true for the flat ring {}", fmt_ps(&ring));
    check_area(cx, &ring, &v)
}

fn area(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let n = 1 + r.len(8);
    let mut ring = st.pts(r, n);
    let f = ring[0];
    ring.push(f);
    for p in &ring {
        cx.key(&[p.0, p.1]);
    }
    cx.desc(|| fmt_ps(&ring));
    if area2(&ring).sign() != 0 {
        cx.nontrivial();
    }
    let v = cs(&ring);
    check_area(cx, &ring, &v)
}
