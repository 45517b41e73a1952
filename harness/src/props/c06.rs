//! Area and length.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::area::Area;
use geos_rs::verif_hooks::algorithm::length::Length;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;
use geos_rs::verif_hooks::geom::line_string::LineString;
use geos_rs::verif_hooks::geom::linear_ring::LinearRing;
use geos_rs::verif_hooks::geom::multi_polygon::MultiPolygon;
use geos_rs::verif_hooks::geom::polygon::Polygon;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        quick: 3_000_000,
        families: vec![
            Family { name: "area of a closed ring", weight: 4, run: ring_area },
            Family { name: "length of a line", weight: 3, run: length },
            Family { name: "polygons with holes", weight: 3, run: polygons },
        ],
        rule: "Closed rings of every shape (simple, self-crossing, empty, one to a dozen points, with holes) on grids, lattices, far-from-origin and mixed doubles; lines with repeated points; polygons and multipolygons whose rings run in either direction. Oracle: exact signed area, sum of correctly rounded segment lengths.",
        assumptions: &["values are compared within the rounding-error bound of a straightforward sum about the first vertex; on small integer grids exactly"],
        need: &[("area compared", 50000), ("exact area", 50000), ("negative area", 20000), ("fewer than three points", 5000), ("length compared", 50000), ("length of a tiny or huge line", 5000), ("with holes", 20000)],
    }
}

pub fn sequence(r: &mut Rng, ps: &[P]) -> CoordinateArraySequence {
    let (d, m) = r.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]);
    let v: Vec<Coordinate> = ps
        .iter()
        .map(|&p| match (d, m) {
            (2, _) => c(p),
            (3, 0) => Coordinate::new_xyz(p.0, p.1, r.range(-9.0, 9.0)),
            (3, _) => Coordinate::new_xym(p.0, p.1, r.range(-9.0, 9.0)),
            _ => Coordinate::new_xyzm(p.0, p.1, r.range(-9.0, 9.0), r.range(-9.0, 9.0)),
        })
        .collect();
    CoordinateArraySequence::new_with_coordinates_dimension_measures(v, d, m)
}

/// (exact signed area, clockwise positive; error allowance)
pub fn ring_ref(ring: &[P]) -> (f64, f64) {
    if ring.len() < 3 {
        return (0.0, 0.0);
    }
    let a = area2(ring).scale2(-1).neg().to_f64();
    let mut s = 0.0;
    for w in ring.windows(3) {
        s += (w[1].0 - ring[0].0).abs() * ((w[0].1 - w[2].1).abs());
    }
    let exact = max_abs(ring) < 1e6 && ring.iter().all(|p| p.0 == p.0.trunc() && p.1 == p.1.trunc());
    (a, if exact { 0.0 } else { s * (ring.len() as f64 + 4.0) * 2.3e-16 + 1e-300 })
}
pub fn len_ref(line: &[P]) -> (f64, f64) {
    let mut s = 0.0;
    for w in line.windows(2) {
        let (dx, dy) = (Dy::f(w[0].0).sub(&Dy::f(w[1].0)), Dy::f(w[0].1).sub(&Dy::f(w[1].1)));
        s += dx.sqr().add(&dy.sqr()).to_f64().sqrt();
    }
    (s, s * (line.len() as f64 + 4.0) * 4.5e-16)
}

pub fn any_ring(r: &mut Rng) -> Vec<P> {
    let ring = match r.below(4) {
        0 => {
            let g = simple_ring(r);
            decorate(r, &g)
        }
        1 => {
            let st = Style::Grid(r.pick(&[2, 5, 100, 10000]));
            let n = r.len(9);
            st.pts(r, n)
        }
        _ => {
            let st = Style::any(r);
            let n = r.len(12);
            st.pts(r, n)
        }
    };
    if ring.len() > 1 && ring.first() != ring.last() {
        let mut v = ring;
        let f = v[0];
        v.push(f);
        return v;
    }
    ring
}

fn ring_area(cx: &mut Cx) -> R {
    let ring = any_ring(&mut cx.rng);
    for p in &ring {
        cx.key(&[p.0, p.1]);
    }
    cx.desc(|| fmt_ps(&ring));
    let (a, tol) = ring_ref(&ring);
    if ring.len() < 3 {
        cx.ev("fewer than three points");
    }
    if a != 0.0 {
        cx.nontrivial();
    }
    if a < 0.0 {
        cx.ev("negative area");
    }
    cx.ev(if tol == 0.0 { "exact area" } else { "area compared" });
    let v = cs(&ring);
    let s = sequence(&mut cx.rng, &ring);
    let n = fmt_ps(&ring);
    for (w, g) in [("of_ring_signed on a vector", Area::of_ring_signed_vec(&v)), ("of_ring_signed on a sequence", Area::of_ring_signed_coordinate_sequence(&s))] {
        ensure!(cx, (g - a).abs() <= tol, "{} of {} is {:?} but exactly {:?} (clockwise positive)", w, n, g, a);
    }
    for (w, g) in [("of_ring on a vector", Area::of_ring_vec(&v)), ("of_ring on a sequence", Area::of_ring_coordinate_sequence(&s))] {
        ensure!(cx, g >= 0.0 && (g - a.abs()).abs() <= tol, "{} of {} is {:?} but exactly {:?}", w, n, g, a.abs());
    }
    Ok(())
}

fn length(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let n = r.len(10);
    let mut line = st.pts(r, n);
    if n > 2 && r.chance(1, 3) {
        let i = r.us(n - 1);
        line[i + 1] = line[i];
    }
    if r.chance(1, 4) && n > 0 {
        // axis-parallel run
        let y = line[0].1;
        for p in line.iter_mut() {
            p.1 = y;
        }
    }
    if r.chance(1, 6) {
        line = any_ring(r);
    }
    for p in &line {
        cx.key(&[p.0, p.1]);
    }
    cx.desc(|| fmt_ps(&line));
    let (mut l, mut tol) = len_ref(&line);
    if l > 0.0 {
        cx.nontrivial();
    }
    // the same line, far smaller or larger
    if cx.rng.chance(1, 8) {
        let e = cx.rng.pick(&[-700, -600, -530, 505, 600, 700]);
        for p in line.iter_mut() {
            *p = (ldexp(p.0, e), ldexp(p.1, e));
        }
        l = ldexp(l, e);
        tol = ldexp(tol, e);
        cx.ev("length of a tiny or huge line");
    }
    cx.ev("length compared");
    let s = sequence(&mut cx.rng, &line);
    for (w, g) in [
        ("Length::of_line", Length::of_line(&s)),
        ("LineString length", LineString::new_from_coordinate_sequence(s.copy()).get_length()),
        ("LinearRing length", LinearRing::new_with_coordinate_array_sequence(&s).get_length()),
    ] {
        ensure!(cx, (g - l).abs() <= tol, "{} of {} is {:?} but should be {:?}", w, fmt_ps(&line), g, l);
    }
    Ok(())
}

fn polygons(cx: &mut Cx) -> R {
    let k = match cx.rng.below(400) {
        0 if cx.rng.chance(1, 12) => 18 + cx.rng.us(900),
        0 => 18 + cx.rng.us(60),
        1..=30 => 4 + cx.rng.us(14),
        _ => cx.rng.us(4),
    };
    let mut polys = vec![];
    let mut desc = vec![];
    let (mut ta, mut tt, mut holes) = (0.0f64, 0.0f64, 0);
    for _ in 0..k {
        let r = &mut cx.rng;
        let nh = r.len(4);
        let rings: Vec<Vec<P>> = (0..=nh).map(|_| any_ring(r)).collect();
        holes += nh;
        let lr: Vec<LinearRing> = rings
            .iter()
            .map(|g| {
                let s = sequence(r, g);
                LinearRing::new_with_coordinate_array_sequence(&s)
            })
            .collect();
        let p = if nh == 0 { Polygon::new_with_linear_ring(&lr[0]) } else { Polygon::new_with_linear_ring_vec(&lr[0], &lr[1..].to_vec()) };
        let (mut a, mut t, mut l, mut lt, mut mag) = (0.0, 0.0, 0.0, 0.0, 0.0f64);
        for (i, g) in rings.iter().enumerate() {
            let (x, e) = ring_ref(g);
            a += if i == 0 { x.abs() } else { -x.abs() };
            mag += x.abs();
            t += e;
            let (y, f) = len_ref(g);
            l += y;
            lt += f;
        }
        t += mag * 4.5e-16 * rings.len() as f64;
        lt += l * 4.5e-16 * rings.len() as f64;
        let (ga, gl) = (p.get_area(), p.get_length());
        ensure!(cx, (ga - a).abs() <= t, "area of polygon {:?} is {:?} but should be {:?}", rings, ga, a);
        ensure!(cx, (gl - l).abs() <= lt, "perimeter of polygon {:?} is {:?} but should be {:?}", rings, gl, l);
        ta += a;
        tt += t + a.abs() * 1e-15 + ta.abs() * 1e-15;
        polys.push(p);
        desc.push(rings);
    }
    for g in desc.iter().flatten() {
        for p in g {
            cx.key(&[p.0, p.1]);
        }
    }
    if holes > 0 {
        cx.ev("with holes");
    }
    if k > 0 {
        cx.nontrivial();
    }
    cx.desc(|| format!("{:?}", desc));
    let g = MultiPolygon::new_with_polygons(&polys).get_area();
    ensure!(cx, (g - ta).abs() <= tt, "area of multipolygon {:?} is {:?} but should be {:?}", desc, g, ta);
    Ok(())
}
