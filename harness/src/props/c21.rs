//! Geometries as values: contents, copies, reversal, normal form, equality and order.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::coordinate_sequence_comparator::CoordinateSequenceComparator as Cmp;
use geos_rs::verif_hooks::geom::envelope::Envelope;
use geos_rs::verif_hooks::geom::geometry::Geometry;
use geos_rs::verif_hooks::geom::geometry_factory::GeometryFactory as GF;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use geos_rs::verif_hooks::geom::line_string::LineString;
use geos_rs::verif_hooks::geom::linear_ring::LinearRing;
use geos_rs::verif_hooks::geom::multi_line_string::MultiLineString;
use geos_rs::verif_hooks::geom::multi_point::MultiPoint;
use geos_rs::verif_hooks::geom::multi_polygon::MultiPolygon;
use geos_rs::verif_hooks::geom::point::Point;
use geos_rs::verif_hooks::geom::polygon::Polygon;
use geos_rs::verif_hooks::geom::precision_model::PrecisionModel;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        quick: 900_000,
        families: vec![
            Family { name: "points", weight: 2, run: points },
            Family { name: "lines and rings", weight: 4, run: lines },
            Family { name: "several lines", weight: 2, run: multi_lines },
            Family { name: "polygons", weight: 4, run: polygons },
            Family { name: "normal form", weight: 3, run: normal },
            Family { name: "rectangles", weight: 2, run: rectangles },
            Family { name: "equality within a tolerance", weight: 3, run: equality },
            Family { name: "order", weight: 3, run: order },
        ],
        rule: "Points, lines, rings, polygons with holes and collections of them, in all four coordinate layouts, empty or not, closed or open, from every constructor and factory method, with and without a precision model, copied, reversed and normalized in random histories; pairs equal, almost equal and different. Oracle: the list of coordinates each was made from.",
        assumptions: &["ordinates X and Y are not NaN", "direction of normalized rings is asserted for simple rings", "rectangles are recognised among simple rings"],
        need: &[("empty point", 5000), ("empty line", 5000), ("closed line", 20000), ("open line", 20000), ("reversed", 50000), ("copied", 50000), ("holes", 20000), ("normalized", 20000), ("canonical form compared", 10000), ("holes reordered", 5000), ("rectangle", 5000), ("not a rectangle", 20000), ("equal within tolerance", 20000), ("not equal within tolerance", 20000), ("precision model kept", 5000), ("order decided", 20000), ("order tied", 5000), ("empty members", 5000)],
    }
}

fn coords(r: &mut Rng, ps: &[P], lay: usize) -> Vec<Coordinate> {
    coords_own(r, ps, lay, 1)
}
fn coords_own(r: &mut Rng, ps: &[P], lay: usize, own: u64) -> Vec<Coordinate> {
    let mut v: Vec<Coordinate> = ps
        .iter()
        .map(|&p| match lay {
            0 => Coordinate::new_xy(p.0, p.1),
            1 => Coordinate::new_xyz(p.0, p.1, r.int(-3, 3) as f64),
            2 => Coordinate::new_xym(p.0, p.1, r.int(-3, 3) as f64),
            _ => Coordinate::new_xyzm(p.0, p.1, r.int(-3, 3) as f64, r.int(-3, 3) as f64),
        })
        .collect();
    // closed in X and Y; the last point seldom has a height and a measure of its own
    if ps.len() > 1 && ps[0] == ps[ps.len() - 1] && !r.chance(own, 6) {
        v[ps.len() - 1] = v[0];
    }
    v
}
fn seq(r: &mut Rng, v: &[Coordinate], lay: usize) -> A {
    let (d, m) = [(2, 0), (3, 0), (3, 1), (4, 1)][lay];
    let w = v.to_vec();
    if r.bool() || v.is_empty() {
        A::new_with_coordinates_dimension_measures(w, d, m)
    } else {
        A::new_with_coordinates(&w)
    }
}
fn any_pts(r: &mut Rng, n: usize) -> Vec<P> {
    let st = if r.bool() { Style::Grid(r.pick(&[1, 2, 9])) } else if r.chance(1, 8) { Style::Wild } else { Style::any(r) };
    let mut v = st.pts(r, n);
    if n > 1 && r.bool() {
        v[n - 1] = v[0];
    }
    v
}
fn ring_pts(r: &mut Rng) -> Vec<P> {
    match r.below(4) {
        0 => vec![],
        1 => {
            let n = 3 + r.len(5);
            let mut v = any_pts(r, n);
            v.push(v[0]);
            v
        }
        _ => {
            let v = simple_ring(r);
            if r.bool() {
                decorate(r, &v)
            } else {
                v
            }
        }
    }
}
fn env_of(v: &[Coordinate]) -> Option<[f64; 4]> {
    let f = v.first()?;
    let mut b = [f.x, f.x, f.y, f.y];
    for p in v {
        b = [b[0].min(p.x), b[1].max(p.x), b[2].min(p.y), b[3].max(p.y)];
    }
    Some(b)
}
fn env_is(e: &Envelope, w: Option<[f64; 4]>) -> bool {
    match w {
        None => e.is_null(),
        Some(b) => !e.is_null() && e.get_min_x() == b[0] && e.get_max_x() == b[1] && e.get_min_y() == b[2] && e.get_max_y() == b[3],
    }
}
fn rev(v: &[Coordinate]) -> Vec<Coordinate> {
    v.iter().rev().cloned().collect()
}
fn opt_is(g: &Option<Coordinate>, w: Option<&Coordinate>) -> bool {
    match (g, w) {
        (None, None) => true,
        (Some(a), Some(b)) => same_c(a, b),
        _ => false,
    }
}
fn desc(cx: &mut Cx, what: &str, v: &[Vec<Coordinate>]) -> String {
    for w in v {
        cx.key_u(w.len() as u64);
        for p in w {
            cx.key(&[p.x, p.y, p.z, p.m]);
        }
    }
    let d = format!("{} {}", what, v.iter().map(|w| fmt_cs(w)).collect::<Vec<_>>().join(" "));
    let e = d.clone();
    cx.desc(|| e);
    d
}

fn mk_point(r: &mut Rng, p: Option<&Coordinate>, lay: usize) -> Point {
    match p {
        None => match r.below(3) {
            0 => Point::default(),
            1 => GF::create_point(),
            _ => Point::new_with_coordinate_seq(&seq(r, &[], lay)),
        },
        Some(q) => match r.below(5) {
            0 => Point::new_with_coordinate(q, None),
            1 => Point::new_with_coordinate(q, Some(PrecisionModel::new_with_scale(10.0))),
            2 => GF::create_point_from_coordinate(q),
            3 => GF::create_point_from_coordinate_array_sequence(&seq(r, &[*q], lay)),
            _ => Point::new_with_coordinate_seq(&seq(r, &[*q], lay)),
        },
    }
}
fn point_is(cx: &mut Cx, g: &Point, w: Option<&Coordinate>, n: &str) -> R {
    let v: Vec<Coordinate> = w.into_iter().cloned().collect();
    let mut g = g.clone();
    ensure!(cx, g.is_empty() == w.is_none(), "{}: emptiness is {}", n, g.is_empty());
    ensure!(cx, g.get_num_points() == v.len(), "{}: {} points", n, g.get_num_points());
    ensure!(cx, opt_is(&g.get_coordinate(), w), "{}: coordinate is {}", n, fo(&g.get_coordinate()));
    ensure!(cx, same_cs(&g.get_coordinates(), &v), "{}: coordinates are {}", n, fmt_cs(&g.get_coordinates()));
    let xy = (g.get_x(), g.get_y());
    let ok = match w {
        None => xy == (None, None),
        Some(p) => xy.0.map_or(false, |x| same_bits(x, p.x)) && xy.1.map_or(false, |y| same_bits(y, p.y)),
    };
    ensure!(cx, ok, "{}: ordinates are {:?}", n, xy);
    ensure!(cx, g.is_simple(), "{}: not simple", n);
    ensure!(cx, env_is(&g.compute_envelope_internal(), env_of(&v)), "{}: wrong envelope", n);
    for _ in 0..2 {
        ensure!(cx, env_is(&g.get_envelope_internal(), env_of(&v)), "{}: wrong envelope", n);
    }
    ensure!(cx, same_cs(&g.get_coordinate_sequence().to_coordinate_array(), &v), "{}: sequence is {}", n, fmt_cs(&g.get_coordinate_sequence().to_coordinate_array()));
    ensure!(cx, g.get_geometry_type() == "Point", "{}: type {}", n, g.get_geometry_type());
    Ok(())
}
fn points(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lay = r.us(4);
    let n = if r.chance(1, 300) { r.us(1200) } else { r.len(5) };
    let ps = any_pts(r, n);
    let cv = coords(r, &ps, lay);
    let few = r.pick(&[1, 1, 0, 5]); // empty members: some, none, all but one
    let one = r.us(n.max(1));
    let mem: Vec<Option<Coordinate>> = cv.iter().enumerate().map(|(i, p)| if r.chance(few, 5) && !(few == 5 && i == one) { None } else { Some(*p) }).collect();
    let gs: Vec<Point> = mem.iter().map(|m| mk_point(r, m.as_ref(), lay)).collect();
    let there: Vec<Coordinate> = mem.iter().flatten().cloned().collect();
    let n = desc(cx, "points", &[there.clone()]);
    cx.key_u(lay as u64);
    if there.len() > 1 {
        cx.nontrivial();
    }
    ensure!(cx, Point::get_dimension() == 0 && Point::get_boundary_dimension() == -1 && Point::get_type_code() == Geometry::TYPECODE_POINT, "point constants");
    for (g, m) in gs.iter().zip(&mem) {
        let n = format!("point {}", fo(m));
        point_is(cx, g, m.as_ref(), &n)?;
        point_is(cx, &g.copy(), m.as_ref(), &format!("copy of {}", n))?;
        cx.ev("copied");
        let mut h = g.clone();
        if cx.rng.bool() {
            h.get_envelope_internal();
        }
        point_is(cx, &h.reverse(), m.as_ref(), &format!("reverse of {}", n))?;
        cx.ev("reversed");
        point_is(cx, g, m.as_ref(), &n)?;
        if m.is_none() {
            cx.ev("empty point");
        }
    }
    if mem.len() > there.len() {
        cx.ev("empty members");
    }
    // the same points with one more or one fewer empty member are another value
    let mut more = gs.clone();
    let at = cx.rng.us(gs.len() + 1);
    more.insert(at, Point::default());
    let (x, y) = (MultiPoint::new_with_points(&gs), MultiPoint::new_with_points(&more));
    ensure!(cx, !x.equals_exact(y.copy(), 1.0) && !y.equals_exact(x.copy(), 1.0), "{}: equal to itself with one more empty member at {}", n, at);
    let r = &mut cx.rng;
    let pm = PrecisionModel::new_with_scale(r.pick(&[1.0, 10.0, 1000.0]));
    let with = r.bool();
    let mp = match r.below(4) {
        _ if with => MultiPoint::new_with_points_precision_model(&gs, pm),
        0 if mem.len() == there.len() => GF::create_multi_point_with_coordinates(&cv),
        1 if mem.len() == there.len() => GF::create_multi_point_from_coordinate_array_sequence(&seq(r, &cv, lay)),
        2 => GF::create_multi_point_from_points(&gs),
        _ => MultiPoint::new_with_points(&gs),
    };
    let mut h = mp.copy();
    cx.ev("copied");
    for step in 0..4 {
        let s = format!("multipoint {} {} after {}", n, mem.len(), step);
        ensure!(cx, h.is_empty() == there.is_empty(), "{}: emptiness is {}", s, h.is_empty());
        ensure!(cx, h.get_num_points() == there.len(), "{}: {} points", s, h.get_num_points());
        ensure!(cx, same_cs(&h.get_coordinates(), &there), "{}: coordinates are {}", s, fmt_cs(&h.get_coordinates()));
        ensure!(cx, h.get_dimension() == 0 && h.has_dimension(0) && ![-1, 3, 99].iter().any(|d| h.has_dimension(*d)) && !h.has_dimension(1) && !h.has_dimension(2) && h.get_boundary_dimension() == -1, "{}: dimensions", s);
        ensure!(cx, h.get_geometry_type() == "MultiPoint" && MultiPoint::get_type_code() == Geometry::TYPECODE_MULTIPOINT, "{}: type", s);
        for (i, m) in mem.iter().enumerate() {
            ensure!(cx, opt_is(&h.get_coordinate(i), m.as_ref()), "{}: coordinate {} is {}", s, i, fo(&h.get_coordinate(i)));
            match h.get_point_at_index(i) {
                None => return Err(format!("{}: no point at {}", s, i)),
                Some(p) => point_is(cx, &p, m.as_ref(), &format!("{} point {}", s, i))?,
            }
        }
        for i in 0..2 {
            ensure!(cx, h.get_point_at_index(mem.len() + i).is_none(), "{}: a point at {}", s, mem.len() + i);
        }
        let g = h.get_precision_model();
        ensure!(cx, g.is_some() == with, "{}: precision model lost or found", s);
        if let Some(g) = g {
            ensure!(cx, g.get_scale() == pm.get_scale(), "{}: precision scale {}", s, g.get_scale());
            cx.ev("precision model kept");
        }
        if cx.rng.bool() {
            ensure!(cx, env_is(&h.get_envelope_internal(), env_of(&there)), "{}: wrong envelope", s);
        }
        ensure!(cx, h.equals_exact(mp.copy(), 0.0), "{}: not equal to its origin", s);
        h = if cx.rng.bool() {
            cx.ev("copied");
            h.copy()
        } else {
            cx.ev("reversed");
            h.reverse()
        };
    }
    Ok(())
}

fn mk_line(r: &mut Rng, v: &[Coordinate], lay: usize) -> LineString {
    if v.is_empty() && r.bool() {
        return GF::create_line_string();
    }
    match r.below(4) {
        0 => GF::create_line_string_coordinates(&v.to_vec()),
        1 => GF::create_line_string_coordinate_array_sequence(&seq(r, v, lay)),
        2 => {
            let mut l = GF::create_line_string_coordinates(&vec![Coordinate::new_xy(7.0, 8.0), Coordinate::new_xy(9.0, 8.0)]);
            l.init(seq(r, v, lay));
            l
        }
        _ => LineString::new_from_coordinate_sequence(seq(r, v, lay)),
    }
}
fn mk_ring(r: &mut Rng, v: &[Coordinate], lay: usize) -> LinearRing {
    if v.is_empty() && r.bool() {
        return GF::create_linear_ring();
    }
    match r.below(4) {
        0 => GF::create_linear_ring_with_coordinates(&v.to_vec()),
        1 => GF::create_linear_ring_with_coordinate_array_sequence(&seq(r, v, lay)),
        2 => LinearRing::new_with_coordinates(&v.to_vec()),
        _ => LinearRing::new_with_coordinate_array_sequence(&seq(r, v, lay)),
    }
}
fn closed(v: &[Coordinate]) -> bool {
    !v.is_empty() && v[0].x == v[v.len() - 1].x && v[0].y == v[v.len() - 1].y
}
fn line_is(cx: &mut Cx, g: &LineString, v: &[Coordinate], n: &str) -> R {
    let (cl, len) = (closed(v), v.len());
    ensure!(cx, same_cs(&g.get_coordinates(), v), "{}: coordinates are {}", n, fmt_cs(&g.get_coordinates()));
    ensure!(cx, same_cs(&g.get_coordinate_sequence().to_coordinate_array(), v), "{}: sequence is {}", n, fmt_cs(&g.get_coordinate_sequence().to_coordinate_array()));
    ensure!(cx, opt_is(&g.get_coordinate(), v.first()), "{}: coordinate is {}", n, fo(&g.get_coordinate()));
    ensure!(cx, g.is_empty() == v.is_empty() && g.get_num_points() == len, "{}: {} points", n, g.get_num_points());
    ensure!(cx, g.is_closed() == cl && g.is_ring() == cl, "{}: closed is {} ring is {}", n, g.is_closed(), g.is_ring());
    ensure!(cx, g.get_dimension() == 1 && g.get_boundary_dimension() == if cl { -1 } else { 0 }, "{}: boundary dimension {}", n, g.get_boundary_dimension());
    ensure!(cx, g.get_geometry_type() == "LineString" && LineString::get_type_code() == Geometry::TYPECODE_LINESTRING, "{}: type", n);
    ensure!(cx, env_is(&g.compute_envelope_internal(), env_of(v)), "{}: wrong envelope", n);
    for (i, p) in v.iter().enumerate() {
        ensure!(cx, same_c(&g.get_coordinate_n(i), p), "{}: coordinate {} is {}", n, i, f1(&g.get_coordinate_n(i)));
        ensure!(cx, opt_is(&g.get_point_n(i).get_coordinate(), Some(p)), "{}: point {} is {}", n, i, fo(&g.get_point_n(i).get_coordinate()));
        ensure!(cx, g.is_coordinate(p), "{}: does not hold its coordinate {}", n, i);
    }
    let s = g.get_start_point().and_then(|p| p.get_coordinate());
    let e = g.get_end_point().and_then(|p| p.get_coordinate());
    ensure!(cx, opt_is(&s, v.first()) && opt_is(&e, v.last()), "{}: runs from {} to {}", n, fo(&s), fo(&e));
    Ok(())
}
fn ring_is(cx: &mut Cx, g: &LinearRing, v: &[Coordinate], n: &str) -> R {
    let mut g = g.clone();
    ensure!(cx, same_cs(&g.get_coordinates(), v), "{}: coordinates are {}", n, fmt_cs(&g.get_coordinates()));
    ensure!(cx, same_cs(&g.get_coordinate_array_sequence().to_coordinate_array(), v), "{}: sequence is {}", n, fmt_cs(&g.get_coordinate_array_sequence().to_coordinate_array()));
    ensure!(cx, opt_is(&g.get_coordinate(), v.first()), "{}: coordinate is {}", n, fo(&g.get_coordinate()));
    ensure!(cx, g.is_empty() == v.is_empty() && g.get_num_points() == v.len(), "{}: {} points", n, g.get_num_points());
    ensure!(cx, g.is_closed() == (v.is_empty() || closed(v)), "{}: closed is {}", n, g.is_closed());
    ensure!(cx, g.get_boundary_dimension() == -1, "{}: boundary dimension {}", n, g.get_boundary_dimension());
    ensure!(cx, g.get_geometry_type() == "LinearRing" && g.get_type_code() == Geometry::TYPECODE_LINEARRING, "{}: type", n);
    for (i, p) in v.iter().enumerate() {
        ensure!(cx, same_c(&g.get_coordinate_at_index(i), p), "{}: coordinate {} is {}", n, i, f1(&g.get_coordinate_at_index(i)));
    }
    ensure!(cx, env_is(&g.compute_envelope_internal(), env_of(v)), "{}: wrong envelope", n);
    for _ in 0..2 {
        ensure!(cx, env_is(&g.get_envelope_internal(), env_of(v)), "{}: wrong envelope", n);
    }
    Ok(())
}
fn line_normal(v: &[Coordinate]) -> Vec<Coordinate> {
    for i in 0..v.len() / 2 {
        let (a, b) = (&v[i], &v[v.len() - 1 - i]);
        if (a.x, a.y) != (b.x, b.y) {
            return if (a.x, a.y) > (b.x, b.y) { rev(v) } else { v.to_vec() };
        }
    }
    v.to_vec()
}
fn lines(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lay = r.us(4);
    let n = r.len(8);
    let mut ps = any_pts(r, n);
    if r.chance(1, 4) {
        // almost a palindrome
        let mut q: Vec<P> = ps.iter().rev().cloned().collect();
        ps.append(&mut q);
        if !ps.is_empty() && r.bool() {
            let (i, st) = (r.us(ps.len()), Style::Grid(2));
            ps[i] = st.pt(r);
        }
    }
    let mut v = coords(r, &ps, lay);
    let mut g = mk_line(r, &v, lay);
    let name = desc(cx, "line", &[v.clone()]);
    cx.ev(if v.is_empty() {
        "empty line"
    } else if closed(&v) {
        "closed line"
    } else {
        "open line"
    });
    if v.len() > 2 {
        cx.nontrivial();
    }
    line_is(cx, &g, &v, &name)?;
    let outside = Style::Grid(4).pt(&mut cx.rng);
    let held = v.iter().any(|p| p.x == outside.0 && p.y == outside.1);
    ensure!(cx, g.is_coordinate(&c(outside)) == held, "{}: holds {:?} is {}", name, outside, !held);
    let mut log = name.clone();
    for _ in 0..4 {
        let before = v.clone();
        match cx.rng.below(3) {
            0 => {
                log.push_str(" copied");
                cx.ev("copied");
                let h = g.copy();
                line_is(cx, &g, &before, &format!("{} (original)", log))?;
                g = h;
            }
            1 => {
                log.push_str(" reversed");
                cx.ev("reversed");
                let h = if cx.rng.bool() { g.reverse() } else { g.reverse_internal() };
                v = rev(&v);
                line_is(cx, &g, &before, &format!("{} (original)", log))?;
                g = h;
            }
            _ => {
                log.push_str(" normalized");
                g.normalize();
                v = line_normal(&v);
            }
        }
        line_is(cx, &g, &v, &log)?;
    }
    let mut h = g.reverse();
    h.normalize();
    g.normalize();
    v = line_normal(&v);
    line_is(cx, &g, &v, &format!("{} normalized", log))?;
    let same2 = g.equals_exact(&h, 0.0);
    ensure!(cx, same2, "{}: a line and its reverse have different normal forms {} and {}", log, fmt_cs(&g.get_coordinates()), fmt_cs(&h.get_coordinates()));

    // rings, open ones included
    let r = &mut cx.rng;
    let mut v = coords(r, &ps, lay);
    let mut g = mk_ring(r, &v, lay);
    for _ in 0..3 {
        ring_is(cx, &g, &v, &format!("ring from {}", name))?;
        if cx.rng.bool() {
            g.get_envelope_internal();
        }
        let before = v.clone();
        let h = if cx.rng.bool() {
            cx.ev("copied");
            g.copy()
        } else {
            v = rev(&v);
            cx.ev("reversed");
            if cx.rng.bool() {
                g.reverse()
            } else {
                g.reverse_internal()
            }
        };
        ring_is(cx, &g, &before, &format!("ring from {} (original)", name))?;
        g = h;
    }
    ring_is(cx, &g, &v, &format!("ring from {}", name))
}

fn multi_lines(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lay = r.us(4);
    let k = r.len(4);
    let clo = r.bool();
    // all but one alike: empty, or closed
    let odd = if k > 1 && r.chance(1, if k > 4 { 2 } else { 6 }) { Some((r.us(k), r.bool())) } else { None };
    let vs: Vec<Vec<Coordinate>> = (0..k)
        .map(|i| {
            let mut n = r.len(5);
            let mut close = clo && !r.chance(1, 5);
            if let Some((j, void)) = odd {
                n = if void { if i == j { 2 } else { 0 } } else { 3 };
                close = i != j;
            }
            let mut ps = any_pts(r, n);
            if close && n > 0 {
                ps.push(ps[0]);
            }
            coords(r, &ps, lay)
        })
        .collect();
    let ls: Vec<LineString> = vs.iter().map(|v| mk_line(r, v, lay)).collect();
    let pm = PrecisionModel::new_with_scale(10.0);
    let g = if r.bool() { MultiLineString::new_with_line_strings(&ls) } else { MultiLineString::new_with_line_strings_precision_model(&ls, pm) };
    let n = desc(cx, "lines", &vs);
    if k > 1 {
        cx.nontrivial();
    }
    if vs.iter().any(|v| v.is_empty()) {
        cx.ev("empty members");
    }
    let empty = vs.iter().all(|v| v.is_empty());
    let all_closed = !empty && vs.iter().all(|v| closed(v));
    cx.ev(if all_closed { "all closed" } else { "not all closed" });
    let fwd = MultiLineString::new_with_line_strings(&ls);
    let bwd_lines: Vec<LineString> = vs.iter().rev().map(|v| mk_line(&mut cx.rng, &rev(v), lay)).collect();
    let bwd = MultiLineString::new_with_line_strings(&bwd_lines);
    let mut h = g.copy_internal();
    let mut back = false;
    for _ in 0..3 {
        for x in [&g, &h] {
            ensure!(cx, x.is_empty() == empty, "{}: emptiness is {}", n, x.is_empty());
            ensure!(cx, x.is_closed() == all_closed, "{}: closed is {}", n, x.is_closed());
            ensure!(cx, x.get_boundary_dimension() == if all_closed { -1 } else { 0 }, "{}: boundary dimension {}", n, x.get_boundary_dimension());
            ensure!(cx, x.get_dimension() == 1 && x.has_dimension(1) && ![-1, 3, 99].iter().any(|d| x.has_dimension(*d)) && !x.has_dimension(0) && !x.has_dimension(2), "{}: dimension", n);
            ensure!(cx, x.get_geometry_type() == "MultiLineString" && MultiLineString::get_type_code() == Geometry::TYPECODE_MULTILINESTRING, "{}: type", n);
        }
        ensure!(cx, g.equals_exact(&fwd, 0.0) && fwd.equals_exact(&g, 0.0), "{}: not equal to itself", n);
        let w = if back { &bwd } else { &fwd };
        ensure!(cx, h.equals_exact(w, 0.0) && w.equals_exact(&h, 0.0), "{}: after copies and {} reversals, wrong lines", n, if back { "an odd number of" } else { "an even number of" });
        if cx.rng.bool() {
            h = h.copy_internal();
            cx.ev("copied");
        } else {
            h = h.reverse();
            back = !back;
            cx.ev("reversed");
        }
    }
    // equality needs the same number of lines
    if k > 0 {
        let fewer = MultiLineString::new_with_line_strings(&ls[..k - 1].to_vec());
        ensure!(cx, !fewer.equals_exact(&g, 1e300) && !g.equals_exact(&fewer, 1e300), "{}: equal to {} of its lines", n, k - 1);
    }
    Ok(())
}

type Poly = Vec<Vec<Coordinate>>;
fn mk_poly(r: &mut Rng, v: &Poly, lay: usize, pm: Option<PrecisionModel>) -> Polygon {
    let shell = mk_ring(r, &v[0], lay);
    let holes: Vec<LinearRing> = v[1..].iter().map(|h| mk_ring(r, h, lay)).collect();
    match pm {
        Some(m) if holes.is_empty() && r.bool() => Polygon::new_with_linear_ring_precision_model(&shell, m),
        Some(m) => Polygon::new_with_linear_ring_vec_precision_model(&shell, &holes, m),
        None if holes.is_empty() => match r.below(4) {
            0 => Polygon::new_with_linear_ring(&shell),
            1 => GF::create_polygon_with_linear_ring(&shell),
            2 => GF::create_polygon_with_coordinates(&v[0]),
            _ => GF::create_polygon_with_coordinate_array_sequence(&seq(r, &v[0], lay)),
        },
        None => {
            if r.bool() {
                Polygon::new_with_linear_ring_vec(&shell, &holes)
            } else {
                GF::create_polygon_with_linear_ring_vec(&shell, &holes)
            }
        }
    }
}
fn poly_is(cx: &mut Cx, g: &Polygon, v: &Poly, n: &str) -> R {
    let mut g = g.clone();
    let all: Vec<Coordinate> = v.concat();
    ensure!(cx, g.is_empty() == v[0].is_empty(), "{}: emptiness is {}", n, g.is_empty());
    ensure!(cx, g.get_num_points() == all.len(), "{}: {} points", n, g.get_num_points());
    ensure!(cx, opt_is(&g.get_coordinate(), v[0].first()), "{}: coordinate is {}", n, fo(&g.get_coordinate()));
    if !v[0].is_empty() || all.is_empty() {
        ensure!(cx, same_cs(&g.get_coordinates(), &all), "{}: coordinates are {}", n, fmt_cs(&g.get_coordinates()));
    }
    ensure!(cx, g.get_num_interior_ring() == v.len() - 1, "{}: {} holes", n, g.get_num_interior_ring());
    ring_is(cx, &g.get_exterior_ring(), &v[0], &format!("shell of {}", n))?;
    for i in 1..v.len() {
        ring_is(cx, &g.get_interior_ring_n(i - 1), &v[i], &format!("hole {} of {}", i - 1, n))?;
    }
    ensure!(cx, g.get_dimension() == 2 && g.get_boundary_dimension() == 1, "{}: dimensions", n);
    ensure!(cx, g.get_geometry_type() == "Polygon" && Polygon::get_type_code() == Geometry::TYPECODE_POLYGON, "{}: type", n);
    for _ in 0..2 {
        ensure!(cx, env_is(&g.get_envelope_internal(), env_of(&v[0])), "{}: wrong envelope", n);
    }
    ensure!(cx, env_is(&g.compute_envelope_internal(), env_of(&v[0])), "{}: wrong envelope", n);
    Ok(())
}
fn any_poly(r: &mut Rng, lay: usize) -> Poly {
    let ps = ring_pts(r);
    let mut v = vec![coords(r, &ps, lay)];
    if !ps.is_empty() && r.bool() {
        for _ in 0..1 + r.len(3) {
            let mut h = ring_pts(r);
            while h.is_empty() {
                h = ring_pts(r);
            }
            v.push(coords(r, &h, lay));
        }
    }
    v
}
fn rev_poly(v: &Poly) -> Poly {
    v.iter().map(|w| rev(w)).collect()
}
fn polygons(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lay = r.us(4);
    let mut v = any_poly(r, lay);
    let with = r.chance(1, 3);
    let scale = r.pick(&[1.0, 10.0, 0.25]);
    let pm = PrecisionModel::new_with_scale(scale);
    let mut g = mk_poly(r, &v, lay, if with { Some(pm) } else { None });
    let n = desc(cx, "polygon", &v);
    if v.len() > 1 {
        cx.ev("holes");
        cx.nontrivial();
    }
    poly_is(cx, &g, &v, &n)?;
    let snapped = |x: f64| x == (x * scale).round() / scale;
    let mut log = n.clone();
    for _ in 0..3 {
        if cx.rng.bool() {
            g.get_envelope_internal();
        }
        let before = v.clone();
        let h = if cx.rng.bool() {
            log.push_str(" copied");
            cx.ev("copied");
            g.copy()
        } else {
            log.push_str(" reversed");
            cx.ev("reversed");
            v = rev_poly(&v);
            g.reverse()
        };
        poly_is(cx, &g, &before, &format!("{} (original)", log))?;
        g = h;
        poly_is(cx, &g, &v, &log)?;
        ensure!(cx, g.equals_exact(&g.copy(), 0.0), "{}: not equal to its copy", log);
        let p = g.get_centroid().get_coordinate();
        if with && max_abs(&v[0].iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()) < 1e6 {
            if let Some(p) = p {
                if !p.x.is_nan() && !p.y.is_nan() {
                    cx.ev("precision model kept");
                    ensure!(cx, snapped(p.x) && snapped(p.y), "{}: lost its precision model of scale {}, centroid {}", log, scale, f1(&p));
                }
            }
        }
    }

    // several
    let r = &mut cx.rng;
    let k = r.len(3);
    let mut vs: Vec<Poly> = (0..k).map(|_| any_poly(r, lay)).collect();
    vs.push(v);
    if r.chance(1, if k > 4 { 2 } else { 8 }) {
        // all empty but one
        let j = r.us(k + 1);
        for i in (0..=k).filter(|i| *i != j) {
            vs[i] = vec![vec![]];
        }
    }
    let ps: Vec<Polygon> = vs.iter().map(|v| mk_poly(r, v, lay, None)).collect();
    let mut g = match r.below(2) {
        _ if with => MultiPolygon::new_with_polygons_precision_model(&ps, pm),
        0 => GF::create_multi_polygon(&ps),
        _ => MultiPolygon::new_with_polygons(&ps),
    };
    let n = vs.iter().map(|v| v.iter().map(|w| fmt_cs(w)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" and ");
    let mut log = format!("polygons {}", n);
    if vs.iter().any(|v| v[0].is_empty()) {
        cx.ev("empty members");
    }
    for _ in 0..3 {
        ensure!(cx, g.get_num_polygons() == vs.len(), "{}: {} polygons", log, g.get_num_polygons());
        ensure!(cx, g.is_empty() == vs.iter().all(|v| v[0].is_empty()), "{}: emptiness is {}", log, g.is_empty());
        ensure!(cx, g.get_dimension() == 2 && g.has_dimension(2) && ![-1, 3, 99].iter().any(|d| g.has_dimension(*d)) && !g.has_dimension(1) && !g.has_dimension(0) && g.get_boundary_dimension() == 1, "{}: dimensions", log);
        ensure!(cx, g.get_geometry_type() == "MultiPolygon" && g.get_type_code() == Geometry::TYPECODE_MULTIPOLYGON, "{}: type", log);
        for (i, v) in vs.iter().enumerate() {
            poly_is(cx, &g.get_polygon_at_index(i), v, &format!("polygon {} of {}", i, log))?;
        }
        ensure!(cx, g.equals_exact(g.copy(), 0.0), "{}: not equal to its copy", log);
        let m = max_abs(&vs.concat().concat().iter().map(|p| (p.x, p.y)).collect::<Vec<_>>());
        let p = g.get_centroid().get_coordinate();
        if let (true, true, Some(p)) = (with, m < 1e6, p) {
            if !p.x.is_nan() && !p.y.is_nan() {
                cx.ev("precision model kept");
                ensure!(cx, snapped(p.x) && snapped(p.y), "{}: lost its precision model of scale {}, centroid {}", log, scale, f1(&p));
            }
        }
        if cx.rng.bool() {
            log.push_str(" copied");
            g = g.copy();
        } else {
            log.push_str(" reversed");
            vs = vs.iter().map(rev_poly).collect();
            g = g.reverse();
        }
    }
    Ok(())
}

fn rotated(v: &[Coordinate], k: usize) -> Vec<Coordinate> {
    let n = v.len() - 1;
    let mut w: Vec<Coordinate> = (0..n).map(|i| v[(i + k) % n]).collect();
    w.push(w[0]);
    w
}
fn xy(v: &[Coordinate]) -> Vec<P> {
    v.iter().map(|p| (p.x, p.y)).collect()
}
/// normal form of a closed ring without repeated points
fn ring_normal(v: &[Coordinate], cw: bool) -> Vec<Coordinate> {
    let n = v.len() - 1;
    let k = (0..n).min_by(|&a, &b| (v[a].x, v[a].y).partial_cmp(&(v[b].x, v[b].y)).unwrap()).unwrap();
    let w = rotated(v, k);
    if (area2(&xy(v)).sign() > 0) == cw {
        rev(&w)
    } else {
        w
    }
}
fn normal(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lay = r.us(4);
    let k = r.len(4);
    let mut simple = true;
    let rep = r.chance(1, 3);
    let mut v: Poly = vec![];
    for _ in 0..=k {
        let mut ps = simple_ring(r);
        if rep && r.bool() {
            ps = decorate(r, &ps);
        }
        v.push(coords_own(r, &ps, lay, 0));
        simple &= is_simple_ring(&ps);
    }
    if r.chance(1, 4) && k > 0 {
        let i = 1 + r.us(k);
        v[i] = v[1].clone();
    }
    let mut g = mk_poly(r, &v, lay, None);
    let n = desc(cx, "polygon", &v);
    cx.nontrivial();
    cx.ev("normalized");
    if cx.rng.bool() {
        g.get_envelope_internal();
    }
    g.self_normalize();
    if !simple {
        // same rings, started at the least point, closed
        cx.ev("repeated points");
        let h: Vec<LinearRing> = (0..g.get_num_interior_ring()).map(|i| g.get_interior_ring_n(i)).collect();
        ensure!(cx, h.len() == k, "{}: normalized to {} holes", n, h.len());
        let sorted = |w: &[Coordinate]| {
            let mut q = xy(w);
            q.pop();
            q.sort_by(|a, b| a.partial_cmp(b).unwrap());
            q
        };
        let mut left: Vec<Vec<P>> = v[1..].iter().map(|w| sorted(w)).collect();
        for (i, ring) in std::iter::once(&g.get_exterior_ring()).chain(&h).enumerate() {
            let w = ring.get_coordinates();
            let s = sorted(&w);
            ensure!(cx, closed(&w) && (w[0].x, w[0].y) == s[0], "{}: ring {} normalized to {}", n, i, fmt_cs(&w));
            if i == 0 {
                ensure!(cx, s == sorted(&v[0]), "{}: shell normalized to {}", n, fmt_cs(&w));
            } else {
                let at = left.iter().position(|q| *q == s);
                ensure!(cx, at.is_some(), "{}: a hole normalized to {}", n, fmt_cs(&w));
                left.remove(at.unwrap());
            }
            let up = area2(&xy(&w)).sign();
            ensure!(cx, up == 0 || (up > 0) == (i > 0), "{}: ring {} normalized to {}, in the wrong direction", n, i, fmt_cs(&w));
        }
        let order = h.windows(2).position(|p| xy(&p[0].get_coordinates()) > xy(&p[1].get_coordinates()));
        ensure!(cx, order.is_none(), "{}: holes {:?} and the next are out of order", n, order);
        return Ok(());
    }
    let mut w: Poly = v.iter().enumerate().map(|(i, x)| ring_normal(x, i == 0)).collect();
    let unsorted: Vec<Vec<P>> = w[1..].iter().map(|x| xy(x)).collect();
    w[1..].sort_by(|a, b| xy(a).partial_cmp(&xy(b)).unwrap());
    if w[1..].iter().zip(&unsorted).any(|(a, b)| xy(a) != *b) {
        cx.ev("holes reordered");
    }
    // holes of equal shape may come in either order; compare the plane only then
    let tie = w[1..].windows(2).any(|p| xy(&p[0]) == xy(&p[1]));
    let got: Poly = std::iter::once(g.get_exterior_ring().get_coordinates()).chain((0..g.get_num_interior_ring()).map(|i| g.get_interior_ring_n(i).get_coordinates())).collect();
    let same = got.len() == w.len() && got.iter().zip(&w).all(|(a, b)| if tie { xy(a) == xy(b) } else { same_cs(a, b) });
    ensure!(cx, same, "{} normalized to {} not {}", n, got.iter().map(|w| fmt_cs(w)).collect::<Vec<_>>().join(" "), w.iter().map(|w| fmt_cs(w)).collect::<Vec<_>>().join(" "));
    if !tie {
        poly_is(cx, &g, &w, &format!("{} normalized", n))?;
    }
    // a different presentation of the same polygon
    let r = &mut cx.rng;
    let mut u: Poly = v
        .iter()
        .map(|x| {
            let k = r.us(x.len());
            let x = rotated(x, k);
            if r.bool() {
                rev(&x)
            } else {
                x
            }
        })
        .collect();
    for i in 1..u.len() {
        let j = 1 + r.us(i);
        u.swap(i, j);
    }
    let mut h = mk_poly(r, &u, lay, None);
    h.self_normalize();
    cx.ev("canonical form compared");
    ensure!(cx, h.equals_exact(&g, 0.0) && g.compare_to(&h) == 0, "{} and its presentation {} have different normal forms", n, u.iter().map(|w| fmt_cs(w)).collect::<Vec<_>>().join(" "));
    // single rings, either direction
    let cw = cx.rng.bool();
    let lr = mk_ring(&mut cx.rng, &v[0], lay);
    let q = g.normalized(&lr, cw).get_coordinates();
    ensure!(cx, same_cs(&q, &ring_normal(&v[0], cw)), "{}: shell normalized {} to {}", n, if cw { "clockwise" } else { "counter-clockwise" }, fmt_cs(&q));
    ring_is(cx, &lr, &v[0], &format!("{} (original shell)", n))?;
    // empty polygons stay so
    let mut e = Polygon::new_with_linear_ring(&GF::create_linear_ring());
    e.self_normalize();
    ensure!(cx, e.is_empty() && e.get_coordinates().is_empty(), "an empty polygon normalized is not empty");
    Ok(())
}

fn rectangles(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = Style::any(r);
    let (a, b) = (st.pt(r), st.pt(r));
    let mut ps: Vec<P> = match r.below(6) {
        0 => simple_ring(r),
        1 => {
            // a quadrilateral
            let k = r.pick(&[1, 2, 5]);
            let mut v = Style::Grid(k).pts(r, 4);
            v.push(v[0]);
            v
        }
        2 => {
            // a diamond or a tilted rectangle
            let (x, y) = (r.int(-3, 3) as f64, r.int(-3, 3) as f64);
            let mut v = vec![(0.0, 0.0), (x, y), (x - y, y + x), (-y, x)];
            v.push(v[0]);
            v
        }
        _ => {
            let mut v = vec![a, (a.0, b.1), b, (b.0, a.1)];
            match r.below(5) {
                0 => {
                    let i = r.us(4);
                    v[i].0 = nudge(v[i].0, 1);
                }
                1 => {
                    let i = r.us(4);
                    v[i].1 = nudge(v[i].1, -1);
                }
                2 => {
                    // an extra point on a side
                    let i = r.us(4);
                    let m = ((v[i].0 + v[(i + 1) % 4].0) / 2.0, (v[i].1 + v[(i + 1) % 4].1) / 2.0);
                    v.insert(i + 1, m);
                }
                _ => {}
            }
            v.push(v[0]);
            v
        }
    };
    ps = orient_random(r, ps);
    let k = r.us(ps.len() - 1);
    let lay = r.us(4);
    let v = rotated(&coords(r, &ps, lay), k);
    let q = xy(&v);
    if !is_simple_ring(&q) {
        return Ok(());
    }
    let straight = q.len() == 5 && q.windows(2).all(|w| (w[0].0 == w[1].0) != (w[0].1 == w[1].1));
    let mut poly = vec![v.clone()];
    if straight && r.chance(1, 5) {
        let (x0, x1) = (q[0].0.min(q[2].0), q[0].0.max(q[2].0));
        let (y0, y1) = (q[0].1.min(q[2].1), q[0].1.max(q[2].1));
        let m = ((x0 + x1) / 2.0, (y0 + y1) / 2.0);
        let h = vec![m, (x1, m.1), (m.0, y1), m];
        for _ in 0..r.pick(&[1, 1, 2, 3, 5]) {
            poly.push(coords(r, &h, lay));
        }
    }
    let mut g = mk_poly(r, &poly, lay, None);
    let n = desc(cx, "polygon", &poly);
    cx.nontrivial();
    let want = straight && poly.len() == 1;
    cx.ev(if want { "rectangle" } else { "not a rectangle" });
    for _ in 0..2 {
        ensure!(cx, g.is_rectangle() == want, "{}: rectangle is {}", n, !want);
        ensure!(cx, g.reverse().is_rectangle() == want, "{}: rectangle reversed is {}", n, !want);
        poly_is(cx, &g, &poly, &n)?;
        g.get_envelope_internal();
    }
    let e = Polygon::new_with_linear_ring(&GF::create_linear_ring());
    ensure!(cx, !e.is_rectangle(), "an empty polygon is a rectangle");
    Ok(())
}

/// pairs of point lists on a small grid, moved or changed a little
fn pair(r: &mut Rng, ring: bool) -> (Vec<P>, Vec<P>) {
    let st = Style::Grid(r.pick(&[2, 9, 500]));
    let n = if r.chance(1, 300) { r.us(1500) } else { r.us(6) };
    let mut a = st.pts(r, n);
    let mut b = a.clone();
    let mode = r.below(7);
    for p in b.iter_mut() {
        if mode == 0 || (mode < 3 && r.chance(1, 4)) {
            *p = (p.0 + r.pick(&[0.0, 3.0, -3.0, 4.0, 0.5]), p.1 + r.pick(&[0.0, 4.0, -4.0, 3.0, -0.5]));
        }
    }
    match mode {
        3 => {
            b.pop();
        }
        4 => b.reverse(),
        5 if n > 0 => {
            // one point, wherever
            let i = r.us(n);
            b[i].0 += r.pick(&[3.0, -3.0, 0.5, 1e3]);
        }
        _ => {}
    }
    if ring {
        for v in [&mut a, &mut b] {
            if !v.is_empty() {
                let f = v[0];
                v.push(f);
            }
        }
    }
    (a, b)
}
fn close(a: &[P], b: &[P], tol: f64) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(p, q)| {
            let d = (p.0 - q.0, p.1 - q.1);
            d.0 * d.0 + d.1 * d.1 <= tol * tol
        })
}
fn equality(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let tol = r.pick(&[0.0, 0.5, 1.0, 3.0, 4.0, 4.5, 5.0, 6.0, 1e-12, 2000.0, 1e12]);
    let (la, lb) = (r.us(4), r.us(4));
    let many = r.chance(1, 200);
    let k = 1 + if many { r.us(600) } else { r.len(3) };
    let mut prs: Vec<(Vec<P>, Vec<P>)> = (0..k).map(|i| if many { let v = Style::Grid(9).pts(r, 4); (v.clone(), v) } else { pair(r, i < 2) }).collect();
    if many && r.bool() {
        // one part, wherever, differs
        let i = r.us(k);
        prs[i] = pair(r, true);
    }
    let a: Poly = prs.iter().map(|p| coords(r, &p.0, la)).collect();
    let mut b: Poly = prs.iter().map(|p| coords(r, &p.1, lb)).collect();
    if r.chance(1, 6) && k > 1 {
        b.pop();
    }
    let n = desc(cx, "a", &a);
    let m = format!("{} against {} within {}", n, desc(cx, "b", &b), tol);
    let mm = m.clone();
    cx.desc(|| mm);
    cx.key(&[tol]);
    cx.nontrivial();
    let each: Vec<bool> = a.iter().zip(&b).map(|(x, y)| close(&xy(x), &xy(y), tol)).collect();
    for i in 0..each.len() {
        cx.ev(if each[i] { "equal within tolerance" } else { "not equal within tolerance" });
        let r = &mut cx.rng;
        let (p, q) = (mk_line(r, &a[i], la), mk_line(r, &b[i], lb));
        ensure!(cx, p.equals_exact(&q, tol) == each[i] && q.equals_exact(&p, tol) == each[i], "{}: equality of line {} is not {}", m, i, each[i]);
        let r = &mut cx.rng;
        let (p, q) = (mk_ring(r, &a[i], la), mk_ring(r, &b[i], lb));
        ensure!(cx, p.equals_exact(&q, tol) == each[i] && q.equals_exact(&p, tol) == each[i], "{}: equality of ring {} is not {}", m, i, each[i]);
        let r = &mut cx.rng;
        // points; an empty one now and then
        let pick = |r: &mut Rng, v: &Vec<Coordinate>| if r.chance(1, 5) { None } else { v.first().cloned() };
        let (x, y) = (pick(r, &a[i]), pick(r, &b[i]));
        let w = match (&x, &y) {
            (None, None) => true,
            (Some(p), Some(q)) => close(&[(p.x, p.y)], &[(q.x, q.y)], tol),
            _ => false,
        };
        let (p, q) = (mk_point(r, x.as_ref(), la), mk_point(r, y.as_ref(), lb));
        ensure!(cx, p.equals_exact(&q, tol) == w && q.equals_exact(&p, tol) == w, "{}: equality of points {} and {} within {} is not {}", m, fo(&x), fo(&y), tol, w);
        if let (Some(p), Some(q)) = (&x, &y) {
            ensure!(cx, Geometry::equal(p, q, tol) == w, "equality of {} and {} within {} is not {}", f1(p), f1(q), tol, w);
        }
    }
    let all = a.len() == b.len() && each.iter().all(|&e| e);
    let r = &mut cx.rng;
    let (p, q) = (mk_poly(r, &a, la, None), mk_poly(r, &b, lb, None));
    ensure!(cx, p.equals_exact(&q, tol) == all && q.equals_exact(&p, tol) == all, "{}: equality of polygons is not {}", m, all);
    let r = &mut cx.rng;
    let ls = |r: &mut Rng, v: &Poly, l: usize| v.iter().map(|x| mk_line(r, x, l)).collect::<Vec<_>>();
    let (p, q) = (MultiLineString::new_with_line_strings(&ls(r, &a, la)), MultiLineString::new_with_line_strings(&ls(r, &b, lb)));
    ensure!(cx, p.equals_exact(&q, tol) == all && q.equals_exact(&p, tol) == all, "{}: equality of multilines is not {}", m, all);
    let r = &mut cx.rng;
    let pg = |r: &mut Rng, v: &Poly, l: usize| v.iter().map(|x| mk_poly(r, &vec![x.clone()], l, None)).collect::<Vec<_>>();
    let (p, q) = (MultiPolygon::new_with_polygons(&pg(r, &a, la)), MultiPolygon::new_with_polygons(&pg(r, &b, lb)));
    ensure!(cx, p.equals_exact(q.clone(), tol) == all && q.equals_exact(p.clone(), tol) == all, "{}: equality of multipolygons is not {}", m, all);
    let (p, q) = (GF::create_multi_point_with_coordinates(&a[0]), GF::create_multi_point_with_coordinates(&b[0]));
    ensure!(cx, p.equals_exact(q.copy(), tol) == each[0] && q.equals_exact(p.copy(), tol) == each[0], "{}: equality of multipoints is not {}", m, each[0]);
    // without the last coordinate: open lines, and points that differ in the first one only
    let cut = |v: &Vec<Coordinate>| v[..v.len().saturating_sub(1)].to_vec();
    let (x, y) = (cut(&a[0]), cut(&b[0]));
    let w = close(&xy(&x), &xy(&y), tol);
    let (p, q) = (GF::create_multi_point_with_coordinates(&x), GF::create_multi_point_with_coordinates(&y));
    ensure!(cx, p.equals_exact(q.copy(), tol) == w && q.equals_exact(p.copy(), tol) == w, "{}: equality of multipoints without the last point is not {}", m, w);
    let r = &mut cx.rng;
    let (p, q) = (mk_line(r, &x, la), mk_line(r, &y, lb));
    ensure!(cx, p.equals_exact(&q, tol) == w && q.equals_exact(&p, tol) == w, "{}: equality of lines without the last point is not {}", m, w);
    Ok(())
}

fn lex(a: &[Coordinate], b: &[Coordinate]) -> i32 {
    for (p, q) in a.iter().zip(b) {
        let o = (p.x, p.y).partial_cmp(&(q.x, q.y)).unwrap() as i32;
        if o != 0 {
            return o;
        }
    }
    a.len().cmp(&b.len()) as i32
}
/// with every ordinate of one layout
fn lex_all(a: &[Coordinate], b: &[Coordinate], lay: usize) -> i32 {
    let row = |p: &Coordinate| match lay {
        0 => vec![p.x, p.y],
        1 => vec![p.x, p.y, p.z],
        2 => vec![p.x, p.y, p.m],
        _ => vec![p.x, p.y, p.z, p.m],
    };
    for (p, q) in a.iter().zip(b) {
        let o = row(p).partial_cmp(&row(q)).unwrap() as i32;
        if o != 0 {
            return o;
        }
    }
    a.len().cmp(&b.len()) as i32
}
fn order(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let lay = r.us(4);
    let st = Style::Grid(r.pick(&[1, 1, 3]));
    let make = |r: &mut Rng| {
        let n = 1 + r.len(4);
        let mut ps = st.pts(r, n);
        ps.push(ps[0]);
        coords(r, &ps, lay)
    };
    let base: Poly = (0..1 + r.len(3)).map(|_| make(r)).collect();
    let vs: Vec<Poly> = (0..3)
        .map(|i| {
            let mut v = base.clone();
            if i > 0 {
                match r.below(6) {
                    5 => v = vec![vec![]],
                    0 => {
                        let k = r.us(v.len());
                        v[k] = make(r);
                    }
                    1 if v.len() > 1 => {
                        v.pop();
                    }
                    2 => v.push(make(r)),
                    3 => {
                        let k = r.us(v.len());
                        let q = xy(&v[k]);
                        v[k] = coords(r, &q, lay);
                    }
                    _ => {}
                }
            }
            v
        })
        .collect();
    let n: Vec<String> = vs.iter().map(|v| desc(cx, "", v)).collect();
    let nn = n.join(" / ");
    cx.desc(|| nn);
    cx.nontrivial();
    let cmp = Cmp::default();
    let r = &mut cx.rng;
    let ps: Vec<Polygon> = vs.iter().map(|v| mk_poly(r, v, lay, None)).collect();
    let ls: Vec<LineString> = vs.iter().map(|v| mk_line(r, &v[0], lay)).collect();
    let rs: Vec<LinearRing> = vs.iter().map(|v| mk_ring(r, &v[0], lay)).collect();
    let qs: Vec<Point> = vs.iter().map(|v| GF::create_point_from_coordinate_array_sequence(&A::new_with_coordinates(&v[0][..v[0].len().min(1)].to_vec()))).collect();
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&vs[i], &vs[j]);
            let w = lex(&a[0], &b[0]);
            let wa = lex_all(&a[0], &b[0], lay);
            cx.ev(if w == 0 { "order tied" } else { "order decided" });
            let g = ls[i].compare_to(&ls[j]);
            ensure!(cx, g.signum() == w, "line {} compared with {} gives {}", fmt_cs(&a[0]), fmt_cs(&b[0]), g);
            let g = rs[i].compare_to_same_class(&rs[j]);
            ensure!(cx, g.signum() == w, "ring {} compared with {} gives {}", fmt_cs(&a[0]), fmt_cs(&b[0]), g);
            let none = a[0].is_empty() || b[0].is_empty();
            if none {
                cx.ev("order with an empty one");
                // the layout of an empty one is open: only the planar order is asserted
                let g = ps[i].compare_to(&ps[j]);
                ensure!(cx, g.signum() == w, "polygon {} compared with {} gives {}", n[i], n[j], g);
                continue;
            }
            let g = ls[i].compare_to_with_comparator(&ls[j], &cmp);
            ensure!(cx, g.signum() == wa, "line {} compared in all ordinates with {} gives {}", fmt_cs(&a[0]), fmt_cs(&b[0]), g);
            let g = rs[i].compare_to_same_class_with_comparator(&rs[j], &cmp);
            ensure!(cx, g.signum() == wa, "ring {} compared in all ordinates with {} gives {}", fmt_cs(&a[0]), fmt_cs(&b[0]), g);
            let g = qs[i].compare_to_same_class(&qs[j], &cmp);
            ensure!(cx, g.signum() == lex_all(&a[0][..a[0].len().min(1)], &b[0][..b[0].len().min(1)], lay), "first point of {} compared in all ordinates with that of {} gives {}", fmt_cs(&a[0]), fmt_cs(&b[0]), g);
            let over = |f: &dyn Fn(&[Coordinate], &[Coordinate]) -> i32| {
                for (x, y) in a.iter().zip(b) {
                    let o = f(x, y);
                    if o != 0 {
                        return o;
                    }
                }
                a.len().cmp(&b.len()) as i32
            };
            let w = over(&|x, y| lex(x, y));
            let g = ps[i].compare_to(&ps[j]);
            ensure!(cx, g.signum() == w, "polygon {} compared with {} gives {}", n[i], n[j], g);
            let w = over(&|x, y| lex_all(x, y, lay));
            let g = ps[i].compare_to_with_comparator(&ps[j], &cmp);
            ensure!(cx, g.signum() == w, "polygon {} compared in all ordinates with {} gives {}", n[i], n[j], g);
        }
    }
    Ok(())
}
