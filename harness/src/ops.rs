//! A catalogue of the public operations, each a function of one bundle of inputs
//! that writes its results bit by bit into a record. Used to watch totality
//! (every operation returns) and history independence (the record is the same
//! whenever and wherever it is taken).
use crate::fw::Cx;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::algorithm::angle::Angle;
use geos_rs::verif_hooks::algorithm::area::Area;
use geos_rs::verif_hooks::algorithm::centroid::Centroid;
use geos_rs::verif_hooks::algorithm::cg_algorithms_3d::CGAlgorithms3D;
use geos_rs::verif_hooks::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use geos_rs::verif_hooks::algorithm::distance::Distance;
use geos_rs::verif_hooks::algorithm::hcoordinate::HCoordinate;
use geos_rs::verif_hooks::algorithm::intersection::Intersection;
use geos_rs::verif_hooks::algorithm::length::Length;
use geos_rs::verif_hooks::algorithm::orientation::Orientation;
use geos_rs::verif_hooks::algorithm::point_location::PointLocation;
use geos_rs::verif_hooks::algorithm::ray_crossing_counter::RayCrossingCounter;
use geos_rs::verif_hooks::algorithm::robust_line_intersector::RobustLineIntersector;
use geos_rs::verif_hooks::geom::coordinate::Coordinate as C;
use geos_rs::verif_hooks::geom::coordinate_array_sequences::CoordinateArraySequences as AS;
use geos_rs::verif_hooks::geom::coordinate_arrays::CoordinateArrays as CA;
use geos_rs::verif_hooks::geom::coordinate_list::CoordinateList;
use geos_rs::verif_hooks::geom::coordinate_sequence_comparator::CoordinateSequenceComparator;
use geos_rs::verif_hooks::geom::envelope::Envelope;
use geos_rs::verif_hooks::geom::geometry_factory::GeometryFactory as GF;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use geos_rs::verif_hooks::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble as K;
use geos_rs::verif_hooks::geom::intersection_matrix::IntersectionMatrix;
use geos_rs::verif_hooks::geom::line_segment::LineSegment;
use geos_rs::verif_hooks::geom::multi_line_string::MultiLineString;
use geos_rs::verif_hooks::geom::multi_polygon::MultiPolygon;
use geos_rs::verif_hooks::geom::octagonal_envelope::OctagonalEnvelope;
use geos_rs::verif_hooks::geom::packed_coordinate_sequences::PackedCoordinateSequences as KS;
use geos_rs::verif_hooks::geom::point::Point;
use geos_rs::verif_hooks::geom::polygon::Polygon;
use geos_rs::verif_hooks::geom::precision_model::PrecisionModel;
use geos_rs::verif_hooks::geom::quadrant::Quadrant;
use geos_rs::verif_hooks::geom::triangle::Triangle;
use geos_rs::verif_hooks::math::dd::DD;
use geos_rs::verif_hooks::math::matrix::Matrix;
use geos_rs::verif_hooks::math::vector_2d::Vector2D;
use geos_rs::verif_hooks::math::vector_3d::Vector3D;
use geos_rs::verif_hooks::util::math_util::MathUtil;

#[derive(Clone)]
pub struct In {
    pub p: Vec<C>,
    pub lists: Vec<Vec<C>>,
    pub f: Vec<f64>,
    pub lay: usize,
    pub scale: f64,
    pub im: [String; 2],
}

/// what an operation returned
#[derive(Default)]
pub struct Out(pub Vec<u64>);
impl Out {
    pub fn f(&mut self, x: f64) {
        self.0.push(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() });
    }
    pub fn u(&mut self, x: u64) {
        self.0.push(x);
    }
    pub fn i(&mut self, x: i64) {
        self.0.push(x as u64);
    }
    pub fn b(&mut self, x: bool) {
        self.0.push(x as u64);
    }
    pub fn c(&mut self, p: &C) {
        self.f(p.x);
        self.f(p.y);
        self.f(p.z);
        self.f(p.m);
    }
    pub fn oc(&mut self, p: &Option<C>) {
        match p {
            None => self.i(-7),
            Some(p) => self.c(p),
        }
    }
    pub fn cs(&mut self, v: &[C]) {
        self.i(v.len() as i64);
        for p in v {
            self.c(p);
        }
    }
    pub fn env(&mut self, e: &Envelope) {
        self.b(e.is_null());
        for x in [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()] {
            self.f(x);
        }
    }
    fn oct(&mut self, e: &OctagonalEnvelope) {
        self.b(e.is_null());
        for x in [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y(), e.get_min_a(), e.get_max_a(), e.get_min_b(), e.get_max_b()] {
            self.f(x);
        }
    }
    fn d(&mut self, x: &DD) {
        // hi and lo part
        let s = x.dump();
        for b in s.bytes() {
            self.0.push(b as u64);
        }
    }
    fn v2(&mut self, v: &Vector2D) {
        self.f(v.get_x());
        self.f(v.get_y());
    }
    fn v3(&mut self, v: &Vector3D) {
        self.f(v.get_x());
        self.f(v.get_y());
        self.f(v.get_z());
    }
    fn s(&mut self, s: &str) {
        for b in s.bytes() {
            self.0.push(b as u64);
        }
    }
}

impl In {
    pub fn digest(&self) -> Vec<u64> {
        let mut o = Out::default();
        o.cs(&self.p);
        for l in &self.lists {
            o.cs(l);
        }
        for x in &self.f {
            o.f(*x);
        }
        o.0
    }
    pub fn show(&self) -> String {
        format!(
            "points {} lists {} numbers {:?} layout {} scale {:?} matrices {:?}",
            fmt_cs(&self.p),
            self.lists.iter().map(|l| fmt_cs(l)).collect::<Vec<_>>().join(" "),
            self.f,
            self.lay,
            self.scale,
            self.im
        )
    }
    pub fn seq(&self, i: usize) -> A {
        let (d, m) = [(2, 0), (3, 0), (3, 1), (4, 1)][self.lay];
        A::new_with_coordinates_dimension_measures(self.lists[i].clone(), d, m)
    }
    fn packed(&self, i: usize) -> K {
        let (d, m) = [(2, 0), (3, 0), (3, 1), (4, 1)][self.lay];
        K::new_coordinates_with_dimension_measures(&self.lists[i], d, m)
    }
    pub fn polygon(&self) -> Polygon {
        let r: Vec<_> = self.lists.iter().map(|l| GF::create_linear_ring_with_coordinates(l)).collect();
        Polygon::new_with_linear_ring_vec_precision_model(&r[0], &r[1..].to_vec(), PrecisionModel::new_with_scale(self.scale))
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Hostile {
    /// finite, of every magnitude, degenerate and empty
    Finite,
    /// NaN and infinities too
    Special,
    /// small grids: many coincidences
    Grid,
}

fn num(r: &mut Rng, h: Hostile, st: &Style) -> f64 {
    match h {
        Hostile::Grid => st.ord(r),
        _ => match r.below(8) {
            0 if h == Hostile::Special => r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
            0 => r.pick(&[0.0, -0.0, 1.0]),
            1 => r.pick(&[f64::MAX, -f64::MAX, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e154, 1e-154, 1e308, 4.5e15]),
            2 => f64::from_bits(r.u64() & !(0x7ff << 52) | (r.below(2046) << 52)),
            3 => r.int(-3, 3) as f64,
            _ => st.ord(r),
        },
    }
}
fn pt(r: &mut Rng, h: Hostile, st: &Style, lay: usize) -> C {
    let (x, y, z, m) = (num(r, h, st), num(r, h, st), num(r, h, st), num(r, h, st));
    match lay {
        0 => C::new_xy(x, y),
        1 => C::new_xyz(x, y, z),
        2 => C::new_xym(x, y, m),
        _ => C::new_xyzm(x, y, z, m),
    }
}
pub fn make(r: &mut Rng, h: Hostile) -> In {
    let st = if h == Hostile::Grid { Style::Grid(r.pick(&[1, 2, 6])) } else { Style::any(r) };
    let lay = r.us(4);
    let mut p: Vec<C> = (0..6).map(|_| pt(r, h, &st, lay)).collect();
    for i in 1..6 {
        if r.chance(1, 5) {
            p[i] = p[r.us(i)];
        } else if r.chance(1, 8) {
            p[i].x = p[0].x;
        } else if r.chance(1, 8) {
            p[i].y = p[0].y;
        }
    }
    let lists = (0..3)
        .map(|_| {
            if h != Hostile::Special && r.chance(1, 4) {
                return cs(&simple_ring(r));
            }
            let n = if r.chance(1, 120) { r.us(250) } else { r.pick(&[0, 0, 1, 2, 3, 4, 5, 8]) };
            let mut v: Vec<C> = vec![];
            for _ in 0..n {
                let q = if !v.is_empty() && r.chance(1, 4) {
                    v[r.us(v.len())]
                } else if r.chance(1, 6) {
                    p[r.us(6)]
                } else {
                    pt(r, h, &st, lay)
                };
                v.push(q);
            }
            if n > 0 && r.chance(2, 3) {
                v.push(v[0]);
            }
            v
        })
        .collect();
    let f = (0..8).map(|_| num(r, h, &st)).collect();
    let im = [0, 1].map(|_| (0..9).map(|_| r.pick(&['F', '0', '1', '2'])).collect());
    In { p, lists, f, lay, scale: r.pick(&[1.0, 10.0, 0.5, 1e6, 1e-3]), im }
}

pub type Op = (&'static str, fn(&In, &mut Out));

pub const OPS: &[Op] = &[
    ("orientation", |a, o| {
        let p = &a.p;
        o.i(Orientation::index(&p[0], &p[1], &p[2]) as i64);
        o.i(CGAlgorithmsDD::orientation_index_coordinates(&p[3], &p[1], &p[2]) as i64);
        o.i(CGAlgorithmsDD::sign_of_det2x2_f64(a.f[0], a.f[1], a.f[2], a.f[3]) as i64);
        o.i(CGAlgorithmsDD::sign_of_det2x_2dd(&DD::new_x(a.f[0]), &DD::new_x(a.f[1]), &DD::new_x(a.f[2]), &DD::new_x(a.f[3])) as i64);
        o.i(CGAlgorithmsDD::orientation_index_filter(p[0].x, p[0].y, p[1].x, p[1].y, p[2].x, p[2].y) as i64);
    }),
    ("ring direction", |a, o| {
        for i in 0..3 {
            o.b(Orientation::is_ccw_vec(&a.lists[i]));
            o.b(Orientation::is_ccw_coordinate_array_sequence(&a.seq(i)));
            o.b(Orientation::is_ccw_area_vec(&a.lists[i]));
        }
    }),
    ("intersector", |a, o| {
        let p = &a.p;
        let mut li = RobustLineIntersector::default();
        for k in 0..3 {
            if k == 2 {
                li.set_precision_model(PrecisionModel::new_with_scale(a.scale));
            }
            li.compute_intersection_4(&p[k], &p[k + 1], &p[k + 2], &p[k + 3]);
            o.b(li.has_intersection());
            o.c(&li.get_intersection(0));
            o.c(&li.get_intersection(1));
            li.compute_intersection_3(&p[k], &p[k + 1], &p[k + 2]);
            o.b(li.has_intersection());
        }
    }),
    ("line intersection", |a, o| {
        let p = &a.p;
        o.oc(&Intersection::intersection(&p[0], &p[1], &p[2], &p[3]));
        o.oc(&Intersection::intersection_fp(&p[0], &p[1], &p[2], &p[3]));
        o.oc(&Intersection::line_segment(&p[0], &p[1], &p[2], &p[3]));
        o.oc(&CGAlgorithmsDD::intersection(&p[0], &p[1], &p[2], &p[3]));
        o.oc(&HCoordinate::intersection(&p[0], &p[1], &p[2], &p[3]));
        o.c(&HCoordinate::new_with_coordinates_4(&p[0], &p[1], &p[2], &p[3]).get_coordinate());
    }),
    ("point location", |a, o| {
        for q in &a.p {
            for i in 0..3 {
                let l = &a.lists[i];
                o.i(PointLocation::locate_in_ring(q, l) as i64);
                o.b(PointLocation::is_in_ring(q, l));
                o.b(PointLocation::is_on_line_coordinates(q, l));
                o.b(PointLocation::is_on_line_coordinate_array_sequence(q, &a.seq(i)));
                o.i(RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(q, &a.seq(i)) as i64);
                o.i(RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(q, &a.packed(i)) as i64);
            }
        }
        o.b(PointLocation::is_on_segment(&a.p[0], &a.p[1], &a.p[2]));
        let mut k = RayCrossingCounter::new_with_coordinate(&a.p[0]);
        for i in 1..5 {
            k.count_segment(&a.p[i], &a.p[i + 1]);
            o.i(k.get_location() as i64);
            o.i(k.get_count() as i64);
            o.b(k.is_on_segment());
            o.b(k.is_point_in_polygon());
        }
    }),
    ("area and length", |a, o| {
        for i in 0..3 {
            o.f(Area::of_ring_vec(&a.lists[i]));
            o.f(Area::of_ring_signed_vec(&a.lists[i]));
            o.f(Area::of_ring_coordinate_sequence(&a.seq(i)));
            o.f(Area::of_ring_signed_coordinate_sequence(&a.seq(i)));
            o.f(Length::of_line(&a.seq(i)));
        }
        let g = a.polygon();
        o.f(g.get_area());
        o.f(g.get_length());
    }),
    ("centroid", |a, o| {
        let g = a.polygon();
        o.oc(&Centroid::get_centroid_from_polygon(&g));
        o.oc(&g.get_centroid().get_coordinate());
        let l = GF::create_line_string_coordinate_array_sequence(&a.seq(1));
        o.oc(&Centroid::new_from_line_string(&l).get_centroid());
        let m = MultiPolygon::new_with_polygons(&vec![g.clone(), GF::create_polygon_with_coordinates(&a.lists[1])]);
        o.oc(&Centroid::get_centroid_from_multi_polygon(&m));
        o.oc(&m.get_centroid().get_coordinate());
        o.oc(&Centroid::get_centroid_from_point(&GF::create_point_from_coordinate(&a.p[0])));
        o.oc(&Centroid::get_centroid_from_point(&Point::default()));
        let mut c = Centroid::default();
        o.oc(&c.get_centroid());
        c.add_point(&a.p[0]);
        c.add_line_segments(&a.lists[2]);
        o.oc(&c.get_centroid());
        c.add_polygon(&g);
        o.oc(&c.get_centroid());
    }),
    ("distance", |a, o| {
        let p = &a.p;
        o.f(Distance::segment_to_segment(&p[0], &p[1], &p[2], &p[3]));
        o.f(Distance::point_to_segment(&p[0], &p[1], &p[2]));
        o.f(Distance::point_to_line_perpendicular(&p[0], &p[1], &p[2]));
        o.f(Distance::point_to_line_perpendicular_signed(&p[0], &p[1], &p[2]));
        for l in &a.lists {
            if !l.is_empty() {
                o.f(Distance::point_to_segment_string(&p[0], l));
            }
        }
        o.f(CGAlgorithms3D::distance(&p[0], &p[1]));
        o.f(CGAlgorithms3D::distance_point_segment(&p[0], &p[1], &p[2]));
        o.f(CGAlgorithms3D::distance_segment_segment(&p[0], &p[1], &p[2], &p[3]));
        o.f(p[0].distance(&p[1]));
        o.f(p[0].distance_3d(&p[1]));
    }),
    ("angle", |a, o| {
        let p = &a.p;
        o.f(Angle::angle_coordinates(&p[0], &p[1]));
        o.f(Angle::angle_coordinate(&p[0]));
        o.b(Angle::is_acute(&p[0], &p[1], &p[2]));
        o.b(Angle::is_obtuse(&p[0], &p[1], &p[2]));
        o.f(Angle::angle_between(&p[0], &p[1], &p[2]));
        o.f(Angle::angle_between_oriented(&p[0], &p[1], &p[2]));
        o.f(Angle::bisector(&p[0], &p[1], &p[2]));
        o.f(Angle::interior_angle(&p[0], &p[1], &p[2]));
        let t: Vec<f64> = a.f.iter().map(|x| if x.is_finite() { x % 1000.0 } else { f64::NAN }).collect();
        o.i(Angle::get_turn(t[0], t[1]) as i64);
        o.f(Angle::normalize(t[0]));
        o.f(Angle::normalize_positive(t[1]));
        o.f(Angle::diff(t[2], t[3]));
        o.f(Angle::to_degrees(a.f[4]));
        o.f(Angle::to_radians(a.f[4]));
        o.f(Angle::sin_snap(t[5]));
        o.f(Angle::cos_snap(t[5]));
        o.c(&Angle::project(&p[0], t[6], a.f[7]));
    }),
    ("segment", |a, o| {
        let p = &a.p;
        let s = LineSegment::new_from_coordinates(&p[0], &p[1]);
        let t = LineSegment::new_from_coordinates(&p[2], &p[3]);
        o.f(s.get_length());
        o.b(s.is_horizontal());
        o.b(s.is_vertical());
        o.i(s.orientation_index_line_segment(&t) as i64);
        o.i(s.orientation_index_coordinate(&p[4]) as i64);
        o.f(s.angle());
        o.c(&s.mid_point());
        o.f(s.distance_line_segment(&t));
        o.f(s.distance_coordinate(&p[4]));
        o.f(s.distance_perpendicular(&p[4]));
        o.f(s.distance_perpendicular_oriented(&p[4]));
        o.c(&s.point_along(a.f[0]));
        o.f(s.projection_factor(&p[4]));
        o.f(s.segment_fraction(&p[4]));
        o.c(&s.project_coordinate(&p[4]));
        if let Some(q) = s.project_line_segment(&t) {
            o.c(&q.get_coordinate(0));
            o.c(&q.get_coordinate(1));
        }
        o.c(&s.reflect(&p[4]));
        o.c(&s.closest_point(&p[4]));
        o.cs(&s.closest_points(&t));
        o.oc(&s.intersection(&t));
        o.oc(&s.line_intersection(LineSegment::new_from_coordinates(&p[2], &p[3])));
        o.b(s.equals(&t));
        o.b(s.equals_topo(&t));
        o.i(s.compare_to(&t) as i64);
        let mut n = LineSegment::new_from_line_segment(&s);
        n.reverse();
        o.c(&n.get_coordinate(0));
        n.normalize();
        o.c(&n.get_coordinate(0));
        for x in [s.min_x(), s.max_x(), s.min_y(), s.max_y()] {
            o.f(x);
        }
    }),
    ("segment offset", |a, o| {
        // a zero-length segment cannot be offset
        let p = &a.p;
        let s = LineSegment::new_from_coordinates(&p[0], &p[1]);
        if s.get_length() > 0.0 {
            o.c(&s.point_along_offset(a.f[0], a.f[1]));
            let t = s.offset(a.f[1]);
            o.c(&t.get_coordinate(0));
            o.c(&t.get_coordinate(1));
        }
    }),
    ("envelope", |a, o| {
        let p = &a.p;
        let mut e = Envelope::new_coordinates(&p[0], &p[1]);
        let n = Envelope::default();
        let q = Envelope::new_coordinate(&p[2]);
        let t = CA::envelope(&a.lists[0]);
        for x in [&n, &q, &t] {
            o.env(&e.intersection_envelope(x));
            o.b(e.intersects_envelope(x));
            o.b(e.disjoint_envelope(x));
            o.b(e.overlaps_envelope(x));
            o.b(e.contains_envelope(x));
            o.b(e.covers_envelope(x));
            o.b(e.contains_properly(x));
            o.b(e.equals(x));
            o.i(e.compare_to_envelope(x) as i64);
            if !x.is_null() {
                o.f(e.distance_envelope(x));
            }
            let mut y = e.copy();
            y.expand_to_include_envelope(x);
            o.env(&y);
        }
        for x in [&e, &n, &q, &t] {
            o.f(x.get_width());
            o.f(x.get_height());
            o.f(x.get_diameter());
            o.f(x.get_area());
            o.f(x.min_extent());
            o.f(x.max_extent());
            o.oc(&x.centre());
            o.b(x.contains_coordinate(&p[3]));
            o.b(x.intersects_coordinate(&p[3]));
            o.b(x.covers_coordinate(&p[3]));
            o.b(x.overlaps_coordinate(&p[3]));
            o.b(x.intersects_coordinate_ab(&p[3], &p[4]));
        }
        o.b(Envelope::intersects_3(&p[0], &p[1], &p[2]));
        o.b(Envelope::intersects_4(&p[0], &p[1], &p[2], &p[3]));
        e.expand_by_delta_xy(a.f[0], a.f[1]);
        o.env(&e);
        e.expand_by(a.f[2]);
        o.env(&e);
        e.translate(a.f[3], a.f[4]);
        o.env(&e);
        e.expand_to_include_coordinate(&p[5]);
        o.env(&e);
        e.init(&n);
        o.env(&e);
        e.expand_to_include_xy(a.f[0], a.f[1]);
        o.env(&e);
        e.set_to_null();
        o.env(&e);
    }),
    ("octagonal envelope", |a, o| {
        let mut e = OctagonalEnvelope::new_with_coordinates(&a.p[0], &a.p[1]);
        let n = OctagonalEnvelope::default();
        let t = OctagonalEnvelope::new_with_line_string(&GF::create_line_string_coordinates(&a.lists[0]));
        let q = OctagonalEnvelope::new_with_envelope(&CA::envelope(&a.lists[1]));
        for x in [&n, &t, &q] {
            o.oct(x);
            o.b(x.is_valid());
            o.b(e.intersects_octagonal_envelope(x));
            o.b(e.contains_octagonal_envelope(x));
            o.b(x.intersects_coordinate(&a.p[2]));
            let mut y = OctagonalEnvelope::new_with_octagonal_envelope(&e);
            y.expand_to_include_octagonal_envelope(x);
            o.oct(&y);
        }
        e.expand_by_distance(a.f[0]);
        o.oct(&e);
        e.expand_to_include_coordinate(&a.p[3]);
        o.oct(&e);
        e.set_to_null();
        o.oct(&e);
    }),
    ("triangle", |a, o| {
        let p = &a.p;
        let t = Triangle::new(&p[0], &p[1], &p[2]);
        o.b(t.is_acute());
        o.b(t.is_ccw());
        for x in [t.circumradius(), t.length(), t.longest_side_length(), t.area(), t.signed_area(), t.area_3d(), t.interpolate_z(&p[3])] {
            o.f(x);
        }
        o.c(&t.in_centre());
        o.c(&t.circumcentre());
        o.c(&t.centroid());
        o.c(&Triangle::circumcentre_dd_coordinates(&p[0], &p[1], &p[2]));
        o.c(&Triangle::angle_bisector_coordinates(&p[0], &p[1], &p[2]));
        o.b(Triangle::intersects_coordinates(&p[0], &p[1], &p[2], &p[3]));
        o.c(&Triangle::perpendicular_bisector_coordinates(&p[0], &p[1]).get_coordinate());
    }),
    ("coordinate arrays", |a, o| {
        let (u, v) = (&a.lists[0], &a.lists[1]);
        o.i(CA::dimension(u) as i64);
        o.i(CA::measures(u) as i64);
        o.b(CA::is_ring(u));
        o.oc(&CA::pt_not_in_list(u, v));
        o.i(CA::compare(u, v) as i64);
        o.i(CA::increasing_direction(u) as i64);
        if u.len() == v.len() {
            o.b(CA::is_equal_reversed(u, v));
        }
        o.b(CA::has_repeated_points(u));
        o.cs(&CA::remove_repeated_points(u));
        o.b(CA::has_repeated_or_invalid_points(u));
        o.cs(&CA::remove_repeated_or_invalid_points(u));
        o.cs(&CA::at_least_n_coordinates_or_nothing(3, u));
        let mut w = u.clone();
        w.reverse();
        o.cs(&w);
        CA::enforce_consistency(&mut w);
        o.cs(&w);
        o.b(CA::equals(u, v));
        o.oc(&CA::min_coordinate(u));
        o.i(CA::index_of(&a.p[0], u) as i64);
        CA::scroll_coordinate(&mut w, &a.p[0]);
        o.cs(&w);
        o.cs(&CA::extract(u, 1, 3));
        o.cs(&CA::extract(u, 3, 1));
        o.env(&CA::envelope(u));
        o.cs(&CA::intersection(u, &CA::envelope(v)));
        o.cs(&CA::copy_deep(u));
    }),
    ("sequences", |a, o| {
        let s = a.seq(0);
        let t = a.seq(1);
        o.b(AS::is_ring(&s));
        o.b(AS::is_equal(&s, &t));
        o.oc(&AS::min_coordinate(&s));
        o.i(AS::index_of(&a.p[0], &s) as i64);
        o.cs(&AS::ensure_valid_ring(&s).to_coordinate_array());
        o.cs(&AS::extend(&s, s.size() + 2).to_coordinate_array());
        let mut w = s.copy();
        AS::reverse(&mut w);
        AS::scroll_coordinate(&mut w, &a.p[0]);
        o.cs(&w.to_coordinate_array());
        o.i(CoordinateSequenceComparator::default().compare_coordinate_array_sequence(&s, &t) as i64);
        let mut e = Envelope::default();
        s.expand_envelope(&mut e);
        o.env(&e);
        let s = a.packed(0);
        let t = a.packed(1);
        o.b(KS::is_ring(&s));
        o.b(KS::is_equal(&s, &t));
        o.oc(&KS::min_coordinate(&s));
        o.i(KS::index_of(&a.p[0], &s) as i64);
        o.cs(&KS::ensure_valid_ring(&s).to_coordinate_array());
        o.cs(&KS::extend(&s, s.size() + 2).to_coordinate_array());
        let mut w = s.copy();
        KS::reverse(&mut w);
        KS::scroll_coordinate(&mut w, &a.p[0]);
        o.cs(&w.to_coordinate_array());
        o.env(&s.expand_envelope(&Envelope::default()));
    }),
    ("coordinate list", |a, o| {
        for rep in [false, true] {
            let mut l = CoordinateList::new_with_repeated(a.lists[0].clone(), rep);
            l.add_all(a.lists[1].clone(), rep);
            l.add_coordinate_list_repeated_direction(&a.lists[2], rep, false);
            l.add_coordinate_repeated(a.p[0], rep);
            l.add_index_coordinate_repeated(0, a.p[1], rep);
            o.cs(&l.to_coordinate_array());
            l.close_ring();
            o.cs(&l.to_coordinate_array());
            o.cs(&l.to_coordinate_array_forward(false));
        }
    }),
    ("geometries", |a, o| {
        let mut g = a.polygon();
        let mut h = g.reverse();
        o.b(g.equals_exact(&h, 0.5));
        o.i(g.compare_to(&h) as i64);
        o.b(g.is_rectangle());
        o.env(&g.get_envelope_internal());
        o.cs(&g.get_coordinates());
        o.i(g.get_num_points() as i64);
        o.oc(&g.get_coordinate());
        h.self_normalize();
        g.self_normalize();
        o.cs(&h.get_exterior_ring().get_coordinates());
        o.i(h.compare_to(&g) as i64);
        let mut l = GF::create_line_string_coordinate_array_sequence(&a.seq(0));
        let k = GF::create_line_string_coordinate_array_sequence(&a.seq(1));
        o.b(l.is_closed());
        o.f(l.get_length());
        o.i(l.compare_to(&k) as i64);
        o.b(l.equals_exact(&k, 1.0));
        o.b(l.is_coordinate(&a.p[0]));
        o.i(l.get_boundary_dimension() as i64);
        l.normalize();
        o.cs(&l.get_coordinates());
        let m = MultiLineString::new_with_line_strings(&vec![l, k]);
        o.b(m.reverse().equals_exact(&m.copy_internal(), 0.0));
        o.b(m.is_closed());
        let mut q = GF::create_multi_point_from_coordinate_array_sequence(&a.seq(2));
        o.env(&q.get_envelope_internal());
        o.cs(&q.reverse().get_coordinates());
        o.oc(&q.get_point_at_index(1).and_then(|p| p.get_coordinate()));
        let n = MultiPolygon::new_with_polygons(&vec![g, h]);
        o.f(n.get_area());
        o.b(n.reverse().equals_exact(n.copy(), 1.0));
    }),
    ("precision model", |a, o| {
        for mut m in [PrecisionModel::default(), PrecisionModel::new_with_scale(a.scale), PrecisionModel::new_with_scale(-a.scale)] {
            for x in &a.f {
                o.f(m.make_precise(*x));
            }
            let mut c = a.p[0];
            m.make_precise_coordinate(&mut c);
            o.c(&c);
            o.i(m.get_maximum_significant_digits() as i64);
            o.f(m.grid_size());
        }
    }),
    ("extended precision", |a, o| {
        let mut x = DD::new_x(a.f[0]).add_f64(a.f[1]);
        let y = DD::new_x(a.f[2]).multiply_f64(a.f[3]);
        for z in [x.add_dd(&y), x.subtract_dd(&y), x.multiply_dd(&y), x.divide_dd(&y), x.sqr(), x.sqrt_dd(), x.reciprocal(), x.floor(), x.ceil(), x.rint(), x.trunc(), x.abs(), x.negate(), x.pow(3), x.pow(-2), x.min(&y), x.max(&y), DD::determinant_xy_dd(&x, &y, &y, &x)] {
            o.d(&z);
            o.f(z.double_value());
        }
        for z in [DD::value_of_f64(a.f[0]), DD::new_hi_lo(a.f[0], a.f[1]), x] {
            for e in [0, 1, 7, -1, -5, 31, a.im[0].len() as i32 % 64, (a.f[5].to_bits() >> 57) as i32 - 64] {
                o.d(&z.pow(e));
            }
            for w in [z.sqr(), z.sqrt_dd(), z.reciprocal(), z.floor(), z.ceil(), z.trunc(), z.divide_dd(&y), y.divide_dd(&z), z.divide_f64(a.f[1])] {
                o.d(&w);
            }
            o.b(z.is_nan());
            o.i(z.signum() as i64);
        }
        o.i(x.compare_to(&y) as i64);
        o.i(x.int_value() as i64);
        o.i(x.signum() as i64);
        o.b(x.equals(&y));
        if a.f[4].is_finite() && a.f[4] != 0.0 {
            o.i(x.magnitude(a.f[4]) as i64);
        }
    }),
    ("vectors", |a, o| {
        let f = &a.f;
        let u = Vector2D::create_from_xy(f[0], f[1]);
        let v = Vector2D::create_from_coordinate_from_to(&a.p[0], &a.p[1]);
        for w in [u.add(&v), u.subtract(&v), u.multiply(f[2]), u.divide(f[2]), u.negate(), u.normalize(), u.average(&v), u.weighted_sum(&v, f[3]), u.rotate(f[4])] {
            o.v2(&w);
        }
        for k in -5..6 {
            if let Some(w) = u.rotate_by_quarter_circle(k) {
                o.v2(&w);
            }
        }
        for x in [u.length(), u.length_squared(), u.distance(&v), u.dot(&v), u.angle(), u.angle_vector_2d(&v)] {
            o.f(x);
        }
        o.f(u.angle_to(&v));
        o.b(u.is_parallel(&v));
        o.b(u.equals(&v));
        o.c(&u.translate(&a.p[0]));
        let u = Vector3D::create_from_xyz(f[0], f[1], f[2]);
        let v = Vector3D::create_from_xyz(f[3], f[4], f[5]);
        for w in [u.add(&v), u.subtract(&v), u.divide(f[6]), u.normalize()] {
            o.v3(&w);
        }
        o.f(u.dot(&v));
        o.f(u.length());
        o.f(Vector3D::dot_4(&a.p[0], &a.p[1], &a.p[2], &a.p[3]));
        o.c(&Vector3D::normalize_coordinate(&a.p[0]));
    }),
    ("linear system", |a, o| {
        let f = &a.f;
        let mut m = vec![vec![f[0], f[1]], vec![f[2], f[3]]];
        let mut b = vec![f[4], f[5]];
        match Matrix::solve(&mut m, &mut b) {
            None => o.i(-1),
            Some(x) => x.iter().for_each(|x| o.f(*x)),
        }
        let mut m = vec![vec![f[0], f[1], f[2]], vec![f[2], f[3], f[4]], vec![f[5], f[6], f[7]]];
        let mut b = vec![f[4], f[5], f[0]];
        match Matrix::solve(&mut m, &mut b) {
            None => o.i(-1),
            Some(x) => x.iter().for_each(|x| o.f(*x)),
        }
    }),
    ("intersection matrix", |a, o| {
        let mut m = IntersectionMatrix::new_with_elements(a.im[0].clone());
        let n = IntersectionMatrix::new_with_elements(a.im[1].clone());
        for d in 0..3 {
            for e in 0..3 {
                o.b(m.is_touches(d, e));
                o.b(m.is_crosses(d, e));
                o.b(m.is_overlaps(d, e));
                o.b(m.is_equals(d, e));
            }
        }
        for x in [m.is_disjoint(), m.is_intersects(), m.is_within(), m.is_contains(), m.is_covers(), m.is_covered_by(), m.equals(&n), m.matches_string(a.im[1].clone())] {
            o.b(x);
        }
        m.add(&n);
        o.s(&m.to_string());
        m.transpose();
        m.set_at_least_string(a.im[1].clone());
        o.s(&m.to_string());
    }),
    ("utilities", |a, o| {
        let f = &a.f;
        o.f(MathUtil::average(f[0], f[1]));
        o.f(MathUtil::max_4(f[0], f[1], f[2], f[3]));
        o.f(MathUtil::min(f[0], f[1], f[2], f[3]));
        o.f(MathUtil::clamp_f64(f[0], -1.0, 1.0));
        let i = |x: f64| (x as i64 as i32) % 1000;
        if i(f[1]) != 0 {
            o.i(MathUtil::ceil(i(f[0]), i(f[1])) as i64);
        }
        if i(f[1]) > 0 {
            o.i(MathUtil::wrap(i(f[0]), i(f[1])) as i64);
        }
        if f[0] != 0.0 || f[1] != 0.0 {
            let q = Quadrant::quadrant_xy(f[0], f[1]);
            o.i(q as i64);
            o.b(Quadrant::is_northern(q));
        }
    }),
];

pub fn show(cx: &mut Cx, a: &In, h: &str) {
    for k in a.digest() {
        cx.key_u(k);
    }
    let n = format!("{} {}", h, a.show());
    cx.desc(|| n);
}
