//! Coordinate sequences (object and packed) against a table of ordinates.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::coordinate_array_sequences::CoordinateArraySequences as AS;
use geos_rs::verif_hooks::geom::envelope::Envelope;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence_factory::CoordinateArraySequenceFactory as AF;
use geos_rs::verif_hooks::geom::implementation::packed_coordinate_sequence::PackedCoordinateSequence as B;
use geos_rs::verif_hooks::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble as K;
use geos_rs::verif_hooks::geom::implementation::packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory as KF;
use geos_rs::verif_hooks::geom::packed_coordinate_sequences::PackedCoordinateSequences as KS;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        quick: 1_500_000,
        families: vec![
            Family { name: "histories", weight: 6, run: history },
            Family { name: "two sequences", weight: 3, run: pair },
            Family { name: "factories", weight: 2, run: factory },
        ],
        rule: "Sequences of every layout (XY, XYZ, XYM, XYZM), empty to a dozen coordinates with repeats, closed or not, from every constructor and factory, put through random sequences of setting ordinates, swapping, reversing, scrolling by index or coordinate, copying, extending and closing; pairs of equal, almost equal and different layouts. Oracle: a table of ordinates.",
        assumptions: &["ordinates X and Y are not NaN", "minimum index of an empty sequence is not asked for", "copies between an XYM and an XYZ layout are not asserted"],
        need: &[("XY", 20000), ("XYZ", 20000), ("XYM", 20000), ("XYZM", 20000), ("scrolled ring", 5000), ("scrolled open", 5000), ("closed by a new point", 5000), ("short ring filled up", 5000), ("already closed", 2000), ("equal sequences", 5000), ("different sequences", 5000), ("range copied", 20000)],
    }
}

type Rows = Vec<Vec<f64>>;
#[derive(Clone)]
struct T {
    dim: usize,
    meas: usize,
    rows: Rows,
}
impl T {
    fn coord(&self, i: usize) -> Coordinate {
        let w = &self.rows[i];
        match (self.dim, self.meas) {
            (2, _) => Coordinate::new_xy(w[0], w[1]),
            (3, 0) => Coordinate::new_xyz(w[0], w[1], w[2]),
            (3, _) => Coordinate::new_xym(w[0], w[1], w[2]),
            _ => Coordinate::new_xyzm(w[0], w[1], w[2], w[3]),
        }
    }
    fn coords(&self) -> Vec<Coordinate> {
        (0..self.rows.len()).map(|i| self.coord(i)).collect()
    }
    fn flat(&self) -> Vec<f64> {
        self.rows.concat()
    }
    fn closed(&self) -> bool {
        let n = self.rows.len();
        n > 0 && self.rows[0][..2] == self.rows[n - 1][..2]
    }
    fn ring(&self) -> bool {
        self.rows.is_empty() || (self.rows.len() > 3 && self.closed())
    }
}
fn fmt(t: &T) -> String {
    format!("{}D{}M{:?}", t.dim, t.meas, t.rows)
}
fn rows(r: &mut Rng, dim: usize) -> Rows {
    let n = r.len(8);
    let k = r.pick(&[1, 2, 9]);
    let st = if r.chance(1, 8) { Style::Wild } else if r.chance(1, 4) { Style::any(r) } else { Style::Grid(k) };
    let mut v: Rows = (0..n).map(|_| (0..dim).map(|d| if d >= 2 && r.chance(1, 10) { f64::NAN } else { st.ord(r) }).collect()).collect();
    if n > 1 && r.chance(1, 2) {
        let w: Vec<f64> = v[0][..2].to_vec();
        v[n - 1][..2].copy_from_slice(&w);
        if r.bool() {
            let w = v[0].clone();
            v[n - 1] = w;
        }
    }
    v
}
fn table(r: &mut Rng) -> T {
    let (dim, meas) = r.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]);
    T { dim, meas, rows: rows(r, dim) }
}
fn layout(t: &T) -> &'static str {
    match (t.dim, t.meas) {
        (2, _) => "XY",
        (3, 0) => "XYZ",
        (3, _) => "XYM",
        _ => "XYZM",
    }
}
fn array(r: &mut Rng, t: &T) -> A {
    let s = array_of(r, t);
    if r.chance(1, 5) { A::new_from_coordinate_array_sequence(&s) } else { s }
}
fn array_of(r: &mut Rng, t: &T) -> A {
    let (d, m) = (t.dim as i32, t.meas as i32);
    match r.below(4) {
        0 => {
            let mut s = A::new_with_size_dimension_measures(t.rows.len(), d, m);
            fill(&mut s, t);
            s
        }
        1 => {
            let mut s = AF::create_with_size_dimension_measures(t.rows.len(), d, m);
            fill(&mut s, t);
            s
        }
        2 if t.meas == 0 => {
            let mut s = if r.bool() { A::new_with_size_dimension(t.rows.len(), d) } else { AF::create_with_size_dimension(t.rows.len(), d) };
            fill(&mut s, t);
            s
        }
        _ => A::new_with_coordinates_dimension_measures(t.coords(), d, m),
    }
}
fn fill(s: &mut A, t: &T) {
    for (i, w) in t.rows.iter().enumerate() {
        for (k, x) in w.iter().enumerate() {
            s.set_ordinate(i, k as i32, *x);
        }
    }
}
fn pack(r: &mut Rng, t: &T) -> K {
    let (d, m) = (t.dim as i32, t.meas as i32);
    match r.below(4) {
        0 => {
            let mut s = if r.bool() { K::new_with_size_dimension_measures(t.rows.len(), d, m) } else { KF::create_with_size_dimension_measures(t.rows.len(), d, m) };
            for (i, w) in t.rows.iter().enumerate() {
                for (k, x) in w.iter().enumerate() {
                    s.set_ordinate(i, k as i32, *x);
                }
            }
            s
        }
        1 => KF::create_double_coordinate_dimension_measures(&t.flat(), d, m),
        2 => K::new_coordinates_with_dimension_measures(&t.coords(), d, m),
        _ => K::new_f64_with_coordinates_dimension_measures(&t.flat(), d, m),
    }
}

/// everything observable of both sequences
fn same(cx: &mut Cx, a: &A, k: &K, t: &T, n: &str) -> R {
    let len = t.rows.len();
    ensure!(cx, a.size() == len && k.size() == len, "{}: sizes {} and {} but {}", n, a.size(), k.size(), len);
    ensure!(cx, a.get_dimension() as usize == t.dim && k.get_dimension() as usize == t.dim, "{}: dimensions {} and {} but {}", n, a.get_dimension(), k.get_dimension(), t.dim);
    ensure!(cx, a.get_measures() as usize == t.meas && k.get_measures() as usize == t.meas, "{}: measures {} and {} but {}", n, a.get_measures(), k.get_measures(), t.meas);
    ensure!(cx, a.has_z() == (t.dim - t.meas == 3) && a.has_m() == (t.meas == 1), "{}: has_z {} has_m {}", n, a.has_z(), a.has_m());
    let (va, vk) = (a.to_coordinate_array(), k.to_coordinate_array());
    ensure!(cx, va.len() == len && vk.len() == len, "{}: coordinate arrays of {} and {}", n, va.len(), vk.len());
    for i in 0..len {
        let w = &t.rows[i];
        let e = t.coord(i);
        for d in 0..t.dim {
            let (x, y) = (a.get_ordinate(i, d as i32), k.get_ordinate(i, d as i32));
            ensure!(cx, same_bits(x, w[d]) && same_bits(y, w[d]), "{}: ordinate {} of coordinate {} is {:?} and packed {:?} but {:?} in {}", n, d, i, x, y, w[d], fmt(t));
        }
        let g = [a.get_x(i), a.get_y(i), a.get_z(i), a.get_m(i)];
        let x = [e.x, e.y, e.z, e.m];
        ensure!(cx, (0..4).all(|j| same_bits(g[j], x[j])), "{}: X Y Z M of coordinate {} are {:?} but {:?}", n, i, g, x);
        let (p, q) = (a.get_coordinate_index(i), a.get_coordinate_copy(i));
        ensure!(cx, view(&p, t, &e) && view(&q, t, &e) && view(&va[i], t, &e), "{}: coordinate {} is {}, copy {}, array {} but {}", n, i, f1(&p), f1(&q), f1(&va[i]), f1(&e));
        let mut z = Coordinate::default();
        a.get_coordinate_index_coordinate(i, &mut z);
        ensure!(cx, same_bits(z.x, e.x) && same_bits(z.y, e.y), "{}: coordinate {} read into another is {}", n, i, f1(&z));
        let p = k.get_coordinate_by_index(i);
        ensure!(cx, same_c(&p, &e) && same_c(&vk[i], &e), "{}: packed coordinate {} is {}, in the array {} but {}", n, i, f1(&p), f1(&vk[i]), f1(&e));
    }
    let raw = k.get_raw_coordinates();
    let w = t.flat();
    ensure!(cx, raw.len() == w.len() && raw.iter().zip(&w).all(|(a, b)| same_bits(*a, *b)), "{}: packed ordinates {:?} but {:?}", n, raw, w);
    Ok(())
}
/// equal in the ordinates of the layout
fn view(p: &Coordinate, t: &T, e: &Coordinate) -> bool {
    same_bits(p.x, e.x) && same_bits(p.y, e.y) && (t.dim - t.meas < 3 || same_bits(p.z, e.z)) && (t.meas == 0 || same_bits(p.m, e.m))
}

fn history(cx: &mut Cx) -> R {
    let mut t = table(&mut cx.rng);
    let (mut a, mut k) = (array(&mut cx.rng, &t), pack(&mut cx.rng, &t));
    let mut n = fmt(&t);
    cx.ev(layout(&t));
    for w in &t.rows {
        cx.key(w);
    }
    cx.key_u((t.dim * 2 + t.meas) as u64);
    if t.rows.len() > 1 {
        cx.nontrivial();
    }
    same(cx, &a, &k, &t, &n)?;
    let steps = 1 + cx.rng.len(5);
    for _ in 0..steps {
        let r = &mut cx.rng;
        let len = t.rows.len();
        let op = r.below(9);
        match op {
            0 if len > 0 => {
                let (i, d, x) = (r.us(len), r.us(t.dim), r.int(-9, 9) as f64);
                n += &format!(" set({},{},{})", i, d, x);
                a.set_ordinate(i, d as i32, x);
                k.set_ordinate(i, d as i32, x);
                t.rows[i][d] = x;
            }
            1 if len > 0 => {
                let (i, j) = (r.us(len), r.us(len));
                n += &format!(" swap({},{})", i, j);
                AS::swap(&mut a, i, j);
                KS::swap(&mut k, i, j);
                t.rows.swap(i, j);
            }
            2 => {
                n += " reverse";
                AS::reverse(&mut a);
                KS::reverse(&mut k);
                t.rows.reverse();
            }
            3 | 4 if len > 0 => {
                let i = r.us(len);
                let ring = t.ring();
                let open = r.chance(1, 4);
                let by_coord = !open && r.bool();
                let i = if by_coord {
                    let p = t.coord(i);
                    n += &format!(" scroll to {}", f1(&p));
                    AS::scroll_coordinate(&mut a, &p);
                    KS::scroll_coordinate(&mut k, &p);
                    t.rows.iter().position(|w| w[0] == p.x && w[1] == p.y).unwrap()
                } else if open {
                    n += &format!(" scroll as open to {}", i);
                    AS::scroll_coordinate_index_ensure_ring(&mut a, i, false);
                    KS::scroll_coordinate_index_ensure_ring(&mut k, i, false);
                    i
                } else {
                    n += &format!(" scroll to {}", i);
                    AS::scroll_coordinate_index(&mut a, i);
                    KS::scroll_coordinate_index(&mut k, i);
                    i
                };
                if i > 0 {
                    if ring && !open {
                        cx.ev("scrolled ring");
                        t.rows.pop();
                        let l = t.rows.len();
                        t.rows.rotate_left(i % l);
                        let f = t.rows[0].clone();
                        t.rows.push(f);
                    } else {
                        cx.ev("scrolled open");
                        t.rows.rotate_left(i);
                    }
                }
            }
            5 => {
                let m = len + if r.bool() { r.us(3) } else { r.us(14) };
                n += &format!(" extend {}", m);
                // the originals stay as they are
                let (b, l) = (AS::extend(&a, m), KS::extend(&k, m));
                same(cx, &a, &k, &t, &format!("{} (source)", n))?;
                if len > 0 {
                    let w = t.rows[len - 1].clone();
                    t.rows.resize(m, w);
                    a = b;
                    k = l;
                }
            }
            6 => {
                n += " ensure ring";
                let (b, l) = (AS::ensure_valid_ring(&a), KS::ensure_valid_ring(&k));
                same(cx, &a, &k, &t, &format!("{} (source)", n))?;
                a = b;
                k = l;
                if len > 0 {
                    let f = t.rows[0].clone();
                    if len <= 3 {
                        t.rows.resize(4, f);
                        cx.ev("short ring filled up");
                    } else if !t.closed() {
                        t.rows.push(f);
                        cx.ev("closed by a new point");
                    } else {
                        cx.ev("already closed");
                    }
                }
            }
            7 => {
                n += " copy";
                // a copy does not share anything
                let (b, l) = (if r.bool() { a.copy() } else { AF::create_from_coordinate_array_sequence(&a) }, k.copy());
                for i in 0..len {
                    for d in 0..t.dim {
                        a.set_ordinate(i, d as i32, 77.0);
                        k.set_ordinate(i, d as i32, 77.0);
                    }
                }
                a = b;
                k = l;
            }
            _ if len > 0 => {
                // copy a range of another sequence of the same layout over
                let m = r.us(len + 1);
                let (sp, dp) = (r.us(3), r.us(len - m + 1));
                let mut s = t.clone();
                s.rows = (0..m + sp + r.us(2)).map(|_| (0..t.dim).map(|_| r.int(-9, 9) as f64).collect()).collect();
                let (b, l) = (array(r, &s), pack(r, &s));
                n += &format!(" copy {} of {:?} from {} to {}", m, s.rows, sp, dp);
                AS::copy(&b, sp, &mut a, dp, m);
                KS::copy(&l, sp, &mut k, dp, m);
                for i in 0..m {
                    t.rows[dp + i] = s.rows[sp + i].clone();
                }
                cx.ev("range copied");
            }
            _ => {}
        }
        cx.key_u(op);
        same(cx, &a, &k, &t, &n)?;
    }
    cx.desc(|| n.clone());
    queries(cx, &a, &k, &t, &n)
}

fn queries(cx: &mut Cx, a: &A, k: &K, t: &T, n: &str) -> R {
    let (g, h) = (AS::is_ring(a), KS::is_ring(k));
    ensure!(cx, g == t.ring() && h == g, "{}: is_ring {} and packed {} but {}", n, g, h, t.ring());
    let len = t.rows.len();
    let key = |i: usize| (t.rows[i][0], t.rows[i][1]);
    let mut mi = 0;
    for i in 0..len {
        if key(i) < key(mi) {
            mi = i;
        }
    }
    let (g, h) = (AS::min_coordinate(a), KS::min_coordinate(k));
    if len == 0 {
        ensure!(cx, g.is_none() && h.is_none(), "{}: minimum of nothing is {} and {}", n, fo(&g), fo(&h));
    } else {
        let e = t.coord(mi);
        ensure!(cx, g.is_some() && h.is_some() && view(&g.unwrap(), t, &e) && same_c(&h.unwrap(), &e), "{}: minimum {} and packed {} but {}", n, fo(&g), fo(&h), f1(&e));
        let (g, h) = (AS::min_coordinate_index_sequence(a), KS::min_coordinate_index_sequence(k));
        ensure!(cx, g == mi && h == mi, "{}: minimum at {} and packed {} but {}", n, g, h, mi);
        let (f, to) = {
            let f = cx.rng.us(len);
            (f, f + cx.rng.us(len - f))
        };
        let w = (f..=to).fold(f, |m, i| if key(i) < key(m) { i } else { m });
        let (g, h) = (AS::min_coordinate_index_sequence_from_to(a, f, to), KS::min_coordinate_index_sequence_from_to(k, f, to));
        ensure!(cx, g == w && h == w, "{}: minimum of {}..={} at {} and packed {} but {}", n, f, to, g, h, w);
    }
    let p = if len > 0 && cx.rng.chance(3, 4) { let i = cx.rng.us(len); t.coord(i) } else { c((100.0, 100.0)) };
    let w = t.rows.iter().position(|w| w[0] == p.x && w[1] == p.y).map_or(-1, |i| i as i32);
    let (g, h) = (AS::index_of(&p, a), KS::index_of(&p, k));
    ensure!(cx, g == w && h == w, "{}: index of {} is {} and packed {} but {}", n, f1(&p), g, h, w);
    for start in [Envelope::default(), Envelope::new_xy(-1.0, 0.5, 20.0, 21.0)] {
        let mut e = start;
        for w in &t.rows {
            e.expand_to_include_xy(w[0], w[1]);
        }
        let mut g = start;
        a.expand_envelope(&mut g);
        let h = k.expand_envelope(&start);
        ensure!(cx, g.equals(&e) && h.equals(&e), "{}: envelope {} and packed {} but {}", n, g, h, e);
    }
    Ok(())
}

fn pair(cx: &mut Cx) -> R {
    let mut t = table(&mut cx.rng);
    let r = &mut cx.rng;
    let mut u = t.clone();
    match r.below(7) {
        0 => u.rows = rows(r, t.dim),
        1 => {
            u.rows.pop();
        }
        2 | 3 if !u.rows.is_empty() => {
            let i = r.us(u.rows.len());
            let d = r.us(t.dim);
            u.rows[i][d] = if d >= 2 && r.bool() { f64::NAN } else { nudge(u.rows[i][d], 1) };
        }
        4 => {
            // drop to two dimensions
            u.dim = 2;
            u.meas = 0;
            for w in &mut u.rows {
                w.truncate(2);
            }
        }
        5 if t.dim == 4 => {
            // without the measure
            u.dim = 3;
            u.meas = 0;
            for w in &mut u.rows {
                w.truncate(3);
            }
            cx.ev("copied between three and four ordinates");
        }
        _ => {}
    }
    // the narrower first as often as last
    if cx.rng.bool() {
        std::mem::swap(&mut t, &mut u);
    }
    let n = format!("{} and {}", fmt(&t), fmt(&u));
    cx.desc(|| n.clone());
    for w in t.rows.iter().chain(&u.rows) {
        cx.key(w);
    }
    cx.ev(layout(&t));
    cx.nontrivial();
    let (a, b, k, l) = (array(&mut cx.rng, &t), array(&mut cx.rng, &u), pack(&mut cx.rng, &t), pack(&mut cx.rng, &u));
    let d = t.dim.min(u.dim);
    let w = t.rows.len() == u.rows.len() && t.rows.iter().zip(&u.rows).all(|(p, q)| (0..d).all(|i| p[i] == q[i] || p[i].is_nan() && q[i].is_nan()));
    let g = [AS::is_equal(&a, &b), AS::is_equal(&b, &a), KS::is_equal(&k, &l), KS::is_equal(&l, &k)];
    cx.ev(if w { "equal sequences" } else { "different sequences" });
    ensure!(cx, g == [w; 4], "{}: equal {:?} but {}", n, g, w);
    // copying coordinates copies the common ordinates and no others
    if !t.rows.is_empty() && !u.rows.is_empty() {
        let r = &mut cx.rng;
        let (i, j) = (r.us(t.rows.len()), r.us(u.rows.len()));
        let mut v = u.clone();
        v.rows[j][..d].copy_from_slice(&t.rows[i][..d]);
        let (mut b, mut l) = (b, l);
        if r.bool() {
            AS::copy_coord(&a, i, &mut b, j);
            KS::copy_coord(&k, i, &mut l, j);
        } else {
            AS::copy(&a, i, &mut b, j, 1);
            KS::copy(&k, i, &mut l, j, 1);
        }
        let n = format!("{} copied {} to {}", n, i, j);
        same(cx, &b, &l, &v, &n)?;
        same(cx, &a, &k, &t, &n)?;
    }
    // exactly the requested size when closing
    let m = t.rows.len() + 1 + cx.rng.us(12);
    if !t.rows.is_empty() {
        let (x, y) = (AS::create_closed_ring(&a, m), KS::create_closed_ring(&k, m));
        let mut v = t.clone();
        let f = t.rows[0].clone();
        v.rows.resize(m, f);
        same(cx, &x, &y, &v, &format!("{} closed to {}", fmt(&t), m))?;
    }
    Ok(())
}

fn factory(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t = table(r);
    // no missing ordinates: the layout is inferred
    for w in &mut t.rows {
        for x in w.iter_mut() {
            if x.is_nan() {
                *x = 0.25;
            }
        }
    }
    let n = fmt(&t);
    cx.desc(|| n.clone());
    for w in &t.rows {
        cx.key(w);
    }
    cx.key_u((t.dim * 2 + t.meas) as u64);
    let v = t.coords();
    if v.is_empty() {
        for s in [A::new_with_coordinates(&v), AF::create_from_coordinates(&v)] {
            ensure!(cx, s.size() == 0 && s.get_dimension() == 3 && s.get_measures() == 0, "empty sequence has dimension {} measures {}", s.get_dimension(), s.get_measures());
        }
        let s = KF::create_double_from_coordinates(&v);
        ensure!(cx, s.size() == 0 && s.get_dimension() == 3 && s.get_measures() == 0, "empty packed sequence has dimension {} measures {}", s.get_dimension(), s.get_measures());
        return Ok(());
    }
    cx.nontrivial();
    cx.ev(layout(&t));
    let k = KF::create_double_from_coordinates(&v);
    for a in [A::new_with_coordinates(&v), AF::create_from_coordinates(&v)] {
        same(cx, &a, &k, &t, &n)?;
    }
    if t.meas == 0 || t.dim == 4 {
        let a = A::new_with_coordinates_dimension(v.clone(), t.dim as i32);
        let k = K::new_coordinates_with_dimension(&v, t.dim as i32);
        same(cx, &a, &k, &t, &format!("{} with dimension", n))?;
    }
    if t.meas == 0 {
        let a = A::new_with_coordinates_dimension(v.clone(), t.dim as i32);
        let k = KF::create_double_coordinates_dimension(&t.flat(), t.dim as i32);
        same(cx, &a, &k, &t, &format!("{} with dimension", n))?;
    }
    if (t.dim, t.meas) == (3, 0) {
        let k = K::new_with_coordinates(&v);
        let mut a = A::new_with_size(v.len());
        fill(&mut a, &t);
        same(cx, &a, &k, &t, &format!("{} by default", n))?;
    }
    // requested sizes and layouts, clipped to what is supported
    let r = &mut cx.rng;
    let (d, m) = (r.int(1, 6) as i32, r.int(0, 3) as i32);
    let s = AF::create_with_size_dimension_measures(t.rows.len(), d, m);
    let wm = m.min(1);
    let wd = (d - m).clamp(2, 3) + wm;
    ensure!(cx, s.size() == t.rows.len() && s.get_dimension() == wd && s.get_measures() == wm, "requested {} dimensions {} measures, got {} and {}", d, m, s.get_dimension(), s.get_measures());
    let s = AF::create_with_size_dimension(t.rows.len(), d);
    ensure!(cx, s.size() == t.rows.len() && s.get_dimension() == d.clamp(2, 3) && s.get_measures() == 0, "requested {} dimensions, got {} and {} measures", d, s.get_dimension(), s.get_measures());
    // packed, by size and dimension: empty ordinates to be filled
    let d = t.dim as i32;
    if t.meas as i32 == (d - 3).max(0) {
        let mut k = KF::create_with_size_dimension(t.rows.len(), d);
        ensure!(cx, k.size() == t.rows.len() && k.get_raw_coordinates().iter().all(|x| x.is_nan()), "{}: packed by size and dimension has size {} ordinates {:?}", n, k.size(), k.get_raw_coordinates());
        for (i, w) in t.rows.iter().enumerate() {
            for (j, &x) in w.iter().take(t.dim).enumerate() {
                k.set_ordinate(i, j as i32, x);
            }
        }
        let a = A::new_with_coordinates(&v);
        same(cx, &a, &k, &t, &format!("{} packed by size and dimension", n))?;
    }
    // four ordinates, declared a measure or not, and wider packed tables
    if t.dim == 4 {
        for m in 0..2 {
            for k in [K::new_coordinates_with_dimension_measures(&v, 4, m), K::new_f64_with_coordinates_dimension_measures(&t.flat(), 4, m)] {
                for k in [k.copy(), k] {
                    ensure!(cx, k.size() == v.len() && k.get_dimension() == 4 && k.get_measures() == m, "{}: packed with {} measures has size {}", n, m, k.size());
                    ensure!(cx, same_cs(&k.to_coordinate_array(), &v), "{}: packed with {} measures reads {}", n, m, fmt_cs(&k.to_coordinate_array()));
                    for (i, w) in t.rows.iter().enumerate() {
                        for j in 0..4 {
                            ensure!(cx, same_bits(k.get_ordinate(i, j as i32), w[j]), "{}: packed with {} measures reads {:?} at {} {}", n, m, k.get_ordinate(i, j as i32), i, j);
                        }
                    }
                }
            }
        }
    }
    let r = &mut cx.rng;
    let (w, m) = (2 + r.us(6), r.int(0, 1) as i32);
    let flat: Vec<f64> = (0..w * t.rows.len()).map(|_| r.int(-9, 9) as f64).collect();
    let k = K::new_f64_with_coordinates_dimension_measures(&flat, w as i32, m);
    let e = k.expand_envelope(&Envelope::default());
    let mut f = Envelope::default();
    for k in [k.copy(), k] {
        ensure!(cx, k.size() == t.rows.len() && k.get_raw_coordinates() == flat, "a packed table {} wide of {:?} has {} rows {:?}", w, flat, k.size(), k.get_raw_coordinates());
        for (i, q) in flat.chunks(w).enumerate() {
            f.expand_to_include_xy(q[0], q[1]);
            let p = k.get_coordinate_by_index(i);
            ensure!(cx, p.x == q[0] && p.y == q[1] && (0..w).all(|j| k.get_ordinate(i, j as i32) == q[j]), "row {} of a packed table {} wide of {:?} is {}", i, w, flat, f1(&p));
        }
    }
    ensure!(cx, e.equals(&f), "a packed table {} wide of {:?} has the wrong envelope", w, flat);
    // the bare packed sequence holds a layout and no coordinates
    let (d, m) = (cx.rng.int(0, 6) as i32, cx.rng.int(0, 3) as i32);
    let b = B::new_with_dimension_measures(d, m);
    ensure!(cx, b.is_some() == (d - m >= 2), "bare packed sequence of {} dimensions {} measures is {}", d, m, b.is_some());
    if let Some(b) = b {
        let k = (b.size(), b.get_dimension(), b.get_measures(), b.has_z(), b.has_m(), b.to_coordinate_array().len());
        ensure!(cx, k == (0, d, m, d - m > 2, m > 0, 0), "bare packed sequence of {} dimensions {} measures reads {:?}", d, m, k);
        for s in [KF::create_double_from_coordinate_sequence(&b), b.copy()] {
            ensure!(cx, s.size() == 0 && s.get_dimension() == d && s.get_measures() == m, "copy of a bare packed sequence of {} dimensions {} measures has size {} dimension {} measures {}", d, m, s.size(), s.get_dimension(), s.get_measures());
        }
    }
    Ok(())
}
