//! Orders and equalities of coordinates and sequences.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::coordinate_arrays::CoordinateArrays;
use geos_rs::verif_hooks::geom::coordinate_sequence_comparator::CoordinateSequenceComparator;
use geos_rs::verif_hooks::geom::coordinates::Coordinates;
use geos_rs::verif_hooks::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        quick: 2_000_000,
        families: vec![
            Family { name: "coordinates", weight: 3, run: coords },
            Family { name: "coordinate lists", weight: 3, run: lists },
            Family { name: "coordinate sequences", weight: 4, run: seqs },
        ],
        rule: "Triples of coordinates, lists and sequences drawn from few values (so that ties, prefixes, equal lists and palindromes are common), with signed zeros, infinities, missing and NaN ordinates, one-ulp differences, different dimensions and dimension limits. Oracle: lexicographic reference order, and antisymmetry and transitivity over the triple.",
        assumptions: &["coordinate order is asserted for X and Y that are not NaN"],
        need: &[("equal", 20000), ("unequal", 20000), ("proper prefix", 5000), ("palindrome", 5000), ("NaN ordinate", 20000), ("dimension limit applies", 20000), ("different dimensions", 20000)],
    }
}

fn val(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => r.pick(&[0.0, -0.0]),
        8 => wild(r),
        1 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX, f64::MIN_POSITIVE]),
        2 => r.pick(&[nudge(1.0, 1), nudge(1.0, -1), 1.0]),
        3 => r.range(-5.0, 5.0),
        _ => r.int(-1, 1) as f64,
    }
}
fn zval(r: &mut Rng) -> f64 {
    if r.chance(1, 4) { f64::NAN } else { val(r) }
}
fn coord(r: &mut Rng) -> Coordinate {
    Coordinate::new_xyzm(val(r), val(r), zval(r), zval(r))
}
fn lex(a: &Coordinate, b: &Coordinate) -> i32 {
    (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap() as i32
}
fn nan_cmp(a: f64, b: f64) -> i32 {
    match (a.is_nan(), b.is_nan()) {
        (true, true) => 0,
        (true, false) => -1,
        (false, true) => 1,
        _ => a.partial_cmp(&b).unwrap() as i32,
    }
}

fn coords(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut v = [coord(r), coord(r), coord(r)];
    if r.chance(1, 3) {
        v[1] = v[0];
        if r.bool() {
            v[1].z = zval(r);
        }
    }
    let tol = r.pick(&[0.0, 0.5, 1.0, 1e-15, 2.0, 1e-300, 5000.0, 1e12]);
    for p in &v {
        cx.key(&[p.x, p.y, p.z, p.m]);
    }
    cx.desc(|| fmt_cs(&v));
    cx.nontrivial();
    let n = fmt_cs(&v);
    let mut o = [[0i32; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (v[i], v[j]);
            let g = a.compare_to(&b);
            o[i][j] = g.signum();
            ensure!(cx, g.signum() == lex(&a, &b), "{} compared with {} gives {} but {}", f1(&a), f1(&b), g, lex(&a, &b));
            let e = a.x == b.x && a.y == b.y;
            let k = a.equals_2d(&b);
            ensure!(cx, k == e && k == (g == 0), "{} equals_2d {} is {} but compare_to gives {}", f1(&a), f1(&b), k, g);
            let k = a.equals_3d(&b);
            let w = e && (a.z == b.z || a.z.is_nan() && b.z.is_nan());
            ensure!(cx, k == w, "{} equals_3d {} is {}", f1(&a), f1(&b), k);
            let within = |p: f64, q: f64| (p - q).abs() <= tol;
            let k = a.equals_2d_with_tolerance(&b, tol);
            ensure!(cx, k == (within(a.x, b.x) && within(a.y, b.y)), "{} equals_2d {} within {} is {}", f1(&a), f1(&b), tol, k);
            let (k, l) = (a.equal_in_z(&b, tol), a.equal_in_coordinate_z(&b, tol));
            ensure!(cx, k == within(a.z, b.z) && l == k, "{} equal in Z to {} within {} is {}, {}", f1(&a), f1(&b), tol, k, l);
            let k = Coordinates::equal(&a, &b, tol);
            let w = if tol == 0.0 { e } else { (a.x - b.x).hypot(a.y - b.y) <= tol };
            ensure!(cx, k == w, "{} equal {} within {} is {}", f1(&a), f1(&b), tol, k);
            if i != j {
                cx.ev(if e { "equal" } else { "unequal" });
            }
            if a.z.is_nan() {
                cx.ev("NaN ordinate");
            }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            ensure!(cx, o[i][j] == -o[j][i], "order of {} is not antisymmetric", n);
            for k in 0..3 {
                if o[i][j] <= 0 && o[j][k] <= 0 {
                    ensure!(cx, o[i][k] <= 0, "order of {} is not transitive", n);
                }
            }
        }
    }
    // what a coordinate says about itself
    for p in &v {
        let k = p.is_valid();
        ensure!(cx, k == (p.x.is_finite() && p.y.is_finite()), "{} valid: {}", f1(p), k);
        let (z, m) = (!p.z.is_nan(), !p.m.is_nan());
        let g = [p.is_xy(), p.is_xym(), p.is_xyzm()];
        ensure!(cx, g == [!z && !m, !z && m, z && m], "{}: is_xy, is_xym, is_xyzm {:?}", f1(p), g);
        let (d, s) = (Coordinates::dimension(p), Coordinates::measures(p));
        ensure!(cx, d == if z && m { 4 } else if z || m { 3 } else { 2 } && s == m as i32, "{}: dimension {} measures {}", f1(p), d, s);
    }
    Ok(())
}

fn list(r: &mut Rng) -> Vec<Coordinate> {
    let n = r.len(6);
    let mut v: Vec<Coordinate> = (0..n).map(|_| c((r.int(0, 1) as f64, r.int(0, 1) as f64))).collect();
    if r.chance(1, 4) {
        let mut w = v.clone();
        w.reverse();
        if r.bool() {
            w.pop();
            w.reverse();
            w.reverse();
        }
        v.extend(w);
    }
    v
}
fn list_ref(a: &[Coordinate], b: &[Coordinate]) -> i32 {
    for (p, q) in a.iter().zip(b) {
        if lex(p, q) != 0 {
            return lex(p, q);
        }
    }
    a.len().cmp(&b.len()) as i32
}

fn lists(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut v = vec![list(r), list(r), list(r)];
    match r.below(4) {
        0 => v[1] = v[0].clone(),
        1 => {
            let k = r.us(v[0].len() + 1);
            v[1] = v[0][..k].to_vec();
        }
        2 => {
            v[1] = v[0].clone();
            v[1].reverse();
        }
        _ => {
            // there and back again
            let mut b = v[0].clone();
            b.reverse();
            v[0].extend(b);
        }
    }
    if r.chance(1, 3) {
        // one point off, anywhere
        let i = r.us(2);
        if !v[i].is_empty() {
            let k = r.us(v[i].len());
            v[i][k].x += 1.0;
        }
    }
    for l in &v {
        cx.key_u(l.len() as u64);
        for p in l {
            cx.key(&[p.x, p.y]);
        }
    }
    let n: Vec<String> = v.iter().map(|l| fmt_cs(l)).collect();
    cx.desc(|| format!("{:?}", n));
    cx.nontrivial();
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&v[i], &v[j]);
            let w = list_ref(a, b);
            let g = CoordinateArrays::compare(a, b);
            ensure!(cx, g.signum() == w, "{} compared with {} gives {} but {}", n[i], n[j], g, w);
            if w != 0 && a.len() < b.len() && list_ref(a, &b[..a.len()]) == 0 {
                cx.ev("proper prefix");
            }
            cx.ev(if w == 0 { "equal" } else { "unequal" });
            let g = CoordinateArrays::equals(a, b);
            ensure!(cx, g == (w == 0), "{} equals {} is {}", n[i], n[j], g);
            if a.len() == b.len() {
                let mut rev = b.clone();
                rev.reverse();
                let g = CoordinateArrays::is_equal_reversed(a, b);
                ensure!(cx, g == (list_ref(a, &rev) == 0), "{} equals reversed {} is {}", n[i], n[j], g);
            }
        }
    }
    // direction: opposite for the reversed list, 1 for palindromes
    let mut rev = v[0].clone();
    rev.reverse();
    let (g, h) = (CoordinateArrays::increasing_direction(&v[0]), CoordinateArrays::increasing_direction(&rev));
    if list_ref(&v[0], &rev) == 0 {
        cx.ev("palindrome");
        ensure!(cx, g == 1, "increasing direction of the palindrome {} is {}", n[0], g);
    } else {
        ensure!(cx, g.abs() == 1 && h == -g, "increasing direction of {} is {} and of its reverse {}", n[0], g, h);
    }
    Ok(())
}

struct S {
    seq: CoordinateArraySequence,
    dim: usize,
    rows: Vec<Vec<f64>>,
}
fn build(dim: usize, meas: usize, rows: Vec<Vec<f64>>) -> S {
    let v: Vec<Coordinate> = rows
        .iter()
        .map(|w| match (dim, meas) {
            (2, _) => Coordinate::new_xy(w[0], w[1]),
            (3, 0) => Coordinate::new_xyz(w[0], w[1], w[2]),
            (3, _) => Coordinate::new_xym(w[0], w[1], w[2]),
            _ => Coordinate::new_xyzm(w[0], w[1], w[2], w[3]),
        })
        .collect();
    S { seq: CoordinateArraySequence::new_with_coordinates_dimension_measures(v, dim as i32, meas as i32), dim, rows }
}

fn seqs(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let one = r.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]);
    let mut v: Vec<S> = vec![];
    let few = r.bool();
    for i in 0..3 {
        let (d, m) = if r.chance(3, 4) { one } else { r.pick(&[(2, 0), (3, 0), (3, 1), (4, 1)]) };
        let rows: Vec<Vec<f64>> = if i > 0 && r.bool() {
            // a variation of the first
            let mut w: Vec<Vec<f64>> = v[0].rows.iter().map(|row| (0..d).map(|k| *row.get(k).unwrap_or(&1.0)).collect()).collect();
            match r.below(3) {
                0 => {
                    w.pop();
                }
                1 if !w.is_empty() => {
                    let a = r.us(w.len());
                    w[a][r.us(d)] = zval(r);
                }
                _ => {}
            }
            w
        } else {
            let n = if r.chance(1, 300) { r.us(1200) } else { r.len(4) };
            (0..n).map(|_| (0..d).map(|_| if few { r.pick(&[0.0, 1.0, f64::NAN]) } else { zval(r) }).collect()).collect()
        };
        v.push(build(d, m, rows));
    }
    let limit = r.pick(&[1, 2, 3, 4, i32::MAX, i32::MAX]);
    for s in &v {
        cx.key_u((s.dim * 16 + s.rows.len()) as u64);
        for w in &s.rows {
            cx.key(w);
        }
    }
    cx.key_u(limit as u64);
    let n: Vec<String> = v.iter().map(|s| format!("{}D{:?}", s.dim, s.rows)).collect();
    cx.desc(|| format!("limit {} {:?}", limit, n));
    cx.nontrivial();
    let cmp = if limit == i32::MAX { CoordinateSequenceComparator::default() } else { CoordinateSequenceComparator::new_with_dimension_limit(limit) };
    let mut o = [[0i32; 3]; 3];
    let mut limited = true;
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&v[i], &v[j]);
            let min = a.dim.min(b.dim);
            let lim = limit as usize <= min;
            limited &= lim;
            let d = if lim { limit as usize } else { min };
            if i != j {
                if lim {
                    cx.ev("dimension limit applies");
                }
                if a.dim != b.dim {
                    cx.ev("different dimensions");
                }
            }
            let mut w = if lim { 0 } else { (a.dim as i32 - b.dim as i32).signum() };
            if w == 0 {
                'o: for (p, q) in a.rows.iter().zip(&b.rows) {
                    for k in 0..d {
                        w = nan_cmp(p[k], q[k]);
                        if w != 0 {
                            break 'o;
                        }
                    }
                }
                if w == 0 {
                    w = a.rows.len().cmp(&b.rows.len()) as i32;
                    if w != 0 {
                        cx.ev("proper prefix");
                    }
                }
            }
            let g = cmp.compare_coordinate_array_sequence(&a.seq, &b.seq);
            o[i][j] = g.signum();
            ensure!(cx, g.signum() == w, "limit {}: {} compared with {} gives {} but {}", limit, n[i], n[j], g, w);
            if i != j {
                cx.ev(if w == 0 { "equal" } else { "unequal" });
            }
        }
    }
    // one position of two sequences
    for (a, b) in [(&v[0], &v[1]), (&v[1], &v[2]), (&v[2], &v[0])] {
        for i in 0..a.rows.len().min(b.rows.len()) {
            for d in 0..=a.dim.min(b.dim) {
                let w = (0..d).map(|k| nan_cmp(a.rows[i][k], b.rows[i][k])).find(|o| *o != 0).unwrap_or(0);
                let g = CoordinateSequenceComparator::compare_coordinate(&a.seq, &b.seq, i as i32, d as i32);
                ensure!(cx, g.signum() == w, "position {} of {:?} and {:?} compared in {} dimensions gives {} but {}", i, a.rows, b.rows, d, g, w);
            }
        }
    }
    if v.iter().any(|s| s.rows.iter().any(|w| w.iter().any(|x| x.is_nan()))) {
        cx.ev("NaN ordinate");
    }
    for i in 0..3 {
        for j in 0..3 {
            ensure!(cx, o[i][j] == -o[j][i], "limit {}: order of {:?} is not antisymmetric", limit, n);
            for k in 0..3 {
                if o[i][j] <= 0 && o[j][k] <= 0 && (limited || limit == i32::MAX) {
                    ensure!(cx, o[i][k] <= 0, "limit {}: order of {:?} is not transitive", limit, n);
                }
            }
        }
    }
    let r = &mut cx.rng;
    let (x, y) = (zval(r), zval(r));
    let g = CoordinateSequenceComparator::compare_f64(x, y);
    ensure!(cx, g.signum() == nan_cmp(x, y), "{:?} compared with {:?} gives {}", x, y, g);
    Ok(())
}
