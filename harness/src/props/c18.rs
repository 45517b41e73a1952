//! DE-9IM matrices, dimensions, locations.
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::dimension::Dimension;
use geos_rs::verif_hooks::geom::intersection_matrix::IntersectionMatrix;
use geos_rs::verif_hooks::geom::location::Location;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        quick: 3_000_000,
        families: vec![
            Family { name: "relations of a matrix", weight: 5, run: relations },
            Family { name: "patterns", weight: 3, run: patterns },
            Family { name: "histories", weight: 2, run: history },
            Family { name: "symbols", weight: 1, run: symbols },
        ],
        rule: "Matrices drawn from all 3x3 tables over F, 0, 1, 2 (and T, *), half of them instances or near-instances of the standard relation patterns, with all pairs of dimensions; patterns obtained from a matrix by generalizing or altering cells; histories of setting, raising, adding and transposing. Oracle: the OGC pattern strings, matched by a plain matcher over strings.",
        assumptions: &["dimension symbols are upper case where patterns are matched", "dimensions -1, 0, 1, 2"],
        need: &[("disjoint", 5000), ("touches", 5000), ("crosses", 5000), ("within", 5000), ("contains", 5000), ("covers", 5000), ("covered by", 5000), ("equal", 5000), ("overlaps", 5000), ("covers but does not contain", 2000), ("pattern matches", 20000), ("pattern does not match", 20000), ("raised", 20000), ("kept", 20000)],
    }
}

const SYM: [char; 6] = ['F', '0', '1', '2', 'T', '*'];
fn val(c: char) -> i32 {
    match c {
        'F' => -1,
        'T' => -2,
        '*' => -3,
        _ => c as i32 - '0' as i32,
    }
}
/// one cell against one pattern symbol
fn cell(a: char, p: char) -> bool {
    match p {
        '*' => true,
        'T' => a == 'T' || a == '0' || a == '1' || a == '2',
        'F' => a == 'F',
        _ => a == p,
    }
}
fn fits(m: &[char; 9], p: &str) -> bool {
    let p: Vec<char> = p.chars().collect();
    (0..9).all(|i| cell(m[i], p[i]))
}
fn text(m: &[char; 9]) -> String {
    m.iter().collect()
}
const PATTERNS: [&str; 20] = [
    "FF*FF****", "FT*******", "F**T*****", "F***T****", "T*T******", "T*****T**", "0********", "T*F**F***", "T*****FF*", "*T****FF*", "***T**FF*", "****T*FF*", "*TF**F***", "**FT*F***",
    "**F*TF***", "T*F**FFF*", "T*T***T**", "1*T***T**", "FF*FFFFF2", "FFF*TFFF*",
];
fn matrix(r: &mut Rng) -> [char; 9] {
    let k = if r.chance(1, 8) { 6 } else { 4 };
    let mut m = [0; 9].map(|_| SYM[r.us(k)]);
    if r.chance(2, 3) {
        let p: Vec<char> = r.pick(&PATTERNS).chars().collect();
        for i in 0..9 {
            m[i] = match p[i] {
                'T' => r.pick(&['0', '1', '2']),
                '*' => m[i],
                c => c,
            };
        }
        if r.chance(1, 3) {
            m[r.us(9)] = SYM[r.us(4)];
        }
    }
    m
}
fn key(cx: &mut Cx, m: &[char; 9]) {
    cx.key_u(m.iter().fold(0u64, |h, c| h * 131 + *c as u64));
}

fn relations(cx: &mut Cx) -> R {
    let m = matrix(&mut cx.rng);
    let (da, db) = (cx.rng.int(-1, 2) as i32, cx.rng.int(-1, 2) as i32);
    key(cx, &m);
    cx.key_u(((da + 1) * 4 + db + 1) as u64);
    cx.nontrivial();
    let s = text(&m);
    cx.desc(|| format!("{} of dimensions {} {}", s, da, db));
    let im = IntersectionMatrix::new_with_elements(s.clone());
    ensure!(cx, im.to_string() == s, "matrix {} reads {}", s, im.to_string());
    for i in 0..9 {
        ensure!(cx, im.get(i / 3, i % 3) == val(m[i]), "cell {} of {} is {}", i, s, im.get(i / 3, i % 3));
    }
    let any = |ps: &[&str]| ps.iter().any(|p| fits(&m, p));
    let disjoint = any(&["FF*FF****"]);
    let within = any(&["T*F**F***"]);
    let contains = any(&["T*****FF*"]);
    let covers = any(&["T*****FF*", "*T****FF*", "***T**FF*", "****T*FF*"]);
    let covered = any(&["T*F**F***", "*TF**F***", "**FT*F***", "**F*TF***"]);
    let equal = da == db && any(&["T*F**FFF*"]);
    let dims = da >= 0 && db >= 0;
    let touches = dims && (da, db) != (0, 0) && any(&["FT*******", "F**T*****", "F***T****"]);
    let crosses = dims && match () {
        _ if da < db => any(&["T*T******"]),
        _ if da > db => any(&["T*****T**"]),
        _ => da == 1 && any(&["0********"]),
    };
    let overlaps = dims && da == db && any(if da == 1 { &["1*T***T**"] } else { &["T*T***T**"] });
    for (w, g, e) in [
        ("disjoint", im.is_disjoint(), disjoint),
        ("within", im.is_within(), within),
        ("contains", im.is_contains(), contains),
        ("covers", im.is_covers(), covers),
        ("covered by", im.is_covered_by(), covered),
        ("equal", im.is_equals(da, db), equal),
        ("touches", im.is_touches(da, db), touches),
        ("crosses", im.is_crosses(da, db), crosses),
        ("overlaps", im.is_overlaps(da, db), overlaps),
    ] {
        if e {
            cx.ev(w);
        }
        ensure!(cx, g == e, "{} for dimensions {} and {} is {}: {}", s, da, db, if g { "reported" } else { "not reported" }, w);
    }
    if covers && !contains {
        cx.ev("covers but does not contain");
    }
    ensure!(cx, im.is_intersects() == !disjoint, "{} intersects is {}", s, im.is_intersects());
    Ok(())
}

fn patterns(cx: &mut Cx) -> R {
    let m = matrix(&mut cx.rng);
    let r = &mut cx.rng;
    let mut p = m;
    for i in 0..9 {
        match r.below(8) {
            0 | 1 => p[i] = '*',
            2 if cell(m[i], 'T') => p[i] = 'T',
            3 if r.chance(1, 4) => p[i] = SYM[r.us(6)],
            _ => {}
        }
    }
    let mut ps = text(&p);
    let short = r.chance(1, 20);
    if short {
        match r.below(3) {
            0 => {
                ps.pop();
            }
            1 => ps.push('*'),
            _ => ps.clear(),
        }
    }
    key(cx, &m);
    key(cx, &p);
    cx.nontrivial();
    let s = text(&m);
    cx.desc(|| format!("{} against {}", s, ps));
    let want = !short && fits(&m, &ps);
    cx.ev(if want { "pattern matches" } else { "pattern does not match" });
    let im = IntersectionMatrix::new_with_elements(s.clone());
    let g = im.matches_string(ps.clone());
    ensure!(cx, g == want, "{} matches {} is {}", s, ps, g);
    let g = IntersectionMatrix::matches_string_string(s.clone(), ps.clone());
    ensure!(cx, g == want, "{} matches {} (both as strings) is {}", s, ps, g);
    let g = IntersectionMatrix::matches_i32_char(val(m[0]), p[0]);
    ensure!(cx, g == cell(m[0], p[0]), "cell {} matches {} is {}", m[0], p[0], g);
    let g = im.is_true(val(m[1]));
    ensure!(cx, g == cell(m[1], 'T'), "{} is true: {}", m[1], g);
    // equality, copies
    let o = IntersectionMatrix::new_from_intersection_matrix(&im);
    ensure!(cx, o.to_string() == s && o.equals(&im) && im.equals(&o), "a copy of {} is {}", s, o.to_string());
    let q = IntersectionMatrix::new_with_elements(text(&p));
    ensure!(cx, q.equals(&im) == (p == m) && im.equals(&q) == (p == m), "{} equals {} is {}", s, text(&p), q.equals(&im));
    Ok(())
}

fn history(cx: &mut Cx) -> R {
    let mut im = IntersectionMatrix::default();
    ensure!(cx, im.to_string() == "FFFFFFFFF", "a new matrix is {}", im.to_string());
    let mut m = ['F'; 9];
    let mut log = String::new();
    let n = 1 + cx.rng.len(14);
    // entries are raised by their values; the values of T and * lie below that of F
    let rank = |c: char| val(c);
    let k = if cx.rng.bool() { 4 } else { 6 };
    for _ in 0..n {
        let r = &mut cx.rng;
        let op = r.below(9);
        let (i, j) = (r.us(3), r.us(3));
        let v = SYM[r.us(k)];
        let t = [0; 9].map(|_| SYM[r.us(k)]);
        let len = if r.chance(1, 4) { r.us(10) } else { 9 };
        cx.key_u(op * 1000 + (i * 3 + j) as u64);
        key(cx, &t);
        let raise = |m: &mut [char; 9], k: usize, c: char, cx: &mut Cx| {
            if rank(c) > rank(m[k]) {
                m[k] = c;
                cx.ev("raised");
            } else {
                cx.ev("kept");
            }
        };
        match op {
            0 => {
                log.push_str(&format!(" set {} {} {}", i, j, v));
                im.set_row_column_value(i, j, val(v));
                m[i * 3 + j] = v;
            }
            1 => {
                let s: String = t[..len].iter().collect();
                log.push_str(&format!(" set {}", s));
                let s = if cx.rng.bool() { s.to_lowercase() } else { s };
                im.set_string(s);
                m[..len].copy_from_slice(&t[..len]);
            }
            2 | 3 => {
                log.push_str(&format!(" at least {} {} {}", i, j, v));
                if op == 2 {
                    im.set_at_least_row_column_dimension(i, j, val(v));
                } else {
                    im.set_at_least_row_column_dimension_if_valid(i, j, val(v));
                }
                raise(&mut m, i * 3 + j, v, cx);
            }
            4 => {
                let mut t = t;
                if cx.rng.bool() {
                    let k = cx.rng.us(9);
                    t[k] = '*';
                }
                let s: String = t[..len].iter().collect();
                log.push_str(&format!(" at least {}", s));
                im.set_at_least_string(s);
                for k in 0..len {
                    raise(&mut m, k, t[k], cx);
                }
            }
            5 => {
                if cx.rng.chance(1, 3) {
                    log.push_str(&format!(" all {}", v));
                    im.set_all(val(v));
                    m = [v; 9];
                }
            }
            6 => {
                log.push_str(&format!(" add {}", text(&t)));
                let o = IntersectionMatrix::new_with_elements(text(&t));
                im.add(&o);
                for k in 0..9 {
                    raise(&mut m, k, t[k], cx);
                }
                ensure!(cx, o.to_string() == text(&t), "adding changed the matrix added to {}", o.to_string());
            }
            7 => {
                log.push_str(" transpose");
                im.transpose();
                let o = m;
                for k in 0..9 {
                    m[k] = o[(k % 3) * 3 + k / 3];
                }
            }
            _ => {
                log.push_str(" copy");
                let c = IntersectionMatrix::new_from_intersection_matrix(&im);
                im.set_all(2);
                im = c;
            }
        }
        ensure!(cx, im.to_string() == text(&m), "after{} the matrix is {} but {}", log, im.to_string(), text(&m));
    }
    cx.nontrivial();
    cx.desc(|| log.clone());
    Ok(())
}

fn symbols(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let v = r.int(-6, 6) as i32;
    let c = if r.bool() { SYM[r.us(6)] } else { (32 + r.below(95)) as u8 as char };
    cx.key_u(v as u64);
    cx.key_u(c as u64);
    cx.nontrivial();
    cx.desc(|| format!("{} {}", v, c));
    let want = SYM.iter().find(|s| val(**s) == v).copied();
    ensure!(cx, Dimension::to_dimension_symbol(v) == want, "symbol of dimension {} is {:?}", v, Dimension::to_dimension_symbol(v));
    let up = c.to_ascii_uppercase();
    let want = if SYM.contains(&up) { Some(val(up)) } else { None };
    ensure!(cx, Dimension::to_dimension_value(c) == want, "dimension of symbol {} is {:?}", c, Dimension::to_dimension_value(c));
    let want = match v {
        0 => Some('i'),
        1 => Some('b'),
        2 => Some('e'),
        -1 => Some('-'),
        _ => None,
    };
    ensure!(cx, Location::to_location_symbol(v) == want, "symbol of location {} is {:?}", v, Location::to_location_symbol(v));
    Ok(())
}
