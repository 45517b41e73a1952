//! Coordinate lists and arrays against a plain vector.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::coordinate::Coordinate;
use geos_rs::verif_hooks::geom::coordinate_arrays::CoordinateArrays as CA;
use geos_rs::verif_hooks::geom::coordinate_list::CoordinateList;
use geos_rs::verif_hooks::geom::envelope::Envelope;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        quick: 2_000_000,
        families: vec![
            Family { name: "coordinate list histories", weight: 4, run: list },
            Family { name: "array operations", weight: 5, run: arrays },
            Family { name: "dimension and measures", weight: 2, run: dims },
        ],
        rule: "Lists built by random sequences of appending, inserting, adding arrays forwards, backwards and by range (either direction), with and without repeats, and closing; arrays of few distinct points with repeats, invalid points, rings and open ones, put through every query and rearrangement; mixed dimensions. Oracle: a plain vector with the rule applied.",
        assumptions: &["range ends passed to the list lie inside the array", "ordinates X and Y are not NaN except where validity is the subject"],
        need: &[("repeat suppressed", 20000), ("added backwards", 20000), ("range backwards", 5000), ("invalid point", 5000), ("invalid first point", 2000), ("scrolled ring", 5000), ("scrolled open", 5000), ("part extracted", 5000), ("extracted nothing", 5000), ("mixed dimensions", 20000)],
    }
}

fn eq(a: &Coordinate, b: &Coordinate) -> bool {
    a.x == b.x && a.y == b.y
}
fn pt(r: &mut Rng) -> Coordinate {
    let k = r.pick(&[0, 1, 3]);
    if r.chance(1, 12) {
        // very large, very small, beside one another
        let f = |r: &mut Rng| r.pick(&[0.0, 1e-12, 1e-300, -1e-12, 1.0, 1.0 + f64::EPSILON, 2e10, -3e15, 1e200]);
        return Coordinate::new_xyzm(f(r), f(r), r.int(0, 12) as f64, r.int(0, 99) as f64);
    }
    let mut p = Coordinate::new_xyzm(r.int(0, k) as f64, r.int(0, k) as f64, r.int(0, 12) as f64, r.int(0, 99) as f64);
    // some without Z, some without M
    match r.below(8) {
        0 => p.z = f64::NAN,
        1 => p.m = f64::NAN,
        2 => {
            p.z = f64::NAN;
            p.m = f64::NAN;
        }
        _ => {}
    }
    // a negative zero is a zero
    if p.x == 0.0 && r.chance(1, 6) {
        p.x = -0.0;
    }
    if p.y == 0.0 && r.chance(1, 6) {
        p.y = -0.0;
    }
    p
}
fn pts(r: &mut Rng, max: usize) -> Vec<Coordinate> {
    let n = r.len(max + 1);
    let wide = n > max && r.bool();
    let mut v: Vec<Coordinate> = (0..n).map(|_| pt(r)).collect();
    if wide {
        // no repeats but a chosen few
        for (i, p) in v.iter_mut().enumerate() {
            p.x = i as f64;
        }
        // anywhere, or at a multiple of a power of two
        let k = 4 + r.us(6);
        let i = if r.bool() { r.us(n) } else { (r.us(n) >> k) << k };
        if i > 0 && r.chance(4, 5) {
            v[i] = v[i - 1];
        }
    }
    if n > 1 && r.chance(1, 3) {
        v[n - 1] = v[0];
    }
    v
}
fn push(m: &mut Vec<Coordinate>, p: Coordinate, rep: bool) -> bool {
    if !rep {
        if let Some(l) = m.last() {
            if eq(l, &p) {
                return false;
            }
        }
    }
    m.push(p);
    true
}

fn list(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let start = pts(r, 4);
    let rep = r.bool();
    let mut m: Vec<Coordinate> = vec![];
    let mut l = match r.below(3) {
        0 => CoordinateList::default(),
        1 => {
            m = start.clone();
            CoordinateList::new(start.clone())
        }
        _ => {
            for p in &start {
                push(&mut m, *p, rep);
            }
            CoordinateList::new_with_repeated(start.clone(), rep)
        }
    };
    let mut n = format!("list {}", fmt_cs(&m));
    let steps = 1 + cx.rng.len(5);
    for _ in 0..steps {
        let r = &mut cx.rng;
        let (v, p, rep) = (pts(r, 5), pt(r), r.bool());
        let before = m.len();
        let mut added = v.len();
        let op = r.below(8);
        match op {
            0 => {
                n += &format!(" + {} rep {}", f1(&p), rep);
                l.add_coordinate_repeated(p, rep);
                push(&mut m, p, rep);
                added = 1;
            }
            1 => {
                n += &format!(" + {} rep {}", fmt_cs(&v), rep);
                let ok = l.add_coordinate_list_repeated(&v, rep);
                ensure!(cx, ok, "{}: adding is refused", n);
                for q in &v {
                    push(&mut m, *q, rep);
                }
            }
            2 => {
                let fwd = r.bool();
                n += &format!(" + {} rep {} forward {}", fmt_cs(&v), rep, fwd);
                let ok = l.add_coordinate_list_repeated_direction(&v, rep, fwd);
                ensure!(cx, ok, "{}: adding is refused", n);
                let mut w = v.clone();
                if !fwd {
                    w.reverse();
                    cx.ev("added backwards");
                }
                for q in &w {
                    push(&mut m, *q, rep);
                }
            }
            3 if !v.is_empty() => {
                let (s, e) = (r.us(v.len()), r.us(v.len() + 1));
                n += &format!(" + {} rep {} from {} to {}", fmt_cs(&v), rep, s, e);
                let ok = l.add_coordinate_list_repeated_start_end(&v, rep, s, e);
                ensure!(cx, ok, "{}: adding is refused", n);
                let w: Vec<Coordinate> = if s <= e {
                    v[s..e].to_vec()
                } else {
                    cx.ev("range backwards");
                    v[e + 1..=s].iter().rev().cloned().collect()
                };
                added = w.len();
                for q in &w {
                    push(&mut m, *q, rep);
                }
            }
            4 | 5 => {
                let i = r.us(m.len() + 1);
                n += &format!(" + {} at {} rep {}", f1(&p), i, rep);
                l.add_index_coordinate_repeated(i, p, rep);
                let dup = (i > 0 && eq(&m[i - 1], &p)) || (i < m.len() && eq(&m[i], &p));
                if rep || !dup {
                    m.insert(i, p);
                }
                added = 1;
            }
            6 => {
                n += &format!(" + all {} rep {}", fmt_cs(&v), rep);
                let g = l.add_all(v.clone(), rep);
                for q in &v {
                    push(&mut m, *q, rep);
                }
                if v.is_empty() {
                    ensure!(cx, !g, "{}: adding nothing reports a change", n);
                } else if m.len() > before {
                    ensure!(cx, g, "{}: adding coordinates reports no change", n);
                }
            }
            _ => {
                n += " close";
                l.close_ring();
                if let Some(f) = m.first().cloned() {
                    push(&mut m, f, false);
                }
                added = 0;
            }
        }
        if m.len() < before + added {
            cx.ev("repeat suppressed");
        }
        cx.key_u(op);
        let g = l.to_coordinate_array();
        ensure!(cx, same_cs(&g, &m), "{}: holds {} but {}", n, fmt_cs(&g), fmt_cs(&m));
    }
    for p in &m {
        cx.key(&[p.x, p.y, p.z, p.m]);
    }
    cx.desc(|| n.clone());
    if m.len() > 1 {
        cx.nontrivial();
    }
    let mut w = m.clone();
    ensure!(cx, same_cs(&l.to_coordinate_array_forward(true), &w), "{}: forward {} but {}", n, fmt_cs(&l.to_coordinate_array_forward(true)), fmt_cs(&w));
    w.reverse();
    ensure!(cx, same_cs(&l.to_coordinate_array_forward(false), &w), "{}: backward {} but {}", n, fmt_cs(&l.to_coordinate_array_forward(false)), fmt_cs(&w));
    for i in 0..m.len() + 2 {
        let g = l.get_coordinate(i);
        let k = match (&g, m.get(i)) {
            (Some(a), Some(b)) => same_c(a, b),
            (None, None) => true,
            _ => false,
        };
        ensure!(cx, k, "{}: coordinate {} is {}", n, i, fo(&g));
    }
    Ok(())
}

fn arrays(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut v = pts(r, 8);
    if r.chance(1, 4) && !v.is_empty() {
        let mut first = false;
        for _ in 0..1 + r.below(3) {
            let i = if r.chance(1, 3) { 0 } else { r.us(v.len()) };
            let x = r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            if r.bool() { v[i].x = x } else { v[i].y = x };
            first |= i == 0;
        }
        cx.ev("invalid point");
        if first {
            cx.ev("invalid first point");
        }
    }
    let n = fmt_cs(&v);
    cx.desc(|| n.clone());
    for p in &v {
        cx.key(&[p.x, p.y, p.z, p.m]);
    }
    if v.len() > 1 {
        cx.nontrivial();
    }
    let valid = |p: &Coordinate| p.x.is_finite() && p.y.is_finite();
    let rep = v.windows(2).any(|w| eq(&w[0], &w[1]));
    let bad = v.iter().any(|p| !valid(p));
    let (g, h) = (CA::has_repeated_points(&v), CA::has_repeated_or_invalid_points(&v));
    ensure!(cx, g == rep && h == (rep || bad), "{}: repeated {} repeated or invalid {}", n, g, h);
    let dedup = |keep: &dyn Fn(&Coordinate) -> bool| {
        let mut w = vec![];
        for p in v.iter().filter(|p| keep(p)) {
            push(&mut w, *p, false);
        }
        w
    };
    let (g, w) = (CA::remove_repeated_points(&v), dedup(&|_| true));
    ensure!(cx, same_cs(&g, &w), "{}: without repeats {} but {}", n, fmt_cs(&g), fmt_cs(&w));
    let (g, w) = (CA::remove_repeated_or_invalid_points(&v), dedup(&valid));
    ensure!(cx, same_cs(&g, &w), "{}: without repeats and invalid points {} but {}", n, fmt_cs(&g), fmt_cs(&w));
    let k = cx.rng.us((v.len() + 2).max(6));
    let g = CA::at_least_n_coordinates_or_nothing(k, &v);
    let w = if v.len() >= k { v.clone() } else { vec![] };
    ensure!(cx, same_cs(&g, &w), "{}: at least {} or nothing gives {}", n, k, fmt_cs(&g));
    let g = CA::copy_deep(&v);
    ensure!(cx, same_cs(&g, &v), "{}: copy {}", n, fmt_cs(&g));
    // part from start to end, both included, clamped
    let b = (v.len() + 3).max(10);
    let (s, mut e) = (cx.rng.us(b), cx.rng.us(b));
    if cx.rng.chance(1, 40) {
        e = cx.rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 40]);
    }
    let g = CA::extract(&v, s, e);
    let w: Vec<Coordinate> = v.iter().enumerate().filter(|(i, _)| s <= *i && *i <= e).map(|(_, p)| *p).collect();
    cx.ev(if w.is_empty() { "extracted nothing" } else { "part extracted" });
    ensure!(cx, same_cs(&g, &w), "{}: {} to {} is {} but {}", n, s, e, fmt_cs(&g), fmt_cs(&w));
    // copying a range
    if !v.is_empty() {
        let r = &mut cx.rng;
        let len = r.us(v.len() + 1);
        let sp = r.us(v.len() - len + 1);
        let mut d = pts(r, 4);
        let dp = r.us(d.len() + 1);
        while d.len() < dp + len {
            d.push(pt(r));
        }
        let mut w = d.clone();
        w[dp..dp + len].copy_from_slice(&v[sp..sp + len]);
        CA::copy_deep_to(&v, sp, &mut d, dp, len);
        ensure!(cx, same_cs(&d, &w), "{}: {} from {} copied to {} gives {} but {}", n, len, sp, dp, fmt_cs(&d), fmt_cs(&w));
    }
    if v.iter().any(|p| p.x.is_nan() || p.y.is_nan()) {
        return Ok(());
    }
    let ring = v.len() >= 4 && eq(&v[0], &v[v.len() - 1]);
    let g = CA::is_ring(&v);
    ensure!(cx, g == ring, "{}: is_ring {}", n, g);
    let g = CA::min_coordinate(&v);
    let w = v.iter().fold(None, |m: Option<Coordinate>, p| match m {
        Some(q) if (q.x, q.y) <= (p.x, p.y) => Some(q),
        _ => Some(*p),
    });
    let k = match (&g, &w) {
        (None, None) => true,
        (Some(a), Some(b)) => same_c(a, b),
        _ => false,
    };
    ensure!(cx, k, "{}: minimum {} but {}", n, fo(&g), fo(&w));
    let p = if v.is_empty() || cx.rng.chance(1, 6) { c((50.0, 50.0)) } else { let i = cx.rng.us(v.len()); c((v[i].x, v[i].y)) };
    let pos = v.iter().position(|q| eq(q, &p));
    let g = CA::index_of(&p, &v);
    ensure!(cx, g == pos.map_or(-1, |i| i as i32), "{}: index of {} is {}", n, f1(&p), g);
    let mut t = pts(&mut cx.rng, 4);
    if !v.is_empty() && cx.rng.bool() {
        // many of the list's own first
        let n = cx.rng.len(4);
        let own: Vec<Coordinate> = (0..n).map(|_| v[cx.rng.us(v.len())]).collect();
        t = [own, t].concat();
    }
    let g = CA::pt_not_in_list(&t, &v);
    let w = t.iter().find(|p| !v.iter().any(|q| eq(p, q)));
    let k = match (&g, w) {
        (None, None) => true,
        (Some(a), Some(b)) => same_c(a, b),
        _ => false,
    };
    ensure!(cx, k, "first of {} not in {} is {}", fmt_cs(&t), n, fo(&g));
    // rotation
    let rot = |i: usize, ring: bool| {
        let mut w = v.clone();
        if i > 0 {
            if ring {
                w.pop();
                let l = w.len();
                w.rotate_left(i % l);
                let f = w[0];
                w.push(f);
            } else {
                w.rotate_left(i);
            }
        }
        w
    };
    let mut g = v.clone();
    CA::scroll_coordinate(&mut g, &p);
    let w = rot(pos.unwrap_or(0), ring);
    if pos.unwrap_or(0) > 0 {
        cx.ev(if ring { "scrolled ring" } else { "scrolled open" });
    }
    ensure!(cx, same_cs(&g, &w), "{}: scrolled to {} is {} but {}", n, f1(&p), fmt_cs(&g), fmt_cs(&w));
    if !v.is_empty() {
        let i = cx.rng.us(v.len());
        let mut g = v.clone();
        CA::scroll_index(&mut g, i);
        ensure!(cx, same_cs(&g, &rot(i, ring)), "{}: scrolled to {} is {} but {}", n, i, fmt_cs(&g), fmt_cs(&rot(i, ring)));
        let mut g = v.clone();
        CA::scroll_index_ensure_ring(&mut g, i, false);
        ensure!(cx, same_cs(&g, &rot(i, false)), "{}: scrolled as open to {} is {} but {}", n, i, fmt_cs(&g), fmt_cs(&rot(i, false)));
    }
    // envelope and selection
    let g = CA::envelope(&v);
    let b = v.iter().fold(None, |m: Option<[f64; 4]>, p| match m {
        None => Some([p.x, p.x, p.y, p.y]),
        Some(w) => Some([w[0].min(p.x), w[1].max(p.x), w[2].min(p.y), w[3].max(p.y)]),
    });
    let k = match b {
        None => g.is_null(),
        Some(w) => !g.is_null() && [g.get_min_x(), g.get_max_x(), g.get_min_y(), g.get_max_y()] == w,
    };
    ensure!(cx, k, "{}: envelope {}", n, g);
    let e = if cx.rng.chance(1, 8) { Envelope::default() } else { Envelope::new_coordinates(&pt(&mut cx.rng), &pt(&mut cx.rng)) };
    let g = CA::intersection(&v, &e);
    let w: Vec<Coordinate> = v.iter().filter(|p| !e.is_null() && e.get_min_x() <= p.x && p.x <= e.get_max_x() && e.get_min_y() <= p.y && p.y <= e.get_max_y()).cloned().collect();
    ensure!(cx, same_cs(&g, &w), "{} in {}: {} but {}", n, e, fmt_cs(&g), fmt_cs(&w));
    Ok(())
}

fn dims(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let kinds = [(2, 0), (3, 0), (3, 1), (4, 1)];
    let one = r.pick(&kinds);
    let mix = r.bool();
    let n = r.len(6);
    let mut v = vec![];
    let mut ks = vec![];
    for _ in 0..n {
        let k = if mix { r.pick(&kinds) } else { one };
        let w = r.pick(&[0, 1, 5, 5, 5]);
        let f = |r: &mut Rng| r.int(-w, w) as f64;
        let (x, y, z, m) = (f(r), f(r), f(r), f(r));
        v.push(match k {
            (2, _) => Coordinate::new_xy(x, y),
            (3, 0) => Coordinate::new_xyz(x, y, z),
            (3, _) => Coordinate::new_xym(x, y, m),
            _ => Coordinate::new_xyzm(x, y, z, m),
        });
        ks.push(k);
    }
    for p in &v {
        cx.key(&[p.x, p.y, p.z, p.m]);
    }
    let name = fmt_cs(&v);
    cx.desc(|| name.clone());
    if n > 1 {
        cx.nontrivial();
    }
    let (d, m) = (ks.iter().map(|k| k.0).max().unwrap_or(3), ks.iter().map(|k| k.1).max().unwrap_or(0));
    let (g, h) = (CA::dimension(&v), CA::measures(&v));
    ensure!(cx, g == d && h == m, "{}: dimension {} measures {} but {} and {}", name, g, h, d, m);
    // making them consistent keeps every ordinate present
    let mut w = v.clone();
    CA::enforce_consistency(&mut w);
    ensure!(cx, w.len() == v.len(), "{}: made consistent {}", name, fmt_cs(&w));
    let uniform = ks.windows(2).all(|k| k[0] == k[1]);
    if uniform {
        ensure!(cx, same_cs(&v, &w), "{}: already consistent but changed to {}", name, fmt_cs(&w));
    } else {
        cx.ev("mixed dimensions");
        let k = w.iter().all(|p| p.m.is_nan()) || w.iter().all(|p| !p.m.is_nan());
        ensure!(cx, k, "{}: made consistent {}, with and without measures", name, fmt_cs(&w));
    }
    for (p, q) in v.iter().zip(&w) {
        let k = p.x == q.x && p.y == q.y && (p.z.is_nan() || p.z == q.z) && (p.m.is_nan() || p.m == q.m);
        ensure!(cx, k, "{}: made consistent {}: {} became {}", name, fmt_cs(&w), f1(p), f1(q));
    }
    let (d, m) = cx.rng.pick(&kinds);
    let w = CA::enforce_consistency_dim_measures(&v, d, m);
    ensure!(cx, w.len() == v.len(), "{}: in {} dimensions {} measures {}", name, d, m, fmt_cs(&w));
    for (p, q) in v.iter().zip(&w) {
        let k = p.x == q.x && p.y == q.y && (d - m < 3 || p.z.is_nan() || p.z == q.z) && (if m == 0 { q.m.is_nan() } else { p.m.is_nan() || p.m == q.m });
        ensure!(cx, k, "{}: in {} dimensions, {} measures: {} became {}", name, d, m, f1(p), f1(q));
    }
    Ok(())
}
