//! Octagonal envelopes against a model of eight bounds.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::envelope::Envelope;
use geos_rs::verif_hooks::geom::line_string::LineString;
use geos_rs::verif_hooks::geom::octagonal_envelope::OctagonalEnvelope;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        quick: 2_000_000,
        families: vec![
            Family { name: "histories of one octagon", weight: 3, run: history },
            Family { name: "pairs of octagons, and points", weight: 4, run: pair },
        ],
        rule: "Random sequences of including points, point sequences, rectangles, other octagons (null ones too), expanding by distances of either sign and nulling, from every constructor; pairs that are null, equal, nested, sharing a side or corner, separated only diagonally, disjoint. Oracle: the eight bounds updated by definition, and every included point kept.",
        assumptions: &["finite ordinates"],
        need: &[("null", 20000), ("collapsed to null", 5000), ("included envelope", 20000), ("included null envelope", 5000), ("intersecting", 20000), ("separated only diagonally", 5000), ("disjoint", 20000), ("nested", 10000), ("point cut off by a corner", 5000)],
    }
}

type M = Option<[f64; 8]>; // minx maxx miny maxy mina maxa minb maxb

fn state(e: &OctagonalEnvelope) -> [f64; 8] {
    [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y(), e.get_min_a(), e.get_max_a(), e.get_min_b(), e.get_max_b()]
}
fn same(e: &OctagonalEnvelope, m: &M) -> bool {
    match m {
        None => e.is_null(),
        Some(v) => !e.is_null() && state(e).iter().zip(v).all(|(g, w)| (g - w).abs() <= 4.0 * ulp(*w)),
    }
}
fn bounds(p: P) -> [f64; 8] {
    let (a, b) = (p.0 + p.1, p.0 - p.1);
    [p.0, p.0, p.1, p.1, a, a, b, b]
}
fn join(m: &mut M, w: &[f64; 8]) {
    *m = Some(match *m {
        None => *w,
        Some(v) => {
            let mut o = v;
            for i in 0..8 {
                o[i] = if i % 2 == 0 { v[i].min(w[i]) } else { v[i].max(w[i]) };
            }
            o
        }
    });
}
fn add(m: &mut M, p: P) {
    join(m, &bounds(p));
}
fn env(r: &mut Rng, st: Style) -> (Envelope, Vec<P>) {
    if r.chance(1, 5) {
        return (Envelope::default(), vec![]);
    }
    let (p, q) = (st.pt(r), st.pt(r));
    (Envelope::new_coordinates(&c(p), &c(q)), vec![p, q, (p.0, q.1), (q.0, p.1)])
}
fn make(r: &mut Rng, st: Style, depth: u32) -> (OctagonalEnvelope, M, Vec<P>) {
    let mut m: M = None;
    let mut pts = vec![];
    let e = match r.below(7) {
        0 => OctagonalEnvelope::default(),
        1 => {
            pts = st.pts(r, 1);
            OctagonalEnvelope::new_with_coordinate(&c(pts[0]))
        }
        2 | 3 => {
            pts = st.pts(r, 2);
            OctagonalEnvelope::new_with_coordinates(&c(pts[0]), &c(pts[1]))
        }
        4 => {
            let (e, v) = env(r, st);
            pts = v;
            OctagonalEnvelope::new_with_envelope(&e)
        }
        5 => {
            let n = r.len(5);
            pts = st.pts(r, n);
            if pts.len() == 1 {
                pts.push(pts[0]);
            }
            let s = super::c06::sequence(r, &pts);
            OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(s))
        }
        _ => {
            if depth > 0 {
                let (o, v, p) = make(r, st, depth - 1);
                m = v;
                pts = p;
                OctagonalEnvelope::new_with_octagonal_envelope(&o)
            } else {
                OctagonalEnvelope::default()
            }
        }
    };
    for p in &pts {
        add(&mut m, *p);
    }
    (e, m, pts)
}

fn history(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.bool() { Style::grid(r) } else { Style::any(r) };
    let (mut e, mut m, mut pts) = make(r, st, 2);
    let mut n = format!("{:?}", m);
    cx.nontrivial();
    let steps = 1 + cx.rng.us(6);
    for _ in 0..steps {
        let r = &mut cx.rng;
        let p = st.pt(r);
        let k = r.below(8);
        cx.key(&[p.0, p.1]);
        cx.key_u(k);
        let r = &mut cx.rng;
        let mut dead = false;
        match k {
            0 | 1 => {
                n += &format!(" +{:?}", p);
                if k == 0 { e.expand_to_include_coordinate(&c(p)) } else { e.expand_to_include_xy(p.0, p.1) };
                add(&mut m, p);
                pts.push(p);
            }
            2 | 3 => {
                let (f, v) = env(r, st);
                n += &format!(" +env{:?}", v);
                e.expand_to_include_envelope(&f);
                for q in &v {
                    add(&mut m, *q);
                    pts.push(*q);
                }
                cx.ev(if v.is_empty() { "included null envelope" } else { "included envelope" });
            }
            4 => {
                let (f, o, v) = make(r, st, 2);
                n += &format!(" +oct{:?}", o);
                e.expand_to_include_octagonal_envelope(&f);
                if let Some(w) = o {
                    join(&mut m, &w);
                }
                pts.extend(v);
            }
            5 => {
                let k = r.len(4);
                let v = st.pts(r, k);
                n += &format!(" +seq{:?}", v);
                e.expand_to_include_coordinate_array_sequence(&super::c06::sequence(r, &v));
                for q in &v {
                    add(&mut m, *q);
                    pts.push(*q);
                }
            }
            6 => {
                let d = if r.chance(2, 3) { p.0.abs() / 4.0 } else { -p.0.abs() / 8.0 };
                n += &format!(" by {:?}", d);
                e.expand_by_distance(d);
                if d < 0.0 {
                    pts.clear();
                }
                if let Some(v) = m {
                    let dd = f64::sqrt(2.0) * d;
                    let w = [v[0] - d, v[1] + d, v[2] - d, v[3] + d, v[4] - dd, v[5] + dd, v[6] - dd, v[7] + dd];
                    dead = (0..4).any(|i| w[2 * i] > w[2 * i + 1]);
                    m = if dead { None } else { Some(w) };
                }
            }
            _ => {
                if r.chance(1, 3) {
                    n += " null";
                    e.set_to_null();
                    m = None;
                    pts.clear();
                }
            }
        }
        if dead {
            cx.ev("collapsed to null");
            pts.clear();
        }
        if m.is_none() {
            cx.ev("null");
        }
        ensure!(cx, same(&e, &m), "after {}: octagon {:?} (null {}) but should be {:?}", n, state(&e), e.is_null(), m);
    }
    cx.desc(|| n.clone());
    ensure!(cx, e.is_valid(), "after {}: octagon {:?} is not valid", n, state(&e));
    for p in &pts {
        let k = e.intersects_coordinate(&c(*p));
        ensure!(cx, k, "after {}: octagon {:?} does not contain {:?}, which was included", n, state(&e), p);
    }
    Ok(())
}

fn pair(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.chance(2, 3) { Style::Grid(r.pick(&[1, 2, 3, 5])) } else { Style::any(r) };
    let (mut a, _, _) = make(r, st, 1);
    let (mut b, _, _) = make(r, st, 1);
    match r.below(6) {
        0 => b = a,
        1 => b.expand_to_include_octagonal_envelope(&a),
        2 => a.expand_by_distance(st.mag() / 4.0),
        _ => {}
    }
    let p = st.pt(r);
    let m = |e: &OctagonalEnvelope| if e.is_null() { None } else { Some(state(e)) };
    let (ma, mb) = (m(&a), m(&b));
    let n = format!("{:?} and {:?}", ma, mb);
    cx.desc(|| n.clone());
    cx.key(&[p.0, p.1]);
    for m in [&ma, &mb] {
        match m {
            None => cx.key(&[f64::NAN]),
            Some(v) => cx.key(v),
        }
    }
    if ma.is_some() && mb.is_some() {
        cx.nontrivial();
    } else {
        cx.ev("null");
    }
    let hit = |v: &[f64; 8], w: &[f64; 8], i: usize| v[2 * i] <= w[2 * i + 1] && w[2 * i] <= v[2 * i + 1];
    for (x, y, mx, my) in [(&a, &b, &ma, &mb), (&b, &a, &mb, &ma)] {
        let (k, cov) = match (mx, my) {
            (Some(v), Some(w)) => {
                let k = (0..4).all(|i| hit(v, w, i));
                if k {
                    cx.ev("intersecting");
                } else {
                    cx.ev("disjoint");
                    if hit(v, w, 0) && hit(v, w, 1) {
                        cx.ev("separated only diagonally");
                    }
                }
                let cov = (0..4).all(|i| v[2 * i] <= w[2 * i] && w[2 * i + 1] <= v[2 * i + 1]);
                if cov {
                    cx.ev("nested");
                }
                (k, cov)
            }
            _ => (false, false),
        };
        let g = x.intersects_octagonal_envelope(y);
        ensure!(cx, g == k, "{}: intersect is {} but {}", n, g, k);
        let g = x.contains_octagonal_envelope(y);
        ensure!(cx, g == cov, "{}: {:?} contains {:?} is {} but {}", n, mx, my, g, cov);
    }
    let k = match &ma {
        None => false,
        Some(v) => {
            let w = bounds(p);
            let k = (0..4).all(|i| hit(v, &w, i));
            if !k && hit(v, &w, 0) && hit(v, &w, 1) {
                cx.ev("point cut off by a corner");
            }
            k
        }
    };
    let g = a.intersects_coordinate(&c(p));
    ensure!(cx, g == k, "octagon {:?} and point {:?}: intersect is {} but {}", ma, p, g, k);
    Ok(())
}
