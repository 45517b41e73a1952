//! Envelopes against a model rectangle.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::geom::envelope::Envelope;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        quick: 3_000_000,
        families: vec![
            Family { name: "histories of one envelope", weight: 3, run: history },
            Family { name: "pairs of envelopes", weight: 4, run: pair },
            Family { name: "rectangles of points and segments", weight: 2, run: points },
        ],
        rule: "Random sequences of expanding (by points, envelopes, margins of either sign), translating, nulling and re-initialising, from every constructor; pairs that are null, equal, nested, sharing an edge or a corner, crossing, disjoint in one or both axes. Oracle: an optional rectangle updated by the definition of each operation.",
        assumptions: &["finite ordinates", "distance is not asserted when an envelope is null"],
        need: &[("null", 20000), ("collapsed to null", 5000), ("touching", 20000), ("overlapping", 20000), ("disjoint", 20000), ("nested", 20000), ("equal", 5000), ("point rectangle", 5000)],
    }
}

type M = Option<[f64; 4]>; // minx maxx miny maxy

fn state(e: &Envelope) -> [f64; 4] {
    [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()]
}
fn same(e: &Envelope, m: &M) -> bool {
    match m {
        None => e.is_null(),
        Some(v) => !e.is_null() && state(e) == *v,
    }
}
fn add(m: &mut M, p: P) {
    *m = Some(match *m {
        None => [p.0, p.0, p.1, p.1],
        Some(v) => [v[0].min(p.0), v[1].max(p.0), v[2].min(p.1), v[3].max(p.1)],
    });
}
fn grow(m: &mut M, dx: f64, dy: f64) -> bool {
    if let Some(v) = *m {
        let w = [v[0] - dx, v[1] + dx, v[2] - dy, v[3] + dy];
        let dead = w[0] > w[1] || w[2] > w[3];
        *m = if dead { None } else { Some(w) };
        return dead;
    }
    false
}
fn make(r: &mut Rng, st: Style) -> (Envelope, M) {
    let (p, q) = (st.pt(r), if r.chance(1, 4) { st.pt(r) } else { st.pt(r) });
    let mut m: M = None;
    let e = match r.below(6) {
        0 => return (Envelope::default(), None),
        1 => {
            add(&mut m, p);
            Envelope::new_coordinate(&c(p))
        }
        2 | 3 => {
            add(&mut m, p);
            add(&mut m, q);
            Envelope::new_coordinates(&c(p), &c(q))
        }
        _ => {
            add(&mut m, p);
            add(&mut m, q);
            Envelope::new_xy(p.0, q.0, p.1, q.1)
        }
    };
    (e, m)
}

fn measures(cx: &mut Cx, e: &Envelope, m: &M, n: &str) -> R {
    ensure!(cx, same(e, m), "{}: envelope {} (null {}) but should be {:?}", n, e, e.is_null(), m);
    let (w, h) = m.map_or((0.0, 0.0), |v| (v[1] - v[0], v[3] - v[2]));
    let g = [e.get_width(), e.get_height(), e.get_area(), e.min_extent(), e.max_extent()];
    let x = [w, h, w * h, w.min(h), w.max(h)];
    ensure!(cx, g == x, "{}: width, height, area, extents of {:?} are {:?} but {:?}", n, m, g, x);
    let (g, x) = (e.get_diameter(), w.hypot(h));
    ensure!(cx, (g - x).abs() <= 4.0 * ulp(x), "{}: diameter of {:?} is {:?} but {:?}", n, m, g, x);
    let g = e.centre();
    let k = match (m, &g) {
        (None, None) => true,
        (Some(v), Some(g)) => (g.x - (v[0] + v[1]) / 2.0).abs() <= ulp(v[0].abs().max(v[1].abs())) && (g.y - (v[2] + v[3]) / 2.0).abs() <= ulp(v[2].abs().max(v[3].abs())),
        _ => false,
    };
    ensure!(cx, k, "{}: centre of {:?} is {}", n, m, fo(&g));
    Ok(())
}

fn history(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.bool() { Style::grid(r) } else if r.chance(1, 4) { Style::Wild } else { Style::any(r) };
    let (mut e, mut m) = make(r, st);
    let mut n = format!("{:?}", m);
    cx.nontrivial();
    let steps = 1 + cx.rng.len(6);
    for _ in 0..steps {
        let r = &mut cx.rng;
        let p = st.pt(r);
        cx.key(&[p.0, p.1]);
        let r = &mut cx.rng;
        let k = r.below(10);
        cx.key_u(k);
        let r = &mut cx.rng;
        let mut dead = false;
        match k {
            0 | 1 => {
                n += &format!(" +{:?}", p);
                e.expand_to_include_coordinate(&c(p));
                add(&mut m, p);
            }
            2 => {
                n += &format!(" +xy{:?}", p);
                e.expand_to_include_xy(p.0, p.1);
                add(&mut m, p);
            }
            3 | 4 => {
                let (f, o) = make(r, st);
                n += &format!(" +env{:?}", o);
                e.expand_to_include_envelope(&f);
                if let Some(v) = o {
                    add(&mut m, (v[0], v[2]));
                    add(&mut m, (v[1], v[3]));
                }
            }
            5 => {
                n += &format!(" by {:?}", p.0);
                e.expand_by(p.0);
                dead = grow(&mut m, p.0, p.0);
            }
            6 => {
                n += &format!(" by {:?}", p);
                e.expand_by_delta_xy(p.0, p.1);
                dead = grow(&mut m, p.0, p.1);
            }
            7 => {
                n += &format!(" moved {:?}", p);
                e.translate(p.0, p.1);
                if let Some(v) = &mut m {
                    *v = [v[0] + p.0, v[1] + p.0, v[2] + p.1, v[3] + p.1];
                }
            }
            8 => {
                let (f, o) = make(r, st);
                n += &format!(" init {:?}", o);
                e.init(&f);
                m = o;
            }
            _ => {
                if r.chance(1, 3) {
                    n += " null";
                    e.set_to_null();
                    m = None;
                }
            }
        }
        if dead {
            cx.ev("collapsed to null");
        }
        if m.is_none() {
            cx.ev("null");
        }
        ensure!(cx, same(&e, &m), "after {}: envelope {} (null {}) but should be {:?}", n, e, e.is_null(), m);
    }
    cx.desc(|| n.clone());
    measures(cx, &e, &m, &n)?;
    let f = e.copy();
    ensure!(cx, same(&f, &m) && f.equals(&e) && same(&Envelope::new_envelope(&e), &m), "{}: copy {} differs", n, f);
    Ok(())
}

fn pair(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.chance(2, 3) { Style::Grid(r.pick(&[1, 2, 3, 5])) } else if r.chance(1, 4) { Style::Wild } else { Style::any(r) };
    let (a, ma) = make(r, st);
    let (mut b, mut mb) = make(r, st);
    // relate them
    if let (Some(v), true) = (ma, r.chance(1, 3)) {
        let (x0, x1, y0, y1) = (v[0], v[1], v[2], v[3]);
        let (w, h) = (x1 - x0, y1 - y0);
        let t = match r.below(6) {
            0 => [x0, x1, y0, y1],
            1 => [x1, x1 + w, y0, y1],
            2 => [x1, x1 + w, y1, y1 + h],
            3 => [x0 + w / 4.0, x1 - w / 4.0, y0 + h / 4.0, y1 - h / 4.0],
            4 => [nudge(x1, 1), nudge(x1, 1) + w, y0, y1],
            _ => [x0 - 1.0, x1, y0, nudge(y1, r.int(-1, 1))],
        };
        b = Envelope::new_xy(t[0], t[1], t[2], t[3]);
        mb = Some([t[0].min(t[1]), t[0].max(t[1]), t[2].min(t[3]), t[2].max(t[3])]);
    }
    for m in [&ma, &mb] {
        match m {
            None => cx.key(&[f64::NAN]),
            Some(v) => cx.key(v),
        }
    }
    let n = format!("{:?} and {:?}", ma, mb);
    cx.desc(|| n.clone());
    if ma.is_some() && mb.is_some() {
        cx.nontrivial();
    } else {
        cx.ev("null");
    }
    measures(cx, &a, &ma, &n)?;
    let both = if let (Some(v), Some(w)) = (ma, mb) { Some((v, w)) } else { None };
    let hit = both.map_or(false, |(v, w)| v[0].max(w[0]) <= v[1].min(w[1]) && v[2].max(w[2]) <= v[3].min(w[3]));
    let cov = |m: &M, o: &M| match (m, o) {
        (Some(v), Some(w)) => v[0] <= w[0] && w[1] <= v[1] && v[2] <= w[2] && w[3] <= v[3],
        _ => false,
    };
    let eq = match (ma, mb) {
        (None, None) => true,
        (Some(v), Some(w)) => v == w,
        _ => false,
    };
    for (x, y, mx, my) in [(&a, &b, &ma, &mb), (&b, &a, &mb, &ma)] {
        let g = [x.intersects_envelope(y), !x.disjoint_envelope(y), x.overlaps_envelope(y)];
        ensure!(cx, g == [hit; 3], "{}: intersects, not disjoint, overlaps are {:?} but {}", n, g, hit);
        let k = cov(mx, my);
        let g = [x.covers_envelope(y), x.contains_envelope(y), x.contains_properly(y)];
        ensure!(cx, g == [k, k, k && !eq], "{}: {:?} covers, contains, properly contains {:?}: {:?}", n, mx, my, g);
        if k && !eq {
            cx.ev("nested");
        }
        ensure!(cx, x.equals(y) == eq, "{}: equals is {}", n, x.equals(y));
        let i = x.intersection_envelope(y);
        let want = both.filter(|_| hit).map(|(v, w)| [v[0].max(w[0]), v[1].min(w[1]), v[2].max(w[2]), v[3].min(w[3])]);
        ensure!(cx, same(&i, &want), "{}: intersection {} but {:?}", n, i, want);
        // order: null first, then by minx, miny, maxx, maxy
        let key = |m: &M| m.map(|v| [v[0], v[2], v[1], v[3]]);
        let w = match (key(mx), key(my)) {
            (None, None) => 0,
            (None, _) => -1,
            (_, None) => 1,
            (Some(s), Some(t)) => s.partial_cmp(&t).unwrap() as i32,
        };
        let g = x.compare_to_envelope(y);
        ensure!(cx, g.signum() == w, "{}: compared as {} but {}", n, g, w);
        let mut u = x.copy();
        u.expand_to_include_envelope(y);
        let want = match (mx, my) {
            (Some(v), Some(w)) => Some([v[0].min(w[0]), v[1].max(w[1]), v[2].min(w[2]), v[3].max(w[3])]),
            (None, o) => *o,
            (o, None) => *o,
        };
        ensure!(cx, same(&u, &want), "{}: union {} but {:?}", n, u, want);
        if let Some((v, w)) = both {
            let gap = |a0: f64, a1: f64, b0: f64, b1: f64| (b0 - a1).max(a0 - b1).max(0.0);
            let want = gap(v[0], v[1], w[0], w[1]).hypot(gap(v[2], v[3], w[2], w[3]));
            let g = x.distance_envelope(y);
            ensure!(cx, (g - want).abs() <= 4.0 * ulp(want), "{}: distance {:?} but {:?}", n, g, want);
        }
    }
    if eq {
        cx.ev("equal");
    }
    if let Some((v, w)) = both {
        if !hit {
            cx.ev("disjoint");
        } else if v[0].max(w[0]) == v[1].min(w[1]) || v[2].max(w[2]) == v[3].min(w[3]) {
            cx.ev("touching");
        } else {
            cx.ev("overlapping");
        }
    }
    Ok(())
}

fn points(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let st = if r.chance(2, 3) { Style::Grid(r.pick(&[1, 2, 3])) } else if r.chance(1, 4) { Style::Wild } else { Style::any(r) };
    let (e, m) = make(r, st);
    let (p1, mut p2, mut q1, q2) = (st.pt(r), st.pt(r), st.pt(r), st.pt(r));
    if r.chance(1, 6) {
        p2 = p1;
    }
    if r.chance(1, 6) {
        q1 = (p1.0, q1.1);
    }
    if let (Some(v), true) = (m, r.chance(1, 4)) {
        q1 = (nudge(r.pick(&[v[0], v[1]]), r.int(-1, 1)), nudge(r.pick(&[v[2], v[3]]), r.int(-1, 1)));
    }
    cx.key(&[p1.0, p1.1, p2.0, p2.1, q1.0, q1.1, q2.0, q2.1]);
    let n = format!("envelope {:?} points {}", m, fmt_ps(&[p1, p2, q1, q2]));
    cx.desc(|| n.clone());
    cx.nontrivial();
    if p1 == p2 {
        cx.ev("point rectangle");
    }
    let inside = |v: [f64; 4], p: P| v[0] <= p.0 && p.0 <= v[1] && v[2] <= p.1 && p.1 <= v[3];
    let hit = |v: [f64; 4], w: [f64; 4]| v[0].max(w[0]) <= v[1].min(w[1]) && v[2].max(w[2]) <= v[3].min(w[3]);
    let rect = |p: P, q: P| [p.0.min(q.0), p.0.max(q.0), p.1.min(q.1), p.1.max(q.1)];
    let k = m.map_or(false, |v| inside(v, q1));
    let qc = c(q1);
    let g = [e.covers_coordinate(&qc), e.covers_xy(q1.0, q1.1), e.contains_coordinate(&qc), e.contains_xy(q1.0, q1.1), e.intersects_coordinate(&qc), e.intersects_xy(q1.0, q1.1), e.overlaps_coordinate(&qc), e.overlaps_xy(q1.0, q1.1)];
    ensure!(cx, g == [k; 8], "{}: point {:?} in the envelope: {:?} but {}", n, q1, g, k);
    let k = m.map_or(false, |v| hit(v, rect(p1, p2)));
    for (a, b) in [(p1, p2), (p2, p1)] {
        let g = e.intersects_coordinate_ab(&c(a), &c(b));
        ensure!(cx, g == k, "{}: rectangle of {} intersects the envelope: {} but {}", n, fmt_ps(&[a, b]), g, k);
        let g = Envelope::intersects_3(&c(a), &c(b), &qc);
        let k = inside(rect(a, b), q1);
        ensure!(cx, g == k, "rectangle of {} contains {:?}: {} but {}", fmt_ps(&[a, b]), q1, g, k);
        for (s, t) in [(q1, q2), (q2, q1)] {
            let k = hit(rect(a, b), rect(s, t));
            let g = [Envelope::intersects_4(&c(a), &c(b), &c(s), &c(t)), Envelope::intersects_4(&c(s), &c(t), &c(a), &c(b))];
            ensure!(cx, g == [k; 2], "rectangles of {} and {} intersect: {:?} but {}", fmt_ps(&[a, b]), fmt_ps(&[s, t]), g, k);
        }
    }
    Ok(())
}
