//! Linear systems.
use crate::big::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use geos_rs::verif_hooks::math::matrix::Matrix;

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        quick: 600_000,
        families: vec![
            Family { name: "regular systems", weight: 5, run: regular },
            Family { name: "singular systems", weight: 2, run: singular },
            Family { name: "many unknowns", weight: 1, run: many },
            Family { name: "wrong sizes", weight: 1, run: sizes },
            Family { name: "row swaps", weight: 1, run: swaps },
        ],
        rule: "Square systems of 1 to 7 unknowns (diagonally dominant ones with shuffled rows and known integer solutions: up to 200): small integers, doubles of mixed scale, zero leading entries that force row exchanges, permuted triangular ones, singular ones (a zero row or column, equal or doubled rows). Oracle: exact determinant by fraction-free elimination, exact residual of the solution returned.",
        assumptions: &["at least one unknown", "a solution is only required where the exact determinant is at least 1e-9 of the product of the row sizes"],
        need: &[("row exchange needed", 20000), ("one unknown", 5000), ("more than forty unknowns", 100), ("exact integer solution", 20000), ("zero row", 5000), ("zero column", 5000), ("dependent rows", 5000), ("scaled by a power of two", 50000)],
    }
}

type M = Vec<Vec<f64>>;
/// exact determinant (fraction-free elimination)
fn det(a: &M) -> Dy {
    let n = a.len();
    let mut m: Vec<Vec<Q>> = a.iter().map(|r| r.iter().map(|x| Q::f(*x)).collect()).collect();
    let mut d = Q::f(1.0);
    for i in 0..n {
        let p = match (i..n).find(|k| m[*k][i].sign() != 0) {
            Some(p) => p,
            None => return Dy::zero(),
        };
        if p != i {
            m.swap(p, i);
            d = d.neg();
        }
        d = d.mul(&m[i][i]);
        for k in i + 1..n {
            if m[k][i].sign() == 0 {
                continue;
            }
            let f = m[k][i].div(&m[i][i]);
            for l in i..n {
                let t = m[i][l].mul(&f);
                m[k][l] = m[k][l].sub(&t);
            }
        }
    }
    Dy::f(d.to_f64())
}
fn entry(r: &mut Rng, kind: u64) -> f64 {
    match kind {
        0 | 1 => r.int(-4, 4) as f64,
        2 => r.range(-1.0, 1.0),
        3 => ldexp(r.range(-1.0, 1.0), r.int(-8, 8)),
        _ => if r.chance(1, 2) { 0.0 } else { r.int(-9, 9) as f64 },
    }
}
fn matrix(r: &mut Rng, n: usize) -> M {
    let kind = r.below(5);
    let mut m: M = (0..n).map(|_| (0..n).map(|_| entry(r, kind)).collect()).collect();
    match r.below(5) {
        0 => {
            for i in 0..n {
                for j in 0..i {
                    m[i][j] = 0.0;
                }
                if m[i][i] == 0.0 {
                    m[i][i] = 1.0;
                }
            }
            for i in 0..n {
                let j = r.us(n);
                m.swap(i, j);
            }
        }
        1 => m[0][0] = 0.0,
        2 if n > 1 => {
            m[1][0] = m[0][0];
            m[1][1] = m[0][1];
        }
        _ => {}
    }
    m
}

fn regular(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let k = if r.chance(1, 4) { 7 } else { 4 };
    let n = 1 + r.us(k);
    let mut a = matrix(r, n);
    let ints = a.iter().flatten().all(|x| *x == x.trunc());
    let whole: Option<Vec<f64>> = if ints && r.bool() { Some((0..n).map(|_| r.int(-9, 9) as f64).collect()) } else { None };
    let mut b: Vec<f64> = match &whole {
        Some(x) => (0..n).map(|i| (0..n).map(|j| a[i][j] * x[j]).sum()).collect(),
        None => (0..n).map(|_| if ints { r.int(-20, 20) as f64 } else { r.range(-5.0, 5.0) }).collect(),
    };
    // in other units, matrix and right-hand side alike
    if r.chance(1, 3) {
        let k = ldexp(1.0, r.int(-90, 90));
        a.iter_mut().flatten().for_each(|x| *x *= k);
        b.iter_mut().for_each(|x| *x *= k);
        cx.ev("scaled by a power of two");
    }
    for row in &a {
        cx.key(row);
    }
    cx.key(&b);
    let s = format!("{:?} x = {:?}", a, b);
    cx.desc(|| s.clone());
    let d = det(&a).abs().to_f64();
    let size: f64 = a.iter().map(|r| r.iter().map(|x| x * x).sum::<f64>().sqrt()).product();
    if d == 0.0 || d < 1e-9 * size {
        return Ok(());
    }
    cx.nontrivial();
    if n == 1 {
        cx.ev("one unknown");
    }
    if a[0][0] == 0.0 {
        cx.ev("row exchange needed");
    }
    let (mut a2, mut b2) = (a.clone(), b.clone());
    let x = match Matrix::solve(&mut a2, &mut b2) {
        Some(x) => x,
        None => {
            ensure!(cx, false, "{} has no solution though its determinant is {:?}", s, d);
            return Ok(());
        }
    };
    ensure!(cx, x.len() == n && x.iter().all(|v| v.is_finite()), "{} has the solution {:?}", s, x);
    let am = a.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    let xm = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let bm = b.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let tol = 1e-13 * (n * n) as f64 * (1u64 << (n - 1)) as f64 * (am * xm + bm);
    for i in 0..n {
        let mut t = Dy::f(b[i]).neg();
        for j in 0..n {
            t = t.add(&Dy::f(a[i][j]).mul(&Dy::f(x[j])));
        }
        ensure!(cx, t.abs().to_f64() <= tol, "{} has the solution {:?}, off by {:?} in row {}", s, x, t.to_f64(), i);
    }
    if let Some(w) = whole {
        cx.ev("exact integer solution");
        let wm = w.iter().fold(1.0f64, |m, v| m.max(v.abs()));
        // error at most condition number times residual
        let cond = size / d * (n * n) as f64;
        for j in 0..n {
            ensure!(cx, (x[j] - w[j]).abs() <= 1e-12 * cond * wm, "{} has the solution {:?} but {:?}", s, x, w);
        }
    }
    Ok(())
}

/// well-conditioned (diagonally dominant, rows shuffled) systems of many unknowns
fn many(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = 8 + r.len(12).min(90);
    let mut a: M = (0..n).map(|_| (0..n).map(|_| if r.bool() { 0.0 } else { r.int(-3, 3) as f64 }).collect()).collect();
    for i in 0..n {
        let d = (4 * n as i64 + r.int(0, 9)) as f64;
        a[i][i] = if r.bool() { d } else { -d };
    }
    for i in 0..n {
        let j = r.us(n);
        a.swap(i, j);
    }
    let w: Vec<f64> = (0..n).map(|_| r.int(-9, 9) as f64).collect();
    let mut b: Vec<f64> = a.iter().map(|row| row.iter().zip(&w).map(|(p, q)| p * q).sum()).collect();
    cx.key(&w);
    cx.key(&b);
    cx.nontrivial();
    if n > 40 {
        cx.ev("more than forty unknowns");
    }
    let s = format!("{:?} x = {:?}", a, b);
    cx.desc(|| s.clone());
    let x = match Matrix::solve(&mut a, &mut b) {
        Some(x) => x,
        None => {
            ensure!(cx, false, "the diagonally dominant system {} has no solution", s);
            return Ok(());
        }
    };
    ensure!(cx, x.len() == n, "{} has the solution {:?}", s, x);
    for j in 0..n {
        ensure!(cx, (x[j] - w[j]).abs() <= 1e-12 * n as f64 * 10.0, "{} has the solution {:?} but {:?}", s, x, w);
    }
    Ok(())
}

fn singular(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = 1 + r.len(5).min(90);
    let mut a = matrix(r, n);
    let b: Vec<f64> = (0..n).map(|_| r.int(-5, 5) as f64).collect();
    let (i, j) = (r.us(n), r.us(n));
    let kind = r.below(4);
    match kind {
        0 => {
            a[i] = vec![0.0; n];
            cx.ev("zero row");
        }
        1 => {
            for k in 0..n {
                a[k][i] = 0.0;
            }
            cx.ev("zero column");
        }
        _ => {
            if i == j {
                return Ok(());
            }
            let f = cx.rng.pick(&[1.0, -1.0, 2.0, 0.5]);
            a[j] = a[i].iter().map(|x| x * f).collect();
            cx.ev("dependent rows");
        }
    }
    for row in &a {
        cx.key(row);
    }
    cx.key(&b);
    cx.nontrivial();
    let s = format!("{:?} x = {:?}", a, b);
    cx.desc(|| s.clone());
    let g = Matrix::solve(&mut a, &mut b.clone());
    ensure!(cx, g.is_none(), "the singular system {} has the solution {:?}", s, g);
    Ok(())
}

fn sizes(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (n, m, k) = (1 + r.us(4), 1 + r.us(4), 1 + r.us(4));
    if n == m && n == k {
        return Ok(());
    }
    let mut a: M = (0..m).map(|i| (0..k).map(|j| if i == j { 1.0 } else { 0.5 * r.unit() }).collect()).collect();
    let mut b = vec![1.0; n];
    cx.key_u((n * 25 + m * 5 + k) as u64);
    cx.nontrivial();
    cx.desc(|| format!("{} by {} matrix, {} values", m, k, n));
    let g = Matrix::solve(&mut a, &mut b);
    ensure!(cx, g.is_none(), "a {} by {} matrix and {} values have the solution {:?}", m, k, n, g);
    Ok(())
}

fn swaps(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let (n, m) = (1 + r.len(5).min(90), 1 + r.us(5));
    let mut a: M = (0..n).map(|_| (0..m).map(|_| r.int(-9, 9) as f64).collect()).collect();
    let mut v: Vec<f64> = (0..n).map(|_| r.int(-9, 9) as f64).collect();
    let (mut wa, mut wv) = (a.clone(), v.clone());
    let (i, j) = (r.us(n), r.us(n));
    cx.key(&v);
    cx.key_u((i * 10 + j) as u64);
    cx.nontrivial();
    cx.desc(|| format!("{:?} {} {}", wa, i, j));
    Matrix::swap_rows_2d(&mut a, i, j);
    Matrix::swap_rows_1d(&mut v, i, j);
    wa.swap(i, j);
    wv.swap(i, j);
    ensure!(cx, a == wa && v == wv, "rows {} and {} swapped give {:?} and {:?} but {:?} and {:?}", i, j, a, v, wa, wv);
    Ok(())
}
