//! Exact dyadic rationals (sign, big magnitude, power of two) and fractions of
//! them: the arithmetic the oracles decide with. Independent of the code under test.
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Dy {
    neg: bool,
    mag: Vec<u64>, // little endian, no leading zero limbs; empty = 0
    exp: i64,
}

fn trim(v: &mut Vec<u64>) {
    while let Some(&0) = v.last() {
        v.pop();
    }
}
fn bits(v: &[u64]) -> i64 {
    match v.last() {
        None => 0,
        Some(t) => v.len() as i64 * 64 - t.leading_zeros() as i64,
    }
}
fn shl(v: &[u64], n: u64) -> Vec<u64> {
    if v.is_empty() {
        return vec![];
    }
    let w = (n / 64) as usize;
    let b = (n % 64) as u32;
    let mut r = vec![0u64; w];
    if b == 0 {
        r.extend_from_slice(v);
    } else {
        let mut c = 0u64;
        for &x in v {
            r.push((x << b) | c);
            c = x >> (64 - b);
        }
        if c != 0 {
            r.push(c);
        }
    }
    r
}
/// floor(v / 2^n)
fn shr(v: &[u64], n: u64) -> Vec<u64> {
    let w = (n / 64) as usize;
    let b = (n % 64) as u32;
    if w >= v.len() {
        return vec![];
    }
    let mut r = Vec::with_capacity(v.len() - w);
    for i in w..v.len() {
        let lo = v[i] >> b;
        let hi = if b != 0 && i + 1 < v.len() { v[i + 1] << (64 - b) } else { 0 };
        r.push(lo | hi);
    }
    trim(&mut r);
    r
}
fn low_nonzero(v: &[u64], n: u64) -> bool {
    let w = (n / 64) as usize;
    let b = (n % 64) as u32;
    for (i, &x) in v.iter().enumerate() {
        if i < w {
            if x != 0 {
                return true;
            }
        } else if i == w {
            if b != 0 && x & ((1u64 << b) - 1) != 0 {
                return true;
            }
        } else {
            break;
        }
    }
    false
}
fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c != 0 {
        r.push(c as u64);
    }
    r
}
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i128;
    for i in 0..a.len() {
        let mut s = a[i] as i128 - *b.get(i).unwrap_or(&0) as i128 - br;
        if s < 0 {
            s += 1i128 << 64;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u64);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let s = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = s as u64;
            c = s >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    trim(&mut r);
    r
}

impl Dy {
    pub fn zero() -> Dy {
        Dy { neg: false, mag: vec![], exp: 0 }
    }
    pub fn int(v: i64) -> Dy {
        let mut mag = vec![v.unsigned_abs()];
        trim(&mut mag);
        Dy { neg: v < 0, mag, exp: 0 }
    }
    /// exact value of a finite double
    pub fn f(x: f64) -> Dy {
        if !x.is_finite() {
            panic!("HARNESS Dy::f of {}", x);
        }
        if x == 0.0 {
            return Dy::zero();
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1u64 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        let tz = m.trailing_zeros();
        Dy { neg: x < 0.0, mag: vec![m >> tz], exp: e + tz as i64 }
    }
    pub fn pow2(e: i64) -> Dy {
        Dy { neg: false, mag: vec![1], exp: e }
    }
    /// the leading `n` limbs (at least 64 n - 63 bits)
    pub fn cut(mut self, n: usize) -> Dy {
        if self.mag.len() > n {
            let k = self.mag.len() - n;
            self.mag.drain(..k);
            self.exp += 64 * k as i64;
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn sign(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Dy {
        let mut r = self.clone();
        if !r.mag.is_empty() {
            r.neg = !r.neg;
        }
        r
    }
    pub fn abs(&self) -> Dy {
        let mut r = self.clone();
        r.neg = false;
        r
    }
    pub fn add(&self, o: &Dy) -> Dy {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let e = self.exp.min(o.exp);
        let (sa, sb);
        let a: &[u64] = if self.exp > e {
            sa = shl(&self.mag, (self.exp - e) as u64);
            &sa
        } else {
            &self.mag
        };
        let b: &[u64] = if o.exp > e {
            sb = shl(&o.mag, (o.exp - e) as u64);
            &sb
        } else {
            &o.mag
        };
        if self.neg == o.neg {
            return Dy { neg: self.neg, mag: add_mag(a, b), exp: e };
        }
        match cmp_mag(a, b) {
            Ordering::Equal => Dy::zero(),
            Ordering::Greater => Dy { neg: self.neg, mag: sub_mag(a, b), exp: e },
            Ordering::Less => Dy { neg: o.neg, mag: sub_mag(b, a), exp: e },
        }
    }
    pub fn sub(&self, o: &Dy) -> Dy {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Dy) -> Dy {
        let mag = mul_mag(&self.mag, &o.mag);
        if mag.is_empty() {
            return Dy::zero();
        }
        Dy { neg: self.neg != o.neg, mag, exp: self.exp + o.exp }
    }
    pub fn scale2(&self, k: i64) -> Dy {
        let mut r = self.clone();
        if !r.mag.is_empty() {
            r.exp += k;
        }
        r
    }
    pub fn sqr(&self) -> Dy {
        self.mul(self)
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        let s = self.sub(o).sign();
        s.cmp(&0)
    }
    pub fn lt(&self, o: &Dy) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Dy) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn eq(&self, o: &Dy) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    pub fn min(&self, o: &Dy) -> Dy {
        if self.le(o) { self.clone() } else { o.clone() }
    }
    pub fn max(&self, o: &Dy) -> Dy {
        if self.le(o) { o.clone() } else { self.clone() }
    }
    /// largest integer not above
    pub fn floor(&self) -> Dy {
        if self.exp >= 0 || self.is_zero() {
            return self.clone();
        }
        let n = (-self.exp) as u64;
        let q = Dy { neg: self.neg, mag: shr(&self.mag, n), exp: 0 };
        let q = if q.mag.is_empty() { Dy::zero() } else { q };
        if self.neg && low_nonzero(&self.mag, n) {
            q.sub(&Dy::int(1))
        } else {
            q
        }
    }
    pub fn ceil(&self) -> Dy {
        self.neg().floor().neg()
    }
    /// (m, e) with value ~ m * 2^e, 0.5 <= |m| < 1 (m rounded to nearest)
    pub fn frexp(&self) -> (f64, i64) {
        if self.is_zero() {
            return (0.0, 0);
        }
        let nb = bits(&self.mag);
        let m = if nb > 64 {
            let s = (nb - 64) as u64;
            let mut t = shr(&self.mag, s);
            if low_nonzero(&self.mag, s) {
                t[0] |= 1; // sticky
            }
            t[0]
        } else {
            self.mag[0] << (64 - nb)
        };
        // 64-bit to f64 conversion rounds to nearest even; sticky bit makes it exact
        let f = (m as f64) / 18446744073709551616.0;
        (if self.neg { -f } else { f }, nb + self.exp)
    }
    pub fn to_f64(&self) -> f64 {
        let (m, e) = self.frexp();
        ldexp(m, e)
    }
}

pub fn ldexp(m: f64, e: i64) -> f64 {
    let mut r = m;
    let mut e = e;
    while e > 1000 {
        r *= 2f64.powi(1000);
        e -= 1000;
        if r.is_infinite() {
            return r;
        }
    }
    while e < -1000 {
        r *= 2f64.powi(-1000);
        e += 1000;
        if r == 0.0 {
            return r;
        }
    }
    r * 2f64.powi(e as i32)
}

/// exact fraction
#[derive(Clone, Debug)]
pub struct Q {
    pub n: Dy,
    pub d: Dy, // > 0
}

impl Q {
    pub fn new(n: Dy, d: Dy) -> Q {
        match d.sign() {
            0 => panic!("HARNESS Q with zero denominator"),
            1 => Q { n, d },
            _ => Q { n: n.neg(), d: d.neg() },
        }
    }
    pub fn dy(n: Dy) -> Q {
        Q { n, d: Dy::int(1) }
    }
    pub fn f(x: f64) -> Q {
        Q::dy(Dy::f(x))
    }
    pub fn add(&self, o: &Q) -> Q {
        Q { n: self.n.mul(&o.d).add(&o.n.mul(&self.d)), d: self.d.mul(&o.d) }
    }
    pub fn sub(&self, o: &Q) -> Q {
        Q { n: self.n.mul(&o.d).sub(&o.n.mul(&self.d)), d: self.d.mul(&o.d) }
    }
    pub fn mul(&self, o: &Q) -> Q {
        Q { n: self.n.mul(&o.n), d: self.d.mul(&o.d) }
    }
    pub fn div(&self, o: &Q) -> Q {
        Q::new(self.n.mul(&o.d), self.d.mul(&o.n))
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
    pub fn cmp(&self, o: &Q) -> Ordering {
        self.n.mul(&o.d).cmp(&o.n.mul(&self.d))
    }
    pub fn lt(&self, o: &Q) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Q) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn abs(&self) -> Q {
        Q { n: self.n.abs(), d: self.d.clone() }
    }
    pub fn neg(&self) -> Q {
        Q { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn to_f64(&self) -> f64 {
        let (a, ea) = self.n.frexp();
        let (b, eb) = self.d.frexp();
        if a == 0.0 {
            return 0.0;
        }
        ldexp(a / b, ea - eb)
    }
}

/// exact difference |x - q| as a double (rounded), even under cancellation
pub fn err_f(x: f64, q: &Q) -> f64 {
    if !x.is_finite() {
        return f64::INFINITY;
    }
    Q::f(x).sub(q).abs().to_f64()
}
pub fn err_d(x: f64, q: &Dy) -> f64 {
    if !x.is_finite() {
        return f64::INFINITY;
    }
    Dy::f(x).sub(q).abs().to_f64()
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn roundtrip() {
        let mut r = crate::rng::Rng::new(7);
        for _ in 0..200000 {
            let a = f64::from_bits(r.u64());
            let b = f64::from_bits(r.u64());
            if !a.is_finite() || !b.is_finite() || a.abs() > 1e150 || b.abs() > 1e150 || a.abs() < 1e-150 || b.abs() < 1e-150 {
                continue;
            }
            assert_eq!(Dy::f(a).to_f64(), a);
            assert_eq!(Dy::f(a).add(&Dy::f(b)).to_f64(), a + b);
            assert_eq!(Dy::f(a).mul(&Dy::f(b)).to_f64(), a * b);
            assert_eq!(Dy::f(a).lt(&Dy::f(b)), a < b);
            assert_eq!(Dy::f(a).floor().to_f64(), a.floor());
            assert_eq!(Dy::f(a).ceil().to_f64(), a.ceil());
            let q = Q::new(Dy::f(a), Dy::f(b));
            assert!((q.to_f64() / (a / b) - 1.0).abs() < 1e-15);
        }
        for i in -50i64..50 {
            for j in -50i64..50 {
                let a = i as f64 / 8.0;
                let b = j as f64 / 4.0;
                assert_eq!(Dy::f(a).sub(&Dy::f(b)).to_f64(), a - b);
                assert_eq!(Dy::f(a).floor().to_f64(), a.floor());
                assert_eq!(Dy::f(a * b).ceil().to_f64(), (a * b).ceil());
            }
        }
    }
}
