//! Exact arithmetic for the oracles: arbitrary precision integers, dyadic rationals
//! (every finite f64 is one) and quotients of dyadics.

use std::cmp::Ordering;
use std::ops::{Add, Mul, Neg, Sub};

/// magnitude, little endian 64-bit limbs, no leading zero limbs
type Mag = Vec<u64>;

fn mcmp(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn trim(mut a: Mag) -> Mag {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn madd(a: &[u64], b: &[u64]) -> Mag {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u128;
    for i in 0..n {
        let s = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}
/// a >= b
fn msub(a: &[u64], b: &[u64]) -> Mag {
    let mut r = Vec::with_capacity(a.len());
    let mut bor = false;
    for i in 0..a.len() {
        let (x, o1) = a[i].overflowing_sub(*b.get(i).unwrap_or(&0));
        let (y, o2) = x.overflowing_sub(bor as u64);
        bor = o1 || o2;
        r.push(y);
    }
    trim(r)
}
fn mmul(a: &[u64], b: &[u64]) -> Mag {
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    trim(r)
}
fn mshl(a: &[u64], k: usize) -> Mag {
    if a.is_empty() {
        return vec![];
    }
    let w = k / 64;
    let b = k % 64;
    let mut r = vec![0u64; w];
    if b == 0 {
        r.extend_from_slice(a);
    } else {
        let mut c = 0u64;
        for &x in a {
            r.push((x << b) | c);
            c = x >> (64 - b);
        }
        if c > 0 {
            r.push(c);
        }
    }
    r
}
fn mbits(a: &[u64]) -> i64 {
    match a.last() {
        None => 0,
        Some(x) => a.len() as i64 * 64 - x.leading_zeros() as i64,
    }
}

/// Exact dyadic rational: (-1)^neg * mag * 2^exp
#[derive(Clone, Debug)]
pub struct Dy {
    neg: bool,
    mag: Mag,
    exp: i64,
}

impl Dy {
    pub fn zero() -> Dy {
        Dy { neg: false, mag: vec![], exp: 0 }
    }
    pub fn int(v: i64) -> Dy {
        Dy { neg: v < 0, mag: trim(vec![v.unsigned_abs()]), exp: 0 }
    }
    pub fn i128(v: i128) -> Dy {
        let u = v.unsigned_abs();
        Dy { neg: v < 0, mag: trim(vec![u as u64, (u >> 64) as u64]), exp: 0 }
    }
    pub fn pow2(k: i64) -> Dy {
        Dy { neg: false, mag: vec![1], exp: k }
    }
    pub fn f(x: f64) -> Dy {
        assert!(x.is_finite());
        if x == 0.0 {
            return Dy::zero();
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1u64 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
        let tz = m.trailing_zeros();
        Dy { neg: x < 0.0, mag: vec![m >> tz], exp: e + tz as i64 }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn sign(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn abs(&self) -> Dy {
        Dy { neg: false, ..self.clone() }
    }
    pub fn sq(&self) -> Dy {
        self * self
    }
    /// multiply by 2^k
    pub fn scale2(&self, k: i64) -> Dy {
        Dy { exp: self.exp + k, ..self.clone() }
    }
    /// position of the leading bit: 2^(n-1) <= |x| < 2^n  (n = top())
    pub fn top(&self) -> i64 {
        mbits(&self.mag) + self.exp
    }
    fn align(&self, e: i64) -> Mag {
        mshl(&self.mag, (self.exp - e) as usize)
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        (self - o).sign().cmp(&0)
    }
    /// nearest f64, truncating (only for messages and coarse estimates)
    pub fn to_f64(&self) -> f64 {
        if self.mag.is_empty() {
            return 0.0;
        }
        let n = self.mag.len();
        let mut v = 0f64;
        for i in (n.saturating_sub(3)..n).rev() {
            v = v * 18446744073709551616.0 + self.mag[i] as f64;
        }
        let mut e = self.exp + 64 * n.saturating_sub(3) as i64;
        while e > 0 && v.is_finite() {
            let s = e.min(1000);
            v *= 2f64.powi(s as i32);
            e -= s;
        }
        while e < 0 && v != 0.0 {
            let s = (-e).min(1000);
            v /= 2f64.powi(s as i32);
            e += s;
        }
        if self.neg {
            -v
        } else {
            v
        }
    }
    /// correctly rounded (half even) to f64, assuming no overflow / underflow
    pub fn round_f64(&self) -> f64 {
        if self.mag.is_empty() {
            return 0.0;
        }
        let nb = mbits(&self.mag);
        if nb <= 53 {
            return self.to_f64();
        }
        let drop = (nb - 53) as usize;
        // q = mag >> drop, r = rest
        let w = drop / 64;
        let b = drop % 64;
        let mut q = self.mag[w] >> b;
        if b != 0 && w + 1 < self.mag.len() {
            q |= self.mag[w + 1] << (64 - b);
        }
        q &= (1u64 << 53) - 1;
        let half_pos = drop - 1;
        let half = (self.mag[half_pos / 64] >> (half_pos % 64)) & 1 == 1;
        let mut sticky = false;
        for i in 0..half_pos {
            if (self.mag[i / 64] >> (i % 64)) & 1 == 1 {
                sticky = true;
                break;
            }
        }
        if half && (sticky || q & 1 == 1) {
            q += 1;
        }
        let d = Dy { neg: self.neg, mag: vec![q], exp: self.exp + drop as i64 };
        d.to_f64()
    }
    pub fn is_integer(&self) -> bool {
        if self.mag.is_empty() || self.exp >= 0 {
            return true;
        }
        let k = (-self.exp) as usize;
        for i in 0..k {
            if i / 64 >= self.mag.len() {
                return false;
            }
            if (self.mag[i / 64] >> (i % 64)) & 1 == 1 {
                return false;
            }
        }
        true
    }
    pub fn floor(&self) -> Dy {
        if self.mag.is_empty() || self.exp >= 0 {
            return self.clone();
        }
        let k = (-self.exp) as usize;
        let w = k / 64;
        let b = k % 64;
        let mut q: Mag = vec![];
        for i in w..self.mag.len() {
            let mut x = self.mag[i] >> b;
            if b != 0 && i + 1 < self.mag.len() {
                x |= self.mag[i + 1] << (64 - b);
            }
            q.push(x);
        }
        let t = Dy { neg: self.neg, mag: trim(q), exp: 0 };
        if self.neg && !self.is_integer() {
            &t - &Dy::int(1)
        } else {
            t
        }
    }
    pub fn ceil(&self) -> Dy {
        -&(-self).floor()
    }
    /// |self| <= |o|
    pub fn abs_le(&self, o: &Dy) -> bool {
        self.abs().cmp(&o.abs()) != Ordering::Greater
    }
    pub fn lt(&self, o: &Dy) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Dy) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn eq(&self, o: &Dy) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    pub fn min(a: &Dy, b: &Dy) -> Dy {
        if a.le(b) { a.clone() } else { b.clone() }
    }
    pub fn max(a: &Dy, b: &Dy) -> Dy {
        if a.le(b) { b.clone() } else { a.clone() }
    }
}

impl<'a> Neg for &'a Dy {
    type Output = Dy;
    fn neg(self) -> Dy {
        Dy { neg: !self.neg && !self.mag.is_empty(), ..self.clone() }
    }
}
impl<'a> Add<&'a Dy> for &'a Dy {
    type Output = Dy;
    fn add(self, o: &Dy) -> Dy {
        if self.mag.is_empty() {
            return o.clone();
        }
        if o.mag.is_empty() {
            return self.clone();
        }
        let e = self.exp.min(o.exp);
        let a = self.align(e);
        let b = o.align(e);
        if self.neg == o.neg {
            return Dy { neg: self.neg, mag: madd(&a, &b), exp: e };
        }
        match mcmp(&a, &b) {
            Ordering::Equal => Dy::zero(),
            Ordering::Greater => Dy { neg: self.neg, mag: msub(&a, &b), exp: e },
            Ordering::Less => Dy { neg: o.neg, mag: msub(&b, &a), exp: e },
        }
    }
}
impl<'a> Sub<&'a Dy> for &'a Dy {
    type Output = Dy;
    fn sub(self, o: &Dy) -> Dy {
        self + &(-o)
    }
}
impl<'a> Mul<&'a Dy> for &'a Dy {
    type Output = Dy;
    fn mul(self, o: &Dy) -> Dy {
        if self.mag.is_empty() || o.mag.is_empty() {
            return Dy::zero();
        }
        Dy { neg: self.neg != o.neg, mag: mmul(&self.mag, &o.mag), exp: self.exp + o.exp }
    }
}
macro_rules! own_ops {
    ($tr:ident, $f:ident) => {
        impl $tr<Dy> for Dy {
            type Output = Dy;
            fn $f(self, o: Dy) -> Dy {
                (&self).$f(&o)
            }
        }
        impl<'a> $tr<&'a Dy> for Dy {
            type Output = Dy;
            fn $f(self, o: &Dy) -> Dy {
                (&self).$f(o)
            }
        }
        impl<'a> $tr<Dy> for &'a Dy {
            type Output = Dy;
            fn $f(self, o: Dy) -> Dy {
                self.$f(&o)
            }
        }
    };
}
own_ops!(Add, add);
own_ops!(Sub, sub);
own_ops!(Mul, mul);

/// Quotient of dyadics, den > 0.
#[derive(Clone, Debug)]
pub struct Rt {
    pub n: Dy,
    pub d: Dy,
}
impl Rt {
    pub fn new(n: Dy, d: Dy) -> Rt {
        assert!(d.sign() != 0);
        if d.sign() < 0 {
            Rt { n: -&n, d: -&d }
        } else {
            Rt { n, d }
        }
    }
    pub fn dy(n: Dy) -> Rt {
        Rt { n, d: Dy::int(1) }
    }
    pub fn f(x: f64) -> Rt {
        Rt::dy(Dy::f(x))
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
    pub fn cmp(&self, o: &Rt) -> Ordering {
        (&self.n * &o.d).cmp(&(&o.n * &self.d))
    }
    pub fn le(&self, o: &Rt) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn lt(&self, o: &Rt) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn add(&self, o: &Rt) -> Rt {
        Rt { n: &(&self.n * &o.d) + &(&o.n * &self.d), d: &self.d * &o.d }
    }
    pub fn sub(&self, o: &Rt) -> Rt {
        Rt { n: &(&self.n * &o.d) - &(&o.n * &self.d), d: &self.d * &o.d }
    }
    pub fn mul(&self, o: &Rt) -> Rt {
        Rt { n: &self.n * &o.n, d: &self.d * &o.d }
    }
    pub fn div(&self, o: &Rt) -> Rt {
        Rt::new(&self.n * &o.d, &self.d * &o.n)
    }
    pub fn abs(&self) -> Rt {
        Rt { n: self.n.abs(), d: self.d.clone() }
    }
    pub fn sq(&self) -> Rt {
        self.mul(self)
    }
    pub fn min(&self, o: &Rt) -> Rt {
        if self.le(o) { self.clone() } else { o.clone() }
    }
    pub fn max(&self, o: &Rt) -> Rt {
        if self.le(o) { o.clone() } else { self.clone() }
    }
    /// |x - self| <= tol (x, tol finite)
    pub fn near(&self, x: f64, tol: f64) -> bool {
        if !x.is_finite() {
            return false;
        }
        self.sub(&Rt::f(x)).abs().le(&Rt::f(tol))
    }
    /// approximate value (for messages / choosing tolerances)
    pub fn approx(&self) -> f64 {
        if self.n.is_zero() {
            return 0.0;
        }
        // scale both into range first
        let kn = self.n.top();
        let kd = self.d.top();
        let a = self.n.scale2(-kn).to_f64();
        let b = self.d.scale2(-kd).to_f64();
        let mut v = a / b;
        let mut e = kn - kd;
        while e > 0 && v.is_finite() {
            let s = e.min(1000);
            v *= 2f64.powi(s as i32);
            e -= s;
        }
        while e < 0 && v != 0.0 {
            let s = (-e).min(1000);
            v /= 2f64.powi(s as i32);
            e += s;
        }
        v
    }
}

/// | x - sqrt(q) | <= tol, decided exactly (q >= 0)
pub fn near_sqrt(x: f64, q: &Rt, tol: f64) -> bool {
    if !x.is_finite() || x < -tol {
        return false;
    }
    let lo = Rt::f(x).sub(&Rt::f(tol));
    let hi = Rt::f(x).add(&Rt::f(tol));
    if lo.sign() > 0 && q.lt(&lo.sq()) {
        return false;
    }
    q.le(&hi.sq())
}

/// exact sign of the orientation determinant (b-a) x (c-a)
pub fn orient(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> i32 {
    orient_det(ax, ay, bx, by, cx, cy).sign()
}
pub fn orient_det(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> Dy {
    let (ax, ay) = (Dy::f(ax), Dy::f(ay));
    let l = &(&Dy::f(bx) - &ax) * &(&Dy::f(cy) - &ay);
    let r = &(&Dy::f(by) - &ay) * &(&Dy::f(cx) - &ax);
    &l - &r
}

/// ulp of x (distance to the next larger magnitude)
pub fn ulp(x: f64) -> f64 {
    let a = x.abs();
    if a == 0.0 || !a.is_finite() {
        return f64::MIN_POSITIVE;
    }
    f64::from_bits(a.to_bits() + 1) - a
}
pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        let a = Dy::f(0.1);
        let b = Dy::f(0.2);
        assert!((&a + &b).lt(&Dy::f(0.1 + 0.2)));
        assert_eq!((&a + &b).round_f64(), 0.1 + 0.2);
        assert_eq!((&a * &b).round_f64(), 0.1 * 0.2);
        assert_eq!((&a - &b).to_f64(), -0.1);
        assert!(Dy::f(-2.5).floor().eq(&Dy::int(-3)));
        assert!(Dy::f(2.5).ceil().eq(&Dy::int(3)));
        assert!(Dy::f(0.25).floor().eq(&Dy::int(0)));
        assert!(Dy::f(-0.25).ceil().eq(&Dy::int(0)));
        assert!(Dy::i128(-(1i128 << 100)).eq(&-&Dy::pow2(100)));
        assert!(near_sqrt(2f64.sqrt(), &Rt::dy(Dy::int(2)), 1e-15));
        assert!(!near_sqrt(2f64.sqrt() + 1e-9, &Rt::dy(Dy::int(2)), 1e-15));
        let mut s = 12345u64;
        for _ in 0..100000 {
            let mut r = || {
                let z = crate::splitmix(&mut s);
                let e = (z >> 52) % 80 + 1000;
                f64::from_bits((z & 0x800fffffffffffff) | (e << 52))
            };
            let (x, y) = (r(), r());
            let (dx, dy) = (Dy::f(x), Dy::f(y));
            assert_eq!((&dx + &dy).round_f64(), x + y);
            assert_eq!((&dx - &dy).round_f64(), x - y);
            assert_eq!((&dx * &dy).round_f64(), x * y);
            assert_eq!(dx.floor().round_f64(), x.floor());
            assert_eq!(dx.ceil().round_f64(), x.ceil());
            assert_eq!(dx.to_f64(), x);
            assert_eq!(dx.cmp(&dy), x.partial_cmp(&y).unwrap());
        }
    }
}
