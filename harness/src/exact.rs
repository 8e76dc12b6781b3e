//! Exact dyadic arithmetic (sign, magnitude, binary exponent): the oracle's number type.
//! Shares no code with the library under test.
use std::cmp::Ordering;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Debug)]
pub struct Dy {
    neg: bool,
    /// little endian, no leading zero limb; empty means 0
    mag: Vec<u64>,
    exp: i64,
}

fn trim(v: &mut Vec<u64>) {
    while let Some(&0) = v.last() {
        v.pop();
    }
}

fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + if i < b.len() { b[i] as u128 } else { 0 } + c;
        r.push(s as u64);
        c = s >> 64;
    }
    if c > 0 {
        r.push(c as u64);
    }
    r
}

/// a >= b
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut borrow = 0u64;
    for i in 0..a.len() {
        let bi = if i < b.len() { b[i] } else { 0 };
        let (x, o1) = a[i].overflowing_sub(bi);
        let (y, o2) = x.overflowing_sub(borrow);
        borrow = (o1 || o2) as u64;
        r.push(y);
    }
    assert_eq!(borrow, 0);
    trim(&mut r);
    r
}

fn shl_mag(a: &[u64], s: u64) -> Vec<u64> {
    if a.is_empty() {
        return vec![];
    }
    let limbs = (s / 64) as usize;
    let bits = (s % 64) as u32;
    let mut r = vec![0u64; limbs];
    if bits == 0 {
        r.extend_from_slice(a);
    } else {
        let mut c = 0u64;
        for &x in a {
            r.push((x << bits) | c);
            c = x >> (64 - bits);
        }
        if c > 0 {
            r.push(c);
        }
    }
    r
}

impl Dy {
    pub fn zero() -> Self {
        Dy { neg: false, mag: vec![], exp: 0 }
    }
    pub fn int(v: i64) -> Self {
        let mut d = Dy { neg: v < 0, mag: vec![v.unsigned_abs()], exp: 0 };
        trim(&mut d.mag);
        d
    }
    pub fn f(x: f64) -> Self {
        assert!(x.is_finite(), "oracle fed a non finite number");
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i64;
        let m = bits & ((1u64 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        if m == 0 {
            return Dy::zero();
        }
        let t = m.trailing_zeros();
        Dy { neg: bits >> 63 == 1, mag: vec![m >> t], exp: e + t as i64 }
    }
    pub fn sign(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn abs(&self) -> Dy {
        Dy { neg: false, ..self.clone() }
    }
    /// strip whole zero limbs so that magnitudes do not grow with exponent differences only
    fn norm(mut self) -> Self {
        trim(&mut self.mag);
        if self.mag.is_empty() {
            self.neg = false;
            self.exp = 0;
            return self;
        }
        let z = self.mag.iter().take_while(|x| **x == 0).count();
        if z > 0 {
            self.mag.drain(0..z);
            self.exp += 64 * z as i64;
        }
        self
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        (self - o).sign().cmp(&0)
    }
    pub fn eq(&self, o: &Dy) -> bool {
        (self - o).sign() == 0
    }
    /// approximate value (truncated, relative error < 2^-50), saturating; for reports and coarse tolerances
    pub fn approx(&self) -> f64 {
        if self.mag.is_empty() {
            return 0.0;
        }
        let n = self.mag.len();
        let mut v = 0.0f64;
        let k = n.min(3);
        for i in 0..k {
            v = v * 18446744073709551616.0 + self.mag[n - 1 - i] as f64;
        }
        let e = self.exp + 64 * (n - k) as i64;
        let mut e = e;
        while e > 500 {
            v *= 2f64.powi(500);
            e -= 500;
            if v.is_infinite() {
                break;
            }
        }
        while e < -500 {
            v *= 2f64.powi(-500);
            e += 500;
            if v == 0.0 {
                break;
            }
        }
        v *= 2f64.powi(e.clamp(-1000, 1000) as i32);
        if self.neg {
            -v
        } else {
            v
        }
    }
    /// bit length position: value in [2^(k-1), 2^k)
    pub fn log2_ceil(&self) -> i64 {
        let n = self.mag.len();
        self.exp + 64 * n as i64 - self.mag[n - 1].leading_zeros() as i64
    }
    pub fn add_ref(&self, o: &Dy, flip: bool) -> Dy {
        if o.mag.is_empty() {
            return self.clone();
        }
        let oneg = o.neg != flip;
        if self.mag.is_empty() {
            return Dy { neg: oneg, mag: o.mag.clone(), exp: o.exp };
        }
        let e = self.exp.min(o.exp);
        let ta;
        let tb;
        let a: &[u64] = if self.exp > e {
            ta = shl_mag(&self.mag, (self.exp - e) as u64);
            &ta
        } else {
            &self.mag
        };
        let b: &[u64] = if o.exp > e {
            tb = shl_mag(&o.mag, (o.exp - e) as u64);
            &tb
        } else {
            &o.mag
        };
        if self.neg == oneg {
            Dy { neg: self.neg, mag: add_mag(a, b), exp: e }.norm()
        } else {
            match cmp_mag(a, b) {
                Ordering::Equal => Dy::zero(),
                Ordering::Greater => Dy { neg: self.neg, mag: sub_mag(a, b), exp: e }.norm(),
                Ordering::Less => Dy { neg: oneg, mag: sub_mag(b, a), exp: e }.norm(),
            }
        }
    }
    pub fn mul_ref(&self, o: &Dy) -> Dy {
        if self.mag.is_empty() || o.mag.is_empty() {
            return Dy::zero();
        }
        let (a, b) = (&self.mag, &o.mag);
        let mut r = vec![0u64; a.len() + b.len()];
        for i in 0..a.len() {
            let mut c = 0u128;
            let ai = a[i] as u128;
            for j in 0..b.len() {
                let t = ai * b[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + b.len()] = c as u64;
        }
        Dy { neg: self.neg != o.neg, mag: r, exp: self.exp + o.exp }.norm()
    }
    pub fn sum_f64(v: &[f64]) -> Dy {
        let mut r = Dy::zero();
        for x in v {
            r = &r + &Dy::f(*x);
        }
        r
    }
}

macro_rules! ops {
    ($tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl $tr<&Dy> for &Dy {
            type Output = Dy;
            fn $f(self, o: &Dy) -> Dy {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl $tr<Dy> for &Dy {
            type Output = Dy;
            fn $f(self, o: Dy) -> Dy {
                let ($a, $b) = (self, &o);
                $e
            }
        }
        impl $tr<&Dy> for Dy {
            type Output = Dy;
            fn $f(self, o: &Dy) -> Dy {
                let ($a, $b) = (&self, o);
                $e
            }
        }
        impl $tr<Dy> for Dy {
            type Output = Dy;
            fn $f(self, o: Dy) -> Dy {
                let ($a, $b) = (&self, &o);
                $e
            }
        }
    };
}
ops!(Add, add, |a, b| a.add_ref(b, false));
ops!(Sub, sub, |a, b| a.add_ref(b, true));
ops!(Mul, mul, |a, b| a.mul_ref(b));
impl Neg for Dy {
    type Output = Dy;
    fn neg(mut self) -> Dy {
        if !self.mag.is_empty() {
            self.neg = !self.neg;
        }
        self
    }
}
impl Neg for &Dy {
    type Output = Dy;
    fn neg(self) -> Dy {
        -(self.clone())
    }
}

pub fn det2(a: &Dy, b: &Dy, c: &Dy, d: &Dy) -> Dy {
    a * d - b * c
}
pub fn det3(m: &[[Dy; 3]; 3]) -> Dy {
    &m[0][0] * det2(&m[1][1], &m[1][2], &m[2][1], &m[2][2])
        - &m[0][1] * det2(&m[1][0], &m[1][2], &m[2][0], &m[2][2])
        + &m[0][2] * det2(&m[1][0], &m[1][1], &m[2][0], &m[2][1])
}
pub fn det4(m: &[[Dy; 4]; 4]) -> Dy {
    let mut r = Dy::zero();
    for k in 0..4 {
        let c: Vec<usize> = (0..4).filter(|j| *j != k).collect();
        let sub = [
            [m[1][c[0]].clone(), m[1][c[1]].clone(), m[1][c[2]].clone()],
            [m[2][c[0]].clone(), m[2][c[1]].clone(), m[2][c[2]].clone()],
            [m[3][c[0]].clone(), m[3][c[1]].clone(), m[3][c[2]].clone()],
        ];
        let t = &m[0][k] * det3(&sub);
        r = if k % 2 == 0 { r + t } else { r - t };
    }
    r
}

/// exact homogeneous point, w != 0 when valid
#[derive(Clone, Debug)]
pub struct HP {
    pub c: [Dy; 3],
    pub w: Dy,
}

pub type P3 = [f64; 3];

impl HP {
    pub fn new(p: &[f64]) -> HP {
        HP { c: [Dy::f(p[0]), Dy::f(p[1]), Dy::f(p[2])], w: Dy::int(1) }
    }
    /// sign-normalised so that w > 0
    pub fn pos(mut self) -> HP {
        if self.w.sign() < 0 {
            for c in &mut self.c {
                *c = -(&*c);
            }
            self.w = -self.w;
        }
        self
    }
    pub fn approx(&self) -> P3 {
        // scale by common power to avoid saturation
        let k = if self.w.is_zero() { 0 } else { self.w.log2_ceil() };
        let s = |d: &Dy| {
            let mut d = d.clone();
            if !d.is_zero() {
                d.exp -= k;
            }
            d.approx()
        };
        let w = s(&self.w);
        [s(&self.c[0]) / w, s(&self.c[1]) / w, s(&self.c[2]) / w]
    }
}

pub fn v3(a: &P3) -> [Dy; 3] {
    [Dy::f(a[0]), Dy::f(a[1]), Dy::f(a[2])]
}
pub fn vsub(a: &[Dy; 3], b: &[Dy; 3]) -> [Dy; 3] {
    [&a[0] - &b[0], &a[1] - &b[1], &a[2] - &b[2]]
}
pub fn vcross(a: &[Dy; 3], b: &[Dy; 3]) -> [Dy; 3] {
    [
        det2(&a[1], &a[2], &b[1], &b[2]),
        det2(&a[2], &a[0], &b[2], &b[0]),
        det2(&a[0], &a[1], &b[0], &b[1]),
    ]
}
pub fn vdot(a: &[Dy; 3], b: &[Dy; 3]) -> Dy {
    &a[0] * &b[0] + &a[1] * &b[1] + &a[2] * &b[2]
}

/// plane through three points: n.x = k ; n may be zero when degenerate
pub fn plane(a: &P3, b: &P3, c: &P3) -> ([Dy; 3], Dy) {
    let (a, b, c) = (v3(a), v3(b), v3(c));
    let n = vcross(&vsub(&b, &a), &vsub(&c, &a));
    let k = vdot(&n, &a);
    (n, k)
}

/// intersection of line pq with plane rst, homogeneous; w == 0 when undefined
pub fn lpi(p: &P3, q: &P3, r: &P3, s: &P3, t: &P3) -> HP {
    let (n, k) = plane(r, s, t);
    let (dp, dq) = (v3(p), v3(q));
    let d = vsub(&dq, &dp);
    // p + u d, n.(p + u d) = k  => u = (k - n.p) / n.d
    let w = vdot(&n, &d);
    let num = k - vdot(&n, &dp);
    HP {
        c: [
            &dp[0] * &w + &num * &d[0],
            &dp[1] * &w + &num * &d[1],
            &dp[2] * &w + &num * &d[2],
        ],
        w,
    }
    .pos()
}

/// intersection of three planes by Cramer's rule
pub fn tpi(t: &[[P3; 3]; 3]) -> HP {
    let pl: Vec<_> = t.iter().map(|t| plane(&t[0], &t[1], &t[2])).collect();
    let m = |j: Option<usize>| {
        let row = |i: usize| {
            let mut r = pl[i].0.clone();
            if let Some(j) = j {
                r[j] = pl[i].1.clone();
            }
            r
        };
        det3(&[row(0), row(1), row(2)])
    };
    HP { c: [m(Some(0)), m(Some(1)), m(Some(2))], w: m(None) }.pos()
}

/// sign of orient2d over coordinates (i, j): positive if a, b, c turn counter-clockwise in the (i, j) plane
pub fn hp_orient2d(a: &HP, b: &HP, c: &HP, i: usize, j: usize) -> i32 {
    let row = |p: &HP| [p.c[i].clone(), p.c[j].clone(), p.w.clone()];
    // valid because every w > 0
    debug_assert!(a.w.sign() > 0 && b.w.sign() > 0 && c.w.sign() > 0);
    det3(&[row(a), row(b), row(c)]).sign()
}

/// sign of det(b-a, c-a, d-a)
pub fn hp_orient3d(a: &HP, b: &HP, c: &HP, d: &HP) -> i32 {
    let row = |p: &HP| [p.w.clone(), p.c[0].clone(), p.c[1].clone(), p.c[2].clone()];
    det4(&[row(a), row(b), row(c), row(d)]).sign()
}

pub fn hp_cmp(a: &HP, b: &HP, axis: usize) -> i32 {
    (&a.c[axis] * &b.w - &b.c[axis] * &a.w).sign()
}
pub fn hp_eq(a: &HP, b: &HP) -> bool {
    (0..3).all(|i| hp_cmp(a, b, i) == 0)
}

pub fn o2(a: &[f64], b: &[f64], c: &[f64]) -> i32 {
    orient2d(a, b, c).sign()
}
pub fn orient2d(a: &[f64], b: &[f64], c: &[f64]) -> Dy {
    let (ax, ay) = (Dy::f(a[0]), Dy::f(a[1]));
    let (bx, by) = (Dy::f(b[0]), Dy::f(b[1]));
    let (cx, cy) = (Dy::f(c[0]), Dy::f(c[1]));
    det2(&(bx - &ax), &(by - &ay), &(cx - &ax), &(cy - &ay))
}
/// det(b-a, c-a, d-a): six times the signed volume
pub fn orient3d(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> Dy {
    let f = |p: &[f64]| [Dy::f(p[0]), Dy::f(p[1]), Dy::f(p[2])];
    let a = f(a);
    det3(&[vsub(&f(b), &a), vsub(&f(c), &a), vsub(&f(d), &a)])
}
/// Shewchuk's convention: positive if d is inside the circle through a, b, c (ccw)
pub fn incircle(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> Dy {
    let f = |p: &[f64]| {
        let x = Dy::f(p[0]) - Dy::f(d[0]);
        let y = Dy::f(p[1]) - Dy::f(d[1]);
        let l = &x * &x + &y * &y;
        [x, y, l]
    };
    det3(&[f(a), f(b), f(c)])
}
/// det of rows (p - e, |p - e|^2)
pub fn insphere(a: &[f64], b: &[f64], c: &[f64], d: &[f64], e: &[f64]) -> Dy {
    let f = |p: &[f64]| {
        let x = Dy::f(p[0]) - Dy::f(e[0]);
        let y = Dy::f(p[1]) - Dy::f(e[1]);
        let z = Dy::f(p[2]) - Dy::f(e[2]);
        let l = &x * &x + &y * &y + &z * &z;
        [x, y, z, l]
    };
    det4(&[f(a), f(b), f(c), f(d)])
}

/// self check of the oracle against 128-bit integers and algebraic identities
pub fn self_test() {
    let mut s = 0x1234_5678_9abc_def1u64;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    for _ in 0..20000 {
        let a = (next() as i64) >> (next() % 60);
        let b = (next() as i64) >> (next() % 60);
        let (x, y) = (Dy::int(a), Dy::int(b));
        let m = (a as i128) * (b as i128);
        let p = &x * &y;
        assert_eq!(p.sign(), m.signum() as i32);
        let hi = Dy::int((m >> 64) as i64) * Dy::f(18446744073709551616.0);
        let lo = Dy::int(((m as u64) >> 32) as i64) * Dy::f(4294967296.0)
            + Dy::int((m as u64 & 0xffff_ffff) as i64);
        assert!(p.eq(&(hi + lo)));
        assert_eq!((&x + &y).sign(), (a as i128 + b as i128).signum() as i32);
        assert_eq!((&x - &y).sign(), (a as i128 - b as i128).signum() as i32);
        let z = Dy::f(f64::from_bits(next() & !(0x7ffu64 << 52) | ((1023 - 40 + next() % 80) << 52)));
        assert!(((&x + &y) * &z).eq(&(&x * &z + &y * &z)));
        assert!((&z - &z).is_zero());
    }
    assert_eq!(orient2d(&[0., 0.], &[1., 0.], &[0., 1.]).sign(), 1);
    assert_eq!(incircle(&[1., 0.], &[0., 1.], &[-1., 0.], &[0., 0.]).sign(), 1);
    assert_eq!(incircle(&[1., 0.], &[0., 1.], &[-1., 0.], &[0., -1.]).sign(), 0);
}
