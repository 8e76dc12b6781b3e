//! Exact signs with a floating-point shortcut: the double evaluation is trusted only when it is
//! far above a generous error bound, otherwise the big-integer evaluation decides.
use crate::exact;

fn sg(x: f64) -> i32 {
    (x > 0.0) as i32 - (x < 0.0) as i32
}
fn trust(d: f64, perm: f64) -> bool {
    d.is_finite() && perm < 1e280 && perm > 1e-200 && d.abs() > perm * 1e-13
}

pub fn o2(a: &[f64], b: &[f64], c: &[f64]) -> i32 {
    let (x1, y1, x2, y2) = (b[0] - a[0], b[1] - a[1], c[0] - a[0], c[1] - a[1]);
    let (l, r) = (x1 * y2, x2 * y1);
    if trust(l - r, l.abs() + r.abs()) {
        return sg(l - r);
    }
    exact::orient2d(a, b, c).sign()
}

/// positive if d lies on the side of (a,b,c) from which they look counterclockwise... sign of det(b-a,c-a,d-a)
pub fn o3(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let v = |p: &[f64]| [p[0] - a[0], p[1] - a[1], p[2] - a[2]];
    let (u, v, w) = (v(b), v(c), v(d));
    let t = |i: usize, j: usize, k: usize| u[i] * (v[j] * w[k]);
    let pos = [t(0, 1, 2), t(1, 2, 0), t(2, 0, 1)];
    let neg = [t(0, 2, 1), t(1, 0, 2), t(2, 1, 0)];
    let d0 = pos[0] + pos[1] + pos[2] - (neg[0] + neg[1] + neg[2]);
    let p0: f64 = pos.iter().chain(&neg).map(|x| x.abs()).sum();
    if trust(d0, p0) {
        return sg(d0);
    }
    exact::orient3d(a, b, c, d).sign()
}

/// positive if d is inside the circle through the counterclockwise a, b, c
pub fn incircle(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let f = |p: &[f64]| {
        let (x, y) = (p[0] - d[0], p[1] - d[1]);
        [x, y, x * x + y * y]
    };
    let (a1, b1, c1) = (f(a), f(b), f(c));
    let (mut s, mut p) = (0.0, 0.0);
    for (u, v, w) in [(&a1, &b1, &c1), (&b1, &c1, &a1), (&c1, &a1, &b1)] {
        let (l, r) = (v[0] * w[1], v[1] * w[0]);
        s += u[2] * (l - r);
        p += u[2] * (l.abs() + r.abs());
    }
    if trust(s, p) {
        return sg(s);
    }
    exact::incircle(a, b, c, d).sign()
}

/// sign of the determinant of the rows (p - e, |p - e|^2)
pub fn insphere(a: &[f64], b: &[f64], c: &[f64], d: &[f64], e: &[f64]) -> i32 {
    let f = |p: &[f64]| {
        let (x, y, z) = (p[0] - e[0], p[1] - e[1], p[2] - e[2]);
        [x, y, z, x * x + y * y + z * z]
    };
    let m = [f(a), f(b), f(c), f(d)];
    let (mut s, mut p) = (0.0, 0.0);
    for i in 0..4 {
        let o: Vec<usize> = (0..4).filter(|j| *j != i).collect();
        let (u, v, w) = (&m[o[0]], &m[o[1]], &m[o[2]]);
        let mut t = 0.0;
        let mut q = 0.0;
        for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1)] {
            let (l, r) = (v[j] * w[k], v[k] * w[j]);
            t += u[i] * (l - r);
            q += u[i].abs() * (l.abs() + r.abs());
        }
        // cofactor of the last column in row i
        let sign = if (i + 3) % 2 == 0 { 1.0 } else { -1.0 };
        s += sign * m[i][3] * t;
        p += m[i][3] * q;
    }
    if trust(s, p) {
        return sg(s);
    }
    exact::insphere(a, b, c, d, e).sign()
}

pub fn self_test() {
    let mut r = crate::rng::Rng::new(&[77]);
    for k in 0..3000 {
        let m = if k % 2 == 0 { crate::gen::Mode::Full } else { crate::gen::Mode::Grid(3) };
        let p: Vec<[f64; 3]> = (0..5).map(|_| crate::gen::p3(&mut r, m)).collect();
        assert_eq!(o2(&p[0], &p[1], &p[2]), exact::orient2d(&p[0], &p[1], &p[2]).sign());
        assert_eq!(o3(&p[0], &p[1], &p[2], &p[3]), exact::orient3d(&p[0], &p[1], &p[2], &p[3]).sign());
        assert_eq!(incircle(&p[0], &p[1], &p[2], &p[3]), exact::incircle(&p[0], &p[1], &p[2], &p[3]).sign());
        assert_eq!(insphere(&p[0], &p[1], &p[2], &p[3], &p[4]), exact::insphere(&p[0], &p[1], &p[2], &p[3], &p[4]).sign());
    }
}
