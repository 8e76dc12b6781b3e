//! Exact elementary geometry on doubles (the oracle side; independent of the library's formulation).
use crate::exact::*;
use std::cmp::Ordering;

pub type V = [Dy; 3];

pub fn v(p: &[f64]) -> V {
    [Dy::f(p[0]), Dy::f(p[1]), Dy::f(p[2])]
}
pub fn is0(a: &V) -> bool {
    a.iter().all(|x| x.is_zero())
}
fn lt(a: &Dy, b: &Dy) -> bool {
    a.cmp(b) == Ordering::Less
}

pub fn collinear(p: &[f64], q: &[f64], r: &[f64]) -> bool {
    is0(&vcross(&vsub(&v(q), &v(p)), &vsub(&v(r), &v(p))))
}
pub fn normal(a: &[f64], b: &[f64], c: &[f64]) -> V {
    vcross(&vsub(&v(b), &v(a)), &vsub(&v(c), &v(a)))
}

/// p strictly between a and b on their line
pub fn in_open_segment(p: &[f64], a: &[f64], b: &[f64]) -> bool {
    let d = vsub(&v(b), &v(a));
    let e = vsub(&v(p), &v(a));
    if is0(&d) || !is0(&vcross(&d, &e)) {
        return false;
    }
    let t = vdot(&d, &e);
    t.sign() > 0 && lt(&t, &vdot(&d, &d))
}

/// the open segments meet in exactly one point, neither an end of the other, not parallel
pub fn open_segments_cross(u1: &[f64], u2: &[f64], w1: &[f64], w2: &[f64]) -> bool {
    let d1 = vsub(&v(u2), &v(u1));
    let d2 = vsub(&v(w2), &v(w1));
    let n = vcross(&d1, &d2);
    if is0(&n) {
        return false;
    }
    let o = vsub(&v(w1), &v(u1));
    if !vdot(&o, &n).is_zero() {
        return false;
    }
    let nn = vdot(&n, &n);
    let t = vdot(&vcross(&o, &d2), &n);
    let s = vdot(&vcross(&o, &d1), &n);
    t.sign() > 0 && lt(&t, &nn) && s.sign() > 0 && lt(&s, &nn)
}

/// barycentric signs of p (in the plane of a non-degenerate triangle) with respect to its three sides
pub fn bary(p: &V, pw: &Dy, a: &[f64], b: &[f64], c: &[f64]) -> [i32; 3] {
    let n = normal(a, b, c);
    let side = |x: &[f64], y: &[f64]| {
        // cross(y - x, p/pw - x) . n, times pw > 0
        let e = vsub(&v(y), &v(x));
        let xx = v(x);
        let q = [&p[0] - &xx[0] * pw, &p[1] - &xx[1] * pw, &p[2] - &xx[2] * pw];
        vdot(&vcross(&e, &q), &n).sign()
    };
    [side(a, b), side(b, c), side(c, a)]
}

/// coplanar p in the open triangle
pub fn in_open_triangle(p: &[f64], a: &[f64], b: &[f64], c: &[f64]) -> bool {
    bary(&v(p), &Dy::int(1), a, b, c).iter().all(|s| *s > 0)
}
pub fn in_closed_triangle(p: &[f64], a: &[f64], b: &[f64], c: &[f64]) -> bool {
    bary(&v(p), &Dy::int(1), a, b, c).iter().all(|s| *s >= 0)
}

/// the open segment passes transversally through the open triangle
pub fn crosses_open_triangle(u1: &[f64], u2: &[f64], a: &[f64], b: &[f64], c: &[f64]) -> bool {
    let n = normal(a, b, c);
    if is0(&n) {
        return false;
    }
    let h1 = vdot(&vsub(&v(u1), &v(a)), &n);
    let h2 = vdot(&vsub(&v(u2), &v(a)), &n);
    if h1.sign() * h2.sign() >= 0 {
        return false;
    }
    // u1 + t (u2 - u1), t = h1 / (h1 - h2)
    let w = &h1 - &h2;
    let (x, y) = (v(u1), v(u2));
    let mut p: V = [
        &y[0] * &h1 - &x[0] * &h2,
        &y[1] * &h1 - &x[1] * &h2,
        &y[2] * &h1 - &x[2] * &h2,
    ];
    let mut w = w;
    if w.sign() < 0 {
        p = [-(&p[0]), -(&p[1]), -(&p[2])];
        w = -w;
    }
    bary(&p, &w, a, b, c).iter().all(|s| *s > 0)
}

/// which side of line a-b (within the plane they span with p and q) : same sign class
pub fn same_side(p: &[f64], q: &[f64], a: &[f64], b: &[f64]) -> bool {
    let d = vsub(&v(b), &v(a));
    let cp = vcross(&d, &vsub(&v(p), &v(a)));
    let cq = vcross(&d, &vsub(&v(q), &v(a)));
    match (is0(&cp), is0(&cq)) {
        (true, true) => true,
        (false, false) => vdot(&cp, &cq).sign() > 0,
        _ => false,
    }
}
