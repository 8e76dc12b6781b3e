//! P01/P02: the floating point predicates return the exact sign.
use crate::ctx::*;
use crate::exact::{self, Dy, P3};
use crate::gen::*;
use crate::rng::*;
use bumpalo::Bump;
use gpf::predicates as g;
use std::alloc::Global;

fn sgn(x: f64) -> i32 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else {
        0
    }
}

/// how hard the case was: log2(|det| / magnitude of the products that cancel)
fn bucket(ctx: &mut Ctx, what: &str, det: &Dy, scale: &Dy) {
    let k = if det.is_zero() {
        "zero".to_string()
    } else if scale.is_zero() {
        "scale0".into()
    } else {
        let d = det.log2_ceil() - scale.log2_ceil();
        match d {
            i64::MIN..=-150 => "cancel>150bits",
            -149..=-101 => "cancel101-149bits",
            -100..=-61 => "cancel61-100bits",
            -60..=-45 => "cancel45-60bits",
            -44..=-10 => "cancel10-44bits",
            _ => "easy",
        }
        .into()
    };
    ctx.count(&format!("{what}:{k}"));
}

fn maxdiff(ps: &[&[f64]], dims: usize) -> Dy {
    let mut m = Dy::zero();
    for i in 1..ps.len() {
        for k in 0..dims {
            let d = (Dy::f(ps[i][k]) - Dy::f(ps[0][k])).abs();
            if d.cmp(&m) == std::cmp::Ordering::Greater {
                m = d;
            }
        }
    }
    m
}
fn powr(d: &Dy, n: usize) -> Dy {
    let mut r = Dy::int(1);
    for _ in 0..n {
        r = r * d;
    }
    r
}

/// points a, b, and a third one (nearly) on their line
fn near_line(r: &mut Rng, m: Mode, dims: usize) -> Vec<Vec<f64>> {
    let a: Vec<f64> = (0..dims).map(|_| coord(r, m)).collect();
    let b: Vec<f64> = (0..dims).map(|_| coord(r, m)).collect();
    let t = match r.below(5) {
        0 => r.range(-4, 4) as f64,
        1 => 0.5,
        2 => 0.25 * r.range(-7, 9) as f64,
        3 => r.sym() * 3.0,
        _ => 2f64.powi(r.range(-20, 10) as i32),
    };
    let mut c: Vec<f64> = (0..dims).map(|i| a[i] + t * (b[i] - a[i])).collect();
    let k = *r.pick(&[0, 0, 1, 1, 2, 5, 100]);
    ulp_all(r, &mut c, k);
    let mut v = vec![a, b, c];
    if r.chance(1, 4) {
        let i = r.below(3);
        let k = r.range(1, 4);
        ulp_all(r, &mut v[i], k);
    }
    r.shuffle(&mut v);
    v
}

/// coordinates of wildly different exponents, so that differences are inexact and every tail is live
fn wild(r: &mut Rng, e: i32) -> f64 {
    let v = match r.below(4) {
        0 => coord(r, Mode::Mixed(52, e)),
        1 => coord(r, Mode::Mixed(30, 3)),
        2 => coord(r, Mode::Full),
        _ => coord(r, Mode::Mixed(3, e)),
    };
    if r.chance(1, 12) {
        0.0
    } else {
        v
    }
}

/// n points exactly on a line / plane through arbitrary wild coordinates: one coordinate is an exact
/// (power of two, sign) multiple of another one
fn exact_flat(r: &mut Rng, n: usize, dims: usize, e: i32) -> Vec<Vec<f64>> {
    let i = r.below(dims);
    let j = (i + 1 + r.below(dims - 1)) % dims;
    let k = *r.pick(&[1.0, -1.0, 2.0, 0.5, -4.0, 0.0]);
    let c = *r.pick(&[0.0, 0.0, 1.0]);
    let mut v: Vec<Vec<f64>> = (0..n)
        .map(|_| {
            let mut p: Vec<f64> = (0..dims).map(|_| wild(r, e)).collect();
            p[j] = if k == 0.0 { c } else { k * p[i] };
            p
        })
        .collect();
    if r.chance(1, 6) {
        let a = r.below(n);
        let b = r.below(n);
        v[a] = v[b].clone();
    }
    near(r, &mut v);
    v
}

/// leave the configuration exact half of the time, otherwise move one or all coordinates by a few ulps
fn near(r: &mut Rng, v: &mut [Vec<f64>]) {
    match r.below(4) {
        0 | 1 => {}
        2 => {
            let i = r.below(v.len());
            let j = r.below(v[0].len());
            v[i][j] = ulp(r, v[i][j], 2);
        }
        _ => {
            for p in v.iter_mut() {
                ulp_all(r, p, 1);
            }
        }
    }
}

fn orient2d_cases(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..200 {
        let m = any_mode(r);
        let v: Vec<Vec<f64>> = match r.below(6) {
            4 | 5 => exact_flat(r, 3, 2, 100),
            0 => (0..3).map(|_| vec![coord(r, m), coord(r, m)]).collect(),
            1 => {
                // Shewchuk's grid: points around a common diagonal, a few ulps apart
                let mut v = vec![vec![0.5, 0.5], vec![12.0, 12.0], vec![24.0, 24.0]];
                for p in &mut v {
                    ulp_all(r, p, 40);
                }
                r.shuffle(&mut v);
                v
            }
            _ => near_line(r, m, 2),
        };
        let e = exact::orient2d(&v[0], &v[1], &v[2]);
        let got = ctx.guard("orient2d", || format!("{v:?}"), || g::orient2d(&v[0], &v[1], &v[2], &bump));
        let d = maxdiff(&[&v[0], &v[1], &v[2]], 2);
        bucket(ctx, "orient2d", &e, &powr(&d, 2));
        ctx.eval(if d.is_zero() { None } else { Some(Fp::new().fs(&v[0]).fs(&v[1]).fs(&v[2]).0) });
        ctx.sample(|| format!("a={} b={} c={} sign={}", hex(&v[0]), hex(&v[1]), hex(&v[2]), e.sign()));
        if let Some(x) = got {
            ctx.check(sgn(x) == e.sign() && x.is_finite(), "orient2d-sign", || {
                format!("orient2d({},{},{}) returned {x:e}, exact sign {}", hex(&v[0]), hex(&v[1]), hex(&v[2]), e.sign())
            });
        }
    }
}

fn near_plane(r: &mut Rng, m: Mode) -> Vec<P3> {
    let a = p3(r, m);
    let mut b = p3(r, m);
    let mut c = p3(r, m);
    match r.below(6) {
        0 => {
            // axis aligned plane
            let k = r.below(3);
            b[k] = a[k];
            c[k] = a[k];
        }
        1 => {
            // collinear triangle
            let t = r.range(-3, 3) as f64 * 0.5;
            for i in 0..3 {
                c[i] = a[i] + t * (b[i] - a[i]);
            }
        }
        _ => {}
    }
    let (s, t) = match r.below(3) {
        0 => (r.range(-3, 3) as f64, r.range(-3, 3) as f64),
        1 => (r.range(-8, 8) as f64 * 0.125, r.range(-8, 8) as f64 * 0.125),
        _ => (r.sym() * 2.0, r.sym() * 2.0),
    };
    let mut d = [0.0; 3];
    for i in 0..3 {
        d[i] = a[i] + s * (b[i] - a[i]) + t * (c[i] - a[i]);
    }
    let k = *r.pick(&[0, 0, 1, 1, 3, 1000]);
    ulp_all(r, &mut d, k);
    let mut v = vec![a, b, c, d];
    if r.chance(1, 4) {
        let i = r.below(4);
        let k = r.range(1, 4);
        ulp_all(r, &mut v[i], k);
    }
    r.shuffle(&mut v);
    v
}

fn orient3d_cases(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..120 {
        let m = any_mode(r);
        let v: Vec<P3> = match r.below(7) {
            0 => (0..4).map(|_| p3(r, m)).collect(),
            1 | 2 | 3 => near_plane(r, m),
            _ => exact_flat(r, 4, 3, 80).iter().map(|p| [p[0], p[1], p[2]]).collect(),
        };
        // the library's convention: det(a-d, b-d, c-d)
        let e = -exact::orient3d(&v[0], &v[1], &v[2], &v[3]);
        let got = ctx.guard("orient3d", || format!("{v:?}"), || g::orient3d(&v[0], &v[1], &v[2], &v[3], &bump));
        let d = maxdiff(&[&v[0], &v[1], &v[2], &v[3]], 3);
        bucket(ctx, "orient3d", &e, &powr(&d, 3));
        ctx.eval(if d.is_zero() {
            None
        } else {
            Some(Fp::new().fs(&v[0]).fs(&v[1]).fs(&v[2]).fs(&v[3]).0)
        });
        ctx.sample(|| format!("{v:?} sign={}", e.sign()));
        if let Some(x) = got {
            ctx.check(sgn(x) == e.sign() && x.is_finite(), "orient3d-sign", || {
                format!("orient3d({v:?}) returned {x:e}, exact sign {}", e.sign())
            });
        }
    }
}

/// integer points on one circle / sphere, for exactly cospherical configurations
pub fn circle_points(r: &mut Rng) -> Vec<[i64; 2]> {
    let rr = *r.pick(&[25i64, 50, 65, 325, 1105, 5525, 27625]);
    let mut v = vec![];
    let k = (rr as f64).sqrt() as i64 + 1;
    for x in -k..=k {
        let y2 = rr - x * x;
        if y2 < 0 {
            continue;
        }
        let y = (y2 as f64).sqrt().round() as i64;
        if y * y == y2 {
            v.push([x, y]);
            if y != 0 {
                v.push([x, -y]);
            }
        }
    }
    v
}
pub fn sphere_points(r: &mut Rng) -> Vec<[i64; 3]> {
    let rr = *r.pick(&[3i64, 9, 14, 29, 41, 86, 101, 146, 3 * 49]);
    let mut v = vec![];
    let k = (rr as f64).sqrt() as i64 + 1;
    for x in -k..=k {
        for y in -k..=k {
            let z2 = rr - x * x - y * y;
            if z2 < 0 {
                continue;
            }
            let z = (z2 as f64).sqrt().round() as i64;
            if z * z == z2 {
                v.push([x, y, z]);
                if z != 0 {
                    v.push([x, y, -z]);
                }
            }
        }
    }
    v
}

fn transform(r: &mut Rng) -> (f64, f64) {
    (
        *r.pick(&[0.0, 0.0, 1.0, 1048576.0, 0.1, 1e10, -12345.678]),
        *r.pick(&[1.0, 1.0, 0.5, 0.1, 1024.0, 1e-5, 3.7]),
    )
}

fn incircle_cases(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..100 {
        let m = any_mode(r);
        let mut v: Vec<[f64; 2]> = match r.below(7) {
            4 => {
                let l = exact_flat(r, 4, 2, 40);
                l.iter().map(|p| [p[0], p[1]]).collect()
            }
            5 | 6 => {
                // isosceles trapezoid / rectangle / kite: exactly cocircular with arbitrary coordinates
                let (a, b, c, d) = (wild(r, 40), wild(r, 40), wild(r, 40), wild(r, 40));
                let sw = r.chance(1, 2);
                let q = match r.below(3) {
                    0 => vec![vec![a, b], vec![-a, b], vec![c, d], vec![-c, d]],
                    1 => vec![vec![a, b], vec![-a, b], vec![b, a], vec![b, -a]],
                    _ => vec![vec![a, c], vec![b, c], vec![a, d], vec![b, d]],
                };
                let mut q: Vec<Vec<f64>> = q.into_iter().map(|p| if sw { vec![p[1], p[0]] } else { p }).collect();
                near(r, &mut q);
                q.iter().map(|p| [p[0], p[1]]).collect()
            }
            0 => (0..4).map(|_| p2(r, m)).collect(),
            1 => {
                let l = near_line(r, m, 2);
                let mut v: Vec<[f64; 2]> = l.iter().map(|p| [p[0], p[1]]).collect();
                v.push(p2(r, m));
                v
            }
            _ => {
                let c = circle_points(r);
                let (off, sc) = transform(r);
                (0..4)
                    .map(|_| {
                        let q = r.pick(&c);
                        [off + sc * q[0] as f64, off * 0.5 + sc * q[1] as f64]
                    })
                    .collect()
            }
        };
        let k = *r.pick(&[0, 0, 0, 0, 0, 1, 1, 4, 64]);
        for p in &mut v {
            if r.chance(1, 2) {
                ulp_all(r, p, k);
            }
        }
        r.shuffle(&mut v);
        let e = exact::incircle(&v[0], &v[1], &v[2], &v[3]);
        let got = ctx.guard("incircle", || format!("{v:?}"), || g::incircle(&v[0], &v[1], &v[2], &v[3], &bump));
        let d = maxdiff(&[&v[3], &v[0], &v[1], &v[2]], 2);
        bucket(ctx, "incircle", &e, &powr(&d, 4));
        ctx.eval(if d.is_zero() {
            None
        } else {
            Some(Fp::new().fs(&v[0]).fs(&v[1]).fs(&v[2]).fs(&v[3]).0)
        });
        ctx.sample(|| format!("{v:?} sign={}", e.sign()));
        if let Some(x) = got {
            ctx.check(sgn(x) == e.sign() && x.is_finite(), "incircle-sign", || {
                format!("incircle({v:?}) returned {x:e}, exact sign {}", e.sign())
            });
        }
    }
}

fn five(r: &mut Rng) -> Vec<P3> {
    let m = any_mode(r);
    let mut v: Vec<P3> = match r.below(9) {
        5 => exact_flat(r, 5, 3, 30).iter().map(|p| [p[0], p[1], p[2]]).collect(),
        6 | 7 | 8 => {
            // sign flips and permutations of one triple: exactly cospherical with arbitrary coordinates
            let t = [wild(r, 30), wild(r, 30), wild(r, 30)];
            let full = r.chance(1, 2);
            let mut q: Vec<Vec<f64>> = (0..5)
                .map(|_| {
                    let mut p = t.to_vec();
                    if full {
                        r.shuffle(&mut p);
                    }
                    for c in &mut p {
                        if r.chance(1, 2) {
                            *c = -*c;
                        }
                    }
                    p
                })
                .collect();
            near(r, &mut q);
            q.iter().map(|p| [p[0], p[1], p[2]]).collect()
        }
        0 => (0..5).map(|_| p3(r, m)).collect(),
        1 => {
            let mut v = near_plane(r, m);
            v.push(p3(r, m));
            v
        }
        _ => {
            let c = sphere_points(r);
            let (off, sc) = transform(r);
            (0..5)
                .map(|_| {
                    let q = r.pick(&c);
                    [off + sc * q[0] as f64, off * 0.5 + sc * q[1] as f64, -off + sc * q[2] as f64]
                })
                .collect()
        }
    };
    let k = *r.pick(&[0, 0, 0, 1, 1, 4, 64]);
    for p in &mut v {
        if r.chance(1, 2) {
            ulp_all(r, p, k);
        }
    }
    r.shuffle(&mut v);
    v
}

/// det of rows (p - e, h) with the library's sign convention fixed by one unambiguous case
fn lifted(v: &[P3], h: &[Dy; 5]) -> Dy {
    let row = |i: usize| {
        [
            Dy::f(v[i][0]) - Dy::f(v[4][0]),
            Dy::f(v[i][1]) - Dy::f(v[4][1]),
            Dy::f(v[i][2]) - Dy::f(v[4][2]),
            &h[i] - &h[4],
        ]
    };
    exact::det4(&[row(0), row(1), row(2), row(3)])
}

fn insphere_cases(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..40 {
        let v = five(r);
        let e = exact::insphere(&v[0], &v[1], &v[2], &v[3], &v[4]);
        let got = ctx.guard("insphere", || format!("{v:?}"), || {
            g::insphere(&v[0], &v[1], &v[2], &v[3], &v[4], &bump)
        });
        let d = maxdiff(&[&v[4], &v[0], &v[1], &v[2], &v[3]], 3);
        bucket(ctx, "insphere", &e, &powr(&d, 5));
        ctx.eval(if d.is_zero() {
            None
        } else {
            Some(Fp::new().fs(&v[0]).fs(&v[1]).fs(&v[2]).fs(&v[3]).fs(&v[4]).0)
        });
        ctx.sample(|| format!("{v:?} sign={}", e.sign()));
        if let Some(x) = got {
            ctx.check(sgn(x) == e.sign() && x.is_finite(), "insphere-sign", || {
                format!("insphere({v:?}) returned {x:e}, exact sign {}", e.sign())
            });
        }
    }
}

fn orient4d_cases(r: &mut Rng, ctx: &mut Ctx) {
    for _ in 0..40 {
        let v = five(r);
        // heights: (nearly) an affine function of the points, the lifting, or free
        let mut h: [f64; 5] = [0.0; 5];
        let (a, b, c, d) = (r.range(-3, 3) as f64, r.range(-3, 3) as f64, r.range(-3, 3) as f64, r.sym());
        let kind = r.below(7);
        let (ax, mu) = (r.below(3), *r.pick(&[1.0, -1.0, 2.0, 0.25]));
        for i in 0..5 {
            h[i] = match kind {
                4 | 5 => mu * v[i][ax],
                6 => wild(r, 30),
                0 => coord(r, Mode::Full),
                1 => v[i][0] * v[i][0] + v[i][1] * v[i][1] + v[i][2] * v[i][2],
                _ => a * v[i][0] + b * v[i][1] + c * v[i][2] + d,
            };
        }
        let k = *r.pick(&[0, 0, 1, 2]);
        ulp_all(r, &mut h, k);
        let hd = [Dy::f(h[0]), Dy::f(h[1]), Dy::f(h[2]), Dy::f(h[3]), Dy::f(h[4])];
        let e = lifted(&v, &hd);
        let got = ctx.guard("orient4d", || format!("{v:?} {h:?}"), || {
            g::orient4d(&v[0], &v[1], &v[2], &v[3], &v[4], Global, h[0], h[1], h[2], h[3], h[4])
        });
        let sp = maxdiff(&[&v[4], &v[0], &v[1], &v[2], &v[3]], 3);
        let hm = maxdiff(&[&h[4..], &h[0..1], &h[1..2], &h[2..3], &h[3..4]], 1);
        bucket(ctx, "orient4d", &e, &(powr(&sp, 3) * &hm));
        ctx.eval(if sp.is_zero() || hm.is_zero() {
            None
        } else {
            Some(Fp::new().fs(&v[0]).fs(&v[1]).fs(&v[2]).fs(&v[3]).fs(&v[4]).fs(&h).0)
        });
        ctx.sample(|| format!("{v:?} heights {h:?} sign={}", e.sign()));
        if let Some(x) = got {
            ctx.check(sgn(x) == e.sign() && x.is_finite(), "orient4d-sign", || {
                format!("orient4d({v:?}, heights {h:?}) returned {x:e}, exact sign {}", e.sign())
            });
        }
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P01",
            rule: "random, collinear/coplanar and near-degenerate (a few ulps off) point tuples over ten coordinate regimes; non-trivial = the points are not all equal",
            assumptions: &["finite coordinates whose degree-3 products neither overflow nor underflow", "the oracle's big-integer arithmetic (self-tested at start)"],
            min_obs: &[("orient2d:zero", 500), ("orient3d:zero", 500), ("orient2d:cancel45-60bits", 100), ("orient3d:cancel45-60bits", 100)],
            families: vec![fam("orient2d", 40000, 4000000, orient2d_cases), fam("orient3d", 60000, 6000000, orient3d_cases)],
        },
        Property {
            id: "P02",
            rule: "random, exactly cocircular/cospherical (integer circles and spheres, scaled and shifted) and near-cospherical tuples; orient4d heights free, affine or lifted; non-trivial = the points (and heights) are not all equal",
            assumptions: &["finite coordinates whose degree-5 products neither overflow nor underflow", "the oracle's big-integer arithmetic (self-tested at start)"],
            min_obs: &[("incircle:zero", 300), ("insphere:zero", 300), ("orient4d:zero", 100)],
            families: vec![
                fam("incircle", 30000, 2500000, incircle_cases),
                fam("insphere", 40000, 3000000, insphere_cases),
                fam("orient4d", 30000, 2200000, orient4d_cases),
            ],
        },
    ]
}
