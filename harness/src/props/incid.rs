//! P09: incidence predicates of segments and triangles.
use crate::ctx::*;
use crate::exact::*;
use crate::gen::*;
use crate::geom;
use crate::rng::*;
use bumpalo::Bump;
use gpf::predicates as g;

type I3 = [i64; 3];

/// a plane with n points in it: exact, from an integer lattice or from doubles with equal/copied coordinates
struct Flat {
    pts: Vec<P3>,
    kind: &'static str,
}

fn nz(r: &mut Rng, k: i64) -> I3 {
    loop {
        let p = [r.range(-k, k), r.range(-k, k), r.range(-k, k)];
        if p != [0; 3] {
            return p;
        }
    }
}

/// n points of one plane, full of coincidences, collinearities and shared coordinates
fn flat(r: &mut Rng, n: usize) -> Flat {
    match r.below(3) {
        0 | 1 => {
            let k = *r.pick(&[1, 2, 3, 8, 1000, 1 << 20]);
            let (u, mut v) = (nz(r, k), nz(r, k));
            if r.chance(1, 4) {
                // all on one line
                let t = r.range(-2, 2);
                v = [t * u[0], t * u[1], t * u[2]];
            }
            let ka = *r.pick(&[1i64, 10, 1 << 24]);
            let a = nz(r, ka);
            let c = *r.pick(&[1, 2, 3, 6]);
            let s = 2f64.powi(*r.pick(&[0, 0, -1, -20, 13, -60]));
            let pts = (0..n)
                .map(|_| {
                    let (x, y) = (r.range(-c, c), r.range(-c, c));
                    let mut p = [0.0; 3];
                    for i in 0..3 {
                        p[i] = (a[i] + x * u[i] + y * v[i]) as f64 * s;
                    }
                    p
                })
                .collect();
            Flat { pts, kind: "lattice-plane" }
        }
        _ => {
            // full doubles in the plane x_j = k * x_i + c
            let i = r.below(3);
            let j = (i + 1 + r.below(2)) % 3;
            let k = *r.pick(&[0.0, 0.0, 1.0, -1.0, 2.0, -0.5]);
            let c = if k == 0.0 { r.sym() } else { 0.0 };
            let m = *r.pick(&[Mode::Full, Mode::Grid(3), Mode::Mixed(52, 20), Mode::Dyadic(3)]);
            let mut pts: Vec<P3> = (0..n).map(|_| p3(r, m)).collect();
            if r.chance(1, 2) && n >= 3 {
                // nearly collinear inside the plane
                for q in 2..n {
                    let t = *r.pick(&[0.5, 0.25, -1.0, 2.0, 0.3]);
                    for a in 0..3 {
                        pts[q][a] = pts[0][a] + t * (pts[1][a] - pts[0][a]);
                    }
                    ulp_all(r, &mut pts[q], 1);
                }
            }
            for p in &mut pts {
                p[j] = if k == 0.0 { c } else { k * p[i] };
            }
            r.shuffle(&mut pts);
            Flat { pts, kind: "double-plane" }
        }
    }
}

/// n points in space: some in a common plane, some lifted out of it or moved by an ulp
fn space(r: &mut Rng, n: usize) -> Flat {
    let mut f = flat(r, n);
    match r.below(4) {
        0 => {}
        1 => {
            let m = any_mode(r);
            f.pts = (0..n).map(|_| p3(r, m)).collect();
            f.kind = "free";
        }
        2 => {
            let q = r.below(n);
            ulp_all(r, &mut f.pts[q], 1);
            f.kind = "one-ulp-off";
        }
        _ => {
            for _ in 0..1 + r.below(2) {
                let q = r.below(n);
                let a = r.below(3);
                let d = (f.pts[q][a].abs() * 0.5).max(0.5);
                f.pts[q][a] += *r.pick(&[-1.0, 1.0, 2.0]) * d;
            }
            f.kind = "lifted";
        }
    }
    f
}

fn fp(t: u64, pts: &[P3]) -> u64 {
    let mut h = Fp::new();
    h.u(t);
    for p in pts {
        h.fs(p);
    }
    h.0
}

fn ck(ctx: &mut Ctx, what: &str, got: Option<bool>, want: bool, pts: &[P3]) {
    ctx.count(&format!("{what}:{want}"));
    if let Some(b) = got {
        ctx.check(b == want, what, || format!("{what} returned {b}, exactly {want}; {pts:?}"));
    }
}

fn incidence(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..40 {
        // three points
        let f = space(r, 3);
        let p = &f.pts;
        let d = || format!("{p:?}");
        ctx.count(&format!("points:{}", f.kind));
        ctx.eval(Some(fp(1, p)));
        ctx.sample(|| format!("{} {:?}", f.kind, p));
        let got = ctx.guard("mis_alignment", d, || g::mis_alignment(&p[0], &p[1], &p[2], &bump));
        let col = geom::collinear(&p[0], &p[1], &p[2]);
        ck(ctx, "mis_alignment", got, !col, p);
        let got = ctx.guard("point_in_inner_segment", d, || g::point_in_inner_segment(&p[0], &p[1], &p[2], &bump));
        let inner = geom::in_open_segment(&p[0], &p[1], &p[2]);
        ck(ctx, "point_in_inner_segment", got, inner, p);
        let got = ctx.guard("point_in_segment", d, || g::point_in_segment(&p[0], &p[1], &p[2], &bump));
        ck(ctx, "point_in_segment", got, inner || p[0] == p[1] || p[0] == p[2], p);
        let got = ctx.guard("same_point", d, || g::same_point(&p[0], &p[1]));
        ck(ctx, "same_point", got, p[0] == p[1], p);
        if !col {
            let got = ctx.guard("max_comp_in_tri_normal", d, || g::max_comp_in_tri_normal(&p[0], &p[1], &p[2], &bump));
            let n = geom::normal(&p[0], &p[1], &p[2]);
            if let Some(k) = got {
                ctx.count(&format!("max_comp:{k}"));
                // non zero, and the largest up to rounding of the differences
                let ok = k < 3 && !n[k].is_zero() && {
                    let mut m = 0.0f64;
                    for q in 1..3 {
                        for a in 0..3 {
                            m = m.max((p[q][a] - p[q - 1][a]).abs());
                        }
                    }
                    let slack = Dy::f(m) * Dy::f(m) * Dy::f(8.0 * f64::EPSILON) + n[k].abs() * Dy::f(4.0 * f64::EPSILON);
                    (0..3).all(|a| n[a].abs().cmp(&(n[k].abs() + &slack)) != std::cmp::Ordering::Greater)
                };
                ctx.check(ok, "max_comp_in_tri_normal", || {
                    format!("axis {k} of {p:?}, normal {:?}", [n[0].approx(), n[1].approx(), n[2].approx()])
                });
            }
        }
        // four coplanar points: side of a line
        let f = flat(r, 4);
        let p = &f.pts;
        let d = || format!("{p:?}");
        ctx.count(&format!("points:{}", f.kind));
        ctx.eval(Some(fp(2, p)));
        if p[2] != p[3] {
            let got = ctx.guard("same_half_plane", d, || g::same_half_plane(&p[0], &p[1], &p[2], &p[3], &bump));
            ck(ctx, "same_half_plane", got, geom::same_side(&p[0], &p[1], &p[2], &p[3]), p);
        }
        // coplanar point against triangle
        if !geom::collinear(&p[1], &p[2], &p[3]) {
            let got = ctx.guard("point_in_inner_triangle", d, || g::point_in_inner_triangle(&p[0], &p[1], &p[2], &p[3], &bump));
            ck(ctx, "point_in_inner_triangle", got, geom::in_open_triangle(&p[0], &p[1], &p[2], &p[3]), p);
            let got = ctx.guard("point_in_triangle", d, || g::point_in_triangle(&p[0], &p[1], &p[2], &p[3], &bump));
            ck(ctx, "point_in_triangle", got, geom::in_closed_triangle(&p[0], &p[1], &p[2], &p[3]), p);
        }
        // four points in space: two segments
        let f = space(r, 4);
        let p = &f.pts;
        let d = || format!("{p:?}");
        ctx.count(&format!("points:{}", f.kind));
        ctx.eval(Some(fp(3, p)));
        let want = geom::open_segments_cross(&p[0], &p[1], &p[2], &p[3]);
        let got = ctx.guard("inner_segments_cross", d, || g::inner_segments_cross(&p[0], &p[1], &p[2], &p[3], &bump));
        ck(ctx, "inner_segments_cross", got, want, p);
        let got = ctx.guard("inner_segments_cross", d, || g::inner_segments_cross(&p[3], &p[2], &p[0], &p[1], &bump));
        ck(ctx, "inner_segments_cross", got, want, p);
        // segment against triangle
        let f = space(r, 5);
        let p = &f.pts;
        let d = || format!("{p:?}");
        ctx.count(&format!("points:{}", f.kind));
        ctx.eval(Some(fp(4, p)));
        if p[0] == p[1] || geom::collinear(&p[2], &p[3], &p[4]) {
            continue;
        }
        let want = geom::crosses_open_triangle(&p[0], &p[1], &p[2], &p[3], &p[4]);
        let got = ctx.guard("inner_segment_cross_inner_triangle", d, || {
            g::inner_segment_cross_inner_triangle(&p[0], &p[1], &p[2], &p[3], &p[4], &bump)
        });
        ck(ctx, "inner_segment_cross_inner_triangle", got, want, p);
        let want = want
            || (2..5).any(|k| geom::in_open_segment(&p[k], &p[0], &p[1]))
            || [(2, 3), (3, 4), (4, 2)].iter().any(|(a, b)| geom::open_segments_cross(&p[0], &p[1], &p[*a], &p[*b]));
        let mut o = [2, 3, 4];
        r.shuffle(&mut o);
        let (s, t) = if r.chance(1, 2) { (0, 1) } else { (1, 0) };
        let got = ctx.guard("inner_segment_cross_triangle", d, || {
            g::inner_segment_cross_triangle(&p[s], &p[t], &p[o[0]], &p[o[1]], &p[o[2]], &bump)
        });
        ck(ctx, "inner_segment_cross_triangle", got, want, p);
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "P09",
        rule: "3 to 5 points: exactly coplanar ones from integer lattices or full doubles in axis-related planes with coincident, collinear and touching configurations, the same lifted or moved by one ulp, and free ones; one evaluation = one point configuration, non-trivial = every distinct one",
        assumptions: &["coordinates away from overflow and underflow", "the oracle's big-integer arithmetic (self-tested at start)"],
        min_obs: &[
            ("mis_alignment:false", 1000), ("point_in_inner_segment:true", 500), ("point_in_segment:true", 1000),
            ("same_half_plane:true", 1000), ("same_half_plane:false", 1000), ("point_in_inner_triangle:true", 500),
            ("point_in_triangle:true", 1000), ("inner_segments_cross:true", 500),
            ("inner_segment_cross_inner_triangle:true", 200), ("inner_segment_cross_triangle:true", 500),
            ("max_comp:0", 500), ("max_comp:1", 500), ("max_comp:2", 500),
        ],
        families: vec![fam("incidence", 50000, 2500000, incidence), fam("represented points in segments", 50000, 2500000, crate::props::implicit::segment_case)],
    }]
}
