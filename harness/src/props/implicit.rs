//! P05..P08: implicitly represented points (line-plane and three-plane intersections).
use crate::ctx::*;
use crate::exact::*;
use crate::gen::*;
use crate::rng::*;
use bumpalo::Bump;
use gpf::predicates as g;
use gpf::predicates::{ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, Orientation, Point3D};
use std::alloc::Global;

pub fn ex(p: &P3) -> ExplicitPoint3D {
    ExplicitPoint3D { data: *p }
}

/// one represented point and what it denotes exactly
pub struct Pt {
    pub p: Point3D,
    pub h: HP,
    pub kind: char,
    pub desc: String,
    pub defs: Vec<P3>,
}

pub fn mk_e(a: P3) -> Pt {
    Pt { p: Point3D::Explicit(ex(&a)), h: HP::new(&a), kind: 'E', desc: format!("E{a:?}"), defs: vec![a] }
}
pub fn mk_l(d: &[P3]) -> Pt {
    Pt {
        p: Point3D::LPI(ImplicitPointLPI::new(ex(&d[0]), ex(&d[1]), ex(&d[2]), ex(&d[3]), ex(&d[4]))),
        h: lpi(&d[0], &d[1], &d[2], &d[3], &d[4]),
        kind: 'L',
        desc: format!("L{d:?}"),
        defs: d.to_vec(),
    }
}
pub fn mk_t(d: &[P3]) -> Pt {
    Pt {
        p: Point3D::TPI(ImplicitPointTPI::new(
            ex(&d[0]), ex(&d[1]), ex(&d[2]), ex(&d[3]), ex(&d[4]), ex(&d[5]), ex(&d[6]), ex(&d[7]), ex(&d[8]),
        )),
        h: tpi(&[[d[0], d[1], d[2]], [d[3], d[4], d[5]], [d[6], d[7], d[8]]]),
        kind: 'T',
        desc: format!("T{d:?}"),
        defs: d.to_vec(),
    }
}
pub fn mk(kind: char, d: &[P3]) -> Pt {
    match kind {
        'E' => mk_e(d[0]),
        'L' => mk_l(d),
        _ => mk_t(d),
    }
}

/// lattice of a workload: integers in [-k, k] plus an offset, times 2^-s
#[derive(Clone, Copy)]
pub struct Lat {
    k: i64,
    off: i64,
    s: i32,
}

type I3 = [i64; 3];

impl Lat {
    /// at most `bits` significant bits, so that the exact polynomials stay inside the double range
    fn pick(r: &mut Rng, bits: i64) -> Lat {
        let bits = bits.clamp(3, 46);
        let b = match r.below(4) {
            0 => 2,
            1 => 4.min(bits),
            2 => r.range(3, bits),
            _ => bits,
        };
        let k = 1i64 << b;
        let off = if b + 3 < bits && r.chance(1, 4) { r.range(-(1i64 << (bits - 1)), 1i64 << (bits - 1)) } else { 0 };
        let s = match r.below(3) {
            0 => 0,
            1 => b as i32,
            _ => (b / 2) as i32,
        };
        Lat { k, off, s }
    }
    fn ip(&self, r: &mut Rng) -> I3 {
        [r.range(-self.k, self.k), r.range(-self.k, self.k), r.range(-self.k, self.k)]
    }
    fn f(&self, p: &I3) -> P3 {
        let m = 2f64.powi(-self.s);
        [(p[0] + self.off) as f64 * m, (p[1] + self.off) as f64 * m, (p[2] + self.off) as f64 * m]
    }
}

fn comb(a: &I3, u: &I3, s: i64, v: &I3, t: i64) -> I3 {
    [a[0] + s * u[0] + t * v[0], a[1] + s * u[1] + t * v[1], a[2] + s * u[2] + t * v[2]]
}
fn sub(a: &I3, b: &I3) -> I3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}

/// three points of the plane a + span(u, v), in random position
fn triple(r: &mut Rng, a: &I3, u: &I3, v: &I3, m: i64) -> [I3; 3] {
    let mut o = [[0; 3]; 3];
    if m == 1 && r.chance(1, 3) {
        o = [*a, comb(a, u, 1, v, 0), comb(a, u, 0, v, 1)];
    } else {
        for q in &mut o {
            *q = comb(a, u, m * r.range(-2, 2), v, m * r.range(-2, 2));
        }
    }
    r.shuffle(&mut o);
    o
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strat {
    Free,
    Coplanar,
    Collinear,
    Coincident,
    AxisPlane,
    Vertical,
    FullFloat,
}

pub const STRATS: [Strat; 7] = [
    Strat::Free,
    Strat::Coplanar,
    Strat::Collinear,
    Strat::Coincident,
    Strat::AxisPlane,
    Strat::Vertical,
    Strat::FullFloat,
];

/// n points of the given kinds in one configuration
pub fn points(r: &mut Rng, kinds: &[char], bits: i64, st: Strat) -> (Vec<Pt>, bool) {
    let mut out = vec![];
    if st == Strat::FullFloat {
        for k in kinds {
            let n = match k {
                'E' => 1,
                'L' => 5,
                _ => 9,
            };
            let d: Vec<P3> = (0..n).map(|_| p3(r, Mode::Full)).collect();
            out.push(mk(*k, &d));
        }
        return (out, false);
    }
    let lat = Lat::pick(r, bits);
    // mixed: what the points share and what each one is defined by differ in magnitude
    let mixed = r.chance(1, 3);
    let lb = lat.k.trailing_zeros() as i64;
    let shared = if mixed { Lat { k: 1 << r.range(1, lb), ..lat } } else { lat };
    let (a, mut u, mut v) = (shared.ip(r), shared.ip(r), shared.ip(r));
    u = sub(&u, &a);
    v = sub(&v, &a);
    match st {
        Strat::AxisPlane => {
            let k = r.below(3);
            u[k] = 0;
            v[k] = 0;
        }
        Strat::Vertical => {
            v = [0, 0, 0];
            v[r.below(3)] = r.range(1, shared.k);
        }
        _ => {}
    }
    let perturb = r.chance(1, 3);
    let mag = if perturb { 1i64 << r.below((64 - lat.k.leading_zeros()) as usize) } else { 0 };
    let victim = r.below(kinds.len());
    for (idx, kind) in kinds.iter().enumerate() {
        let (loc, m) = if mixed {
            (Lat { k: 1 << r.range(1, lb), ..lat }, 1i64 << r.range(0, (lat.k / shared.k).trailing_zeros() as i64))
        } else {
            (lat, 1)
        };
        let other = |r: &mut Rng, through: &I3| {
            let (x, y) = (loc.ip(r), loc.ip(r));
            let (x, y) = (sub(&x, through), sub(&y, through));
            triple(r, through, &x, &y, 1)
        };
        let mut d: Vec<I3> = vec![];
        match (kind, st) {
            ('E', Strat::Free) => d.push(loc.ip(r)),
            ('E', Strat::Coincident) => d.push(a),
            ('E', Strat::Collinear) => d.push(comb(&a, &u, m * r.range(-3, 3), &v, 0)),
            ('E', _) => d.push(comb(&a, &u, m * r.range(-2, 2), &v, m * r.range(-2, 2))),
            ('L', Strat::Free) => d = (0..5).map(|_| loc.ip(r)).collect(),
            ('L', Strat::Coincident) => {
                let w = sub(&loc.ip(r), &a);
                d.push(comb(&a, &w, 1, &u, 0));
                d.push(comb(&a, &w, r.range(-2, 0), &u, 0));
                d.extend(other(r, &a));
            }
            ('L', Strat::Collinear) => {
                if r.chance(1, 2) {
                    // the common line itself, cut by a plane
                    d.push(comb(&a, &u, m * r.range(-3, 0), &v, 0));
                    d.push(comb(&a, &u, m * r.range(1, 3), &v, 0));
                    let t = loc.ip(r);
                    d.extend(other(r, &t));
                } else {
                    // a line meeting the common line, cut by a plane through the common line
                    let on = comb(&a, &u, m * r.range(-3, 3), &v, 0);
                    let w = sub(&loc.ip(r), &on);
                    d.push(comb(&on, &w, 1, &u, 0));
                    d.push(comb(&on, &w, -r.range(1, 2), &u, 0));
                    let x = sub(&loc.ip(r), &a);
                    d.extend(triple(r, &a, &u, &x, 1));
                }
            }
            ('L', _) => {
                if r.chance(1, 4) {
                    // a line inside the common plane, cut by a free plane
                    d.push(comb(&a, &u, m * r.range(-2, 2), &v, m * r.range(-2, 2)));
                    d.push(comb(&a, &u, m * r.range(-2, 2), &v, m * r.range(-2, 2)));
                    let t = loc.ip(r);
                    d.extend(other(r, &t));
                } else {
                    d.push(loc.ip(r));
                    d.push(loc.ip(r));
                    d.extend(triple(r, &a, &u, &v, m));
                }
            }
            (_, Strat::Free) => d = (0..9).map(|_| loc.ip(r)).collect(),
            (_, _) => {
                let n = match st {
                    Strat::Coincident => 3,
                    Strat::Collinear => 2,
                    _ => 1,
                };
                let mut pl: Vec<[I3; 3]> = vec![];
                for i in 0..3 {
                    if i >= n {
                        let t = loc.ip(r);
                        pl.push(other(r, &t));
                    } else if n == 3 {
                        pl.push(other(r, &a));
                    } else if n == 2 {
                        let x = sub(&loc.ip(r), &a);
                        pl.push(triple(r, &a, &u, &x, 1));
                    } else {
                        pl.push(triple(r, &a, &u, &v, m));
                    }
                }
                r.shuffle(&mut pl);
                for t in pl {
                    d.extend(t);
                }
            }
        }
        if perturb && idx == victim {
            let i = r.below(d.len());
            let j = r.below(3);
            d[i][j] += if r.chance(1, 2) { mag } else { -mag };
        }
        let df: Vec<P3> = d.iter().map(|p| lat.f(p)).collect();
        out.push(mk(*kind, &df));
    }
    (out, perturb)
}

pub fn deg(kinds: &[char]) -> i64 {
    if kinds.contains(&'T') {
        7
    } else if kinds.contains(&'L') {
        4
    } else {
        1
    }
}

pub fn kinds(r: &mut Rng, n: usize) -> Vec<char> {
    // explicit points are the cheap part; favour implicit ones
    (0..n).map(|_| *r.pick(&['E', 'L', 'L', 'T', 'T'])).collect()
}

pub fn os(o: Orientation) -> Option<i32> {
    match o {
        Orientation::Positive => Some(1),
        Orientation::Negative => Some(-1),
        Orientation::Zero => Some(0),
        Orientation::Undefined => None,
    }
}

fn fingerprint(v: &[Pt]) -> u64 {
    let mut f = Fp::new();
    for p in v {
        f.u(p.kind as u64);
        for d in &p.defs {
            f.fs(d);
        }
    }
    f.0
}

fn describe(v: &[Pt]) -> String {
    v.iter().map(|p| p.desc.clone()).collect::<Vec<_>>().join(" | ")
}

fn expect(valid: bool, s: impl FnOnce() -> i32) -> Option<i32> {
    if valid {
        Some(s())
    } else {
        None
    }
}

fn sname(s: Option<i32>) -> &'static str {
    match s {
        Some(1) => "positive",
        Some(-1) => "negative",
        Some(0) => "zero",
        _ => "undefined",
    }
}

const AX: [(usize, usize, &str); 3] = [(1, 2, "yz"), (2, 0, "zx"), (0, 1, "xy")];

fn orient2d_case(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..10 {
        let ks = kinds(r, 3);
        let st = *r.pick(&STRATS);
        let bits = 46;
        let (v, pert) = points(r, &ks, bits, st);
        let valid = v.iter().all(|p| !p.h.w.is_zero());
        ctx.count(&format!("kinds:{}", ks.iter().collect::<String>()));
        ctx.count(&format!("strategy:{st:?}{}", if pert { "+perturbed" } else { "" }));
        ctx.eval(if valid { Some(fingerprint(&v)) } else { None });
        ctx.sample(|| describe(&v));
        let perms: &[[usize; 3]] = &[[0, 1, 2], [1, 2, 0], [1, 0, 2]];
        for axis in 0..3 {
            let (i, j, name) = AX[axis];
            for p in perms {
                let q = [&v[p[0]], &v[p[1]], &v[p[2]]];
                let e = expect(valid, || hp_orient2d(&q[0].h, &q[1].h, &q[2].h, i, j));
                ctx.count(&format!("exact:{}", sname(e)));
                let by_axis = r.chance(1, 2);
                let got = ctx.guard("orient2d", || describe(&v), || match (by_axis, axis) {
                    (true, _) => g::orient2d::orient2d_by_axis(&q[0].p, &q[1].p, &q[2].p, axis, &bump),
                    (_, 0) => g::orient2d_yz(&q[0].p, &q[1].p, &q[2].p, &bump),
                    (_, 1) => g::orient2d_zx(&q[0].p, &q[1].p, &q[2].p, &bump),
                    _ => g::orient2d_xy(&q[0].p, &q[1].p, &q[2].p, &bump),
                });
                if let Some(o) = got {
                    let kk: String = q.iter().map(|p| p.kind).collect();
                    ctx.check(os(o) == e, &format!("orient2d-{name}-{kk}"), || {
                        format!("orient2d_{name}[{kk}] returned {o:?}, exact {}; {}", sname(e), q.iter().map(|p| p.desc.clone()).collect::<Vec<_>>().join(" | "))
                    });
                }
            }
        }
        if v.iter().all(|p| p.kind == 'E') {
            // plain coordinates with an axis
            for axis in 0..3 {
                let (i, j, _) = AX[axis];
                let e = hp_orient2d(&v[0].h, &v[1].h, &v[2].h, i, j);
                let o = g::orient2d_by_axis(&v[0].defs[0], &v[1].defs[0], &v[2].defs[0], axis, &bump);
                ctx.check(os(o) == Some(e), "orient2d-by-axis-coordinates", || format!("{o:?} vs {e}: {}", describe(&v)));
            }
        }
    }
}

fn orient3d_case(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..6 {
        let ks = kinds(r, 4);
        let st = *r.pick(&STRATS);
        // six coordinates or denominators of represented points are multiplied
        let bits = if deg(&ks) == 7 { 39 } else { 46 };
        let (v, pert) = points(r, &ks, bits, st);
        let valid = v.iter().all(|p| !p.h.w.is_zero());
        ctx.count(&format!("kinds:{}", ks.iter().collect::<String>()));
        ctx.count(&format!("strategy:{st:?}{}", if pert { "+perturbed" } else { "" }));
        ctx.eval(if valid { Some(fingerprint(&v)) } else { None });
        ctx.sample(|| describe(&v));
        let base = expect(valid, || hp_orient3d(&v[0].h, &v[1].h, &v[2].h, &v[3].h));
        let perms: &[([usize; 4], i32)] = &[([0, 1, 2, 3], 1), ([1, 0, 3, 2], 1), ([3, 1, 2, 0], -1), ([0, 2, 1, 3], -1)];
        for (p, s) in perms {
            let e = base.map(|b| b * s);
            ctx.count(&format!("exact:{}", sname(e)));
            let q = [&v[p[0]], &v[p[1]], &v[p[2]], &v[p[3]]];
            let got = ctx.guard("orient3d", || describe(&v), || {
                g::orient3d::orient3d(&q[0].p, &q[1].p, &q[2].p, &q[3].p, &bump)
            });
            if let Some(o) = got {
                let kk: String = q.iter().map(|p| p.kind).collect();
                ctx.check(os(o) == e, &format!("orient3d-{kk}"), || {
                    format!("orient3d[{kk}] returned {o:?}, exact {}; {}", sname(e), q.iter().map(|p| p.desc.clone()).collect::<Vec<_>>().join(" | "))
                });
            }
        }
    }
}

fn compare_case(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..10 {
        let ks = kinds(r, 3);
        let st = *r.pick(&STRATS);
        let (v, pert) = points(r, &ks, 46, st);
        ctx.count(&format!("strategy:{st:?}{}", if pert { "+perturbed" } else { "" }));
        ctx.eval(if v.iter().all(|p| !p.h.w.is_zero()) { Some(fingerprint(&v)) } else { None });
        ctx.sample(|| describe(&v));
        for a in 0..3 {
            for b in 0..3 {
                let valid = !v[a].h.w.is_zero() && !v[b].h.w.is_zero();
                let kk: String = [v[a].kind, v[b].kind].iter().collect();
                ctx.count(&format!("kinds:{kk}"));
                for axis in 0..3 {
                    let e = expect(valid, || hp_cmp(&v[a].h, &v[b].h, axis));
                    ctx.count(&format!("exact:{}", sname(e)));
                    let got = ctx.guard("less_than", || describe(&v), || match axis {
                        0 => g::less_than_on_x(&v[a].p, &v[b].p, &bump),
                        1 => g::less_than_on_y(&v[a].p, &v[b].p, &bump),
                        _ => g::less_than_on_z(&v[a].p, &v[b].p, &bump),
                    });
                    if let Some(o) = got {
                        ctx.check(os(o) == e, &format!("less-than-{kk}-{}", ["x", "y", "z"][axis]), || {
                            format!("comparison on axis {axis} of {} with {} returned {o:?}, exact {}", v[a].desc, v[b].desc, sname(e))
                        });
                    }
                }
            }
        }
    }
}

/// the cached representations of one point all denote the same exact point
fn repr_case(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..10 {
        let k = *r.pick(&['L', 'T']);
        let st = *r.pick(&[Strat::Free, Strat::Free, Strat::Coplanar, Strat::Collinear, Strat::FullFloat]);
        let (mut v, _) = points(r, &[k], 40, st);
        if r.chance(1, 8) {
            // degenerate: parallel line or dependent planes
            let mut d = v[0].defs.clone();
            if k == 'L' {
                let w: P3 = [d[3][0] - d[2][0], d[3][1] - d[2][1], d[3][2] - d[2][2]];
                d[1] = [d[0][0] + w[0], d[0][1] + w[1], d[0][2] + w[2]];
            } else {
                d[6] = d[0];
                d[7] = d[1];
                d[8] = d[2];
            }
            v = vec![mk(k, &d)];
        }
        let pt = &v[0];
        let valid = !pt.h.w.is_zero();
        ctx.count(if valid { "valid" } else { "degenerate" });
        ctx.count(&format!("kind:{k}"));
        ctx.eval(if valid { Some(fingerprint(&v)) } else { None });
        ctx.sample(|| describe(&v));
        let order: Vec<usize> = {
            let mut o = vec![0, 1, 2, 3, 0, 1, 2, 4];
            r.shuffle(&mut o);
            o
        };
        // oracle: the exact determinant, in the library's own scale for the filters
        let run = |ctx: &mut Ctx, ip: &dyn Fn(usize) -> Obs| {
            for w in &order {
                let got = ctx.guard("implicit-point", || pt.desc.clone(), || ip(*w));
                let Some(o) = got else { return };
                observe(ctx, pt, valid, o);
            }
        };
        match &pt.p {
            Point3D::LPI(p) => run(ctx, &|w| obs(p, w, &bump)),
            Point3D::TPI(p) => run(ctx, &|w| obs(p, w, &bump)),
            _ => {}
        }
        // a clone taken after the caches were filled behaves the same
        if r.chance(1, 2) {
            let c = pt.p.clone();
            match &c {
                Point3D::LPI(p) => run(ctx, &|w| obs(p, w, &bump)),
                Point3D::TPI(p) => run(ctx, &|w| obs(p, w, &bump)),
                _ => {}
            }
        }
        ctx.check(pt.p.explicit().is_none(), "explicit", || "an implicit point answered as explicit".into());
    }
}

enum Obs {
    Static(Option<([f64; 4], f64)>),
    Dynamic(Option<[g::IntervalNumber; 4]>),
    Exact(Option<[Vec<f64>; 4]>),
    Explicit(Option<P3>),
}

fn obs<I: ImplicitPoint3D>(p: &I, w: usize, bump: &Bump) -> Obs {
    match w {
        0 => Obs::Static(p.static_filter().map(|f| ([f.0.x, f.0.y, f.0.z, f.0.d], f.1))),
        1 => Obs::Dynamic(p.dynamic_filter().map(|f| [f.x.clone(), f.y.clone(), f.z.clone(), f.d.clone()])),
        2 => Obs::Exact(p.exact(bump).map(|f| [f.x.to_vec(), f.y.to_vec(), f.z.to_vec(), f.d.to_vec()])),
        3 => Obs::Exact(p.exact(Global).map(|f| [f.x.to_vec(), f.y.to_vec(), f.z.to_vec(), f.d.to_vec()])),
        _ => {
            if p.exact(Global).is_none() {
                Obs::Explicit(None)
            } else {
                let mut d = [0.0; 3];
                p.to_explicit(&mut d);
                Obs::Explicit(Some(d))
            }
        }
    }
}

fn observe(ctx: &mut Ctx, pt: &Pt, valid: bool, o: Obs) {
    let k = pt.kind;
    match o {
        Obs::Static(None) => ctx.count("static:none"),
        Obs::Static(Some((l, _))) => {
            ctx.count("static:some");
            if !ctx.check(valid && l[3] > 0.0, &format!("static-{k}"), || {
                format!("static filter accepted d={:e} for a point with exact determinant sign {}; {}", l[3], pt.h.w.sign(), pt.desc)
            }) {
                return;
            }
            // the determinant must be right to its advertised sign: compare with the exact one
            let err = (Dy::f(l[3]) - &pt.h.w).abs();
            ctx.check(err.cmp(&pt.h.w) == std::cmp::Ordering::Less, &format!("static-d-{k}"), || {
                format!("static determinant {:e} is off by more than its own size from {:e}; {}", l[3], pt.h.w.approx(), pt.desc)
            });
        }
        Obs::Dynamic(None) => ctx.count("dynamic:none"),
        Obs::Dynamic(Some(l)) => {
            ctx.count("dynamic:some");
            if !ctx.check(valid && l[3].positive(), &format!("dynamic-{k}"), || {
                format!("dynamic filter accepted a determinant it does not know to be positive (exact sign before normalisation {}); {}", pt.h.w.sign(), pt.desc)
            }) {
                return;
            }
            for i in 0..4 {
                let w = if i < 3 { &pt.h.c[i] } else { &pt.h.w };
                let a = w.approx();
                if !a.is_finite() || (a != 0.0 && a.abs() < 1e-280) {
                    continue;
                }
                for m in [-1.0, 0.0, 1.0] {
                    let t = a + m * a.abs() * 2f64.powi(-46);
                    let d = &l[i] - &g::IntervalNumber::from(t);
                    let s = (w - Dy::f(t)).sign();
                    ctx.count("enclosure-probes");
                    ctx.check(!(d.positive() && s <= 0) && !(d.negative() && s >= 0), &format!("dynamic-enclosure-{k}"), || {
                        format!("coordinate {i} of the interval representation does not contain the exact value {a:e}; {}", pt.desc)
                    });
                }
            }
        }
        Obs::Exact(None) => {
            ctx.count("exact:none");
            ctx.check(!valid, &format!("exact-none-{k}"), || format!("a well defined point was reported undefined; {}", pt.desc));
        }
        Obs::Exact(Some(l)) => {
            ctx.count("exact:some");
            let v: Vec<Dy> = l.iter().map(|e| Dy::sum_f64(e)).collect();
            if !ctx.check(valid && v[3].sign() > 0, &format!("exact-{k}"), || {
                format!("exact representation has determinant sign {} (point defined: {valid}); {}", v[3].sign(), pt.desc)
            }) {
                return;
            }
            for i in 0..3 {
                ctx.check((&v[i] * &pt.h.w).eq(&(&pt.h.c[i] * &v[3])), &format!("exact-coordinate-{k}"), || {
                    format!("coordinate {i} of the exact representation is not that of the intersection; {}", pt.desc)
                });
            }
            for e in &l {
                ctx.check(e.len() == 1 || e.iter().all(|x| *x != 0.0), &format!("exact-form-{k}"), || {
                    format!("exact representation holds a zero component {e:?}; {}", pt.desc)
                });
            }
        }
        Obs::Explicit(None) => ctx.count("explicit:none"),
        Obs::Explicit(Some(d)) => {
            ctx.count("explicit:some");
            if !valid {
                return;
            }
            for i in 0..3 {
                // |d*w - c| <= 2^-48 |c|
                let err = (Dy::f(d[i]) * &pt.h.w - &pt.h.c[i]).abs() * Dy::f(2f64.powi(48));
                ctx.check(
                    d[i].is_finite() && err.cmp(&pt.h.c[i].abs()) != std::cmp::Ordering::Greater,
                    &format!("to-explicit-{k}"),
                    || format!("rounded coordinate {i} is {:e}, exact {:e}; {}", d[i], pt.h.approx()[i], pt.desc),
                );
            }
        }
    }
}

const ASSUME: &[&str] = &[
    "coordinates whose exact intermediate polynomials fit the double exponent range (lattice precision is chosen from the degree); full 53-bit doubles only in general position",
    "the oracle's big-integer arithmetic (self-tested at start)",
];

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P05",
            rule: "random line-plane and three-plane points on integer/dyadic lattices and full doubles, one in eight degenerate; all representations asked in random order, repeatedly, on originals and clones; non-trivial = the intersection exists",
            assumptions: ASSUME,
            min_obs: &[("valid", 5000), ("degenerate", 500), ("static:some", 1000), ("static:none", 1000), ("dynamic:some", 1000), ("exact:some", 5000)],
            families: vec![fam("representations", 120000, 4000000, repr_case)],
        },
        Property {
            id: "P06",
            rule: "three points of random kinds (27 combinations), free, exactly collinear/coplanar/coincident/axis-aligned through shared lines and planes, or one lattice step off; three projections and three argument orders each; non-trivial = all points exist",
            assumptions: ASSUME,
            min_obs: &[("exact:zero", 5000), ("exact:positive", 5000), ("exact:negative", 5000), ("kinds:TTT", 50), ("kinds:LTE", 50)],
            families: vec![fam("orient2d of represented points", 160000, 5000000, orient2d_case)],
        },
        Property {
            id: "P07",
            rule: "four points of random kinds (81 combinations), free, exactly coplanar/collinear/coincident/axis-aligned through shared lines and planes, or one lattice step off; four argument orders each; non-trivial = all points exist",
            assumptions: ASSUME,
            min_obs: &[("exact:zero", 3000), ("exact:positive", 3000), ("exact:negative", 3000), ("kinds:TTTT", 20), ("kinds:LTET", 20)],
            families: vec![fam("orient3d of represented points", 200000, 6000000, orient3d_case)],
        },
        Property {
            id: "P08",
            rule: "all ordered pairs out of three points of random kinds, in configurations that share coordinates exactly or miss by one lattice step; all three axes; non-trivial = all points exist",
            assumptions: ASSUME,
            min_obs: &[("exact:zero", 3000), ("exact:positive", 3000), ("exact:negative", 3000), ("kinds:ET", 500), ("kinds:TL", 500)],
            families: vec![fam("coordinate comparisons", 100000, 3500000, compare_case)],
        },
    ]
}

/// collinear represented points: is the first one in the closed segment of the other two?
pub fn segment_case(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..10 {
        let ks = kinds(r, 3);
        let st = *r.pick(&[Strat::Collinear, Strat::Collinear, Strat::Coincident, Strat::AxisPlane]);
        let (v, _) = points(r, &ks, 46, st);
        if v.iter().any(|p| p.h.w.is_zero()) {
            continue;
        }
        let col = (0..3).all(|k| {
            let (i, j) = ((k + 1) % 3, (k + 2) % 3);
            hp_orient2d(&v[0].h, &v[1].h, &v[2].h, i, j) == 0
        });
        if !col || hp_eq(&v[1].h, &v[2].h) {
            continue;
        }
        ctx.eval(Some(fingerprint(&v)));
        ctx.sample(|| describe(&v));
        // between in every coordinate
        let want = (0..3).all(|a| hp_cmp(&v[1].h, &v[0].h, a) * hp_cmp(&v[0].h, &v[2].h, a) >= 0);
        for (a, b) in [(1, 2), (2, 1)] {
            ctx.count(&format!("segment_general:{want}"));
            let got = ctx.guard("point_in_segment_general", || describe(&v), || g::point_in_segment_general(&v[0].p, &v[a].p, &v[b].p, &bump));
            if let Some(o) = got {
                ctx.check(o == want, "point_in_segment_general", || format!("returned {o}, exactly {want}; {}", describe(&v)));
            }
        }
    }
}
