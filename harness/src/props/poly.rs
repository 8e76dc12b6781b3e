//! P21 watertight output, P22 clean solids and unions, P23 no invented geometry, P24 independence of order and randomness.
use crate::ctx::*;
use crate::rng::*;
use crate::solid::*;
use gpf::polygonlization::{make_mesh_for_triangles, make_polyhedral_mesh};
use std::collections::HashMap;

type R<T> = Result<T, (String, String)>;
macro_rules! need {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err(($sig.to_string(), format!($($a)*))); } };
}

/// the library is given the points times `unit`, a power of two, and what it returns is divided by it: oracles judge
/// models of moderate size
#[derive(Clone)]
enum Input {
    Tri { unit: f64, pts: Vec<f64>, tri: Vec<usize>, shell: Vec<usize> },
    Poly { unit: f64, pts: Vec<f64>, axes: Vec<f64>, shell: Vec<usize>, edges: Vec<Vec<usize>>, eps: f64 },
}

impl Input {
    fn run(&self) -> (Vec<f64>, Vec<usize>) {
        if std::env::var("GV_SHOW").is_ok() {
            eprintln!("{}", hexp(self));
        }
        let (p, t) = match self.told() {
            Input::Tri { pts, tri, shell, .. } => make_mesh_for_triangles(&pts, &tri, &shell),
            Input::Poly { pts, axes, shell, edges, eps, .. } => make_polyhedral_mesh(&pts, &axes, &shell, &edges, eps),
        };
        (p.iter().map(|x| x / self.unit()).collect(), t)
    }
    fn unit(&self) -> f64 {
        match self {
            Input::Tri { unit, .. } | Input::Poly { unit, .. } => *unit,
        }
    }
    /// as the library gets it
    fn told(&self) -> Input {
        let mut i = self.clone();
        match &mut i {
            Input::Tri { unit, pts, .. } => {
                pts.iter_mut().for_each(|x| *x *= *unit);
                *unit = 1.0;
            }
            Input::Poly { unit, pts, axes, .. } => {
                pts.iter_mut().for_each(|x| *x *= *unit);
                axes.chunks_mut(9).for_each(|a| a[..3].iter_mut().for_each(|x| *x *= *unit));
                *unit = 1.0;
            }
        }
        i
    }
    fn pts(&self) -> &[f64] {
        match self {
            Input::Tri { pts, .. } | Input::Poly { pts, .. } => pts,
        }
    }
    fn faces(&self) -> usize {
        match self {
            Input::Tri { tri, .. } => tri.len() / 3,
            Input::Poly { edges, .. } => edges.len(),
        }
    }
    fn fp(&self) -> u64 {
        let mut f = Fp::new();
        f.fs(self.pts()).u(self.unit() as u64);
        match self {
            Input::Tri { tri, shell, .. } => {
                tri.iter().chain(shell).for_each(|x| {
                    f.u(*x as u64);
                });
            }
            Input::Poly { edges, shell, .. } => {
                edges.iter().flatten().chain(shell).for_each(|x| {
                    f.u(*x as u64);
                });
            }
        }
        f.0
    }
}

/// shells of a scene as one triangle soup
fn as_triangles(r: &mut Rng, shells: &[Solid], unit: f64, soup: bool) -> Input {
    let mut pts = vec![];
    let mut tri = vec![];
    let mut shell = vec![];
    for (k, s) in shells.iter().enumerate() {
        let base = pts.len() / 3;
        if !soup {
            pts.extend(s.pts.iter().flatten());
        }
        for t in s.triangles() {
            let rot = r.below(3);
            for j in 0..3 {
                let v = t[(j + rot) % 3];
                if soup {
                    tri.push(pts.len() / 3);
                    pts.extend(s.pts[v]);
                } else {
                    tri.push(base + v);
                }
            }
            shell.push(k);
        }
    }
    // random order of the triangles
    let mut o: Vec<usize> = (0..shell.len()).collect();
    r.shuffle(&mut o);
    let tri = o.iter().flat_map(|k| tri[3 * k..3 * k + 3].to_vec()).collect();
    let shell = o.iter().map(|k| shell[*k]).collect();
    Input::Tri { unit, pts, tri, shell }
}

/// a tolerance that keeps the model: none only when no positions coincide, a coarse one only on its own grid
fn tolerance(r: &mut Rng, pts: &[f64]) -> f64 {
    match r.below(8) {
        0..=3 => 1e-6,
        4 => *r.pick(&[3e-6, 1e-7]),
        5 => *r.pick(&[1e-9, 1e-12]),
        6 => {
            let mut q: Vec<P> = pts.chunks(3).map(|p| [p[0] + 0.0, p[1] + 0.0, p[2] + 0.0]).collect();
            q.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if q.windows(2).all(|w| w[0] != w[1]) {
                0.0
            } else {
                1e-6
            }
        }
        _ => {
            if pts.iter().all(|x| (x * 8.0).fract() == 0.0) {
                *r.pick(&[0.1, 1e-3])
            } else {
                1e-6
            }
        }
    }
}

fn as_polygons(r: &mut Rng, shells: &[Solid], unit: f64, soup: bool) -> Input {
    let mut pts: Vec<f64> = vec![];
    let mut faces = vec![];
    for (k, s) in shells.iter().enumerate() {
        let base = pts.len() / 3;
        if !soup {
            pts.extend(s.pts.iter().flatten());
        }
        for (i, f) in s.faces.iter().enumerate() {
            let n = crate::solid::unit(&s.face_normal(i));
            let o = s.pts[f[0][0]];
            // longest-enough direction in the plane
            let e = f[0].iter().map(|v| sub(&s.pts[*v], &o)).max_by(|a, b| len(a).partial_cmp(&len(b)).unwrap()).unwrap();
            let x = crate::solid::unit(&e);
            let y = cross(&n, &x);
            let mut pairs = vec![];
            for l in f {
                let ids: Vec<usize> = l
                    .iter()
                    .map(|v| {
                        if soup {
                            pts.extend(s.pts[*v]);
                            pts.len() / 3 - 1
                        } else {
                            base + v
                        }
                    })
                    .collect();
                for j in 0..ids.len() {
                    pairs.push([ids[j], ids[(j + 1) % ids.len()]]);
                }
            }
            r.shuffle(&mut pairs);
            let axes: Vec<f64> = [o, x, y].iter().flatten().copied().collect();
            faces.push((pairs.concat(), axes, k));
        }
    }
    r.shuffle(&mut faces);
    let eps = tolerance(r, &pts);
    Input::Poly {
        unit,
        pts,
        axes: faces.iter().flat_map(|f| f.1.clone()).collect(),
        shell: faces.iter().map(|f| f.2).collect(),
        edges: faces.iter().map(|f| f.0.clone()).collect(),
        eps,
    }
}

/// closed surface with valid indices
fn closed(pts: &[f64], t: &[usize]) -> R<()> {
    need!(pts.len() % 3 == 0 && t.len() % 3 == 0, "length", "{} coordinates, {} indices", pts.len(), t.len());
    need!(pts.iter().all(|x| x.is_finite()), "finite", "a returned coordinate is not finite");
    let n = pts.len() / 3;
    let mut used = vec![false; n];
    let mut m: HashMap<(usize, usize), i64> = HashMap::new();
    for q in t.chunks(3) {
        need!(q.iter().all(|v| *v < n), "index", "triangle {q:?} of {n} points");
        need!(q[0] != q[1] && q[1] != q[2] && q[2] != q[0], "degenerate", "triangle {q:?}");
        for k in 0..3 {
            let (a, b) = (q[k], q[(k + 1) % 3]);
            used[a] = true;
            *m.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { 1 } else { -1 };
        }
    }
    let mut bad: Vec<_> = m.iter().filter(|e| *e.1 != 0).collect();
    bad.sort();
    need!(bad.is_empty(), "open", "{} of {} edges are not balanced, e.g. {:?}", bad.len(), m.len(), &bad[..bad.len().min(4)]);
    need!(used.iter().all(|u| *u), "unused", "a returned point is not used");
    Ok(())
}

struct Scene {
    unit: f64,
    shells: Vec<Solid>,
    what: String,
}

/// clean shells that may overlap each other
fn scene(r: &mut Rng, holes: bool) -> Scene {
    scene_of(r, holes, false)
}

/// determinant positive
const SHEAR: [[P; 3]; 8] = [
    [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
    [[0., 1., 1.], [1., 0., 1.], [1., 1., 0.]],
    [[1., 1., 0.], [-1., 1., 0.], [0., 0., 1.]],
    [[1., 1., 0.], [0., 1., 1.], [1., 0., 1.]],
    // needles, plates and steep slopes
    [[16., 0., 0.], [0., 1., 0.], [0., 0., 0.0625]],
    [[1., 0., 0.], [0., 0.0625, 0.], [0., 0., 4.]],
    [[1., 7., 0.], [0., 1., 0.], [0., 5., 1.]],
    [[1., 0.125, 0.], [0., 1., 0.125], [0.125, 0., 1.]],
];

fn scene_of(r: &mut Rng, holes: bool, large: bool) -> Scene {
    let n = if large { *r.pick(&[1, 2, 2, 3, 4]) } else { *r.pick(&[1, 1, 1, 2, 2, 3]) };
    let lattice = r.chance(1, 2);
    let mut shells = vec![];
    let mut what = vec![];
    for k in 0..n {
        let (name, mut s) = if large && (k == 0 || r.chance(1, 2)) { large_solid(r) } else { any_solid(r, holes) };
        if lattice {
            let m = lattice_rotation(r);
            let o = [r.range(-3, 3) as f64, r.range(-3, 3) as f64, r.range(-3, 3) as f64];
            s.map(|p| add(&rotate(&m, p), &o));
        } else {
            let m = rotation(r);
            let sc = *r.pick(&[1.0, 0.37, 2.5]);
            let o = if k == 0 { [0.0; 3] } else { [r.sym() * 2.0, r.sym() * 2.0, r.sym() * 2.0] };
            s.map(|p| add(&mul(&rotate(&m, p), sc), &o));
        }
        what.push(name);
        shells.push(s);
    }
    let mut unit = 1.0;
    let mut kind = if lattice { " on the lattice" } else { " turned freely" };
    if lattice && shells.iter().all(|s: &Solid| s.pts.iter().flatten().all(|x| (8.0 * x).fract() == 0.0)) && r.chance(1, 2) {
        // exact linear images of the lattice: faces along (1,1,1), (1,1,0), ... whose normals have equal components, and
        // coordinates of many bits, so that products round while coplanar stays coplanar
        // (finer ones are moved by the grid of the usual tolerance)
        let m = *r.pick(&SHEAR);
        let (bits, grid) = *r.pick(&[(0, 0), (0, 0), (15, 15), (30, 15), (30, 15), (28, 28), (42, 42)]);
        let fine = if bits == 0 { 1.0 } else { (r.u64() >> (64 - bits) | 1 << (bits - 1)) as f64 / (1u64 << bits) as f64 };
        unit = (1u64 << (bits - grid)) as f64;
        shells.iter_mut().for_each(|s| s.map(|p| mul(&rotate(&m, p), fine)));
        kind = if grid > 15 { " on a fine sheared lattice" } else { " on a sheared lattice" };
    }
    Scene { unit, shells, what: format!("{}{}", what.join("+"), kind) }
}

fn inside(w: f64) -> Option<i64> {
    if (w - w.round()).abs() < 1e-3 {
        Some(w.round() as i64)
    } else {
        None
    }
}

fn probes(r: &mut Rng, fans: &[Fan], n: usize) -> Vec<P> {
    let mut v = vec![];
    let all: Vec<P> = fans.iter().flatten().flatten().copied().collect();
    let mut lo = all[0];
    let mut hi = all[0];
    for p in &all {
        for k in 0..3 {
            lo[k] = lo[k].min(p[k]);
            hi[k] = hi[k].max(p[k]);
        }
    }
    for _ in 0..n {
        let mut p = [0.0; 3];
        for k in 0..3 {
            p[k] = lo[k] + (hi[k] - lo[k]) * (r.unit() * 1.1 - 0.05);
        }
        v.push(p);
    }
    // close to the faces, on both sides
    for _ in 0..n {
        let f = r.pick(fans);
        let t = r.pick(f);
        let (mut a, mut b) = (r.unit(), r.unit());
        if a + b > 1.0 {
            (a, b) = (1.0 - a, 1.0 - b);
        }
        let (e, g) = (sub(&t[1], &t[0]), sub(&t[2], &t[0]));
        let c = cross(&e, &g);
        if len(&c) < 1e-9 {
            continue;
        }
        let h = *r.pick(&[1e-3, -1e-3, 1e-2, -1e-2]);
        v.push(add(&add(&t[0], &add(&mul(&e, a), &mul(&g, b))), &mul(&unit(&c), h)));
    }
    v
}

fn hexp(i: &Input) -> String {
    match i.told() {
        Input::Tri { pts, tri, shell, .. } => format!("make_mesh_for_triangles({pts:?}, {tri:?}, {shell:?})"),
        Input::Poly { pts, axes, shell, edges, eps, .. } => format!("make_polyhedral_mesh({pts:?}, {axes:?}, {shell:?}, {edges:?}, {eps:e})"),
    }
}

/// distance of p from a triangle
fn distance(t: &[P; 3], p: &P) -> f64 {
    let (e, f) = (sub(&t[1], &t[0]), sub(&t[2], &t[0]));
    let n = cross(&e, &f);
    let d = sub(p, &t[0]);
    let nn = dot(&n, &n);
    // a narrower triangle is as far as its sides; its normal is not to be trusted
    if nn > 1e-18 * dot(&e, &e).max(dot(&f, &f)) {
        let a = dot(&cross(&d, &f), &n) / nn;
        let b = dot(&cross(&e, &d), &n) / nn;
        if a >= 0.0 && b >= 0.0 && a + b <= 1.0 {
            return (dot(&d, &n) / nn.sqrt()).abs();
        }
    }
    let mut best = f64::MAX;
    for k in 0..3 {
        let (a, b) = (t[k], t[(k + 1) % 3]);
        let e = sub(&b, &a);
        let l = dot(&e, &e);
        let u = if l > 0.0 { (dot(&sub(p, &a), &e) / l).clamp(0.0, 1.0) } else { 0.0 };
        best = best.min(len(&sub(p, &add(&a, &mul(&e, u)))));
    }
    best
}
fn clear_of(f: &[[P; 3]], p: &P, d: f64) -> bool {
    f.iter().all(|t| distance(t, p) > d)
}

/// the result encloses exactly the union of the shells
fn union_ok(r: &mut Rng, fans: &[Fan], out: &Fan, n: usize) -> R<(u64, u64)> {
    let (mut i, mut o) = (0, 0);
    for p in probes(r, fans, n) {
        if !fans.iter().all(|f| clear_of(f, &p, 1e-4)) {
            continue;
        }
        let mut want = 0;
        let mut clear = true;
        for f in fans {
            match inside(winding(f, &p)) {
                Some(w) => want |= (w > 0) as i64,
                None => clear = false,
            }
        }
        if !clear {
            continue;
        }
        let w = winding(out, &p);
        need!((w - want as f64).abs() < 1e-3, if want == 1 { "inside" } else { "outside" }, "point {p:?}: expected winding number {want}, the result has {w}");
        if want == 1 {
            i += 1
        } else {
            o += 1
        }
    }
    Ok((i, o))
}

fn clean_input(r: &mut Rng, poly: bool) -> (Scene, Input) {
    clean_input_of(r, poly, false)
}
fn clean_input_of(r: &mut Rng, poly: bool, large: bool) -> (Scene, Input) {
    let sc = scene_of(r, poly, large);
    let soup = r.chance(1, 3);
    let mut inp = if poly { as_polygons(r, &sc.shells, sc.unit, soup) } else { as_triangles(r, &sc.shells, sc.unit, soup) };
    if let Input::Tri { tri, shell, .. } = &mut inp {
        if r.chance(1, 4) {
            collapsed(r, tri, shell);
            jumble(r, tri, shell);
        }
    }
    (sc, inp)
}

// ---------------------------------------------------------------------------------------------- P22

fn clean_case(r: &mut Rng, ctx: &mut Ctx, poly: bool, large: bool) {
    let (sc, inp) = clean_input_of(r, poly, large);
    let d = || format!("{}: {}", sc.what, hexp(&inp));
    let Some((p, t)) = ctx.guard("repair", d, || inp.run()) else { return };
    if let Err((s, m)) = closed(&p, &t) {
        ctx.violate(&s, format!("{m}; {} {}", diagnosis(&inp), d()));
        return;
    }
    let fans: Vec<Fan> = sc.shells.iter().map(|s| s.fan()).collect();
    let out = tris(&p, &t);
    match union_ok(r, &fans, &out, 60) {
        Err((s, m)) => {
            ctx.violate(&s, format!("{m}; {} {}", diagnosis(&inp), d()));
            return;
        }
        Ok((i, o)) => {
            ctx.add("probes-inside", i);
            ctx.add("probes-outside", o);
        }
    }
    if fans.len() == 1 {
        let (a, b) = (volume(&fans[0]), volume(&out));
        if !ctx.check((a - b).abs() <= 1e-5 * area(&fans[0]), "volume", || format!("volume {b}, expected {a}; {} {}", diagnosis(&inp), d())) {
            return;
        }
        let (a, b) = (sc.shells[0].area(), area(&out));
        if !ctx.check((a - b).abs() <= 1e-4 * a, "area", || format!("area {b}, expected {a}; {} {}", diagnosis(&inp), d())) {
            return;
        }
        ctx.count("single-solids");
    } else {
        let (lo, sum) = (fans.iter().map(|f| volume(f)).fold(0.0, f64::max), fans.iter().map(|f| volume(f)).sum::<f64>());
        let (v, tol) = (volume(&out), 1e-5 * fans.iter().map(|f| area(f)).sum::<f64>());
        if !ctx.check(v >= lo - tol && v <= sum + tol, "union-volume", || format!("volume {v}, shells between {lo} and {sum}; {} {}", diagnosis(&inp), d())) {
            return;
        }
        ctx.count("unions");
        if v < sum - 100.0 * tol {
            ctx.count("overlapping-unions");
        }
    }
    ctx.eval(Some(inp.fp()));
    ctx.add("input-faces", inp.faces() as u64);
    ctx.add("output-triangles", t.len() as u64 / 3);
    ctx.sample(|| format!("{}: {} faces in, {} triangles out", sc.what, inp.faces(), t.len() / 3));
}

fn clean_tri(r: &mut Rng, ctx: &mut Ctx) {
    clean_case(r, ctx, false, false)
}
fn clean_poly(r: &mut Rng, ctx: &mut Ctx) {
    clean_case(r, ctx, true, false)
}

fn clean_large(r: &mut Rng, ctx: &mut Ctx) {
    let poly = r.chance(1, 2);
    clean_case(r, ctx, poly, true)
}

// ---------------------------------------------------------------------------------------------- P21

fn spans(pts: &[f64], tri: &[usize]) -> bool {
    let q: Vec<P> = tri.iter().map(|v| [pts[3 * v], pts[3 * v + 1], pts[3 * v + 2]].map(|x| (x * 1e6).round() / 1e6)).collect();
    for t in q.chunks(3) {
        let n = cross(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]));
        if len(&n) < 1e-9 {
            continue;
        }
        return q.iter().any(|p| dot(&sub(p, &t[0]), &n).abs() > 1e-4 * len(&n));
    }
    false
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Usual,
    /// damage about the size of the rounding grid
    Micro,
    Large,
}

/// triangles with everything that real models do wrong
fn defective(r: &mut Rng, mode: Mode) -> (String, Input) {
    loop {
        let mut unit = 1.0;
        let (what, pts, tri, shell) = defective_once(r, mode, &mut unit);
        if spans(&pts, &tri) {
            return (what.to_string(), Input::Tri { unit, pts, tri, shell });
        }
    }
}

fn defective_once(r: &mut Rng, mode: Mode, unit: &mut f64) -> (&'static str, Vec<f64>, Vec<usize>, Vec<usize>) {
    let micro = mode == Mode::Micro;
    let kind = match mode {
        Mode::Micro => *r.pick(&[5, 6, 8]),
        Mode::Large => *r.pick(&[0, 1, 5, 6, 7, 8, 9]),
        Mode::Usual => r.below(12),
    };
    let mut shells_of = |r: &mut Rng| {
        let sc = scene_of(r, false, mode == Mode::Large);
        let soup = r.chance(1, 2);
        *unit = sc.unit;
        match as_triangles(r, &sc.shells, 1.0, soup) {
            Input::Tri { pts, tri, shell, .. } => (pts, tri, shell),
            _ => unreachable!(),
        }
    };
    let drop = |r: &mut Rng, tri: &mut Vec<usize>, shell: &mut Vec<usize>, k: usize| {
        for _ in 0..k.min(shell.len().saturating_sub(2)) {
            let i = r.below(shell.len());
            shell.swap_remove(i);
            let l = tri.len() - 3;
            for j in 0..3 {
                tri.swap(3 * i + j, l + j);
            }
            tri.truncate(l);
        }
    };
    match kind {
        0 => {
            let (pts, mut tri, mut shell) = shells_of(r);
            let k = 1 + r.below(1 + shell.len() / 2);
            drop(r, &mut tri, &mut shell, k);
            ("holes", pts, tri, shell)
        }
        1 => {
            let (pts, mut tri, shell) = shells_of(r);
            for _ in 0..1 + r.below(shell.len()) {
                let i = r.below(shell.len());
                tri.swap(3 * i, 3 * i + 1);
            }
            ("flipped", pts, tri, shell)
        }
        2 => {
            let (pts, mut tri, shell) = shells_of(r);
            let k = r.below(2);
            for i in 0..shell.len() {
                if shell[i] == k {
                    tri.swap(3 * i, 3 * i + 1);
                }
            }
            ("inside-out shell", pts, tri, shell)
        }
        3 | 4 => {
            let lattice = kind == 4;
            let n = 2 + r.below(if lattice { 14 } else { 10 });
            let ns = 1 + r.below(3);
            let m = 4 + r.below(12);
            let lim = r.range(1, 3);
            let pts: Vec<f64> = (0..3 * m).map(|_| if lattice { r.range(0, lim) as f64 } else { r.sym() }).collect();
            let tri: Vec<usize> = (0..3 * n).map(|_| r.below(m)).collect();
            let mut shell: Vec<usize> = (0..n).map(|_| r.below(ns)).collect();
            shell[0] = 0;
            (if lattice { "lattice soup" } else { "random soup" }, pts, tri, shell)
        }
        5 => {
            let (mut pts, mut tri, mut shell) = shells_of(r);
            let n = shell.len();
            let o = if micro { *r.pick(&[[0.0, 0.0, 1e-6], [0.0, 1e-5, 0.0], [1e-5, 3e-5, 2e-5], [0.5, 0.5, 1e-4]]) } else { *r.pick(&[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.5, 0.5, 0.0], [0.0, 0.0, 1e-2], [0.25, 0.0, 0.0]]) };
            for i in 0..n {
                if r.chance(1, 2) {
                    for j in 0..3 {
                        let v = tri[3 * i + j];
                        tri.push(pts.len() / 3);
                        for c in 0..3 {
                            let x = pts[3 * v + c] + o[c];
                            pts.push(x);
                        }
                    }
                    if r.chance(1, 3) {
                        let l = tri.len();
                        tri.swap(l - 1, l - 2);
                    }
                    shell.push(shell[i]);
                }
            }
            ("overlapping copies", pts, tri, shell)
        }
        6 => {
            let (mut pts, tri, shell) = shells_of(r);
            let e = *r.pick(if micro { &[1e-6, 1e-5, 1e-4] } else { &[1e-3, 3e-2, 0.2] });
            for x in &mut pts {
                if r.chance(1, 3) {
                    *x += e * r.sym();
                }
            }
            ("cracks", pts, tri, shell)
        }
        7 => {
            let (pts, tri, mut shell) = shells_of(r);
            shell.iter_mut().for_each(|s| *s = 0);
            ("self-intersecting shell", pts, tri, shell)
        }
        8 => {
            // fins and slivers on a solid
            let (mut pts, mut tri, mut shell) = shells_of(r);
            let n = pts.len() / 3;
            for _ in 0..1 + r.below(6) {
                let (a, b) = (r.below(n), r.below(n));
                let c = if r.chance(1, 2) {
                    r.below(n)
                } else {
                    let u = r.unit();
                    let h = *r.pick(if micro { &[1e-6, 1e-5, 1e-4] } else { &[0.0, 0.0, 1e-2, 0.5] });
                    for k in 0..3 {
                        let x = pts[3 * a + k] * u + pts[3 * b + k] * (1.0 - u) + h * r.sym();
                        pts.push(x);
                    }
                    pts.len() / 3 - 1
                };
                tri.extend([a, b, c]);
                shell.push(*r.pick(&shell.clone()));
            }
            ("fins and slivers", pts, tri, shell)
        }
        9 => {
            // T-junctions: a corner in the middle of a neighbour's side
            let (mut pts, mut tri, mut shell) = shells_of(r);
            for _ in 0..1 + r.below(4) {
                let i = r.below(shell.len());
                let j = r.below(3);
                let (a, b, c) = (tri[3 * i + j], tri[3 * i + (j + 1) % 3], tri[3 * i + (j + 2) % 3]);
                let m = pts.len() / 3;
                let u = *r.pick(&[0.5, 0.25, 0.3]);
                for k in 0..3 {
                    let x = pts[3 * a + k] * u + pts[3 * b + k] * (1.0 - u);
                    pts.push(x);
                }
                tri[3 * i..3 * i + 3].copy_from_slice(&[a, m, c]);
                tri.extend([m, b, c]);
                shell.push(shell[i]);
            }
            ("T-junctions", pts, tri, shell)
        }
        10 => {
            let (mut pts, mut tri, mut shell) = shells_of(r);
            for _ in 0..1 + r.below(5) {
                let (a, b) = (*r.pick(&tri), *r.pick(&tri));
                if r.chance(1, 2) {
                    tri.extend([a, a, b]);
                } else {
                    let m = pts.len() / 3;
                    for k in 0..3 {
                        let x = 2.0 * pts[3 * a + k] - pts[3 * b + k];
                        pts.push(x);
                    }
                    tri.extend([a, b, m]);
                }
                shell.push(shell[0]);
            }
            ("degenerate triangles", pts, tri, shell)
        }
        _ => {
            // nested shell with reversed orientation in the same or another shell
            let (_, s) = any_solid(r, false);
            let mut i = s.reversed();
            let o = [0.3 * r.sym(), 0.3 * r.sym(), 0.3 * r.sym()];
            let f = *r.pick(&[0.25, 0.5, 0.9]);
            i.map(|p| add(&mul(p, f), &o));
            let (pts, tri, mut shell) = match as_triangles(r, &[s, i], 1.0, false) {
                Input::Tri { pts, tri, shell, .. } => (pts, tri, shell),
                _ => unreachable!(),
            };
            if r.chance(1, 2) {
                shell.iter_mut().for_each(|s| *s = 0);
            }
            ("cavity", pts, tri, shell)
        }
    }
}

/// planar polygons with holes; faces removed, reversed or doubled
fn defective_poly(r: &mut Rng) -> (String, Input) {
    let mut sc = scene(r, true);
    let mut what = sc.what.clone();
    for s in &mut sc.shells {
        match r.below(4) {
            0 => {
                let k = 1 + r.below(s.faces.len() / 2);
                for _ in 0..k {
                    let i = r.below(s.faces.len());
                    s.faces.swap_remove(i);
                }
                what += " -faces";
            }
            1 => {
                for _ in 0..1 + r.below(s.faces.len()) {
                    let i = r.below(s.faces.len());
                    s.faces[i].iter_mut().for_each(|l| l.reverse());
                }
                what += " reversed";
            }
            2 => {
                let i = r.below(s.faces.len());
                let f = s.faces[i].clone();
                s.faces.push(f);
                what += " doubled";
            }
            _ => {}
        }
    }
    let soup = r.chance(1, 2);
    let inp = as_polygons(r, &sc.shells, sc.unit, soup);
    (what, inp)
}

fn watertight_case(r: &mut Rng, ctx: &mut Ctx, what: String, inp: Input) {
    let d = || format!("{what}: {}", hexp(&inp));
    let Some((p, t)) = ctx.guard("repair", d, || inp.run()) else { return };
    if let Err((s, m)) = closed(&p, &t) {
        ctx.violate(&s, format!("{m}; {} {}", diagnosis(&inp), d()));
        return;
    }
    let out = tris(&p, &t);
    if !t.is_empty() {
        // the boundary of a solid: it winds around no point more than once and never backwards
        for q in probes(r, &[out.clone()], 25) {
            if !clear_of(&out, &q, 1e-5) {
                continue;
            }
            let w = winding(&out, &q);
            if !ctx.check((w - 0.0).abs() < 1e-3 || (w - 1.0).abs() < 1e-3, "winding", || format!("point {q:?}: the result winds around it {w} times; {} {}", diagnosis(&inp), d())) {
                return;
            }
            ctx.count("probes");
        }
        // within the box of the input
        let ip = inp.pts();
        for k in 0..3 {
            let (lo, hi) = ip.iter().skip(k).step_by(3).fold((f64::MAX, f64::MIN), |a, x| (a.0.min(*x), a.1.max(*x)));
            if !ctx.check(p.iter().skip(k).step_by(3).all(|x| *x >= lo - 1e-5 && *x <= hi + 1e-5), "box", || format!("a returned point lies outside of the input's box; {} {}", diagnosis(&inp), d())) {
                return;
            }
        }
        ctx.count("non-empty");
    }
    ctx.eval(Some(inp.fp()));
    ctx.count(&format!("kind:{}", what.split(':').next().unwrap().split(" on ").next().unwrap().split(" turned").next().unwrap().split('+').next().unwrap()));
    ctx.add("output-triangles", t.len() as u64 / 3);
    ctx.sample(|| format!("{what}: {} faces in, {} triangles out", inp.faces(), t.len() / 3));
}

fn watertight_tri(r: &mut Rng, ctx: &mut Ctx) {
    let (w, i) = defective(r, Mode::Usual);
    watertight_case(r, ctx, w, i)
}
fn watertight_large(r: &mut Rng, ctx: &mut Ctx) {
    let (w, i) = defective(r, Mode::Large);
    watertight_case(r, ctx, format!("large {w}"), i)
}
fn watertight_micro(r: &mut Rng, ctx: &mut Ctx) {
    let (w, i) = defective(r, Mode::Micro);
    watertight_case(r, ctx, format!("micro {w}"), i)
}
fn watertight_poly(r: &mut Rng, ctx: &mut Ctx) {
    let (w, i) = defective_poly(r);
    watertight_case(r, ctx, format!("polygons:{w}"), i)
}

// ---------------------------------------------------------------------------------------------- P23

/// nothing sticks out of the convex hull of the input, judged in many directions
fn within_hull(r: &mut Rng, inp: &Input, p: &[f64], t: &[usize]) -> R<()> {
    let ip = inp.pts();
    let out = tris(p, t);
    let mut dirs: Vec<P> = (0..20).map(|_| [r.sym(), r.sym(), r.sym()]).collect();
    dirs.extend([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
    for _ in 0..20.min(out.len()) {
        let q = r.pick(&out);
        let n = cross(&sub(&q[1], &q[0]), &sub(&q[2], &q[0]));
        if len(&n) > 1e-6 {
            dirs.push(n);
        }
    }
    for d in dirs {
        if len(&d) < 1e-9 {
            continue;
        }
        let d = unit(&d);
        let reach = |v: &[f64]| v.chunks(3).map(|q| q[0] * d[0] + q[1] * d[1] + q[2] * d[2]).fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x), a.1.max(x)));
        let (a, b) = (reach(ip), reach(p));
        need!(b.0 >= a.0 - 1e-5 && b.1 <= a.1 + 1e-5, "hull", "along {d:?} the input reaches {a:?}, the result {b:?}");
    }
    Ok(())
}

/// on clean shells: the result lies on the shells, and where a shell is the border of the union, the result is there
fn same_surface(r: &mut Rng, fans: &[Fan], faces: &[Vec<(Fan, P)>], out: &Fan) -> R<(u64, u64)> {
    let mut n = (0, 0);
    for _ in 0..40.min(3 * out.len()) {
        let q = r.pick(out);
        let c = cross(&sub(&q[1], &q[0]), &sub(&q[2], &q[0]));
        if len(&c) < 1e-5 {
            continue;
        }
        let (mut a, mut b) = (r.unit(), r.unit());
        if a + b > 1.0 {
            (a, b) = (1.0 - a, 1.0 - b);
        }
        let x = add(&q[0], &add(&mul(&sub(&q[1], &q[0]), a), &mul(&sub(&q[2], &q[0]), b)));
        // rounding to the grid turns a short triangle visibly
        let on = faces.iter().flatten().any(|(f, m)| dot(&unit(&c), m) > 0.9 && f.iter().any(|t| distance(t, &x) < 1e-5));
        need!(on, "stray", "point {x:?} of a returned triangle with normal {:?} is on no input face of that side", unit(&c));
        n.0 += 1;
    }
    for _ in 0..40 {
        let k = r.below(faces.len());
        let (f, m) = r.pick(&faces[k]);
        let t = r.pick(f);
        let (mut a, mut b) = (r.unit(), r.unit());
        if a + b > 1.0 {
            (a, b) = (1.0 - a, 1.0 - b);
        }
        let x = add(&t[0], &add(&mul(&sub(&t[1], &t[0]), a), &mul(&sub(&t[2], &t[0]), b)));
        let (o, i) = (add(&x, &mul(m, 1e-4)), add(&x, &mul(m, -1e-4)));
        let clear = |y: &P| fans.iter().all(|f| clear_of(f, y, 5e-5));
        if !clear(&o) || !clear(&i) {
            continue;
        }
        let full = |y: &P| fans.iter().any(|f| winding(f, y) > 0.5);
        if full(&o) || !full(&i) {
            continue;
        }
        // another face may pass between the point and its outer probe
        let same = |t: &[P; 3]| distance(t, &x) > 3e-4 || t.iter().all(|v| dot(&sub(v, &x), m).abs() < 1e-9);
        if !fans.iter().flatten().all(same) {
            continue;
        }
        need!(out.iter().any(|t| distance(t, &x) < 1e-5), "gap", "point {x:?} of the border of the shells is not on the result");
        n.1 += 1;
    }
    Ok(n)
}

fn surface_case(r: &mut Rng, ctx: &mut Ctx) {
    let poly = r.chance(1, 2);
    let (sc, inp) = clean_input(r, poly);
    let d = || format!("{}: {}", sc.what, hexp(&inp));
    let Some((p, t)) = ctx.guard("repair", d, || inp.run()) else { return };
    let fans: Vec<Fan> = sc.shells.iter().map(|s| s.fan()).collect();
    let faces: Vec<Vec<(Fan, P)>> = sc
        .shells
        .iter()
        .map(|s| {
            (0..s.faces.len())
                .map(|i| {
                    let one = Solid { pts: s.pts.clone(), faces: vec![s.faces[i].clone()] };
                    // a face with holes or notches as proper pieces: only the outer fan is needed to find points near it
                    (one.fan(), unit(&s.face_normal(i)))
                })
                .collect()
        })
        .collect();
    let out = tris(&p, &t);
    let res = within_hull(r, &inp, &p, &t).and_then(|_| same_surface(r, &fans, &faces, &out));
    match res {
        Err((s, m)) => ctx.violate(&s, format!("{m}; {} {}", diagnosis(&inp), d())),
        Ok((a, b)) => {
            ctx.eval(Some(inp.fp()));
            ctx.add("result-points-on-input", a);
            ctx.add("border-points-on-result", b);
            ctx.sample(|| format!("{}: {} faces in, {} triangles out", sc.what, inp.faces(), t.len() / 3));
        }
    }
}

fn hull_case(r: &mut Rng, ctx: &mut Ctx) {
    let (what, inp) = any_input(r);
    let d = || format!("{what}: {}", hexp(&inp));
    let Some((p, t)) = ctx.guard("repair", d, || inp.run()) else { return };
    if let Err((s, m)) = within_hull(r, &inp, &p, &t) {
        ctx.violate(&s, format!("{m}; {}", d()));
        return;
    }
    ctx.eval(Some(inp.fp()));
    ctx.add("returned-points", p.len() as u64 / 3);
}

// ---------------------------------------------------------------------------------------------- P24

/// triangles with two equal corners
fn collapsed(r: &mut Rng, tri: &mut Vec<usize>, shell: &mut Vec<usize>) {
    for _ in 0..1 + r.below(3) {
        let (a, b) = (*r.pick(tri), *r.pick(tri));
        tri.extend(*r.pick(&[[a, b, a], [a, a, b], [b, a, a], [a, a, a]]));
        shell.push(*r.pick(&shell.clone()));
    }
}

fn jumble(r: &mut Rng, tri: &mut Vec<usize>, shell: &mut Vec<usize>) {
    let mut o: Vec<usize> = (0..shell.len()).collect();
    r.shuffle(&mut o);
    *tri = o.iter().flat_map(|i| tri[3 * i..3 * i + 3].to_vec()).collect();
    *shell = o.iter().map(|i| shell[*i]).collect();
}

/// the same scene told differently
fn retold(r: &mut Rng, sc: &Scene, poly: bool) -> (Vec<&'static str>, Input) {
    let mut how = vec![];
    // shells in another order
    let mut shells = sc.shells.clone();
    if shells.len() > 1 && r.chance(1, 2) {
        r.shuffle(&mut shells);
        how.push("shells reordered");
    }
    for s in &mut shells {
        // vertices renumbered
        if r.chance(2, 3) {
            let mut o: Vec<usize> = (0..s.pts.len()).collect();
            r.shuffle(&mut o);
            let mut pts = s.pts.clone();
            for (i, k) in o.iter().enumerate() {
                pts[*k] = s.pts[i];
            }
            s.pts = pts;
            for l in s.faces.iter_mut().flatten() {
                l.iter_mut().for_each(|v| *v = o[*v]);
            }
            how.push("vertices renumbered");
        }
        // loops started elsewhere
        for l in s.faces.iter_mut().flatten() {
            let k = r.below(l.len());
            l.rotate_left(k);
        }
        r.shuffle(&mut s.faces);
    }
    let soup = r.chance(1, 2);
    if soup {
        how.push("no shared vertices");
    }
    let mut inp = if poly { as_polygons(r, &shells, sc.unit, soup) } else { as_triangles(r, &shells, sc.unit, soup) };
    match &mut inp {
        Input::Tri { pts, tri, shell, .. } => {
            if r.chance(1, 3) {
                // the same triangles again
                for _ in 0..1 + r.below(4) {
                    let i = r.below(shell.len());
                    let t = tri[3 * i..3 * i + 3].to_vec();
                    tri.extend(t);
                    shell.push(shell[i]);
                }
                how.push("triangles repeated");
            }
            if r.chance(1, 3) {
                // triangles without area
                collapsed(r, tri, shell);
                how.push("degenerate triangles added");
            }
            if r.chance(1, 3) {
                // triangles cut in two, the other triangle at that side too
                let mut cut: HashMap<[u64; 6], usize> = HashMap::new();
                let key = |pts: &[f64], a: usize, b: usize| {
                    let q = |v: usize| [pts[3 * v].to_bits(), pts[3 * v + 1].to_bits(), pts[3 * v + 2].to_bits()];
                    let (a, b) = (q(a).min(q(b)), q(a).max(q(b)));
                    [a[0], a[1], a[2], b[0], b[1], b[2]]
                };
                let i = r.below(shell.len());
                let j = r.below(3);
                let (a, b) = (tri[3 * i + j], tri[3 * i + (j + 1) % 3]);
                let m = pts.len() / 3;
                let mid: Vec<f64> = (0..3).map(|k| 0.5 * (pts[3 * a + k] + pts[3 * b + k])).collect();
                cut.insert(key(pts, a, b), m);
                pts.extend(mid);
                for t in 0..shell.len() {
                    for j in 0..3 {
                        let (a, b, c) = (tri[3 * t + j], tri[3 * t + (j + 1) % 3], tri[3 * t + (j + 2) % 3]);
                        if let Some(m) = cut.get(&key(pts, a, b)) {
                            tri[3 * t..3 * t + 3].copy_from_slice(&[a, *m, c]);
                            tri.extend([*m, b, c]);
                            shell.push(shell[t]);
                            break;
                        }
                    }
                }
                how.push("a side divided");
            }
            if r.chance(1, 4) {
                let k = r.below(1 + pts.len() / 3);
                // an unused copy of a vertex, in the middle of the list
                let p: Vec<f64> = pts[..3].to_vec();
                for (j, x) in p.iter().enumerate() {
                    pts.insert(3 * k + j, *x);
                }
                tri.iter_mut().for_each(|v| *v += (*v >= k) as usize);
                how.push("unused vertex");
            }
            if r.chance(2, 3) {
                jumble(r, tri, shell);
                how.push("triangles reordered");
            }
        }
        Input::Poly { axes, .. } => {
            // other axes of the same plane
            for a in axes.chunks_mut(9) {
                let (x, y): (P, P) = ([a[3], a[4], a[5]], [a[6], a[7], a[8]]);
                let (s, c) = (r.sym() * 3.0).sin_cos();
                let f = *r.pick(&[1.0, 0.5, 3.0]);
                let (nx, ny) = (mul(&add(&mul(&x, c), &mul(&y, s)), f), mul(&add(&mul(&y, c), &mul(&x, -s)), f));
                a[3..6].copy_from_slice(&nx);
                a[6..9].copy_from_slice(&ny);
            }
            how.push("axes turned");
        }
    }
    how.sort();
    how.dedup();
    (how, inp)
}

fn retold_case(r: &mut Rng, ctx: &mut Ctx) {
    let holes = r.chance(1, 4);
    let sc = scene(r, holes);
    let soup = r.chance(1, 2);
    let base = if holes { as_polygons(r, &sc.shells, sc.unit, soup) } else { as_triangles(r, &sc.shells, sc.unit, soup) };
    let d = || format!("{}: {}", sc.what, hexp(&base));
    let Some((p, t)) = ctx.guard("repair", d, || base.run()) else { return };
    let a = tris(&p, &t);
    let fans: Vec<Fan> = sc.shells.iter().map(|s| s.fan()).collect();
    let qs: Vec<P> = probes(r, &fans, 25).into_iter().filter(|q| fans.iter().all(|f| clear_of(f, q, 1e-4))).collect();
    let total: f64 = fans.iter().map(|f| area(f)).sum();
    for _ in 0..2 {
        let poly = holes || r.chance(1, 3);
        let (how, inp) = retold(r, &sc, poly);
        let d = || format!("{} ({}): {} after {}", sc.what, how.join(", "), hexp(&inp), hexp(&base));
        let Some((p, t)) = ctx.guard("repair-again", d, || inp.run()) else { return };
        let b = tris(&p, &t);
        let (va, vb) = (volume(&a), volume(&b));
        if !ctx.check((va - vb).abs() <= 1e-5 * total, "volume", || format!("volume {va}, told differently {vb}; {}", d())) {
            return;
        }
        // faces on a fine lattice are coplanar only up to the grid, and walls between them may remain
        let (sa, sb) = if sc.what.contains("fine") { (0.0, 0.0) } else { (area(&a), area(&b)) };
        if !ctx.check((sa - sb).abs() <= 1e-4 * total, "area", || format!("area {sa}, told differently {sb}; {}", d())) {
            return;
        }
        for q in &qs {
            let (x, y) = (winding(&a, q), winding(&b, q));
            if !ctx.check((x - y).abs() < 1e-3, "winding", || format!("point {q:?}: {x} times, told differently {y} times; {}", d())) {
                return;
            }
            ctx.count("probes");
        }
        for h in &how {
            ctx.count(h);
        }
        if poly != holes {
            ctx.count("triangles-against-polygons");
        }
    }
    ctx.eval(Some(base.fp()));
    ctx.sample(|| format!("{}: {} faces", sc.what, base.faces()));
}

// ---------------------------------------------------------------------------------------------- P25, P26, P27

fn any_input(r: &mut Rng) -> (String, Input) {
    match r.below(6) {
        0 | 1 => {
            let (s, i) = clean_input(r, false);
            (s.what, i)
        }
        2 => {
            let (s, i) = clean_input(r, true);
            (s.what, i)
        }
        3 => defective_poly(r),
        _ => defective(r, Mode::Usual),
    }
}

// ---------------------------------------------------------------------------------------------- P30

/// a repaired surface repaired again encloses the same solid
fn again(r: &mut Rng, ctx: &mut Ctx) {
    let (what, inp) = any_input(r);
    let d = || format!("{what}: {}", hexp(&inp));
    let Some((p, t)) = ctx.guard("repair", d, || inp.run()) else { return };
    if t.is_empty() {
        ctx.count("nothing-enclosed");
        return;
    }
    // cells thinner than the rounding grid may be all that is chosen
    if !spans(&p, &t) {
        ctx.count("nothing-wider-than-rounding");
        return;
    }
    let shell = vec![0; t.len() / 3];
    let once = Input::Tri { unit: inp.unit(), pts: p, tri: t, shell };
    let d = || format!("{}; the result of {what}: {}", hexp(&once), hexp(&inp));
    let Some((p, t)) = ctx.guard("repair-again", d, || once.run()) else { return };
    if let Err((s, m)) = closed(&p, &t) {
        ctx.violate(&s, format!("{m}; {} {}", diagnosis(&once), d()));
        return;
    }
    let Input::Tri { pts, tri, .. } = &once else { unreachable!() };
    let (a, b) = (tris(pts, tri), tris(&p, &t));
    let total = area(&a);
    let (va, vb) = (volume(&a), volume(&b));
    if !ctx.check((va - vb).abs() <= 1e-5 * total, "volume", || format!("volume {va}, repaired again {vb}; {} {}", diagnosis(&once), d())) {
        return;
    }
    for q in probes(r, &[a.clone()], 25) {
        if !clear_of(&a, &q, 1e-4) {
            continue;
        }
        let (x, y) = (winding(&a, &q), winding(&b, &q));
        if !ctx.check((x - y).abs() < 1e-3, "winding", || format!("point {q:?}: {x} times, repaired again {y} times; {} {}", diagnosis(&once), d())) {
            return;
        }
        ctx.count("probes");
    }
    ctx.eval(Some(inp.fp()));
    ctx.add("triangles-again", t.len() as u64 / 3);
    ctx.sample(|| format!("{what}: {} triangles repaired, {} repaired again", a.len(), b.len()));
}

/// monitors of the subdivision, which need the observation hook
#[cfg(verif_hooks)]
mod observed {
    use super::*;
    use crate::complexes::Complex;
    use gpf::polygonlization::verif::{Recorder, RECORDER};

    fn record(inp: &Input, every: usize) -> Recorder {
        RECORDER.with(|r| *r.borrow_mut() = Some(Recorder { stage_every: every, ..Recorder::default() }));
        inp.run();
        RECORDER.with(|r| r.borrow_mut().take().unwrap())
    }

    /// what the recorded subdivision looks like when the same input is repaired again
    pub fn diagnosis(inp: &Input) -> String {
        let Ok(rec) = crate::ctx::catch(|| record(inp, 0)) else { return "(not repeatable)".into() };
        let Some((snap, part)) = &rec.last else { return String::new() };
        let r: R<()> = (|| {
            let cx = Complex::new(snap)?;
            cx.well_formed()?;
            let cov = cx.coverage(&part.shell_of_triangle)?;
            let facing = cx.facing(&cov, &part.shell_of_triangle);
            cx.marked(&facing, part)?;
            for (s, f) in facing.iter().enumerate() {
                if let Some((cost, least)) = cx.costs(f, &part.inside[s]) {
                    need!(cost <= least + 2 * snap.faces.len() as i64 + 1100, "cost", "shell {s}: {cost} > {least}");
                }
            }
            Ok(())
        })();
        match r {
            Ok(()) => "[subdivision, coverage and labels of a second run are right]".into(),
            Err((s, m)) => format!("[subdivision of a second run: {s}: {m}]"),
        }
    }

    fn complex_case(r: &mut Rng, ctx: &mut Ctx, which: u32) {
        let (what, inp) = any_input(r);
        let every = if which == 25 { 1 + r.below(40) } else { 0 };
        let d = || format!("{what}: {}", hexp(&inp));
        let Some(rec) = ctx.guard("repair", d, || record(&inp, every)) else { return };
        let Some((snap, part)) = &rec.last else {
            ctx.violate("no-partition", format!("no partition took place; {}", d()));
            return;
        };
        let res: R<()> = (|| {
            let cx = Complex::new(snap)?;
            if which == 25 {
                let st = cx.well_formed()?;
                ctx.add("cells", st.cells);
                ctx.add("faces", st.faces);
                ctx.add("vertices", st.vertices);
                ctx.add("implicit-vertices", st.implicit);
                ctx.add("splits", rec.n_splits as u64);
                let n = rec.stages.len();
                for _ in 0..2.min(n) {
                    let s = &rec.stages[r.below(n)];
                    Complex::new(s)?.well_formed().map_err(|(s, m)| (s, format!("in an intermediate stage: {m}")))?;
                    ctx.count("stages");
                }
                return Ok(());
            }
            let cov = cx.coverage(&part.shell_of_triangle)?;
            let facing = cx.facing(&cov, &part.shell_of_triangle);
            if which == 26 {
                need!(snap.pending.iter().all(|p| p.is_empty()), "pending", "triangles remain that should still cut a cell");
                let k = cx.marked(&facing, part)?;
                ctx.add("triangles", cov.len() as u64);
                ctx.add("faces-on-triangles", k);
                ctx.add("faces", snap.faces.len() as u64);
                return Ok(());
            }
            for (s, f) in facing.iter().enumerate() {
                let Some((cost, least)) = cx.costs(f, &part.inside[s]) else {
                    ctx.count("contradictory-shells");
                    continue;
                };
                ctx.count("shells");
                if least > 0 {
                    ctx.count("shells-with-positive-cost");
                }
                let tol = 2 * snap.faces.len() as i64 + 1100;
                need!(cost <= least + tol, "cost", "shell {s}: the chosen inside costs {cost}, {least} is possible");
                need!(cost >= least - tol, "oracle", "shell {s}: the chosen inside costs {cost}, less than the least {least}");
            }
            Ok(())
        })();
        if let Err((s, m)) = res {
            ctx.violate(&s, format!("{m}; {}", d()));
            return;
        }
        ctx.eval(Some(inp.fp()));
        ctx.sample(|| format!("{what}: {} cells, {} faces, {} splits", snap.cells.len(), snap.faces.len(), rec.n_splits));
    }

    /// the returned surface is the border of the cells chosen
    pub fn chosen_cells(r: &mut Rng, ctx: &mut Ctx) {
        let (what, inp) = any_input(r);
        let d = || format!("{what}: {}", hexp(&inp));
        RECORDER.with(|x| *x.borrow_mut() = Some(Recorder::default()));
        let Some((p, t)) = ctx.guard("repair", d, || inp.run()) else { return };
        let rec = RECORDER.with(|x| x.borrow_mut().take().unwrap());
        let Some((snap, part)) = &rec.last else { return };
        let cx = match Complex::new(snap) {
            Ok(c) => c,
            Err((s, m)) => return ctx.violate(&s, format!("{m}; {}", d())),
        };
        let p: Vec<f64> = p.iter().map(|x| x * (inp.unit() / cx.unit)).collect();
        let n = snap.cells.len();
        let kept: Vec<bool> = (0..=n).map(|c| c < n && part.inside.iter().any(|s| s[c])).collect();
        let side = |c: usize| kept[c.min(n)];
        let border: Vec<usize> = (0..snap.faces.len()).filter(|f| side(snap.faces[*f].cells[0]) != side(snap.faces[*f].cells[1])).collect();
        let want: f64 = border.iter().map(|f| cx.areas[*f]).sum();
        let total: f64 = cx.areas.iter().sum();
        let out = tris(&p, &t);
        let have = area(&out);
        if !ctx.check((want - have).abs() <= 1e-6 * total, "area", || format!("the cells chosen have a border of {want}, the result an area of {have}; {}", d())) {
            return;
        }
        let mut inside = 0;
        for _ in 0..40.min(n) {
            let c = r.below(n);
            let q = cx.center(c);
            if !clear_of(&out, &q, 1e-6) {
                continue;
            }
            // the surface is closed: anything wrong is wrong by one; slivers close by cost the sum some digits
            let w = winding(&out, &q);
            let k = kept[c] as i32 as f64;
            if !ctx.check((w - k).abs() < 0.25, "cell", || format!("cell {c} around {q:?} is {}, the result winds around it {w} times; {}", if kept[c] { "chosen" } else { "not chosen" }, d())) {
                return;
            }
            ctx.count("cells");
            inside += kept[c] as u64;
        }
        // every returned point is a vertex of the border
        let key = |q: &P| q.map(|x| (x * 1e6).round() as i64);
        let mut at: HashMap<[i64; 3], Vec<P>> = HashMap::new();
        for f in &border {
            for v in &snap.faces[*f].vertices {
                let q = cx.v[*v].p;
                at.entry(key(&q)).or_default().push(q);
            }
        }
        for q in p.chunks(3) {
            let q: P = [q[0], q[1], q[2]];
            let k = key(&q);
            let near = (-1..=1).any(|a| (-1..=1).any(|b| (-1..=1).any(|c| at.get(&[k[0] + a, k[1] + b, k[2] + c]).is_some_and(|l| l.iter().any(|s| len(&sub(s, &q)) < 1e-9)))));
            if !ctx.check(near, "vertex", || format!("returned point {q:?} is no corner of the cells chosen; {}", d())) {
                return;
            }
        }
        ctx.eval(Some(inp.fp()));
        ctx.add("cells-inside", inside);
        ctx.add("border-faces", border.len() as u64);
        ctx.add("returned-points", p.len() as u64 / 3);
    }

    pub fn complex25(r: &mut Rng, ctx: &mut Ctx) {
        complex_case(r, ctx, 25)
    }
    pub fn complex26(r: &mut Rng, ctx: &mut Ctx) {
        complex_case(r, ctx, 26)
    }
    pub fn complex27(r: &mut Rng, ctx: &mut Ctx) {
        complex_case(r, ctx, 27)
    }
}
/// Five points in two tetrahedra on one base, each of the seven triangles absent, facing one way or the other, in two or
/// three shells: the cells are known without looking inside the library, so is the cheapest choice for every shell.
fn two_cells(r: &mut Rng, ctx: &mut Ctx) {
    let n = 1 + r.below(2);
    let (v, tv) = loop {
        let v: Vec<P> = (0..5).map(|_| [0; 3].map(|_| if n == 1 { r.range(-9, 9) as f64 } else { r.range(-640, 640) as f64 / 64.0 })).collect();
        let o = |a: usize, b: usize, c: usize, d: usize| crate::fast::o3(&v[a], &v[b], &v[c], &v[d]);
        // 0 1 2 is the base, 3 above, 4 below; 3-4 goes through it
        let s = o(0, 1, 2, 3);
        if s == 0 || o(0, 1, 2, 4) != -s || [(0, 1), (1, 2), (2, 0)].iter().any(|&(a, b)| o(a, b, 3, 4) != o(0, 1, 3, 4) || o(a, b, 3, 4) == 0) {
            continue;
        }
        // and two tetrahedra fill the hull
        if crate::fast::insphere(&v[0], &v[1], &v[2], &v[3], &v[4]) * s <= 0 {
            continue;
        }
        let vol = |a: usize| dot(&sub(&v[1], &v[0]), &cross(&sub(&v[2], &v[0]), &sub(&v[a], &v[0]))) / 6.0;
        let (up, down) = (vol(3), vol(4));
        let v = if up > 0.0 { v } else { vec![v[0], v[2], v[1], v[3], v[4]] };
        break (v, [up.abs(), down.abs()]);
    };
    // outward for the upper cell: the base and three sides; for the lower cell: three sides
    let f = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3], [1, 0, 4], [2, 1, 4], [0, 2, 4]];
    let ar = f.map(|t| len(&cross(&sub(&v[t[1]], &v[t[0]]), &sub(&v[t[2]], &v[t[0]]))) / 2.0);
    let (mut tri, mut shell) = (vec![], vec![]);
    let mut kept = [false; 2];
    let mut margin = f64::MAX;
    // one shell is complete, mostly facing inward: no edge lies on coplanar triangles only, so nothing else is cut
    let complete = r.below(n + 1);
    for k in 0..=n {
        let mut st = [0; 7];
        for s in &mut st {
            *s = *r.pick(if k == complete { &[2, 2, 2, 1] } else { &[0, 1, 1, 1, 2] });
        }
        if st.iter().all(|s| *s == 0) {
            st[0] = 1;
        }
        let cost = |c: [bool; 2]| -> f64 {
            (0..7).map(|i| {
                let (behind, front) = if i == 0 { (c[0], c[1]) } else { (c[(i >= 4) as usize], false) };
                let out = i > 0;
                match st[i] {
                    0 => if behind != front { ar[i] } else { 0.0 },
                    1 => 0.5 * ar[i] * (!behind as i32 + (front && !out) as i32) as f64,
                    _ => 0.5 * ar[i] * (behind as i32 + (!front && !out) as i32) as f64,
                }
            }).sum()
        };
        let mut l: Vec<(f64, [bool; 2])> = [[false, false], [false, true], [true, false], [true, true]].iter().map(|c| (cost(*c), *c)).collect();
        l.sort_by(|a, b| a.0.total_cmp(&b.0));
        margin = margin.min((l[1].0 - l[0].0) / ar.iter().sum::<f64>());
        for i in 0..2 {
            kept[i] |= l[0].1[i];
        }
        for i in 0..7 {
            if st[i] > 0 {
                let t = if st[i] == 1 { f[i] } else { [f[i][0], f[i][2], f[i][1]] };
                let j = r.below(3);
                tri.push([t[j], t[(j + 1) % 3], t[(j + 2) % 3]]);
                shell.push(k);
            }
        }
    }
    // the choice must be clear
    if margin < 1e-6 {
        ctx.count("two-cells-undecided");
        return;
    }
    for i in (1..tri.len()).rev() {
        let j = r.below(i + 1);
        tri.swap(i, j);
        shell.swap(i, j);
    }
    let p: Vec<f64> = v.iter().flatten().copied().collect();
    let t: Vec<usize> = tri.iter().flatten().copied().collect();
    let d = || format!("make_mesh_for_triangles({p:?}, {t:?}, {shell:?})");
    let Some((q, u)) = ctx.guard("repair", d, || gpf::polygonlization::make_mesh_for_triangles(&p, &t, &shell)) else { return };
    let got = tris(&q, &u).iter().map(|t| dot(&t[0], &cross(&t[1], &t[2]))).sum::<f64>() / 6.0;
    let want: f64 = (0..2).map(|i| if kept[i] { tv[i] } else { 0.0 }).sum();
    ctx.check((got - want).abs() < 1e-3 * (1.0 + tv[0] + tv[1]), "two-cells", || format!("volume {got}, the cheapest choice {kept:?} of cells of {tv:?} has {want}; {}", d()));
    ctx.count("two-cells");
    if n == 2 {
        ctx.count("two-cells-three-shells");
    }
    let mut fp = Fp::new();
    fp.fs(&p);
    t.iter().chain(&shell).for_each(|x| {
        fp.u(*x as u64);
    });
    ctx.eval(Some(fp.0));
}

// Without the hook (it may not fit changed code) the subdivision is judged by the surfaces that come out of it.
#[cfg(not(verif_hooks))]
mod observed {
    use super::*;
    pub fn complex25(r: &mut Rng, ctx: &mut Ctx) {
        ctx.count("without-hook");
        clean_tri(r, ctx)
    }
    pub fn complex26(r: &mut Rng, ctx: &mut Ctx) {
        ctx.count("without-hook");
        surface_case(r, ctx)
    }
    pub fn diagnosis(_: &super::Input) -> String {
        String::new()
    }
}
use observed::*;

const SCENES: &str = "1..3 closed shells (boxes, prisms, star prisms, pyramids, tetrahedra, octahedra, spheres, bumpy spheres, polycubes, L-prisms, hollow and multi-part shells, plates with holes), on a small lattice (touching, coplanar and identical faces) or turned freely (crossing), vertices shared or not, random face order";
const DAMAGE: &str = "scenes with holes, flipped triangles, inside-out or self-intersecting shells, overlapping copies, cracks, fins and slivers, T-junctions, degenerate triangles, cavities, random and lattice triangle soups, polygons removed, reversed or doubled";

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P21",
            rule: "damaged models: holes, flipped triangles, inside-out or self-intersecting shells, overlapping copies, cracks (1e-6 to 0.2), fins and slivers, T-junctions, degenerate triangles, cavities, random and lattice soups, polygons with holes removed, reversed or doubled; up to some hundred faces; the library's own random hash order differs in every run; non-trivial = distinct input spanning space",
            assumptions: &["finite coordinates of moderate size", "the points span space"],
            min_obs: &[("output-triangles", 100000), ("probes", 50000), ("non-empty", 2000), ("kind:polygons", 500), ("kind:micro cracks", 30), ("kind:lattice soup", 40)],
            families: vec![fam("triangle-soups", 6000, 300000, watertight_tri), fam("micro", 1000, 30000, watertight_micro), fam("polygon-soups", 6000, 300000, watertight_poly), fam("large", 300, 12000, watertight_large)],
        },
        Property {
            id: "P22",
            rule: SCENES,
            assumptions: &["each shell closed, outward oriented, free of self-intersections", "results compared up to the coordinate rounding grid (probes at least 1e-4 away from every face)"],
            min_obs: &[("single-solids", 2000), ("overlapping-unions", 400), ("probes-inside", 100000), ("probes-outside", 100000)],
            families: vec![fam("triangles", 40000, 800000, clean_tri), fam("polygons", 40000, 800000, clean_poly), fam("large", 1000, 30000, clean_large)],
        },
        Property {
            id: "P23",
            rule: SCENES,
            assumptions: &["finite coordinates of moderate size", "the points span space"],
            min_obs: &[("result-points-on-input", 50000), ("border-points-on-result", 50000), ("returned-points", 30000)],
            families: vec![
                fam("clean-surfaces", 24000, 400000, surface_case),
                fam("hull", 10000, 150000, hull_case),
                #[cfg(verif_hooks)]
                fam("chosen-cells", 15000, 250000, chosen_cells),
            ],
        },
        Property {
            id: "P24",
            rule: SCENES,
            assumptions: &["each shell closed, outward oriented, free of self-intersections", "results compared up to the coordinate rounding grid"],
            min_obs: &[("probes", 100000), ("vertices renumbered", 1000), ("a side divided", 300), ("degenerate triangles added", 300), ("triangles reordered", 1000), ("triangles repeated", 300), ("triangles-against-polygons", 400), ("axes turned", 800)],
            families: vec![fam("retold", 40000, 600000, retold_case)],
        },
        Property {
            id: "P25",
            rule: DAMAGE,
            assumptions: &["finite coordinates of moderate size", "the points span space"],
            #[cfg(verif_hooks)]
            min_obs: &[("cells", 50000), ("implicit-vertices", 20000), ("splits", 20000), ("stages", 300)],
            #[cfg(not(verif_hooks))]
            min_obs: &[],
            families: vec![fam("complexes", 14000, 300000, complex25)],
        },
        Property {
            id: "P26",
            rule: DAMAGE,
            assumptions: &["finite coordinates of moderate size", "the points span space", "faces thinner than the rounding of their corners are not judged"],
            #[cfg(verif_hooks)]
            min_obs: &[("triangles", 10000), ("faces-on-triangles", 30000)],
            #[cfg(not(verif_hooks))]
            min_obs: &[],
            families: vec![fam("complexes", 24000, 300000, complex26)],
        },
        Property {
            id: "P27",
            rule: DAMAGE,
            assumptions: &["finite coordinates of moderate size", "the points span space", "costs compared up to the rounding of the areas"],
            #[cfg(verif_hooks)]
            min_obs: &[("shells", 1000), ("shells-with-positive-cost", 200)],
            #[cfg(not(verif_hooks))]
            min_obs: &[],
            families: vec![
                #[cfg(verif_hooks)]
                fam("complexes", 20000, 300000, complex27),
                fam("two tetrahedra", 150000, 4000000, two_cells),
            ],
        },
        Property {
            id: "P30",
            rule: DAMAGE,
            assumptions: &["finite coordinates of moderate size", "the points span space", "results compared up to the coordinate rounding grid (probes at least 1e-4 away from every face)"],
            min_obs: &[("triangles-again", 50000), ("probes", 20000)],
            families: vec![fam("again", 8000, 150000, again)],
        },
    ]
}
