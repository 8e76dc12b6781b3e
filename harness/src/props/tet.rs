//! P12 structure of the tetrahedral mesh, P13 Delaunay property and completeness.
use crate::ctx::*;
use crate::fast::{insphere, o3};
use crate::gen::*;
use crate::rng::*;
use gpf::triangle::{tetrahedralize, TetMesh, TriFace};
use std::collections::{BTreeMap, HashMap, HashSet};

type P = [f64; 3];
type R<T> = Result<T, (String, String)>;
macro_rules! need {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err(($sig.to_string(), format!($($a)*))); } };
}

fn pt(m: &TetMesh, i: usize) -> P {
    [m.points[3 * i], m.points[3 * i + 1], m.points[3 * i + 2]]
}

/// sign of a real tetrahedron in the library's vertex order
fn tet_sign(m: &TetMesh, t: usize) -> i32 {
    let d = m.tets[t].data;
    o3(&pt(m, d[0]), &pt(m, d[1]), &pt(m, d[2]), &pt(m, d[3]))
}

fn structure(m: &mut TetMesh, distinct: &[usize]) -> R<(usize, usize, usize)> {
    let n = m.n_points;
    let nt = m.tets.len();
    need!(n == m.points.len() / 3, "n-points", "{n}");
    need!(nt > 0, "empty", "no tetrahedra over {} points that span space", n);
    let mut faces: HashMap<[usize; 3], u32> = HashMap::new();
    let mut hull = 0;
    for t in 0..nt {
        let d = m.tets[t].data;
        need!(d.iter().all(|v| *v <= n), "vertex", "tet {t} {d:?} of {n} points");
        for i in 0..4 {
            for j in 0..i {
                need!(d[i] != d[j], "degenerate", "tet {t} {d:?}");
            }
        }
        let ghost = d.contains(&n);
        need!(ghost == m.is_hull_tet(t), "ghost", "tet {t} {d:?}: is_hull_tet says {}", m.is_hull_tet(t));
        hull += ghost as usize;
        if !ghost {
            need!(tet_sign(m, t) > 0, "volume", "tet {t} {d:?} has orientation {}", tet_sign(m, t));
        }
        need!(!m.mark_tested(t) && !m.infected(t), "marks", "tet {t} is left marked");
        for i in 0..4 {
            let mut f: Vec<usize> = (0..4).filter(|j| *j != i).map(|j| d[j]).collect();
            f.sort();
            *faces.entry([f[0], f[1], f[2]]).or_insert(0) += 1;
            let o = m.tets[t].nei[i].tet;
            need!(o < nt && o != t, "neighbour", "tet {t} face {i} -> {o}");
            let od = m.tets[o].data;
            need!(f.iter().all(|v| od.contains(v)), "neighbour-face", "tet {t} {d:?} face {i} is glued to tet {o} {od:?}");
            let k = (0..4).find(|k| !f.contains(&od[*k])).unwrap();
            need!(m.tets[o].nei[k].tet == t, "neighbour-symmetric", "tet {t} face {i} -> {o}, back -> {}", m.tets[o].nei[k].tet);
        }
        for ver in 0..12 {
            let a = TriFace::new(t, ver);
            let mut b = TriFace::default();
            m.fsym(&a, &mut b);
            need!(b.ver < 12, "orientation-code", "tet {t} version {ver} -> version {}", b.ver);
            need!(
                m.org(&a) == m.dest(&b) && m.dest(&a) == m.org(&b) && m.apex(&a) == m.apex(&b),
                "orientation-code",
                "tet {t} version {ver}: face {} {} {} seen from tet {} as {} {} {}",
                m.org(&a), m.dest(&a), m.apex(&a), b.tet, m.org(&b), m.dest(&b), m.apex(&b)
            );
            need!(m.oppo(&a) == m.tets[t].data[ver & 3], "orientation-code", "tet {t} version {ver}: opposite vertex");
            let mut c = a.clone();
            m.fnext_self(&mut c);
            need!(m.org(&a) == m.org(&c) && m.dest(&a) == m.dest(&c) && c.tet != t, "orientation-code", "fnext of tet {t} version {ver}");
        }
    }
    for (f, c) in &faces {
        need!(*c == 2, "face-count", "face {f:?} belongs to {c} tetrahedra");
    }
    // every hull face has all points on its inner side
    for t in 0..nt {
        if !m.is_hull_tet(t) {
            continue;
        }
        let d = m.tets[t].data;
        let (a, b, c) = (pt(m, d[0]), pt(m, d[1]), pt(m, d[2]));
        let o = m.tets[t].nei[3].tet;
        need!(!m.is_hull_tet(o), "ghost", "ghost tets {t} and {o} share a real face");
        let od = m.tets[o].data;
        let inner = *od.iter().find(|v| !d.contains(v)).unwrap();
        let side = o3(&a, &b, &c, &pt(m, inner));
        need!(side != 0, "volume", "tet {o} is flat");
        for &v in distinct {
            let s = o3(&a, &b, &c, &pt(m, v));
            need!(s == side || s == 0, "hull", "point {v} lies outside hull face {:?}", &d[..3]);
        }
    }
    // stars
    let mut big = 0;
    let mut star: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for t in 0..nt {
        if !m.is_hull_tet(t) {
            for v in m.tets[t].data {
                star.entry(v).or_default().push(t);
            }
        }
    }
    for (&v, ts) in &star {
        big += (ts.len() > 1500) as usize;
        let t = m.p2t[v];
        need!(ts.contains(&t), "point-to-tet", "vertex {v} points to tet {t}, which does not contain it");
        let mut got = m.incident(v, std::alloc::Global);
        got.sort();
        need!(got == *ts, "incident", "tets around vertex {v}: {got:?}, exactly {ts:?}");
    }
    for t in 0..nt {
        need!(!m.mark_tested(t) && !m.infected(t), "marks", "tet {t} is marked after asking for incident tets");
    }
    Ok((nt - hull, hull, big))
}

fn delaunay(m: &TetMesh, distinct: &[usize]) -> R<u64> {
    need!(!m.tets.is_empty(), "empty", "no tetrahedra over {} points that span space", m.n_points);
    let mut used = HashSet::new();
    let mut ties = 0;
    let nt = m.tets.len();
    for t in 0..nt {
        if m.is_hull_tet(t) {
            continue;
        }
        let d = m.tets[t].data;
        used.extend(d);
        let q = d.map(|v| pt(m, v));
        let s = o3(&q[0], &q[1], &q[2], &q[3]);
        need!(s != 0, "volume", "tet {t} is flat");
        let mut test = |e: usize| -> R<()> {
            let i = insphere(&q[0], &q[1], &q[2], &q[3], &pt(m, e)) * s * INSIDE;
            need!(i <= 0, "insphere", "point {e} lies inside the sphere of tet {d:?}");
            ties += (i == 0) as u64;
            Ok(())
        };
        if distinct.len() <= 40 {
            for &e in distinct {
                if !d.contains(&e) {
                    test(e)?;
                }
            }
        } else {
            // locally Delaunay across every face is enough in a valid mesh
            for i in 0..4 {
                let o = m.tets[t].nei[i].tet;
                if !m.is_hull_tet(o) {
                    let e = *m.tets[o].data.iter().find(|v| !d.contains(v)).unwrap();
                    test(e)?;
                }
            }
            for k in 0..4 {
                let e = distinct[(t * 4 + k) % distinct.len()];
                if !d.contains(&e) {
                    test(e)?;
                }
            }
        }
    }
    let at: HashSet<[u64; 3]> = used.iter().map(|v| pt(m, *v).map(|c| (c + 0.0).to_bits())).collect();
    for &v in distinct {
        need!(at.contains(&pt(m, v).map(|c| (c + 0.0).to_bits())), "missing", "point {v} is not a vertex of the mesh");
    }
    Ok(ties)
}

/// det(b-a, c-a, d-a) > 0 makes the in-sphere determinant of (p-e, |p-e|^2) positive... fixed by self test below
const INSIDE: i32 = -1;

pub fn self_test() {
    let q = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
    let s = o3(&q[0], &q[1], &q[2], &q[3]);
    assert_eq!(s, 1);
    assert_eq!(insphere(&q[0], &q[1], &q[2], &q[3], &[0.4, 0.4, 0.4]) * s * INSIDE, 1);
    assert_eq!(insphere(&q[0], &q[1], &q[2], &q[3], &[4., 4., 4.]) * s * INSIDE, -1);
}

fn gen_points(r: &mut Rng, dup: bool) -> Vec<P> {
    let n = *r.pick(&[4, 5, 6, 8, 12, 20, 35, 60, 120]);
    let mut v: Vec<P> = vec![];
    match r.below(13) {
        0 => {
            let k = r.range(1, 3);
            for _ in 0..n {
                v.push([r.range(0, k) as f64, r.range(0, k) as f64, r.range(0, k) as f64]);
            }
        }
        1 => {
            let k = 1 + r.below(4) as i64;
            for x in 0..=k {
                for y in 0..=k.min(3) {
                    for z in 0..=k.min(2) {
                        v.push([x as f64, y as f64, z as f64]);
                    }
                }
            }
        }
        2 => {
            for _ in 0..n {
                v.push(p3(r, Mode::Grid(1000)));
            }
        }
        3 => {
            for _ in 0..n {
                v.push(p3(r, Mode::Full));
            }
        }
        4 => {
            // exactly cospherical integer points, perhaps with the centre
            let q = *r.pick(&[9i64, 14, 29, 41, 81]);
            let mut on = vec![];
            for x in -9i64..=9 {
                for y in -9i64..=9 {
                    for z in -9i64..=9 {
                        if x * x + y * y + z * z == q {
                            on.push([x as f64, y as f64, z as f64]);
                        }
                    }
                }
            }
            for _ in 0..n {
                v.push(*r.pick(&on));
            }
            if r.chance(1, 2) {
                v.push([0.0; 3]);
            }
        }
        5 => {
            // nearly cospherical with the centre
            for _ in 0..n {
                let p = [r.sym(), r.sym(), r.sym()];
                let l = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt().max(0.1);
                v.push([p[0] / l, p[1] / l, p[2] / l]);
            }
            if r.chance(1, 2) {
                v.push([0.0; 3]);
            }
        }
        6 => {
            // mostly in one plane
            for _ in 0..n {
                let z = if r.chance(1, 6) { r.range(-3, 3) } else { 0 };
                v.push([r.range(-6, 6) as f64, r.range(-6, 6) as f64, z as f64]);
            }
        }
        7 => {
            // mostly on one line
            for _ in 0..n {
                let t = r.range(-20, 20) as f64;
                v.push(if r.chance(1, 4) { p3(r, Mode::Grid(4)) } else { [t, 2.0 * t, -t] });
            }
        }
        8 => {
            // clusters of very different size
            let s = 2f64.powi(-(r.below(6) as i32) * 6);
            for _ in 0..n {
                let c = if r.chance(1, 8) { p3(r, Mode::Grid(2)) } else { [1.0, 1.0, 1.0] };
                v.push([c[0] + s * r.range(-4, 4) as f64, c[1] + s * r.range(-4, 4) as f64, c[2] + s * r.range(-4, 4) as f64]);
            }
        }
        9 => {
            let k = r.range(1, 2);
            for _ in 0..n {
                let mut p = [r.range(1, 4) as f64, r.range(1, 4) as f64, r.range(1, 4) as f64];
                ulp_all(r, &mut p, k);
                v.push(p);
            }
        }
        10 => {
            let o = *r.pick(&[1048576.0, 1e9]);
            for _ in 0..n {
                v.push([o + r.range(0, 6) as f64, r.range(0, 6) as f64 - o, o + r.range(0, 6) as f64]);
            }
        }
        11 => {
            // thin slab
            let h = 2f64.powi(-(r.below(40) as i32));
            for _ in 0..n {
                v.push([r.range(0, 9) as f64, r.range(0, 9) as f64, h * r.range(0, 2) as f64]);
            }
        }
        _ => {
            // surface of a box, points on its faces
            for _ in 0..n {
                let mut p = [r.range(0, 8) as f64, r.range(0, 8) as f64, r.range(0, 8) as f64];
                let a = r.below(3);
                p[a] = if r.chance(1, 2) { 0.0 } else { 8.0 };
                v.push(p);
            }
        }
    }
    for p in &mut v {
        for c in p {
            *c += 0.0;
        }
    }
    if !dup {
        let mut s = HashSet::new();
        v.retain(|p| s.insert(p.map(f64::to_bits)));
    } else {
        for _ in 0..r.below(4) {
            let p = *r.pick(&v);
            v.push(p);
        }
    }
    r.shuffle(&mut v);
    v
}

fn distinct(v: &[P]) -> Vec<usize> {
    let mut s = HashSet::new();
    (0..v.len()).filter(|i| s.insert(v[*i].map(f64::to_bits))).collect()
}

fn spans(v: &[P]) -> bool {
    let Some(b) = v.iter().find(|p| **p != v[0]) else { return false };
    let Some(c) = v.iter().find(|p| !crate::geom::collinear(&v[0], b, *p)) else { return false };
    v.iter().any(|p| o3(&v[0], b, c, p) != 0)
}

fn case(ctx: &mut Ctx, v: &[P], runs: usize, full: bool) {
    if v.len() < 4 || !spans(v) {
        ctx.count("flat-sets-skipped");
        return;
    }
    let f: Vec<f64> = v.iter().flatten().copied().collect();
    let dis = distinct(v);
    let d = || format!("points {}", if f.len() > 600 { format!("{}... ({} points)", hex(&f[..60]), f.len() / 3) } else { hex(&f) });
    for _ in 0..runs {
        let Some(mut m) = ctx.guard("tetrahedralize", d, || tetrahedralize(&f)) else { return };
        let res = ctx.guard("inspect", d, || {
            if full {
                let (real, hull, _) = structure(&mut m, &dis)?;
                Ok((real as u64, hull as u64))
            } else {
                Ok((delaunay(&m, &dis)?, 0))
            }
        });
        match res {
            None => return,
            Some(Err((sig, msg))) => {
                ctx.violate(&sig, format!("{msg}; {}", d()));
                return;
            }
            Some(Ok((a, b))) => {
                if full {
                    ctx.add("tetrahedra", a);
                    ctx.add("hull-faces", b);
                } else {
                    ctx.add("cospherical-pairs", a);
                }
            }
        }
        ctx.count("meshes");
    }
    if dis.len() < v.len() {
        ctx.count("with-repeated-points");
    }
    ctx.eval(Some(Fp::new().fs(&f).0));
    ctx.sample(|| format!("{} points ({} distinct), {runs} random insertion orders: checked", v.len(), dis.len()));
}

fn str_small(r: &mut Rng, ctx: &mut Ctx) {
    let v = gen_points(r, false);
    case(ctx, &v, 2, true);
}
fn str_dup(r: &mut Rng, ctx: &mut Ctx) {
    let v = gen_points(r, true);
    case(ctx, &v, 1, true);
}
fn del_small(r: &mut Rng, ctx: &mut Ctx) {
    let v = gen_points(r, false);
    case(ctx, &v, 2, false);
}
fn del_dup(r: &mut Rng, ctx: &mut Ctx) {
    let v = gen_points(r, true);
    case(ctx, &v, 1, false);
}

/// large sets; a point inside a big empty ball makes a cavity with thousands of faces
fn large(r: &mut Rng) -> Vec<P> {
    let n = 1500 + r.below(2500);
    let mut v: Vec<P> = vec![];
    let kind = *r.pick(&[0, 0, 0, 1, 2, 3]);
    for _ in 0..n {
        let p = [r.sym(), r.sym(), r.sym()];
        let l = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt().max(0.05);
        v.push(match kind {
            0 | 1 => [p[0] / l, p[1] / l, p[2] / l],
            2 => p,
            _ => [r.range(0, 20) as f64, r.range(0, 20) as f64, r.range(0, 20) as f64],
        });
    }
    if kind == 0 {
        for _ in 0..1 + r.below(3) {
            v.push([r.sym() * 0.1, r.sym() * 0.1, r.sym() * 0.1]);
        }
    }
    let mut s = HashSet::new();
    v.retain(|p| s.insert(p.map(|c| (c + 0.0).to_bits())));
    v
}
fn del_large(r: &mut Rng, ctx: &mut Ctx) {
    let v = large(r);
    case(ctx, &v, 1, false);
}
fn str_large(r: &mut Rng, ctx: &mut Ctx) {
    let v = large(r);
    // the hull check is quadratic: give it a sample of the points
    if v.len() < 4 || !spans(&v) {
        return;
    }
    let f: Vec<f64> = v.iter().flatten().copied().collect();
    let dis: Vec<usize> = (0..40).map(|_| r.below(v.len())).collect();
    let d = || format!("{} points, first {}", v.len(), hex(&f[..30]));
    let Some(mut m) = ctx.guard("tetrahedralize", d, || tetrahedralize(&f)) else { return };
    match ctx.guard("inspect", d, || structure(&mut m, &dis)) {
        Some(Ok((a, b, big))) => {
            ctx.add("huge-stars", big as u64);
            ctx.add("tetrahedra", a as u64);
            ctx.add("hull-faces", b as u64);
            ctx.count("large-meshes");
            ctx.eval(Some(Fp::new().fs(&f).0));
        }
        Some(Err((sig, msg))) => ctx.violate(&sig, format!("{msg}; {}", d())),
        None => {}
    }
}

// ---------------------------------------------------------------------------------------------- P29

/// every step from every directed face of the mesh lands where its name says
fn steps(r: &mut Rng, m: &mut TetMesh) -> R<(u64, u64)> {
    use gpf::triangle::{enext, eprev, VPIVOT};
    let nt = m.tets.len();
    let q = |m: &TetMesh, f: &TriFace| [m.org(f), m.dest(f), m.apex(f), m.oppo(f)];
    let mut with: HashMap<(usize, usize), HashSet<usize>> = HashMap::new();
    for t in 0..nt {
        let d = m.tets[t].data;
        for i in 0..4 {
            need!(m.tets[t].index(d[i]) == Some(i), "index", "tet {t} {d:?}: index({}) = {:?}", d[i], m.tets[t].index(d[i]));
            let f = TriFace::new(t, VPIVOT[i]);
            need!(m.org(&f) == d[i], "vertex-version", "tet {t} {d:?}: version {} starts at {}, not at corner {i}", VPIVOT[i], m.org(&f));
            for j in 0..4 {
                if i != j {
                    with.entry((d[i], d[j])).or_default().insert(t);
                }
            }
        }
        let foreign = (0..=m.n_points).find(|v| !d.contains(v));
        need!(foreign.is_none_or(|v| m.tets[t].index(v).is_none()), "index", "tet {t} {d:?}: index({foreign:?}) found");
        let mut seen = HashSet::new();
        for ver in 0..12 {
            let f = TriFace::new(t, ver);
            let [o, e, a, p] = q(m, &f);
            need!(seen.insert([o, e, a, p]), "versions", "tet {t} {d:?}: two versions are {:?}", [o, e, a, p]);
            let mut s = [o, e, a, p];
            s.sort();
            let mut ds = d;
            ds.sort();
            need!(s == ds, "versions", "tet {t} {d:?}: version {ver} is {:?}", [o, e, a, p]);
            if !d.contains(&m.n_points) {
                let w = o3(&pt(m, o), &pt(m, e), &pt(m, a), &pt(m, p));
                need!(w == tet_sign(m, t), "orientation", "tet {t} {d:?}: version {ver} {:?} is turned over", [o, e, a, p]);
                let lib = m.orient3d(o, e, a, p, std::alloc::Global);
                // positive with the last point below the first three seen counterclockwise
                need!((lib < 0.0) == (w > 0) && lib != 0.0, "orient3d", "tet {t} {:?}: orient3d {lib:e}", [o, e, a, p]);
            }
            let step = |g: &dyn Fn(&mut TriFace)| {
                let mut x = f.clone();
                g(&mut x);
                (x.tet, q(m, &x))
            };
            for (name, got, want) in [
                ("enext_self", step(&|x| x.enext_self()), [e, a, o, p]),
                ("eprev_self", step(&|x| x.eprev_self()), [a, o, e, p]),
                ("esym_self", step(&|x| x.esym_self()), [e, o, p, a]),
                ("enext_esym_self", step(&|x| x.enext_esym_self()), [a, e, p, o]),
                ("eprev_esym_self", step(&|x| x.eprev_esym_self()), [o, a, p, e]),
                ("enext", step(&|x| enext(&f, x)), [e, a, o, p]),
                ("eprev", step(&|x| eprev(&f, x)), [a, o, e, p]),
            ] {
                need!(got.0 == t && got.1 == want, name, "tet {t} {:?}: {name} leads to tet {} {:?}", [o, e, a, p], got.0, got.1);
            }
            // through the face
            let (mut x, mut y) = (TriFace::default(), f.clone());
            m.fsym(&f, &mut x);
            m.fsym_self(&mut y);
            need!(x.tet == y.tet && x.ver == y.ver, "fsym", "tet {t} version {ver}: fsym and fsym_self differ");
            let b = q(m, &x);
            need!(x.tet != t && b[..3] == [e, o, a] && !d.contains(&b[3]), "fsym", "tet {t} {:?}: fsym leads to tet {} {b:?}", [o, e, a, p], x.tet);
            m.fsym_self(&mut y);
            need!(y.tet == t && y.ver == ver, "fsym-back", "tet {t} version {ver}: twice through the face is tet {} version {}", y.tet, y.ver);
        }
    }
    // around edges
    let mut turns = 0;
    for _ in 0..nt.min(300) {
        let f = TriFace::new(r.below(nt), r.below(12));
        let [o, e, _, _] = q(m, &f);
        let all = &with[&(o, e)];
        let mut x = f.clone();
        let mut seen = HashSet::new();
        loop {
            let was = q(m, &x);
            need!(seen.insert(x.tet) && seen.len() <= all.len(), "fnext", "around edge {o} {e} of tet {} version {}: {} tets, exactly {}", f.tet, f.ver, seen.len(), all.len());
            m.fnext_self(&mut x);
            let now = q(m, &x);
            need!(now[0] == o && now[1] == e && now[2] == was[3], "fnext", "fnext leads from {was:?} to {now:?}");
            turns += 1;
            if x.tet == f.tet {
                break;
            }
        }
        need!(x.ver == f.ver, "fnext-cycle", "around edge {o} {e}: back at version {}, left at {}", x.ver, f.ver);
        need!(seen == *all, "fnext-cycle", "around edge {o} {e}: {} tets, exactly {}", seen.len(), all.len());
    }
    // marks are kept apart
    let k = nt.min(40);
    let mut want = vec![(false, false); nt];
    for _ in 0..3 * k {
        let t = r.below(nt);
        match r.below(4) {
            0 => {
                m.infect(t);
                want[t].0 = true
            }
            1 => {
                m.uninfect(t);
                want[t].0 = false
            }
            2 => {
                m.mark_test(t);
                want[t].1 = true
            }
            _ => {
                m.unmark_test(t);
                want[t].1 = false
            }
        }
        need!((m.infected(t), m.mark_tested(t)) == want[t], "marks", "tet {t}: infected, tested are {:?}, expected {:?}", (m.infected(t), m.mark_tested(t)), want[t]);
    }
    for t in 0..nt {
        need!((m.infected(t), m.mark_tested(t)) == want[t], "marks", "tet {t}: infected, tested are {:?}, expected {:?}", (m.infected(t), m.mark_tested(t)), want[t]);
        m.uninfect(t);
        m.unmark_test(t);
    }
    for i in 0..m.n_points {
        need!(m.point(i) == &m.points[3 * i..3 * i + 3], "point", "point({i}) = {:?}", m.point(i));
    }
    Ok((12 * nt as u64, turns))
}

fn walks(r: &mut Rng, ctx: &mut Ctx) {
    let dup = r.chance(1, 4);
    let v = gen_points(r, dup);
    if v.len() < 4 || !spans(&v) {
        return;
    }
    let f: Vec<f64> = v.iter().flatten().copied().collect();
    let d = || format!("{} points {}", v.len(), hex(&f));
    let Some(mut m) = ctx.guard("tetrahedralize", d, || tetrahedralize(&f)) else { return };
    match ctx.guard("walk", d, || steps(r, &mut m)) {
        Some(Ok((a, b))) => {
            ctx.add("directed-faces", a);
            ctx.add("steps-around-edges", b);
            ctx.eval(Some(Fp::new().fs(&f).0));
        }
        Some(Err((sig, msg))) => ctx.violate(&sig, format!("{msg}; {}", d())),
        None => {}
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P12",
            rule: "4..120 points: grids, exact and near cospheres, mostly planar or collinear sets, clusters of very different size, thin slabs, far offsets, ulp noise, box surfaces, repeated points; large sets up to 4000 points incl. points inside an empty ball (huge cavities); each set several times over the library's own random insertion orders; non-trivial = the points span space",
            assumptions: &["finite points not contained in a plane"],
            min_obs: &[("tetrahedra", 50000), ("hull-faces", 20000), ("with-repeated-points", 300), ("large-meshes", 20), ("huge-stars", 5)],
            families: vec![
                fam("distinct points", 24000, 200000, str_small),
                fam("repeated points", 8000, 60000, str_dup),
                fam("large sets", 64, 1500, str_large),
            ],
        },
        Property {
            id: "P13",
            rule: "the point sets of P12; every tetrahedron against every point (up to 40 points) or across every face plus samples; non-trivial = the points span space",
            assumptions: &["finite points not contained in a plane"],
            min_obs: &[("meshes", 5000), ("cospherical-pairs", 10000), ("with-repeated-points", 300)],
            families: vec![
                fam("distinct points", 24000, 200000, del_small),
                fam("repeated points", 8000, 60000, del_dup),
                fam("large sets", 64, 1500, del_large),
            ],
        },
        Property {
            id: "P29",
            rule: "meshes over the small point sets of P12; every version of every tetrahedron (ghosts included) takes every step, up to 300 edges per mesh are walked around, random marks set and cleared; non-trivial = the points span space",
            assumptions: &["finite points not contained in a plane"],
            min_obs: &[("directed-faces", 1000000), ("steps-around-edges", 100000)],
            families: vec![fam("walks", 24000, 200000, walks)],
        },
    ]
}
