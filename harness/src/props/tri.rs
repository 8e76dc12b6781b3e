//! P10 planar (constrained) Delaunay triangulation, P11 polygon triangulation.
use crate::ctx::*;
use crate::fast::{incircle, o2};
use crate::gen::*;
use crate::rng::*;
use gpf::triangle::{triangulate, triangulate_polygon, triangulate_polygon_soup};
use std::alloc::Global;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type P = [f64; 2];
type R<T> = Result<T, (String, String)>;
macro_rules! need {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err(($sig.to_string(), format!($($a)*))); } };
}

fn between(p: &P, a: &P, b: &P) -> bool {
    // on the line already; strictly inside the box in the direction that varies
    let k = if a[0] != b[0] { 0 } else { 1 };
    p[k] > a[k].min(b[k]) && p[k] < a[k].max(b[k])
}

/// positively oriented triangles, each directed edge used once; returns directed edge -> apex
fn chain(pts: &[P], t: &[usize], exact: bool) -> R<HashMap<(usize, usize), usize>> {
    need!(t.len() % 3 == 0, "length", "{} indices", t.len());
    let mut m = HashMap::new();
    for q in t.chunks(3) {
        need!(q.iter().all(|v| *v < pts.len()), "index", "triangle {q:?} of {} points", pts.len());
        if exact {
            need!(o2(&pts[q[0]], &pts[q[1]], &pts[q[2]]) > 0, "orientation", "triangle {q:?} is not positively oriented");
        }
        for k in 0..3 {
            let e = (q[k], q[(k + 1) % 3]);
            need!(e.0 != e.1, "degenerate", "triangle {q:?}");
            need!(m.insert(e, q[(k + 2) % 3]).is_none(), "overlap", "directed edge {e:?} belongs to two triangles");
        }
    }
    Ok(m)
}

fn boundary(m: &HashMap<(usize, usize), usize>) -> BTreeSet<(usize, usize)> {
    m.keys().copied().filter(|e| !m.contains_key(&(e.1, e.0))).collect()
}

fn delaunay(pts: &[P], m: &HashMap<(usize, usize), usize>) -> R<u64> {
    let mut ties = 0;
    for (&(a, b), &c) in m {
        if a < b {
            if let Some(&d) = m.get(&(b, a)) {
                let s = incircle(&pts[a], &pts[b], &pts[c], &pts[d]);
                need!(s <= 0, "delaunay", "edge {a}-{b}: {d} is inside the circle of triangle {a},{b},{c}");
                ties += (s == 0) as u64;
            }
        }
    }
    Ok(ties)
}

/// the whole hull, every point, Delaunay
fn full(pts: &[P], t: &[usize]) -> R<(HashMap<(usize, usize), usize>, u64)> {
    let m = chain(pts, t, true)?;
    let flat = pts.len() < 3 || pts.iter().all(|p| o2(&pts[0], &pts[1], p) == 0);
    if flat {
        need!(t.is_empty(), "collinear", "triangles {t:?} over collinear points");
        return Ok((m, 0));
    }
    need!(!t.is_empty(), "empty", "no triangles over points that are not collinear");
    for (a, b) in boundary(&m) {
        for (k, p) in pts.iter().enumerate() {
            if k == a || k == b {
                continue;
            }
            let s = o2(&pts[a], &pts[b], p);
            need!(s >= 0, "hull", "boundary edge {a}-{b} has point {k} outside: the hull is not covered");
            need!(s > 0 || !between(p, &pts[a], &pts[b]), "hull-vertex", "point {k} lies inside boundary edge {a}-{b}");
        }
    }
    let used: HashSet<usize> = t.iter().copied().collect();
    need!(used.len() == pts.len(), "unused", "only {} of {} points are used", used.len(), pts.len());
    let ties = delaunay(pts, &m)?;
    Ok((m, ties))
}

fn distinct(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> P) -> Vec<P> {
    let mut s = HashSet::new();
    let mut v = vec![];
    for _ in 0..3 * n {
        if v.len() == n {
            break;
        }
        let mut p = f(r);
        for c in &mut p {
            if *c == 0.0 {
                *c = 0.0; // no negative zero twins
            }
        }
        if s.insert((p[0].to_bits(), p[1].to_bits())) {
            v.push(p);
        }
    }
    v
}

const CIRC: [i64; 3] = [5, 25, 65];

pub fn points(r: &mut Rng, big: bool) -> Vec<P> {
    let n = if big { 60 + r.below(200) } else { *r.pick(&[3, 4, 5, 6, 8, 12, 20, 35]) };
    let mut v = match r.below(11) {
        0 => distinct(r, n, |r| [r.range(0, 3) as f64, r.range(0, 3) as f64]),
        1 => {
            let (a, b) = (r.range(1, 12), r.range(1, 12));
            distinct(r, n, |r| [r.range(0, a) as f64, r.range(0, b) as f64])
        }
        2 => distinct(r, n, |r| [r.range(-1000, 1000) as f64, r.range(-1000, 1000) as f64]),
        3 => distinct(r, n, |r| [r.sym(), r.sym()]),
        4 => {
            // collinear with a few off the line
            let (dx, dy) = (r.range(-4, 4), r.range(-4, 4));
            let (dx, dy) = if dx == 0 && dy == 0 { (1, 0) } else { (dx, dy) };
            let off = r.below(4);
            distinct(r, n, |r| {
                let t = r.range(-20, 20);
                if r.chance(off, 20) {
                    [r.range(-20, 20) as f64, r.range(-20, 20) as f64]
                } else {
                    [(t * dx) as f64, (t * dy) as f64]
                }
            })
        }
        5 => {
            // exactly cocircular integer points, some inside
            let c = *r.pick(&CIRC);
            let mut on = vec![];
            for x in -c..=c {
                for y in -c..=c {
                    if x * x + y * y == c * c {
                        on.push([x as f64, y as f64]);
                    }
                }
            }
            let k = r.below(3);
            distinct(r, n, |r| if r.chance(k, 8) { [r.range(-4, 4) as f64, r.range(-4, 4) as f64] } else { *r.pick(&on) })
        }
        6 => {
            // nearly cocircular
            distinct(r, n, |r| {
                let t = r.sym() * 3.2;
                [t.cos(), t.sin()]
            })
        }
        7 => {
            // small grid far from the origin, within a few ulps of exact
            let o = *r.pick(&[1048576.0, 1e9, 4503599627370496.0]);
            distinct(r, n, |r| [o + r.range(0, 8) as f64, o - r.range(0, 8) as f64])
        }
        8 => {
            let k = r.range(1, 3);
            distinct(r, n, |r| {
                let mut p = [r.range(0, 6) as f64 / 4.0 + 1.0, r.range(0, 6) as f64 / 4.0 + 1.0];
                ulp_all(r, &mut p, k);
                p
            })
        }
        9 => {
            // clusters of very different scales
            distinct(r, n, |r| {
                let c = [r.range(0, 2) as f64, r.range(0, 2) as f64];
                let s = 2f64.powi(-(r.below(4) as i32) * 8);
                [c[0] + s * r.range(-3, 3) as f64, c[1] + s * r.range(-3, 3) as f64]
            })
        }
        _ => {
            // two or three columns or rows
            let k = 2 + r.below(2) as i64;
            let sw = r.chance(1, 2);
            distinct(r, n, |r| {
                let p = [r.range(0, k - 1) as f64, r.range(-30, 30) as f64];
                if sw { [p[1], p[0]] } else { p }
            })
        }
    };
    r.shuffle(&mut v);
    v
}

fn flat(p: &[P]) -> Vec<f64> {
    p.iter().flatten().copied().collect()
}

fn inspect<T>(ctx: &mut Ctx, desc: &dyn Fn() -> String, r: R<T>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err((sig, msg)) => {
            ctx.violate(&sig, format!("{msg}; {}", desc()));
            None
        }
    }
}

fn run(ctx: &mut Ctx, pts: &[P], segs: &[usize]) -> Option<Vec<usize>> {
    let f = flat(pts);
    ctx.guard("triangulate", || format!("points {} segments {segs:?}", hex(&f)), || triangulate(&f, segs, Global))
}

fn plain_of(ctx: &mut Ctx, pts: &[P]) {
    let Some(t) = run(ctx, pts, &[]) else { return };
    let d = || format!("points {} -> {t:?}", hex(&flat(pts)));
    let Some((m, ties)) = inspect(ctx, &d, full(pts, &t)) else { return };
    ctx.add("cocircular-neighbours", ties);
    ctx.add("triangles", t.len() as u64 / 3);
    if t.is_empty() {
        ctx.count("collinear-sets");
    }
    let _ = m;
    let fp = Fp::new().fs(&flat(pts)).0;
    ctx.eval(if t.is_empty() { None } else { Some(fp) });
    ctx.sample(|| format!("{} points -> {} triangles, valid Delaunay", pts.len(), t.len() / 3));
}

fn plain(r: &mut Rng, ctx: &mut Ctx) {
    let pts = points(r, false);
    plain_of(ctx, &pts);
}
fn plain_big(r: &mut Rng, ctx: &mut Ctx) {
    let pts = points(r, true);
    plain_of(ctx, &pts);
}
fn tiny(r: &mut Rng, ctx: &mut Ctx) {
    let n = r.below(4);
    let pts = distinct(r, n, |r| [r.range(-2, 2) as f64, r.range(-2, 2) as f64]);
    plain_of(ctx, &pts);
}

/// turn a triangulation into an arbitrary (not Delaunay) one by random legal flips
fn scramble(r: &mut Rng, pts: &[P], m: &mut HashMap<(usize, usize), usize>, flips: usize) -> usize {
    let mut keys: Vec<(usize, usize)> = m.keys().copied().collect();
    keys.sort();
    let mut done = 0;
    for _ in 0..flips {
        let (a, b) = *r.pick(&keys);
        let (Some(&c), Some(&d)) = (m.get(&(a, b)), m.get(&(b, a))) else { continue };
        // quad a, d, b, c counterclockwise; flip to edge d-c when strictly convex
        if o2(&pts[d], &pts[b], &pts[c]) > 0 && o2(&pts[c], &pts[a], &pts[d]) > 0 {
            m.remove(&(a, b));
            m.remove(&(b, a));
            m.insert((d, c), a);
            m.insert((c, a), d);
            m.insert((a, d), c);
            m.insert((c, d), b);
            m.insert((d, b), c);
            m.insert((b, c), d);
            done += 1;
            if r.chance(1, 8) {
                keys = m.keys().copied().collect();
                keys.sort();
            }
        }
    }
    done
}

/// a random region of a scrambled triangulation: oriented boundary segments with the region on their left
fn region(r: &mut Rng, pts: &[P], m: &HashMap<(usize, usize), usize>) -> (Vec<(usize, usize)>, HashSet<usize>) {
    let mut tris: BTreeSet<[usize; 3]> = BTreeSet::new();
    for (&(a, b), &c) in m {
        let mut t = [a, b, c];
        let k = (0..3).min_by_key(|i| t[*i]).unwrap();
        t.rotate_left(k);
        tris.insert(t);
    }
    let tris: Vec<[usize; 3]> = tris.into_iter().collect();
    let mut inside = vec![false; tris.len()];
    match r.below(5) {
        0 => inside.iter_mut().for_each(|x| *x = true),
        1 => inside.iter_mut().for_each(|x| *x = r.chance(1, 2)),
        2 => inside.iter_mut().for_each(|x| *x = r.chance(5, 6)),
        3 => {
            // grown blob
            let mut of: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for (i, t) in tris.iter().enumerate() {
                for k in 0..3 {
                    of.insert((t[k], t[(k + 1) % 3]), i);
                }
            }
            let want = 1 + r.below(tris.len());
            let mut front = vec![r.below(tris.len())];
            let mut cnt = 0;
            while cnt < want && !front.is_empty() {
                let k = r.below(front.len());
                let i = front.swap_remove(k);
                if inside[i] {
                    continue;
                }
                inside[i] = true;
                cnt += 1;
                for k in 0..3 {
                    if let Some(&j) = of.get(&(tris[i][(k + 1) % 3], tris[i][k])) {
                        if !inside[j] {
                            front.push(j);
                        }
                    }
                }
            }
        }
        _ => {
            // disc or ring by distance of the centroid
            let c = pts[r.below(pts.len())];
            let mut ds: Vec<f64> = tris
                .iter()
                .map(|t| {
                    let x = (pts[t[0]][0] + pts[t[1]][0] + pts[t[2]][0]) / 3.0 - c[0];
                    let y = (pts[t[0]][1] + pts[t[1]][1] + pts[t[2]][1]) / 3.0 - c[1];
                    x * x + y * y
                })
                .collect();
            let all = ds.clone();
            ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let (lo, hi) = (ds[r.below(ds.len())], ds[r.below(ds.len())]);
            for i in 0..tris.len() {
                inside[i] = if r.chance(1, 40) { r.chance(1, 2) } else { all[i] >= lo.min(hi) && all[i] <= lo.max(hi) };
            }
        }
    }
    if !inside.iter().any(|x| *x) {
        let k = r.below(tris.len());
        inside[k] = true;
    }
    let mut e: HashSet<(usize, usize)> = HashSet::new();
    let mut verts = HashSet::new();
    for (t, i) in tris.iter().zip(&inside) {
        if *i {
            for k in 0..3 {
                e.insert((t[k], t[(k + 1) % 3]));
                verts.insert(t[k]);
            }
        }
    }
    let mut b: Vec<(usize, usize)> = e.iter().copied().filter(|x| !e.contains(&(x.1, x.0))).collect();
    b.sort();
    (b, verts)
}

/// join consecutive collinear segments of the same direction
fn join(r: &mut Rng, pts: &[P], segs: &mut Vec<(usize, usize)>, tries: usize, simple: bool) -> usize {
    let mut joined = 0;
    // where loops touch, joining two chains through the same vertex could make them cross there
    let mut deg: HashMap<usize, usize> = HashMap::new();
    for s in segs.iter() {
        *deg.entry(s.0).or_insert(0) += 1;
    }
    for _ in 0..tries {
        let i = r.below(segs.len());
        let (a, b) = segs[i];
        if simple && deg.get(&b) > Some(&2) {
            continue;
        }
        if let Some(j) = segs.iter().position(|s| s.0 == b && o2(&pts[a], &pts[b], &pts[s.1]) == 0 && between(&pts[b], &pts[a], &pts[s.1])) {
            let c = segs[j].1;
            if simple && deg.get(&b) == Some(&2) {
                // the other loop may touch the joined side from one side only
                let d = segs.iter().enumerate().find(|x| x.0 != i && x.1 .1 == b).map(|x| x.1 .0);
                let e = segs.iter().enumerate().find(|x| x.0 != j && x.1 .0 == b).map(|x| x.1 .1);
                let (Some(d), Some(e)) = (d, e) else { continue };
                if o2(&pts[a], &pts[c], &pts[d]) * o2(&pts[a], &pts[c], &pts[e]) <= 0 {
                    continue;
                }
                deg.insert(b, 1000);
            }
            segs[i] = (a, c);
            segs.swap_remove(j);
            joined += 1;
        }
    }
    joined
}

/// segments cut at the given vertices lying on them
fn atoms(pts: &[P], segs: &[(usize, usize)], present: &[usize]) -> BTreeSet<(usize, usize)> {
    let mut out = BTreeSet::new();
    for &(a, b) in segs {
        let mut on: Vec<usize> = present.iter().copied().filter(|&v| v != a && v != b && o2(&pts[a], &pts[b], &pts[v]) == 0 && between(&pts[v], &pts[a], &pts[b])).collect();
        let k = if pts[a][0] != pts[b][0] { 0 } else { 1 };
        on.sort_by(|x, y| pts[*x][k].partial_cmp(&pts[*y][k]).unwrap());
        if pts[a][k] > pts[b][k] {
            on.reverse();
        }
        let mut c = a;
        for v in on {
            out.insert((c, v));
            c = v;
        }
        out.insert((c, b));
    }
    out
}

struct Case {
    segs: Vec<(usize, usize)>,
    verts: HashSet<usize>,
    joined: usize,
    flips: usize,
}

fn make_region(r: &mut Rng, ctx: &mut Ctx, pts: &[P], simple: bool) -> Option<Case> {
    let t = run(ctx, pts, &[])?;
    let d = || format!("points {} -> {t:?}", hex(&flat(pts)));
    let (mut m, _) = inspect(ctx, &d, full(pts, &t))?;
    if t.is_empty() {
        return None;
    }
    let k = *r.pick(&[0, 1, 4, 12]);
    let flips = scramble(r, pts, &mut m, k * pts.len());
    let (mut segs, verts) = region(r, pts, &m);
    let k = r.below(3);
    let n = segs.len();
    let joined = join(r, pts, &mut segs, k * n, simple);
    r.shuffle(&mut segs);
    Some(Case { segs, verts, joined, flips })
}

fn constrained_of(r: &mut Rng, ctx: &mut Ctx, pts: &[P]) {
    let Some(c) = make_region(r, ctx, pts, false) else { return };
    let mut list: Vec<usize> = c.segs.iter().flat_map(|s| [s.0, s.1]).collect();
    if r.chance(1, 10) {
        let v = r.below(pts.len());
        list.extend([v, v]);
    }
    let Some(t) = run(ctx, pts, &list) else { return };
    let all: Vec<usize> = (0..pts.len()).collect();
    let want = atoms(pts, &c.segs, &all);
    let res: R<(u64, usize)> = (|| {
        let m = chain(pts, &t, true)?;
        let b = boundary(&m);
        need!(b == want, "region", "boundary of the result {b:?}, segments {want:?}");
        let used: HashSet<usize> = t.iter().copied().collect();
        need!(used == c.verts, "vertices", "result uses vertices {used:?}, the region's are {:?}", c.verts);
        Ok((delaunay(pts, &m)?, t.len() / 3))
    })();
    let d = || format!("points {} segments {list:?} -> {t:?}", hex(&flat(pts)));
    let Some((ties, n)) = inspect(ctx, &d, res) else { return };
    ctx.add("cocircular-neighbours", ties);
    ctx.add("segments", c.segs.len() as u64);
    ctx.add("segments-through-vertices", c.joined as u64);
    ctx.add("non-delaunay-flips", c.flips as u64);
    let mut fp = Fp::new();
    fp.fs(&flat(pts));
    for x in &list {
        fp.u(*x as u64);
    }
    ctx.eval(Some(fp.0));
    ctx.sample(|| format!("{} points, {} oriented segments -> {n} triangles covering exactly the region, constrained Delaunay", pts.len(), c.segs.len()));
}

fn constrained(r: &mut Rng, ctx: &mut Ctx) {
    let pts = points(r, false);
    constrained_of(r, ctx, &pts);
}
fn constrained_big(r: &mut Rng, ctx: &mut Ctx) {
    let pts = points(r, true);
    constrained_of(r, ctx, &pts);
}

/// integer plane axes whose dot products with integer offsets are exact
const AXES: [([i64; 3], [i64; 3]); 10] = [
    ([1, 0, 0], [0, 1, 0]),
    ([0, 1, 0], [0, 0, 1]),
    ([0, 0, 1], [1, 0, 0]),
    ([0, 1, 0], [1, 0, 0]),
    ([1, 1, 0], [0, 0, 1]),
    ([1, 2, 2], [2, 1, -2]),
    ([2, -2, 1], [1, 2, 2]),
    ([1, -1, 0], [1, 1, -2]),
    ([0, 3, 4], [1, 0, 0]),
    ([-2, 3, 6], [6, -2, 3]),
];

struct Plane {
    o: [f64; 3],
    x: [f64; 3],
    y: [f64; 3],
    exact: bool,
}

fn plane(r: &mut Rng) -> Plane {
    if r.chance(3, 4) {
        let (x, y) = r.pick(&AXES);
        let f = |v: &[i64; 3]| [v[0] as f64, v[1] as f64, v[2] as f64];
        let o = [r.range(-9, 9) as f64, r.range(-9, 9) as f64, r.range(-9, 9) as f64];
        Plane { o, x: f(x), y: f(y), exact: true }
    } else {
        // orthonormal to rounding
        let n = |v: [f64; 3]| {
            let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            [v[0] / l, v[1] / l, v[2] / l]
        };
        let x = n([r.sym() + 2.0, r.sym(), r.sym()]);
        let w = [r.sym(), r.sym() + 2.0, r.sym()];
        let d = x[0] * w[0] + x[1] * w[1] + x[2] * w[2];
        let y = n([w[0] - d * x[0], w[1] - d * x[1], w[2] - d * x[2]]);
        Plane { o: [r.sym() * 5.0, r.sym() * 5.0, r.sym() * 5.0], x, y, exact: false }
    }
}

struct Poly {
    pl: Plane,
    pts: Vec<P>,
    segs: Vec<(usize, usize)>,
    /// index of each planar point among all points of the case
    id: Vec<usize>,
}

/// planar points whose regions are safe under rounding: integer points for exact planes, well spread otherwise
fn poly(r: &mut Rng, ctx: &mut Ctx, all: &mut Vec<f64>) -> Option<Poly> {
    let pl = plane(r);
    let pts = if pl.exact {
        let k = *r.pick(&[3i64, 8, 60, 1000]);
        let n = *r.pick(&[3, 4, 6, 10, 20, 40]);
        distinct(r, n, |r| [r.range(-k, k) as f64, r.range(-k, k) as f64])
    } else {
        // jittered grid, no three points nearly collinear
        let n = *r.pick(&[4, 6, 10, 16]);
        let mut v: Vec<P> = vec![];
        for _ in 0..200 {
            if v.len() == n {
                break;
            }
            let p = [r.sym() * 10.0, r.sym() * 10.0];
            let ok = (0..v.len()).all(|i| (0..i).all(|j| ((v[i][0] - p[0]) * (v[j][1] - p[1]) - (v[i][1] - p[1]) * (v[j][0] - p[0])).abs() > 1e-3));
            if ok {
                v.push(p);
            }
        }
        v
    };
    if pts.len() < 3 {
        return None;
    }
    let c = make_region(r, ctx, &pts, true)?;
    // reference points with a duplicate-free numbering shared by the soup
    let mut perm: Vec<usize> = (0..pts.len()).collect();
    r.shuffle(&mut perm);
    let base = all.len() / 3;
    let mut id = vec![0; pts.len()];
    for (k, &i) in perm.iter().enumerate() {
        id[i] = base + k;
        for a in 0..3 {
            all.push(pl.o[a] + pts[i][0] * pl.x[a] + pts[i][1] * pl.y[a]);
        }
    }
    Some(Poly { pl, pts, segs: c.segs, id })
}

fn check_poly(p: &Poly, got: &[usize]) -> R<usize> {
    let back: HashMap<usize, usize> = p.id.iter().enumerate().map(|(i, g)| (*g, i)).collect();
    let mut t = vec![];
    for g in got {
        let Some(i) = back.get(g) else {
            return Err(("vertices".into(), format!("vertex {g} is not a vertex of this polygon")));
        };
        t.push(*i);
    }
    let present: Vec<usize> = p.segs.iter().flat_map(|s| [s.0, s.1]).collect::<BTreeSet<_>>().into_iter().collect();
    let m = chain(&p.pts, &t, p.pl.exact)?;
    let want = atoms(&p.pts, &p.segs, &present);
    let b = boundary(&m);
    need!(b == want, "region", "boundary of the result {b:?}, loops {want:?} (planar numbering)");
    need!(t.iter().all(|v| present.contains(v)), "vertices", "a vertex of no loop is used");
    if !p.pl.exact {
        let area = |a: usize, b: usize, c: usize| (p.pts[b][0] - p.pts[a][0]) * (p.pts[c][1] - p.pts[a][1]) - (p.pts[b][1] - p.pts[a][1]) * (p.pts[c][0] - p.pts[a][0]);
        for q in t.chunks(3) {
            need!(area(q[0], q[1], q[2]) > 1e-9, "orientation", "triangle {q:?} (planar numbering)");
        }
    }
    Ok(t.len() / 3)
}

fn polygon(r: &mut Rng, ctx: &mut Ctx) {
    let mut all = vec![];
    // leading points nobody uses
    for _ in 0..r.below(3) {
        all.extend([r.sym(), r.sym(), r.sym()]);
    }
    let Some(p) = poly(r, ctx, &mut all) else { return };
    let segs: Vec<usize> = p.segs.iter().flat_map(|s| [p.id[s.0], p.id[s.1]]).collect();
    let d = || format!("points {} segments {segs:?} o {} x {} y {}", hex(&all), hex(&p.pl.o), hex(&p.pl.x), hex(&p.pl.y));
    let Some(t) = ctx.guard("triangulate_polygon", d, || triangulate_polygon(&all, &segs, &p.pl.o, &p.pl.x, &p.pl.y, Global)) else { return };
    let res = check_poly(&p, &t);
    let Some(n) = inspect(ctx, &|| format!("{} -> {t:?}", d()), res) else { return };
    ctx.add("triangles", n as u64);
    let verts: BTreeSet<usize> = p.segs.iter().map(|s| s.0).collect();
    if p.segs.iter().any(|s| verts.iter().any(|&v| v != s.0 && v != s.1 && o2(&p.pts[s.0], &p.pts[s.1], &p.pts[v]) == 0 && between(&p.pts[v], &p.pts[s.0], &p.pts[s.1]))) {
        ctx.count("loop-vertex-on-another-side");
    }
    ctx.count(if p.pl.exact { "exact-planes" } else { "rounded-planes" });
    if p.segs.iter().map(|s| s.0).collect::<BTreeSet<_>>().len() < p.segs.len() {
        ctx.count("loops-touching-at-vertices");
    }
    let mut f = Fp::new();
    f.fs(&all);
    for s in &segs {
        f.u(*s as u64);
    }
    ctx.eval(if n > 1 { Some(f.0) } else { None });
    ctx.sample(|| format!("{} loop segments in plane x {:?} y {:?} -> {n} triangles covering exactly the polygon", p.segs.len(), p.pl.x, p.pl.y));
}

fn soup(r: &mut Rng, ctx: &mut Ctx) {
    let mut all = vec![];
    let k = 1 + r.below(5);
    let mut ps = vec![];
    for _ in 0..k {
        if let Some(p) = poly(r, ctx, &mut all) {
            ps.push(p);
        }
    }
    if ps.is_empty() {
        return;
    }
    let edges: Vec<Vec<usize>> = ps.iter().map(|p| p.segs.iter().flat_map(|s| [p.id[s.0], p.id[s.1]]).collect()).collect();
    let axes: Vec<f64> = ps.iter().flat_map(|p| [p.pl.o, p.pl.x, p.pl.y].concat()).collect();
    let d = || format!("points {} edges {edges:?} axes {}", hex(&all), hex(&axes));
    let Some((t, par)) = ctx.guard("triangulate_polygon_soup", d, || triangulate_polygon_soup(&all, &edges, &axes)) else { return };
    let res: R<usize> = (|| {
        need!(par.len() * 3 == t.len(), "parents", "{} parents for {} indices", par.len(), t.len());
        need!(par.iter().all(|x| *x < ps.len()), "parents", "parents {par:?} of {} polygons", ps.len());
        for (i, p) in ps.iter().enumerate() {
            let mine: Vec<usize> = par.iter().enumerate().filter(|x| *x.1 == i).flat_map(|x| [t[3 * x.0], t[3 * x.0 + 1], t[3 * x.0 + 2]]).collect();
            check_poly(p, &mine).map_err(|(s, m)| (s, format!("polygon {i}: {m}")))?;
        }
        Ok(t.len() / 3)
    })();
    let Some(n) = inspect(ctx, &|| format!("{} -> {t:?} {par:?}", d()), res) else { return };
    ctx.add("soup-triangles", n as u64);
    ctx.add("soup-polygons", ps.len() as u64);
    let f = Fp::new().fs(&all).0;
    ctx.eval(if ps.len() > 1 { Some(f) } else { None });
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P10",
            rule: "3..260 distinct points: grids, collinear runs, exact and near circles, far offsets, ulp noise, clusters; constraints: oriented boundary of a random set of triangles of a randomly flipped (non-Delaunay) triangulation, collinear neighbours joined; non-trivial = the result has triangles",
            assumptions: &["distinct finite points", "segments bound a region lying to their left and meet only at input points"],
            min_obs: &[("cocircular-neighbours", 5000), ("segments", 20000), ("segments-through-vertices", 2000), ("non-delaunay-flips", 20000), ("collinear-sets", 100)],
            families: vec![
                fam("points", 300000, 1500000, plain),
                fam("many points", 4000, 40000, plain_big),
                fam("few points", 4000, 20000, tiny),
                fam("points and segments", 500000, 3000000, constrained),
                fam("many points and segments", 5000, 40000, constrained_big),
            ],
        },
        Property {
            id: "P11",
            rule: "oriented boundaries of random triangle sets (holes, islands, loops touching at vertices) embedded in integer planes (exact projection) or rotated planes (rounded), alone and in soups; non-trivial = at least two triangles or two polygons",
            assumptions: &["loops run with the region on their left as seen along the given axes and do not cross"],
            min_obs: &[("triangles", 20000), ("exact-planes", 2000), ("rounded-planes", 1000), ("loops-touching-at-vertices", 500), ("loop-vertex-on-another-side", 50), ("soup-polygons", 2000)],
            families: vec![fam("polygon", 600000, 6000000, polygon), fam("soup", 200000, 2000000, soup)],
        },
    ]
}
