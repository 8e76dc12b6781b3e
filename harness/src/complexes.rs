//! Exact examination of a recorded space subdivision (the oracle side of P25, P26 and P27).
use crate::exact::*;
use crate::solid::{add, cross, dot, len, mul, sub, unit, P};
use gpf::polygonlization::verif::{Partition, Snapshot, VertexDef};
use std::cell::OnceCell;
use std::collections::HashMap;

pub type R<T> = Result<T, (String, String)>;
macro_rules! need {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err(($sig.to_string(), format!($($a)*))); } };
}

pub struct Vert {
    pub def: VertexDef,
    hp: OnceCell<HP>,
    pub p: P,
}

impl Vert {
    fn new(d: &VertexDef, unit: f64) -> R<Vert> {
        let m = |p: &P| p.map(|x| x / unit);
        let d = &match d {
            VertexDef::Explicit(p) => VertexDef::Explicit(m(p)),
            VertexDef::Lpi(q) => VertexDef::Lpi(q.map(|p| m(&p))),
            VertexDef::Tpi(q) => VertexDef::Tpi(q.map(|p| m(&p))),
        };
        let hp = match d {
            VertexDef::Explicit(p) => {
                return Ok(Vert { def: d.clone(), hp: OnceCell::new(), p: *p });
            }
            VertexDef::Lpi(q) => lpi(&q[0], &q[1], &q[2], &q[3], &q[4]),
            VertexDef::Tpi(q) => tpi(&[[q[0], q[1], q[2]], [q[3], q[4], q[5]], [q[6], q[7], q[8]]]),
        };
        need!(!hp.w.is_zero(), "undefined-vertex", "a vertex is the intersection of parallel objects: {d:?}");
        let p = hp.approx();
        let c = OnceCell::new();
        let _ = c.set(hp);
        Ok(Vert { def: d.clone(), hp: c, p })
    }
    pub fn hp(&self) -> &HP {
        self.hp.get_or_init(|| match &self.def {
            VertexDef::Explicit(p) => HP::new(p),
            _ => unreachable!(),
        })
    }
}

struct Plane {
    t: [P; 3],
    exact: OnceCell<([Dy; 3], Dy)>,
    n: P,
    good: bool,
}

impl Plane {
    fn new(t: [P; 3]) -> Plane {
        let (e, f) = (sub(&t[1], &t[0]), sub(&t[2], &t[0]));
        let n = cross(&e, &f);
        let good = len(&n) > 1e-3 * len(&e) * len(&f);
        let cell = OnceCell::new();
        if good {
            return Plane { t, exact: cell, n: unit(&n), good };
        }
        // rounding may have taken all of a thin triangle's normal
        let x = plane(&t[0], &t[1], &t[2]);
        let q = [x.0[0].approx(), x.0[1].approx(), x.0[2].approx()];
        let big = q.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let n = if big > 0.0 { unit(&mul(&q, 1.0 / big)) } else { n };
        let _ = cell.set(x);
        Plane { t, exact: cell, n, good }
    }
    /// sign of the position of v with respect to the plane
    fn side(&self, v: &Vert) -> i32 {
        if self.good {
            let d = dot(&self.n, &sub(&v.p, &self.t[0]));
            if d.abs() > 1e-9 {
                return if d > 0.0 { 1 } else { -1 };
            }
        }
        let (n, k) = self.exact.get_or_init(|| plane(&self.t[0], &self.t[1], &self.t[2]));
        let h = v.hp();
        (&n[0] * &h.c[0] + &n[1] * &h.c[1] + &n[2] * &h.c[2] - k * &h.w).sign()
    }
    fn degenerate(&self) -> bool {
        !self.good && plane(&self.t[0], &self.t[1], &self.t[2]).0.iter().all(|x| x.is_zero())
    }
    /// an axis along which the plane projects well, and the sign of its normal there
    fn axis(&self) -> (usize, f64) {
        let a = (0..3).max_by(|a, b| self.n[*a].abs().partial_cmp(&self.n[*b].abs()).unwrap()).unwrap();
        (a, self.n[a].signum())
    }
}

fn turn(a: &Vert, b: &Vert, c: &Vert, axis: usize) -> i32 {
    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
    let (e, f) = (sub(&b.p, &a.p), sub(&c.p, &a.p));
    let d = e[i] * f[j] - e[j] * f[i];
    if d.abs() > 1e-9 {
        return if d > 0.0 { 1 } else { -1 };
    }
    hp_orient2d(a.hp(), b.hp(), c.hp(), i, j)
}

fn clip(p: &[[f64; 2]], a: [f64; 2], b: [f64; 2], o: f64) -> Vec<[f64; 2]> {
    let d = |q: &[f64; 2]| o * ((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0]));
    let mut r = vec![];
    for k in 0..p.len() {
        let (q, w) = (p[k], p[(k + 1) % p.len()]);
        let (dq, dw) = (d(&q), d(&w));
        if dq >= 0.0 {
            r.push(q);
        }
        if (dq > 0.0 && dw < 0.0) || (dq < 0.0 && dw > 0.0) {
            let t = dq / (dq - dw);
            r.push([q[0] + t * (w[0] - q[0]), q[1] + t * (w[1] - q[1])]);
        }
    }
    r
}
fn shoelace(p: &[[f64; 2]]) -> f64 {
    (0..p.len()).map(|k| (p[k][0] - p[0][0]) * (p[(k + 1) % p.len()][1] - p[0][1]) - (p[k][1] - p[0][1]) * (p[(k + 1) % p.len()][0] - p[0][0])).sum::<f64>() / 2.0
}

/// distinct positions, by exact comparison of close vertices
fn distinct(v: &[Vert], used: &[bool]) -> R<()> {
    let mut o: Vec<usize> = (0..v.len()).filter(|k| used[*k]).collect();
    o.sort_by(|a, b| v[*a].p[0].partial_cmp(&v[*b].p[0]).unwrap());
    for i in 0..o.len() {
        for j in i + 1..o.len() {
            if v[o[j]].p[0] - v[o[i]].p[0] > 1e-9 {
                break;
            }
            if len(&sub(&v[o[i]].p, &v[o[j]].p)) < 1e-9 {
                need!(!hp_eq(v[o[i]].hp(), v[o[j]].hp()), "coinciding-vertices", "vertices {} and {} are both at {:?}", o[i], o[j], v[o[i]].p);
            }
        }
    }
    Ok(())
}

pub struct Complex<'a> {
    pub s: &'a Snapshot,
    /// coordinates are divided by this power of two, so that the size of all is at most 32
    pub unit: f64,
    pub v: Vec<Vert>,
    planes: Vec<Plane>,
    pub areas: Vec<f64>,
    centers: Vec<P>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub vertices: u64,
    pub implicit: u64,
    pub faces: u64,
    pub cells: u64,
    pub covered: u64,
}

impl<'a> Complex<'a> {
    pub fn new(s: &'a Snapshot) -> R<Self> {
        let mut unit = 1.0;
        for d in &s.vertices {
            if let VertexDef::Explicit(p) = d {
                while p.iter().any(|x| x.abs() > 32.0 * unit) {
                    unit *= 2.0;
                }
            }
        }
        let v: Vec<Vert> = s.vertices.iter().map(|d| Vert::new(d, unit)).collect::<R<_>>()?;
        let mut planes = vec![];
        let mut areas = vec![];
        let mut centers = vec![];
        for f in &s.faces {
            need!(f.vertices.len() >= 3, "face", "a face with {} vertices", f.vertices.len());
            planes.push(Plane::new(f.plane.map(|k| v[k].p)));
            let mut n = [0.0; 3];
            let mut c = [0.0; 3];
            let o = v[f.vertices[0]].p;
            for k in 0..f.vertices.len() {
                let (a, b) = (sub(&v[f.vertices[k]].p, &o), sub(&v[f.vertices[(k + 1) % f.vertices.len()]].p, &o));
                n = add(&n, &cross(&a, &b));
                c = add(&c, &a);
            }
            areas.push(0.5 * len(&n));
            centers.push(add(&o, &mul(&c, 1.0 / f.vertices.len() as f64)));
        }
        Ok(Complex { s, unit, v, planes, areas, centers })
    }

    /// a conforming complex of convex cells filling the convex hull of the input
    pub fn well_formed(&self) -> R<Stats> {
        let s = self.s;
        let n = s.cells.len();
        let mut st = Stats { faces: s.faces.len() as u64, cells: n as u64, ..Stats::default() };
        let mut used = vec![false; self.v.len()];
        for (i, f) in s.faces.iter().enumerate() {
            let pl = &self.planes[i];
            need!(f.plane.iter().all(|k| matches!(self.v[*k].def, VertexDef::Explicit(_))), "plane", "the plane of face {i} is not given by input points");
            need!(!pl.degenerate(), "plane", "the plane of face {i} is given by collinear points");
            for k in &f.vertices {
                used[*k] = true;
                need!(pl.side(&self.v[*k]) == 0, "off-plane", "vertex {k} of face {i} is not on the face's plane");
            }
            // weakly convex with at least three corners
            let (ax, _) = pl.axis();
            let m = f.vertices.len();
            let (mut pos, mut neg) = (0, 0);
            for k in 0..m {
                match turn(&self.v[f.vertices[k]], &self.v[f.vertices[(k + 1) % m]], &self.v[f.vertices[(k + 2) % m]], ax) {
                    1 => pos += 1,
                    -1 => neg += 1,
                    _ => {}
                }
            }
            need!(pos.min(neg) == 0 && pos.max(neg) >= 3, "face-shape", "face {i}: {pos} left and {neg} right turns among {m} corners");
            let [a, b] = f.cells;
            need!(a < n && (b < n || b == usize::MAX) && a != b, "face-cells", "face {i} lies between cells {a} and {b}");
            for c in [a, b] {
                if c < n {
                    need!(s.cells[c].iter().filter(|x| **x == i).count() == 1, "face-cells", "face {i} is not listed once by its cell {c}");
                }
            }
        }
        need!(s.cells.iter().map(|c| c.len()).sum::<usize>() == s.faces.iter().map(|f| f.cells.iter().filter(|c| **c < n).count()).sum(), "face-cells", "cells list faces that do not name them");
        for (k, v) in self.v.iter().enumerate() {
            if used[k] {
                st.vertices += 1;
                st.implicit += !matches!(v.def, VertexDef::Explicit(_)) as u64;
            }
        }
        distinct(&self.v, &used)?;
        // cells
        let mut convention = 0.0f64;
        let mut total = 0.0;
        for (c, fs) in s.cells.iter().enumerate() {
            let mut vs: Vec<usize> = fs.iter().flat_map(|f| s.faces[*f].vertices.clone()).collect();
            vs.sort();
            vs.dedup();
            let mut e: HashMap<(usize, usize), u32> = HashMap::new();
            for f in fs {
                let face = &s.faces[*f];
                let m = face.vertices.len();
                for k in 0..m {
                    let (a, b) = (face.vertices[k], face.vertices[(k + 1) % m]);
                    *e.entry(if face.cells[0] == c { (a, b) } else { (b, a) }).or_insert(0) += 1;
                }
            }
            for ((a, b), k) in &e {
                need!(*k == 1 && e.get(&(*b, *a)) == Some(&1), "cell-closed", "cell {c}: the edge {a}-{b} is not shared by exactly two of its faces");
            }
            need!(vs.len() + fs.len() == e.len() / 2 + 2, "cell-euler", "cell {c}: {} vertices, {} edges, {} faces", vs.len(), e.len() / 2, fs.len());
            let mut o = [0.0; 3];
            for k in &vs {
                o = add(&o, &mul(&self.v[*k].p, 1.0 / vs.len() as f64));
            }
            let mut vol = 0.0;
            for f in fs {
                let (mut pos, mut neg) = (0, 0);
                for k in &vs {
                    match self.planes[*f].side(&self.v[*k]) {
                        1 => pos += 1,
                        -1 => neg += 1,
                        _ => {}
                    }
                }
                need!(pos.min(neg) == 0 && pos.max(neg) > 0, "cell-convex", "cell {c} has {pos} vertices on one side and {neg} on the other side of its face {f}");
                vol += self.areas[*f] * dot(&self.normal(*f), &sub(&self.centers[*f], &o)) / 3.0 * if s.faces[*f].cells[0] == c { 1.0 } else { -1.0 };
            }
            total += vol;
            if vol.abs() > 1e-7 {
                need!(convention * vol >= 0.0, "cell-orientation", "cell {c} has volume {vol}, others have the opposite sign");
                convention = vol.signum();
            }
        }
        // the boundary
        let mut hull = 0.0;
        let o = self.v[s.faces[0].vertices[0]].p;
        for (i, f) in s.faces.iter().enumerate() {
            if f.cells[1] >= n {
                let (mut pos, mut neg) = (0, 0);
                for k in 0..self.v.len() {
                    if matches!(self.v[k].def, VertexDef::Explicit(_)) {
                        match self.planes[i].side(&self.v[k]) {
                            1 => pos += 1,
                            -1 => neg += 1,
                            _ => {}
                        }
                    }
                }
                need!(pos.min(neg) == 0, "boundary", "the outer face {i} is not on the convex hull of the input");
                hull += self.areas[i] * dot(&self.normal(i), &sub(&self.centers[i], &o)) / 3.0;
            }
        }
        need!((hull - total).abs() <= 1e-9 * (1.0 + hull.abs()), "volume", "cells of total volume {total} in a hull of volume {hull}");
        Ok(st)
    }

    fn normal(&self, f: usize) -> P {
        let v = &self.s.faces[f].vertices;
        let o = self.v[v[0]].p;
        let mut n = [0.0; 3];
        for k in 0..v.len() {
            n = add(&n, &cross(&sub(&self.v[v[k]].p, &o), &sub(&self.v[v[(k + 1) % v.len()]].p, &o)));
        }
        let l = len(&n);
        if l == 0.0 {
            n
        } else {
            mul(&n, 1.0 / l)
        }
    }

    /// for each input triangle the faces on it: those whose interior meets the triangle's. Err when the outline of a
    /// shell's triangles in a plane passes through a face, or a triangle is not filled by its faces
    pub fn coverage(&self, shell_of: &[usize]) -> R<Vec<Vec<usize>>> {
        let s = self.s;
        let mut out = vec![vec![]; s.n_input_triangles];
        let mut boxes = vec![];
        for f in &s.faces {
            let mut lo = [f64::MAX; 3];
            let mut hi = [f64::MIN; 3];
            for k in &f.vertices {
                for j in 0..3 {
                    lo[j] = lo[j].min(self.v[*k].p[j]);
                    hi[j] = hi[j].max(self.v[*k].p[j]);
                }
            }
            boxes.push((lo, hi));
        }
        let mut by_edge: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
        for t in 0..s.n_input_triangles {
            let c = s.triangles[t];
            for k in 0..3 {
                let (a, b) = (c[k], c[(k + 1) % 3]);
                by_edge.entry((a.min(b), a.max(b))).or_default().push((t, c[(k + 2) % 3]));
            }
        }
        for t in 0..s.n_input_triangles {
            let c = s.triangles[t];
            let tp = c.map(|k| self.v[k].p);
            let pl = Plane::new(tp);
            let (ax, _) = pl.axis();
            let ori = turn(&self.v[c[0]], &self.v[c[1]], &self.v[c[2]], ax);
            need!(ori != 0, "degenerate-triangle", "triangle {t} has no area");
            // sides along which the shell goes on in the same plane
            let inner: Vec<bool> = (0..3)
                .map(|k| {
                    let (a, b) = (c[k], c[(k + 1) % 3]);
                    by_edge[&(a.min(b), a.max(b))].iter().any(|(u, o)| {
                        *u != t && shell_of[*u] == shell_of[t] && pl.side(&self.v[*o]) == 0 && turn(&self.v[a], &self.v[b], &self.v[*o], ax) * ori < 0
                    })
                })
                .collect();
            let mut sum = 0.0;
            for (i, f) in s.faces.iter().enumerate() {
                if (0..3).any(|j| tp.iter().all(|p| p[j] < boxes[i].0[j] - 1e-9) || tp.iter().all(|p| p[j] > boxes[i].1[j] + 1e-9)) {
                    continue;
                }
                if f.vertices.iter().any(|k| pl.side(&self.v[*k]) != 0) {
                    continue;
                }
                let m = f.vertices.len();
                // corners of the face on either side of the triangle's sides
                let cut: Vec<(bool, bool)> = (0..3)
                    .map(|k| {
                        let (a, b) = (c[k], c[(k + 1) % 3]);
                        let o: Vec<i32> = f.vertices.iter().map(|x| turn(&self.v[a], &self.v[b], &self.v[*x], ax) * ori).collect();
                        (o.iter().any(|x| *x > 0), o.iter().any(|x| *x < 0))
                    })
                    .collect();
                if cut.iter().any(|x| !x.0) {
                    continue;
                }
                if cut.iter().all(|x| !x.1) {
                    out[t].push(i);
                    sum += self.areas[i];
                    continue;
                }
                // partly outside: is there a side of the face with the triangle behind it?
                let fo = (0..m).map(|k| turn(&self.v[f.vertices[k]], &self.v[f.vertices[(k + 1) % m]], &self.v[f.vertices[(k + 2) % m]], ax)).find(|x| *x != 0).unwrap_or(1);
                let outer: Vec<[bool; 3]> = (0..m).map(|k| c.map(|x| turn(&self.v[f.vertices[k]], &self.v[f.vertices[(k + 1) % m]], &self.v[x], ax) * fo <= 0)).collect();
                if outer.iter().any(|o| o.iter().all(|x| *x)) {
                    continue;
                }
                for k in 0..3 {
                    if cut[k].0 && cut[k].1 && !outer.iter().any(|o| o[k] && o[(k + 1) % 3]) {
                        need!(inner[k], "straddles", "face {i} {:?} is partly inside and partly outside of triangle {t} {tp:?}", f.vertices.iter().map(|k| self.v[*k].p).collect::<Vec<_>>());
                    }
                }
                out[t].push(i);
                let (x, y) = ((ax + 1) % 3, (ax + 2) % 3);
                let q = |p: &P| [p[x], p[y]];
                let mut poly: Vec<[f64; 2]> = f.vertices.iter().map(|k| q(&self.v[*k].p)).collect();
                for k in 0..3 {
                    poly = clip(&poly, q(&tp[k]), q(&tp[(k + 1) % 3]), ori as f64);
                }
                sum += shoelace(&poly).abs() * len(&pl.n) / pl.n[ax].abs();
            }
            let want = 0.5 * len(&cross(&sub(&tp[1], &tp[0]), &sub(&tp[2], &tp[0])));
            need!((sum - want).abs() <= 1e-9 * (1.0 + want), "not-filled", "triangle {t} {tp:?} of area {want} carries faces of area {sum}");
        }
        Ok(out)
    }

    /// per shell and face: 0 not covered, 1 cell 0 lies behind (inside), -1 cell 0 lies in front, 2 both
    pub fn facing(&self, cov: &[Vec<usize>], shell_of: &[usize]) -> Vec<Vec<i32>> {
        let n = shell_of.iter().max().map_or(0, |m| m + 1);
        let mut out = vec![vec![0; self.s.faces.len()]; n];
        for (t, fs) in cov.iter().enumerate() {
            let pl = Plane::new(self.s.triangles[t].map(|k| self.v[k].p));
            for f in fs {
                let c = self.s.faces[*f].cells[0];
                let side = self.s.cells[c].iter().flat_map(|x| &self.s.faces[*x].vertices).map(|k| pl.side(&self.v[*k])).find(|x| *x != 0).unwrap_or(0);
                let e = &mut out[shell_of[t]][*f];
                // the triangle's normal points away from the inside
                let w = -side;
                *e = if *e == 0 || *e == w { w } else { 2 };
            }
        }
        out
    }

    pub fn center(&self, c: usize) -> P {
        let mut q = [0.0; 3];
        let fs = &self.s.cells[c];
        for f in fs {
            q = add(&q, &mul(&self.centers[*f], 1.0 / fs.len() as f64));
        }
        q
    }

    /// so thin that a rounded position cannot tell whether it lies on the face
    fn sliver(&self, f: usize) -> bool {
        let vs = &self.s.faces[f].vertices;
        let (mut long, mut far) = (0.0f64, 0.0f64);
        for (i, a) in vs.iter().enumerate() {
            let a = self.v[*a].p;
            far = a.iter().fold(far, |m, x| m.max(x.abs()));
            for b in &vs[..i] {
                long = long.max(len(&sub(&a, &self.v[*b].p)));
            }
        }
        self.areas[f] <= 1e-12 * far * long
    }

    pub fn marked(&self, facing: &[Vec<i32>], p: &Partition) -> R<u64> {
        let mut k = 0;
        for (s, fs) in facing.iter().enumerate() {
            for (f, x) in fs.iter().enumerate() {
                if self.sliver(f) {
                    continue;
                }
                need!((*x != 0) == p.covered[s][f], if *x != 0 { "not-marked" } else { "marked" }, "face {f} {} a triangle of shell {s}, but the partition assumes the opposite ({:?})", if *x != 0 { "lies on" } else { "is not on" }, self.s.faces[f].vertices.iter().map(|k| self.v[*k].p).collect::<Vec<_>>());
                k += (*x != 0) as u64;
            }
        }
        Ok(k)
    }

    /// (cost of the labels, least cost) in units of the total area / 2^40; None when a shell's triangles contradict each other
    pub fn costs(&self, facing: &[i32], inside: &[bool]) -> Option<(i64, i64)> {
        let total: f64 = self.areas.iter().sum();
        let n = self.s.cells.len();
        let (src, snk, out) = (n + 1, n + 2, n);
        let mut arcs = vec![(out, snk, 1i64 << 44)];
        let lab = |c: usize| c < n && inside[c];
        let mut cost = 0i64;
        for (i, f) in self.s.faces.iter().enumerate() {
            let w = (self.areas[i] / total * (1u64 << 40) as f64).round() as i64;
            let b = if f.cells[1] < n { f.cells[1] } else { out };
            let a = f.cells[0];
            match facing[i] {
                0 => {
                    arcs.push((a, b, w));
                    arcs.push((b, a, w));
                    if lab(a) != lab(b) {
                        cost += w;
                    }
                }
                2 => return None,
                x => {
                    let (i, o) = if x == 1 { (a, b) } else { (b, a) };
                    // i should be inside, o outside; the world around the hull is outside anyway
                    if i != out {
                        arcs.push((src, i, w / 2));
                        cost += if lab(i) { 0 } else { w / 2 };
                    }
                    if o != out {
                        arcs.push((o, snk, w / 2));
                        cost += if lab(o) { w / 2 } else { 0 };
                    }
                }
            }
        }
        Some((cost, crate::props::flow::dinic(n + 3, &arcs, src, snk)))
    }
}
