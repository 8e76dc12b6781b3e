//! Polyhedral solids: generators, and floating-point measurements (volume, winding number) for the repair oracles.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};

pub type P = [f64; 3];

pub fn sub(a: &P, b: &P) -> P {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: &P, b: &P) -> P {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mul(a: &P, s: f64) -> P {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: &P, b: &P) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &P, b: &P) -> P {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: &P) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: &P) -> P {
    mul(a, 1.0 / len(a))
}

/// faces are planar, each a list of loops with the material below (outer loop counterclockwise seen from outside)
#[derive(Clone, Default, Debug)]
pub struct Solid {
    pub pts: Vec<P>,
    pub faces: Vec<Vec<Vec<usize>>>,
}

/// a signed triangle soup whose solid angles and volumes add up to those of the solid
pub type Fan = Vec<[P; 3]>;

impl Solid {
    pub fn fan(&self) -> Fan {
        let mut v = vec![];
        for f in &self.faces {
            for l in f {
                for k in 1..l.len() - 1 {
                    v.push([self.pts[l[0]], self.pts[l[k]], self.pts[l[k + 1]]]);
                }
            }
        }
        v
    }
    pub fn face_normal(&self, f: usize) -> P {
        let mut n = [0.0; 3];
        for l in &self.faces[f] {
            for k in 0..l.len() {
                n = add(&n, &cross(&self.pts[l[k]], &self.pts[l[(k + 1) % l.len()]]));
            }
        }
        n
    }
    pub fn area(&self) -> f64 {
        (0..self.faces.len()).map(|f| 0.5 * len(&self.face_normal(f))).sum()
    }
    /// real triangles; faces with holes are not supported
    pub fn triangles(&self) -> Vec<[usize; 3]> {
        let mut out = vec![];
        for (i, f) in self.faces.iter().enumerate() {
            assert!(f.len() == 1);
            let n = self.face_normal(i);
            out.extend(ear_clip(&self.pts, &f[0], &n));
        }
        out
    }
    pub fn map(&mut self, f: impl Fn(&P) -> P) {
        for p in &mut self.pts {
            *p = f(p);
        }
    }
    pub fn reversed(&self) -> Solid {
        let mut s = self.clone();
        for f in &mut s.faces {
            for l in f {
                l.reverse();
            }
        }
        s
    }
    pub fn join(&mut self, o: &Solid) {
        let n = self.pts.len();
        self.pts.extend(&o.pts);
        self.faces.extend(o.faces.iter().map(|f| f.iter().map(|l| l.iter().map(|v| v + n).collect()).collect()));
    }
    /// every edge used once in each direction per pairing
    pub fn closed(&self) -> bool {
        let mut m: HashMap<(usize, usize), i64> = HashMap::new();
        for l in self.faces.iter().flatten() {
            for k in 0..l.len() {
                let (a, b) = (l[k], l[(k + 1) % l.len()]);
                *m.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { 1 } else { -1 };
            }
        }
        m.values().all(|v| *v == 0)
    }
}

fn ear_clip(pts: &[P], l: &[usize], n: &P) -> Vec<[usize; 3]> {
    let ax = (0..3).max_by(|a, b| n[*a].abs().partial_cmp(&n[*b].abs()).unwrap()).unwrap();
    let (i, j) = ((ax + 1) % 3, (ax + 2) % 3);
    let s = n[ax].signum();
    let q = |v: usize| [pts[v][i], pts[v][j]];
    let o = |a: usize, b: usize, c: usize| {
        let (a, b, c) = (q(a), q(b), q(c));
        s * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    };
    let mut l = l.to_vec();
    let mut out = vec![];
    while l.len() > 3 {
        let m = l.len();
        let k = (0..m).find(|k| {
            let (a, b, c) = (l[(k + m - 1) % m], l[*k], l[(k + 1) % m]);
            o(a, b, c) > 1e-12 && l.iter().all(|v| [a, b, c].contains(v) || o(a, b, *v) < 0.0 || o(b, c, *v) < 0.0 || o(c, a, *v) < 0.0)
        });
        let Some(k) = k else { return out };
        out.push([l[(k + m - 1) % m], l[k], l[(k + 1) % m]]);
        l.remove(k);
    }
    out.push([l[0], l[1], l[2]]);
    out
}

pub fn volume(f: &[[P; 3]]) -> f64 {
    f.iter().map(|[a, b, c]| dot(a, &cross(b, c)) / 6.0).sum()
}
pub fn area(f: &[[P; 3]]) -> f64 {
    f.iter().map(|[a, b, c]| 0.5 * len(&cross(&sub(b, a), &sub(c, a)))).sum()
}
pub fn winding(f: &[[P; 3]], p: &P) -> f64 {
    let mut w = 0.0;
    for t in f {
        let (a, b, c) = (sub(&t[0], p), sub(&t[1], p), sub(&t[2], p));
        let (la, lb, lc) = (len(&a), len(&b), len(&c));
        let den = la * lb * lc + dot(&a, &b) * lc + dot(&b, &c) * la + dot(&c, &a) * lb;
        w += 2.0 * dot(&a, &cross(&b, &c)).atan2(den);
    }
    w / (4.0 * std::f64::consts::PI)
}

// ---------------------------------------------------------------------------------------------- shapes

pub fn cuboid(lo: P, hi: P) -> Solid {
    let mut pts = vec![];
    for i in 0..8 {
        pts.push([if i & 1 == 0 { lo[0] } else { hi[0] }, if i & 2 == 0 { lo[1] } else { hi[1] }, if i & 4 == 0 { lo[2] } else { hi[2] }]);
    }
    let q = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]];
    Solid { pts, faces: q.iter().map(|f| vec![f.to_vec()]).collect() }
}

/// extrusion of a polygon (counterclockwise outer loop, clockwise holes)
pub fn prism(loops: &[Vec<[f64; 2]>], z0: f64, z1: f64) -> Solid {
    let n: usize = loops.iter().map(|l| l.len()).sum();
    let mut s = Solid::default();
    for z in [z0, z1] {
        for l in loops {
            for p in l {
                s.pts.push([p[0], p[1], z]);
            }
        }
    }
    let mut top = vec![];
    let mut bot = vec![];
    let mut o = 0;
    for l in loops {
        let m = l.len();
        top.push((0..m).map(|k| n + o + k).collect::<Vec<_>>());
        bot.push((0..m).rev().map(|k| o + k).collect::<Vec<_>>());
        for k in 0..m {
            let (a, b) = (o + k, o + (k + 1) % m);
            s.faces.push(vec![vec![a, b, n + b, n + a]]);
        }
        o += m;
    }
    s.faces.push(top);
    s.faces.push(bot);
    s
}

pub fn pyramid(poly: &[[f64; 2]], z0: f64, apex: P) -> Solid {
    let n = poly.len();
    let mut s = Solid::default();
    s.pts.extend(poly.iter().map(|p| [p[0], p[1], z0]));
    s.pts.push(apex);
    s.faces.push(vec![(0..n).rev().collect()]);
    for k in 0..n {
        s.faces.push(vec![vec![k, (k + 1) % n, n]]);
    }
    s
}

pub fn octahedron(r: f64) -> Solid {
    let pts = vec![[r, 0., 0.], [-r, 0., 0.], [0., r, 0.], [0., -r, 0.], [0., 0., r], [0., 0., -r]];
    let t = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]];
    Solid { pts, faces: t.iter().map(|f| vec![f.to_vec()]).collect() }
}

/// octahedron subdivided and pushed to the sphere
pub fn sphere(level: usize) -> Solid {
    let mut s = octahedron(1.0);
    for _ in 0..level {
        let mut mid: HashMap<(usize, usize), usize> = HashMap::new();
        let mut faces = vec![];
        for f in s.faces.clone() {
            let t = &f[0];
            let mut m = [0; 3];
            for k in 0..3 {
                let (a, b) = (t[k], t[(k + 1) % 3]);
                m[k] = *mid.entry((a.min(b), a.max(b))).or_insert_with(|| {
                    s.pts.push(unit(&add(&s.pts[a], &s.pts[b])));
                    s.pts.len() - 1
                });
            }
            faces.push(vec![vec![t[0], m[0], m[2]]]);
            faces.push(vec![vec![m[0], t[1], m[1]]]);
            faces.push(vec![vec![m[2], m[1], t[2]]]);
            faces.push(vec![vec![m[0], m[1], m[2]]]);
        }
        s.faces = faces;
    }
    s
}

/// star-shaped: sphere with random radii (faces are triangles)
pub fn bumpy(r: &mut Rng, level: usize, lo: f64) -> Solid {
    let mut s = sphere(level);
    for p in &mut s.pts {
        *p = mul(p, lo + (1.0 - lo) * r.unit());
    }
    s
}

/// union of unit cubes (faces are unit squares); cubes may touch along edges or corners
pub fn polycube(r: &mut Rng, k: usize, n: usize) -> Solid {
    let mut set: BTreeMap<[i64; 3], ()> = BTreeMap::new();
    let mut c = [r.range(0, n as i64 - 1), r.range(0, n as i64 - 1), r.range(0, n as i64 - 1)];
    set.insert(c, ());
    while set.len() < k {
        let keys: Vec<_> = set.keys().copied().collect();
        c = *r.pick(&keys);
        let a = r.below(3);
        c[a] += if r.chance(1, 2) { 1 } else { -1 };
        if c[a] >= 0 && c[a] < n as i64 {
            set.insert(c, ());
        }
    }
    cubes(&set.into_keys().collect::<Vec<_>>())
}

pub fn cubes(set: &[[i64; 3]]) -> Solid {
    let mut s = Solid::default();
    let mut ids: HashMap<[i64; 3], usize> = HashMap::new();
    for c in set {
        let b = cuboid([0.0; 3], [1.0; 3]);
        for f in &b.faces {
            let l = &f[0];
            let mut n = [0i64; 3];
            let mid: P = l.iter().fold([0.0; 3], |m, v| add(&m, &b.pts[*v]));
            for a in 0..3 {
                if mid[a] == 0.0 {
                    n[a] = -1;
                } else if mid[a] == 4.0 {
                    n[a] = 1;
                }
            }
            if set.contains(&[c[0] + n[0], c[1] + n[1], c[2] + n[2]]) {
                continue;
            }
            let l2 = l
                .iter()
                .map(|v| {
                    let p = b.pts[*v];
                    let k = [c[0] + p[0] as i64, c[1] + p[1] as i64, c[2] + p[2] as i64];
                    *ids.entry(k).or_insert_with(|| {
                        s.pts.push([k[0] as f64, k[1] as f64, k[2] as f64]);
                        s.pts.len() - 1
                    })
                })
                .collect();
            s.faces.push(vec![l2]);
        }
    }
    s
}

pub fn star_polygon(r: &mut Rng, n: usize, lo: f64) -> Vec<[f64; 2]> {
    (0..n)
        .map(|k| {
            let t = (k as f64 + 0.6 * r.unit()) / n as f64 * std::f64::consts::TAU;
            let d = lo + (1.0 - lo) * r.unit();
            [d * t.cos(), d * t.sin()]
        })
        .collect()
}

pub fn rotation(r: &mut Rng) -> [P; 3] {
    let a = loop {
        let v = [r.sym(), r.sym(), r.sym()];
        if len(&v) > 0.2 {
            break unit(&v);
        }
    };
    let b = loop {
        let v = [r.sym(), r.sym(), r.sym()];
        let c = cross(&a, &v);
        if len(&c) > 0.2 {
            break unit(&c);
        }
    };
    [a, b, cross(&a, &b)]
}
pub fn rotate(m: &[P; 3], p: &P) -> P {
    [dot(&m[0], p), dot(&m[1], p), dot(&m[2], p)]
}

/// exact symmetry of the cube lattice with determinant 1
pub fn lattice_rotation(r: &mut Rng) -> [P; 3] {
    let mut ax = [0, 1, 2];
    r.shuffle(&mut ax);
    let mut m = [[0.0; 3]; 3];
    for k in 0..3 {
        m[k][ax[k]] = if r.chance(1, 2) { 1.0 } else { -1.0 };
    }
    if dot(&m[0], &cross(&m[1], &m[2])) < 0.0 {
        m[0] = mul(&m[0], -1.0);
    }
    m
}

/// a clean solid of moderate size around the origin, outward oriented; `holes` allows faces with holes
pub fn any_solid(r: &mut Rng, holes: bool) -> (&'static str, Solid) {
    let k = r.below(if holes { 12 } else { 11 });
    match k {
        0 => ("box", cuboid([0.0; 3], [r.range(1, 4) as f64, r.range(1, 4) as f64, r.range(1, 4) as f64])),
        1 => {
            let n = 3 + r.below(4);
            let p = star_polygon(r, n, 1.0);
            ("prism", prism(&[p], -1.0, r.range(0, 2) as f64))
        }
        2 => {
            let n = 4 + r.below(5);
            let p = star_polygon(r, n, 0.4);
            ("star-prism", prism(&[p], -1.0, r.range(0, 2) as f64))
        }
        3 => {
            let n = 3 + r.below(4);
            let p = star_polygon(r, n, 0.8);
            ("pyramid", pyramid(&p, 0.0, [0.3 * r.sym(), 0.3 * r.sym(), 1.0]))
        }
        4 => ("octahedron", octahedron(r.range(1, 3) as f64)),
        5 => ("sphere", sphere(1)),
        6 => ("bumpy", bumpy(r, 1, 0.6)),
        7 => {
            let k = 2 + r.below(5);
            ("polycube", polycube(r, k, 3))
        }
        8 => {
            let l = vec![[0.0, 0.0], [3.0, 0.0], [3.0, 1.0], [1.0, 1.0], [1.0, 3.0], [0.0, 3.0]];
            ("L-prism", prism(&[l], 0.0, r.range(1, 2) as f64))
        }
        9 => {
            // a cavity, or several parts
            let mut s = cuboid([0.0; 3], [4.0, 3.0, 3.0]);
            if r.chance(2, 3) {
                let kind = r.below(3);
                let i = match kind {
                    0 => cuboid([1.0, 1.0, 1.0], [3.0, 2.0, 2.0]),
                    1 => {
                        let mut o = octahedron(1.0);
                        o.map(|p| add(p, &[2.0, 1.5, 1.5]));
                        o
                    }
                    _ => cuboid([0.25, 0.25, 0.25], [1.0, 2.75, 1.0]),
                };
                s.join(&i.reversed());
                if kind == 0 && r.chance(1, 2) {
                    s.join(&cuboid([1.25, 1.25, 1.25], [1.75, 1.75, 1.75]));
                }
                ("hollow", s)
            } else {
                s.join(&cuboid([5.0, 0.0, 0.0], [6.0, 1.0, 1.0]));
                if r.chance(1, 2) {
                    s.join(&cuboid([5.0, 2.0, 0.0], [6.0, 3.0, 2.0]));
                }
                ("parts", s)
            }
        }
        10 => {
            let p = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]];
            ("tetrahedron", pyramid(&p, 0.0, [r.sym(), r.sym(), 0.5 + r.unit()]))
        }
        _ => {
            let o = vec![[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [0.0, 4.0]];
            let mut ls = vec![o];
            if r.chance(1, 3) {
                ls.push(vec![[1.0, 1.0], [1.0, 2.0], [2.0, 2.0], [2.0, 1.0]]);
                if r.chance(1, 2) {
                    ls.push(vec![[3.0, 3.0], [2.5, 3.5], [3.5, 3.5]]);
                }
            } else {
                ls.push(vec![[1.0, 1.0], [1.0, 3.0], [3.0, 3.0], [3.0, 1.0]]);
            }
            ("plate-with-holes", prism(&ls, 0.0, 1.0))
        }
    }
}

/// many faces
pub fn large_solid(r: &mut Rng) -> (&'static str, Solid) {
    match r.below(5) {
        0 => ("fine sphere", sphere(2)),
        1 => ("fine bumpy", bumpy(r, 2, 0.7)),
        2 => {
            let n = 12 + r.below(20);
            let p = star_polygon(r, n, 0.3);
            ("large star-prism", prism(&[p], -1.0, 1.0))
        }
        3 => {
            let k = 10 + r.below(15);
            ("large polycube", polycube(r, k, 4))
        }
        _ => {
            let n = 16 + r.below(30);
            let p = star_polygon(r, n, 0.9);
            ("large pyramid", pyramid(&p, 0.0, [0.0, 0.0, 1.0]))
        }
    }
}

/// returned triangles as coordinates
pub fn tris(pts: &[f64], t: &[usize]) -> Fan {
    let p = |i: usize| [pts[3 * i], pts[3 * i + 1], pts[3 * i + 2]];
    t.chunks(3).map(|q| [p(q[0]), p(q[1]), p(q[2])]).collect()
}

pub fn self_test() {
    let c = cuboid([0.0; 3], [1.0, 2.0, 3.0]);
    assert!(c.closed() && (volume(&c.fan()) - 6.0).abs() < 1e-12);
    assert!((winding(&c.fan(), &[0.5, 0.7, 0.9]) - 1.0).abs() < 1e-9);
    assert!(winding(&c.fan(), &[1.5, 0.7, 0.9]).abs() < 1e-9);
    let mut r = Rng::new(&[7]);
    for _ in 0..200 {
        let (n, s) = any_solid(&mut r, true);
        let f = s.fan();
        assert!(s.closed() && volume(&f) > 0.0, "{n}");
        if s.faces.iter().all(|f| f.len() == 1) {
            let t: Fan = s.triangles().iter().map(|t| t.map(|v| s.pts[v])).collect();
            assert!((volume(&t) - volume(&f)).abs() < 1e-9 && (area(&t) - s.area()).abs() < 1e-9, "{n}");
        }
    }
}
