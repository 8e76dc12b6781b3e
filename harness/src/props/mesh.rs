//! P14 construction, P15 edits, P16 traversals of the surface mesh: an abstract polygon model is
//! kept next to the mesh and compared with everything the mesh says after every step.
use crate::ctx::*;
use crate::rng::*;
use gpf::mesh::{EdgeId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId};
use gpf::mesh::ElementId;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default)]
struct Model {
    /// per halfedge: origin, next, face, edge
    he: Vec<(usize, usize, usize, usize)>,
    nv: usize,
    ne: usize,
    nf: usize,
    /// vertex indices no polygon uses
    unused: BTreeSet<usize>,
}

type R<T> = Result<T, (String, String)>;
macro_rules! need {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err(($sig.to_string(), format!($($a)*))); } };
}

impl Model {
    fn tip(&self, h: usize) -> usize {
        self.he[self.he[h].1].0
    }
    fn cycle(&self, h: usize) -> Vec<usize> {
        let mut v = vec![h];
        let mut c = self.he[h].1;
        while c != h {
            v.push(c);
            c = self.he[c].1;
        }
        v
    }
    fn faces(&self) -> Vec<Vec<usize>> {
        let mut f = vec![vec![]; self.nf];
        for h in 0..self.he.len() {
            if f[self.he[h].2].is_empty() {
                f[self.he[h].2] = self.cycle(h);
            }
        }
        f
    }
    fn edges(&self) -> Vec<BTreeSet<usize>> {
        let mut e = vec![BTreeSet::new(); self.ne];
        for h in 0..self.he.len() {
            e[self.he[h].3].insert(h);
        }
        e
    }
    fn around(&self) -> (Vec<BTreeSet<usize>>, Vec<BTreeSet<usize>>) {
        let mut i = vec![BTreeSet::new(); self.nv];
        let mut o = vec![BTreeSet::new(); self.nv];
        for h in 0..self.he.len() {
            o[self.he[h].0].insert(h);
            i[self.tip(h)].insert(h);
        }
        (i, o)
    }
    fn prev(&self) -> Vec<usize> {
        let mut p = vec![usize::MAX; self.he.len()];
        for h in 0..self.he.len() {
            p[self.he[h].1] = h;
        }
        p
    }
}

fn walk(start: usize, cap: usize, f: impl Fn(usize) -> usize) -> Option<Vec<usize>> {
    let mut v = vec![start];
    let mut c = f(start);
    while c != start {
        if v.len() > cap || c >= cap {
            return None;
        }
        v.push(c);
        c = f(c);
    }
    Some(v)
}

fn same_set(v: &Option<Vec<usize>>, s: &BTreeSet<usize>) -> bool {
    match v {
        None => false,
        Some(v) => v.len() == s.len() && v.iter().all(|x| s.contains(x)),
    }
}

/// read the polygons back from a freshly built mesh
fn read(m: &SurfaceMesh, polys: &[Vec<usize>]) -> R<Model> {
    let total: usize = polys.iter().map(|p| p.len()).sum();
    let nv = polys.iter().flatten().max().unwrap() + 1;
    let used: BTreeSet<usize> = polys.iter().flatten().copied().collect();
    need!(m.n_faces() == polys.len() && m.n_faces_capacity() == polys.len(), "count-faces", "{} faces for {} polygons", m.n_faces(), polys.len());
    need!(m.n_halfedges() == total && m.n_halfedges_capacity() == total, "count-halfedges", "{} halfedges for {} sides", m.n_halfedges(), total);
    need!(m.n_vertices_capacity() == nv, "count-vertices", "vertex capacity {} for largest index {}", m.n_vertices_capacity(), nv - 1);
    need!(used.len() < nv || m.n_vertices() == nv, "count-vertices", "{} vertices for {}", m.n_vertices(), nv);
    let mut model = Model { he: vec![(usize::MAX, 0, 0, 0); total], nv, ne: 0, nf: polys.len(), unused: (0..nv).filter(|v| !used.contains(v)).collect() };
    let mut pair: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (f, p) in polys.iter().enumerate() {
        need!(m.face_is_valid(FaceId(f)), "face-invalid", "face {f}");
        let h0 = m.f_halfedge(FaceId(f)).0;
        need!(h0 < total, "face-halfedge", "face {f} starts at {h0}");
        let Some(c) = walk(h0, total, |h| m.he_next(HalfedgeId(h)).0) else {
            return Err(("face-cycle".into(), format!("next links of face {f} do not close")));
        };
        let vs: Vec<usize> = c.iter().map(|&h| m.he_vertex(HalfedgeId(h)).0).collect();
        let k = vs.iter().position(|v| *v == p[0]).unwrap_or(0);
        let rot: Vec<usize> = (0..vs.len()).map(|i| vs[(i + k) % vs.len()]).collect();
        need!(rot == *p, "face-vertices", "face {f} reads {vs:?}, polygon is {p:?}");
        for (i, &h) in c.iter().enumerate() {
            need!(model.he[h].0 == usize::MAX, "halfedge-shared", "halfedge {h} appears in two faces");
            let (a, b) = (vs[i], vs[(i + 1) % vs.len()]);
            let e = m.he_edge(HalfedgeId(h)).0;
            let key = (a.min(b), a.max(b));
            let e0 = *pair.entry(key).or_insert(e);
            need!(e == e0, "edge-split", "sides between {key:?} belong to edges {e} and {e0}");
            model.he[h] = (a, c[(i + 1) % c.len()], f, e);
        }
    }
    let ids: BTreeSet<usize> = pair.values().copied().collect();
    need!(ids.len() == pair.len(), "edge-merged", "two vertex pairs share an edge");
    model.ne = pair.len();
    need!(ids.iter().all(|e| *e < model.ne), "edge-range", "edge ids {ids:?}");
    Ok(model)
}

/// everything the accessors say, against the model
fn structure(m: &SurfaceMesh, o: &Model) -> R<()> {
    let nh = o.he.len();
    need!(m.n_faces() == o.nf && m.n_faces_capacity() == o.nf, "count-faces", "{} (capacity {}) faces, expected {}", m.n_faces(), m.n_faces_capacity(), o.nf);
    need!(m.n_halfedges() == nh && m.n_halfedges_capacity() == nh, "count-halfedges", "{} halfedges, expected {nh}", m.n_halfedges());
    need!(m.n_edges() == o.ne && Mesh::n_edges_capacity(m) == o.ne && SurfaceMesh::n_edges_capacity(m) == o.ne, "count-edges", "{} edges, expected {}", m.n_edges(), o.ne);
    need!(m.n_vertices_capacity() == o.nv, "count-vertices", "vertex capacity {}, expected {}", m.n_vertices_capacity(), o.nv);
    need!(!o.unused.is_empty() || m.n_vertices() == o.nv, "count-vertices", "{} vertices, expected {}", m.n_vertices(), o.nv);
    let (edges, (vin, vout), prev) = (o.edges(), o.around(), o.prev());
    for h in 0..nh {
        let id = HalfedgeId(h);
        let (v, n, f, e) = o.he[h];
        need!(m.halfedge_is_valid(id), "halfedge-invalid", "halfedge {h}");
        need!(m.he_vertex(id).0 == v, "he-vertex", "halfedge {h} starts at {}, expected {v}", m.he_vertex(id).0);
        need!(m.he_next(id).0 == n, "he-next", "next of {h} is {}, expected {n}", m.he_next(id).0);
        need!(m.he_face(id).0 == f, "he-face", "face of {h} is {}, expected {f}", m.he_face(id).0);
        need!(m.he_edge(id).0 == e, "he-edge", "edge of {h} is {}, expected {e}", m.he_edge(id).0);
        need!(m.he_tip_vertex(id).0 == o.tip(h), "he-tip", "tip of {h} is {}, expected {}", m.he_tip_vertex(id).0, o.tip(h));
    }
    for f in 0..o.nf {
        let id = FaceId(f);
        need!(m.face_is_valid(id), "face-invalid", "face {f}");
        let h = m.f_halfedge(id).0;
        need!(h < nh && o.he[h].2 == f, "face-halfedge", "face {f} starts at halfedge {h} of face {}", o.he.get(h).map_or(usize::MAX, |x| x.2));
    }
    for e in 0..o.ne {
        let id = EdgeId(e);
        need!(m.edge_is_valid(id), "edge-invalid", "edge {e}");
        let h = m.e_halfedge(id).0;
        need!(edges[e].contains(&h), "edge-halfedge", "edge {e} starts at halfedge {h}, has {:?}", edges[e]);
        let c = walk(h, nh, |h| m.he_sibling(HalfedgeId(h)).0);
        need!(same_set(&c, &edges[e]), "edge-cycle", "sibling cycle of edge {e} is {c:?}, expected {:?}", edges[e]);
        let [a, b] = m.e_vertices(id);
        need!((a.0, b.0) == (o.he[h].0, o.tip(h)), "edge-vertices", "edge {e} joins {} and {}", a.0, b.0);
    }
    for v in 0..o.nv {
        let id = VertexId(v);
        need!(m.vertex_is_valid(id) != o.unused.contains(&v), "vertex-valid", "vertex {v} valid = {}", m.vertex_is_valid(id));
        if o.unused.contains(&v) {
            continue;
        }
        let h = m.v_halfedge(id).0;
        need!(vout[v].contains(&h), "vertex-halfedge", "vertex {v} starts at halfedge {h}, has {:?}", vout[v]);
        let c = walk(h, nh, |h| m.he_next_outgoing_neighbor(HalfedgeId(h)).0);
        need!(same_set(&c, &vout[v]), "outgoing-cycle", "outgoing cycle of vertex {v} is {c:?}, expected {:?}", vout[v]);
        let c = walk(prev[h], nh, |h| m.he_next_incoming_neighbor(HalfedgeId(h)).0);
        need!(same_set(&c, &vin[v]), "incoming-cycle", "incoming cycle of vertex {v} is {c:?}, expected {:?}", vin[v]);
    }
    for h in 0..nh {
        let id = HalfedgeId(h);
        need!(m.he_prev(id).0 == prev[h], "he-prev", "previous of {h} is {}, expected {}", m.he_prev(id).0, prev[h]);
        let opp: Vec<usize> = edges[o.he[h].3].iter().copied().filter(|x| o.he[*x].0 != o.he[h].0).collect();
        let t = m.he_twin(id).0;
        need!(if opp.is_empty() { t == h } else { opp.contains(&t) }, "he-twin", "twin of {h} is {t}, opposite halfedges are {opp:?}");
        let eh = m.e_halfedge(EdgeId(o.he[h].3)).0;
        need!(m.he_same_dir(id) == (o.he[h].0 == o.he[eh].0), "he-same-dir", "halfedge {h} against edge halfedge {eh}");
        for &x in edges[o.he[h].3].iter().take(4) {
            need!(m.hes_same_dir(id, HalfedgeId(x)) == (o.he[h].0 == o.he[x].0), "hes-same-dir", "halfedges {h} and {x}");
        }
    }
    Ok(())
}

fn once(sig: &str, what: String, got: Vec<usize>, want: &BTreeSet<usize>) -> R<()> {
    let s: BTreeSet<usize> = got.iter().copied().collect();
    need!(got.len() == want.len() && s == *want, sig, "{what}: visited {got:?}, expected each of {want:?} once");
    Ok(())
}

/// every iterator and every step, against the model
fn traversal(m: &SurfaceMesh, o: &Model) -> R<()> {
    let nh = o.he.len();
    let cap = 2 * nh + 10;
    let (edges, (vin, vout), prev) = (o.edges(), o.around(), o.prev());
    once("all-vertices", "vertices()".into(), m.vertices().take(cap).map(|x| x.0).collect(), &(0..o.nv).filter(|v| !o.unused.contains(v)).collect())?;
    once("all-halfedges", "halfedges()".into(), m.halfedges().take(cap).map(|x| x.0).collect(), &(0..nh).collect())?;
    once("all-edges", "edges()".into(), m.edges().take(cap).map(|x| x.0).collect(), &(0..o.ne).collect())?;
    once("all-faces", "faces()".into(), m.faces().take(cap).map(|x| x.0).collect(), &(0..o.nf).collect())?;
    for v in 0..o.nv {
        if o.unused.contains(&v) {
            continue;
        }
        let x = m.vertex(VertexId(v));
        once("vertex-incoming", format!("incoming halfedges of vertex {v}"), x.incoming_halfedges().take(cap).map(|x| x.0).collect(), &vin[v])?;
        once("vertex-outgoing", format!("outgoing halfedges of vertex {v}"), x.outgoing_halfedges().take(cap).map(|x| x.0).collect(), &vout[v])?;
        let inc: BTreeSet<usize> = vin[v].iter().chain(&vout[v]).map(|h| o.he[*h].3).collect();
        once("vertex-edges", format!("edges of vertex {v}"), x.edges().take(cap).map(|x| x.0).collect(), &inc)?;
        let mut want: Vec<usize> = inc
            .iter()
            .map(|e| {
                let h = *edges[*e].iter().next().unwrap();
                if o.he[h].0 == v { o.tip(h) } else { o.he[h].0 }
            })
            .collect();
        let mut got: Vec<usize> = x.vertices().take(cap).map(|x| x.0).collect();
        want.sort();
        got.sort();
        need!(got == want, "vertex-vertices", "neighbours of vertex {v}: visited {got:?}, expected {want:?}");
        need!(vout[v].contains(&x.out_halfedge().0), "out-halfedge", "vertex {v}: {}", x.out_halfedge().0);
        need!(vin[v].contains(&x.in_halfedge().0), "in-halfedge", "vertex {v}: {}", x.in_halfedge().0);
        need!(x.0 == v && x.valid(), "vertex-id", "vertex {v}");
    }
    for e in 0..o.ne {
        let x = m.edge(EdgeId(e));
        once("edge-halfedges", format!("halfedges of edge {e}"), x.halfedges().take(cap).map(|x| x.0).collect(), &edges[e])?;
        need!(edges[e].contains(&x.halfedge().0), "edge-first", "edge {e}");
    }
    for f in 0..o.nf {
        let x = m.face(FaceId(f));
        let h0 = x.halfedge().0;
        need!(h0 < nh && o.he[h0].2 == f, "face-first", "face {f} starts at {h0}");
        let c = o.cycle(h0);
        let got: Vec<usize> = x.halfedges().take(cap).map(|x| x.0).collect();
        need!(got == c, "face-halfedges", "halfedges of face {f}: {got:?}, expected {c:?}");
        let got: Vec<usize> = x.vertices().take(cap).map(|x| x.0).collect();
        let want: Vec<usize> = c.iter().map(|h| o.he[*h].0).collect();
        need!(got == want, "face-vertices", "vertices of face {f}: {got:?}, expected {want:?}");
    }
    for h in 0..nh {
        let x = m.halfedge(HalfedgeId(h));
        need!(x.from().0 == o.he[h].0 && x.to().0 == o.tip(h), "halfedge-ends", "halfedge {h}: {} to {}", x.from().0, x.to().0);
        let [a, b] = x.vertices();
        need!((a.0, b.0) == (o.he[h].0, o.tip(h)), "halfedge-vertices", "halfedge {h}");
        need!(x.next().0 == o.he[h].1, "halfedge-next", "halfedge {h}");
        need!(x.prev().0 == prev[h], "halfedge-prev", "halfedge {h}");
        need!(x.edge().0 == o.he[h].3, "halfedge-edge", "halfedge {h}");
        let es = &edges[o.he[h].3];
        need!(es.contains(&x.sibling().0) && (es.len() == 1 || x.sibling().0 != h), "halfedge-sibling", "halfedge {h}: {}", x.sibling().0);
        let t = x.twin().0;
        let alone = es.iter().all(|y| o.he[*y].0 == o.he[h].0);
        need!(if alone { t == h } else { es.contains(&t) && o.he[t].0 == o.tip(h) }, "halfedge-twin", "halfedge {h}: {t}");
    }
    Ok(())
}

fn gen_polys(r: &mut Rng) -> Vec<Vec<usize>> {
    let mut p: Vec<Vec<usize>> = vec![];
    match r.below(7) {
        0 => {
            // arbitrary polygons over few vertices: heavily non-manifold
            let nv = 3 + r.below(6);
            for _ in 0..1 + r.below(10) {
                let mut vs: Vec<usize> = (0..nv).collect();
                r.shuffle(&mut vs);
                vs.truncate(3 + r.below(nv - 2));
                p.push(vs);
            }
        }
        1 => {
            // cells glued together: tetrahedra over shared vertices
            let nv = 4 + r.below(4);
            for _ in 0..1 + r.below(4) {
                let mut v: Vec<usize> = (0..nv).collect();
                r.shuffle(&mut v);
                for f in [[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]] {
                    p.push(f.iter().map(|i| v[*i]).collect());
                }
            }
        }
        2 => {
            // grid of quads or triangles, consistently oriented, possibly closed to a torus
            let (a, b) = (1 + r.below(4), 1 + r.below(4));
            let tri = r.chance(1, 2);
            let torus = a > 2 && b > 2 && r.chance(1, 2);
            let id = |i: usize, j: usize| if torus { (i % a) * b + j % b } else { i * (b + 1) + j };
            for i in 0..a {
                for j in 0..b {
                    let q = [id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)];
                    if tri {
                        p.push(vec![q[0], q[1], q[2]]);
                        p.push(vec![q[0], q[2], q[3]]);
                    } else {
                        p.push(q.to_vec());
                    }
                }
            }
        }
        3 => {
            // fan of polygons around one edge, in either direction
            let k = 1 + r.below(7);
            for i in 0..k {
                let mut q = vec![0, 1];
                let extra = 1 + r.below(3);
                for t in 0..extra {
                    q.push(2 + 3 * i + t);
                }
                if r.chance(1, 2) {
                    q.reverse();
                }
                p.push(q);
            }
        }
        4 => {
            // one polygon, or the same polygon several times in both directions
            let n = 3 + r.below(8);
            let mut q: Vec<usize> = (0..n).collect();
            r.shuffle(&mut q);
            for _ in 0..1 + r.below(4) {
                let mut x = q.clone();
                let k = r.below(n);
                x.rotate_left(k);
                if r.chance(1, 2) {
                    x.reverse();
                }
                p.push(x);
            }
        }
        5 => {
            // cone over a cycle pinched at the apex
            for g in 0..1 + r.below(3) {
                let n = 3 + r.below(5);
                for i in 0..n {
                    p.push(vec![0, 1 + g * 10 + i, 1 + g * 10 + (i + 1) % n]);
                }
            }
        }
        _ => {
            let nv = 20 + r.below(60);
            for _ in 0..10 + r.below(60) {
                let k = 3 + r.below(5);
                let base = r.below(nv);
                let mut q: Vec<usize> = vec![];
                while q.len() < k {
                    let v = (base + r.below(12)) % nv;
                    if !q.contains(&v) {
                        q.push(v);
                    }
                }
                p.push(q);
            }
        }
    }
    if r.chance(1, 3) {
        for q in &mut p {
            if r.chance(1, 3) {
                q.reverse();
            }
            let k = r.below(q.len());
            q.rotate_left(k);
        }
    }
    r.shuffle(&mut p);
    // renumber so that every index is used, or leave gaps
    let mut used: Vec<usize> = p.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
    r.shuffle(&mut used);
    let gap = r.chance(1, 10);
    let mut next = 0;
    let mut map = BTreeMap::new();
    for v in used {
        if gap && r.chance(1, 3) {
            next += 1 + r.below(3);
        }
        map.insert(v, next);
        next += 1;
    }
    for q in &mut p {
        for v in q {
            *v = map[v];
        }
    }
    p
}

fn fp(p: &[Vec<usize>]) -> Fp {
    let mut f = Fp::new();
    for q in p {
        f.u(99999);
        for v in q {
            f.u(*v as u64);
        }
    }
    f
}

fn inspect(ctx: &mut Ctx, desc: &dyn Fn() -> String, f: impl FnOnce() -> R<()>) -> bool {
    match ctx.guard("inspect", || desc(), f) {
        Some(Ok(())) => true,
        Some(Err((sig, msg))) => {
            ctx.violate(&sig, format!("{msg}; {}", desc()));
            false
        }
        None => false,
    }
}

fn note(ctx: &mut Ctx, o: &Model) {
    let e = o.edges();
    ctx.add("edges", e.len() as u64);
    ctx.add("edges-of-one-halfedge", e.iter().filter(|x| x.len() == 1).count() as u64);
    ctx.add("edges-of-three-or-more", e.iter().filter(|x| x.len() > 2).count() as u64);
    ctx.add("edges-with-parallel-halfedges", e.iter().filter(|x| x.iter().map(|h| o.he[*h].0).collect::<BTreeSet<_>>().len() < x.len()).count() as u64);
    ctx.maxi("halfedges", o.he.len() as u64);
}

fn build(r: &mut Rng, ctx: &mut Ctx) -> Option<(SurfaceMesh, Model, Vec<Vec<usize>>)> {
    let p = gen_polys(r);
    let m = ctx.guard("new", || format!("polygons {p:?}"), || SurfaceMesh::new(p.clone()))?;
    let mut model = None;
    inspect(ctx, &|| format!("polygons {p:?}"), || {
        model = Some(read(&m, &p)?);
        Ok(())
    });
    Some((m, model?, p))
}

fn construct(r: &mut Rng, ctx: &mut Ctx) {
    let Some((m, o, p)) = build(r, ctx) else { return };
    if inspect(ctx, &|| format!("polygons {p:?}"), || structure(&m, &o)) {
        note(ctx, &o);
    }
    if !o.unused.is_empty() {
        ctx.count("with-unused-indices");
    }
    let f = fp(&p).0;
    ctx.eval(if p.len() > 1 { Some(f) } else { None });
    ctx.sample(|| format!("polygons {p:?} -> {} edges, structure agrees", o.ne));
}

/// apply one random edit to mesh and model; None when the history must stop
fn step(r: &mut Rng, ctx: &mut Ctx, m: &mut SurfaceMesh, o: &mut Model, hist: &mut Vec<String>, p: &[Vec<usize>], kinds: [usize; 3]) -> Option<()> {
    let (nv, ne, nf, nh) = (o.nv, o.ne, o.nf, o.he.len());
    let total = kinds[0] + kinds[1] + kinds[2];
    let k = r.below(total);
    let kind = if k < kinds[0] { 0 } else if k < kinds[0] + kinds[1] { 1 } else { 2 };
    macro_rules! desc {
        () => {
            || format!("polygons {p:?} history {hist:?}")
        };
    }
    match kind {
        0 => {
            let e = r.below(ne);
            hist.push(format!("split_edge({e})"));
            let v = ctx.guard("split_edge", desc!(), || m.split_edge(EdgeId(e), std::alloc::Global))?.0;
            let mut n = o.clone();
            let ok = inspect(ctx, &desc!(), || {
                need!(v == nv, "new-vertex", "split_edge({e}) returned vertex {v}, expected the next id {nv}");
                let hs: Vec<usize> = o.edges()[e].iter().copied().collect();
                need!(m.n_halfedges_capacity() == nh + hs.len(), "count-halfedges", "split_edge({e}) left {} halfedges, expected {}", m.n_halfedges_capacity(), nh + hs.len());
                n.nv += 1;
                n.ne += 1;
                n.he.resize(nh + hs.len(), (usize::MAX, 0, 0, 0));
                let a = o.he[hs[0]].0;
                let mut half: BTreeMap<bool, usize> = BTreeMap::new();
                for &h in &hs {
                    let x = m.he_next(HalfedgeId(h)).0;
                    need!(x >= nh && x < nh + hs.len() && n.he[x].0 == usize::MAX, "new-halfedge", "after split_edge({e}) halfedge {h} is followed by {x}");
                    let from_a = o.he[h].0 == a;
                    let (eh, ex) = (m.he_edge(HalfedgeId(h)).0, m.he_edge(HalfedgeId(x)).0);
                    for (side, id) in [(from_a, eh), (!from_a, ex)] {
                        let want = *half.entry(side).or_insert(id);
                        need!(want == id, "split-edge-halves", "halfedges of one half of split edge {e} belong to edges {want} and {id}");
                    }
                    n.he[x] = (nv, o.he[h].1, o.he[h].2, ex);
                    n.he[h] = (o.he[h].0, x, o.he[h].2, eh);
                }
                let ids: BTreeSet<usize> = half.values().copied().collect();
                need!(ids == BTreeSet::from([e, ne]), "split-edge-ids", "halves of split edge {e} are edges {ids:?}, expected {e} and {ne}");
                Ok(())
            });
            if !ok {
                return None;
            }
            *o = n;
            ctx.count("split-edge");
        }
        1 => {
            let faces = o.faces();
            let cand: Vec<usize> = (0..nf).filter(|f| faces[*f].len() > 3).collect();
            if cand.is_empty() {
                return Some(());
            }
            let f = *r.pick(&cand);
            let c = &faces[f];
            let i = r.below(c.len());
            let j = (i + 2 + r.below(c.len() - 3)) % c.len();
            let (va, vb) = (o.he[c[i]].0, o.he[c[j]].0);
            hist.push(format!("split_face({f},{va},{vb})"));
            let h2 = ctx.guard("split_face", desc!(), || m.split_face(FaceId(f), VertexId(va), VertexId(vb), std::alloc::Global))?.0;
            let mut n = o.clone();
            let ok = inspect(ctx, &desc!(), || {
                need!(h2 == nh || h2 == nh + 1, "new-halfedge", "split_face({f},{va},{vb}) returned halfedge {h2}, new ones are {nh} and {}", nh + 1);
                need!(m.n_halfedges_capacity() == nh + 2, "count-halfedges", "split_face left {} halfedges, expected {}", m.n_halfedges_capacity(), nh + 2);
                let h1 = if h2 == nh { nh + 1 } else { nh };
                let s = m.he_vertex(HalfedgeId(h2)).0;
                need!(s == va || s == vb, "new-halfedge", "split_face({f},{va},{vb}): halfedge {h2} starts at {s}");
                // h2 runs from s to the other end and closes the part from the other end to s
                let (from_s, from_t) = if s == va { (i, j) } else { (j, i) };
                let part = |a: usize, b: usize| -> Vec<usize> {
                    let mut v = vec![];
                    let mut k = a;
                    while k != b {
                        v.push(c[k]);
                        k = (k + 1) % c.len();
                    }
                    v
                };
                let mut second = part(from_t, from_s);
                second.push(h2);
                let mut first = part(from_s, from_t);
                first.push(h1);
                n.he.resize(nh + 2, (0, 0, 0, 0));
                n.he[h2] = (s, 0, nf, ne);
                n.he[h1] = (if s == va { vb } else { va }, 0, f, ne);
                for (cyc, face) in [(&first, f), (&second, nf)] {
                    for k in 0..cyc.len() {
                        n.he[cyc[k]].1 = cyc[(k + 1) % cyc.len()];
                        n.he[cyc[k]].2 = face;
                    }
                }
                n.ne += 1;
                n.nf += 1;
                Ok(())
            });
            if !ok {
                return None;
            }
            *o = n;
            ctx.count("split-face");
        }
        _ => {
            // a simple closed chain of halfedges of any faces
            let (_, vout) = o.around();
            let start = o.he[r.below(nh)].0;
            let mut path: Vec<usize> = vec![];
            let mut vs = vec![start];
            let chain = loop {
                let outs: Vec<usize> = vout[*vs.last().unwrap()].iter().copied().collect();
                let h = *r.pick(&outs);
                let t = o.tip(h);
                path.push(h);
                if let Some(k) = vs.iter().position(|x| *x == t) {
                    break path[k..].to_vec();
                }
                vs.push(t);
            };
            if chain.len() < 3 {
                return Some(());
            }
            hist.push(format!("add_face{chain:?}"));
            let ids: Vec<HalfedgeId> = chain.iter().map(|h| HalfedgeId(*h)).collect();
            let f = ctx.guard("add_face_by_halfedges", desc!(), || m.add_face_by_halfedges(&ids, std::alloc::Global))?.0;
            let mut n = o.clone();
            let ok = inspect(ctx, &desc!(), || {
                need!(f == nf, "new-face", "add_face returned face {f}, expected the next id {nf}");
                need!(m.n_halfedges_capacity() == nh + chain.len(), "count-halfedges", "add_face left {} halfedges, expected {}", m.n_halfedges_capacity(), nh + chain.len());
                let h0 = m.f_halfedge(FaceId(f)).0;
                let v0 = if h0 < nh + chain.len() { m.he_vertex(HalfedgeId(h0)).0 } else { usize::MAX };
                let Some(k) = chain.iter().position(|h| o.he[*h].0 == v0) else {
                    return Err(("new-face".into(), format!("new face starts at halfedge {h0} from vertex {v0}, not on {chain:?}")));
                };
                n.he.resize(nh + chain.len(), (usize::MAX, 0, 0, 0));
                let mut h = h0;
                for t in 0..chain.len() {
                    let old = chain[(k + t) % chain.len()];
                    need!(h >= nh && h < n.he.len() && n.he[h].0 == usize::MAX, "new-halfedge", "new face runs over halfedge {h}");
                    let nx = m.he_next(HalfedgeId(h)).0;
                    n.he[h] = (o.he[old].0, nx, nf, o.he[old].3);
                    h = nx;
                }
                need!(h == h0, "face-cycle", "new face does not close");
                n.nf += 1;
                Ok(())
            });
            if !ok {
                return None;
            }
            *o = n;
            ctx.count("add-face");
        }
    }
    Some(())
}

fn history(r: &mut Rng, ctx: &mut Ctx, full: fn(&SurfaceMesh, &Model) -> R<()>) {
    let Some((mut m, mut o, p)) = build(r, ctx) else { return };
    let mut hist: Vec<String> = vec![];
    let most = if r.chance(1, 6) { 40 } else { 12 };
    let steps = 1 + r.below(most);
    let kinds = *r.pick(&[[1, 1, 1], [4, 1, 0], [1, 4, 1], [3, 3, 1], [1, 0, 2], [2, 2, 0]]);
    if !inspect(ctx, &|| format!("polygons {p:?}"), || full(&m, &o)) {
        return;
    }
    for _ in 0..steps {
        if o.he.len() > 600 || step(r, ctx, &mut m, &mut o, &mut hist, &p, kinds).is_none() {
            break;
        }
        if !inspect(ctx, &|| format!("polygons {p:?} history {hist:?}"), || full(&m, &o)) {
            break;
        }
        ctx.count("states-compared");
    }
    note(ctx, &o);
    let mut f = fp(&p);
    for h in &hist {
        f.u(hash_str(h));
    }
    ctx.eval(if hist.len() > 1 { Some(f.0) } else { None });
    ctx.sample(|| format!("polygons {p:?} history {hist:?}: every state agreed"));
}

fn edits(r: &mut Rng, ctx: &mut Ctx) {
    history(r, ctx, structure)
}

fn traverse(r: &mut Rng, ctx: &mut Ctx) {
    history(r, ctx, traversal)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P14",
            rule: "polygon lists: dense non-manifold, glued cells, grids, tori, fans around an edge, repeated polygons, pinched cones, some with unused indices; non-trivial = more than one polygon",
            assumptions: &["every polygon is a cycle of at least three distinct vertices"],
            min_obs: &[("edges-of-one-halfedge", 5000), ("edges-of-three-or-more", 5000), ("edges-with-parallel-halfedges", 5000), ("with-unused-indices", 200)],
            families: vec![fam("construction", 1600000, 40000000, construct)],
        },
        Property {
            id: "P15",
            rule: "up to 40 random edge splits, face splits (along non-adjacent corners) and face additions (along simple closed halfedge chains) on generated meshes, full comparison after every step; non-trivial = more than one edit",
            assumptions: &["face splits name two non-adjacent corners of the face", "added faces follow a closed simple chain of existing halfedges"],
            min_obs: &[("split-edge", 5000), ("split-face", 5000), ("add-face", 5000), ("states-compared", 20000)],
            families: vec![fam("edit histories", 350000, 8000000, edits)],
        },
        Property {
            id: "P16",
            rule: "every iterator and step of every element, after construction and after every edit of random histories; non-trivial = more than one edit",
            assumptions: &["meshes reached by construction from valid polygons and by valid edits"],
            min_obs: &[("states-compared", 20000), ("edges-of-three-or-more", 5000)],
            families: vec![fam("traversals", 160000, 4000000, traverse)],
        },
    ]
}
