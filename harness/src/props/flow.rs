//! P17 FIFO push-relabel, P18 graph cut with augmenting trees.
use crate::ctx::*;
use crate::rng::*;
use gpf::graphcut::{ArcBuilder, GraphCut, MaxFlow, PushRelabelFifo};
use std::collections::VecDeque;

/// independent maximum flow (Dinic), integer capacities
pub fn dinic(n: usize, arcs: &[(usize, usize, i64)], s: usize, t: usize) -> i64 {
    let mut head = vec![vec![]; n];
    let mut to: Vec<usize> = vec![];
    let mut cap: Vec<i64> = vec![];
    for (a, b, c) in arcs {
        if a == b {
            continue;
        }
        head[*a].push(to.len());
        to.push(*b);
        cap.push(*c);
        head[*b].push(to.len());
        to.push(*a);
        cap.push(0);
    }
    let mut flow = 0;
    loop {
        let mut lev = vec![usize::MAX; n];
        lev[s] = 0;
        let mut q = VecDeque::from([s]);
        while let Some(v) = q.pop_front() {
            for &e in &head[v] {
                if cap[e] > 0 && lev[to[e]] == usize::MAX {
                    lev[to[e]] = lev[v] + 1;
                    q.push_back(to[e]);
                }
            }
        }
        if lev[t] == usize::MAX {
            return flow;
        }
        let mut it = vec![0; n];
        fn dfs(v: usize, t: usize, f: i64, head: &[Vec<usize>], to: &[usize], cap: &mut [i64], lev: &[usize], it: &mut [usize]) -> i64 {
            if v == t {
                return f;
            }
            while it[v] < head[v].len() {
                let e = head[v][it[v]];
                if cap[e] > 0 && lev[to[e]] == lev[v] + 1 {
                    let g = dfs(to[e], t, f.min(cap[e]), head, to, cap, lev, it);
                    if g > 0 {
                        cap[e] -= g;
                        cap[e ^ 1] += g;
                        return g;
                    }
                }
                it[v] += 1;
            }
            0
        }
        loop {
            let f = dfs(s, t, i64::MAX, &head, &to, &mut cap, &lev, &mut it);
            if f == 0 {
                break;
            }
            flow += f;
        }
    }
}

struct Net {
    n: usize,
    /// node capacities from the source and to the sink, and arcs between inner nodes (forward, backward)
    src: Vec<i64>,
    snk: Vec<i64>,
    arcs: Vec<(usize, usize, i64, i64)>,
    kind: &'static str,
}

fn cap(r: &mut Rng, style: usize) -> i64 {
    match style {
        0 => r.range(0, 3),
        1 => 1,
        2 => r.range(0, 1 << 30),
        3 => {
            if r.chance(1, 3) {
                0
            } else {
                r.range(1, 20)
            }
        }
        4 => 1 << r.below(24),
        _ => r.range(1, 100),
    }
}

fn net(r: &mut Rng) -> Net {
    let style = r.below(6);
    let st2 = r.below(6);
    let big = r.chance(1, 12);
    let m = if big { 150 } else { *[3usize, 6, 12, 30].get(r.below(4)).unwrap() };
    let n = 1 + r.below(m);
    let mut arcs = vec![];
    let kind;
    let one_way = r.chance(1, 3);
    let mut push = |r: &mut Rng, a: usize, b: usize| {
        let c = cap(r, style);
        let d = if one_way { 0 } else if r.chance(1, 2) { c } else { cap(r, style) };
        arcs.push((a, b, c, d));
    };
    match r.below(7) {
        0 => {
            kind = "random";
            for _ in 0..r.below(4 * n + 1) {
                let (a, b) = (r.below(n), r.below(n));
                push(r, a, b);
            }
        }
        1 => {
            kind = "grid";
            let w = 1 + (n as f64).sqrt() as usize;
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    push(r, i, i + 1);
                }
                if i + w < n {
                    push(r, i, i + w);
                }
            }
        }
        2 => {
            kind = "chain";
            for i in 1..n {
                if r.chance(1, 2) {
                    push(r, i - 1, i)
                } else {
                    push(r, i, i - 1)
                }
            }
            for _ in 0..r.below(3) {
                let (a, b) = (r.below(n), r.below(n));
                push(r, a, b);
            }
        }
        3 => {
            kind = "layered";
            let w = 1 + r.below(5);
            for i in 0..n {
                for _ in 0..2 {
                    let l = i / w;
                    let j = (l + 1) * w + r.below(w);
                    if j < n {
                        push(r, i, j);
                    }
                }
            }
        }
        4 => {
            kind = "dense";
            for i in 0..n.min(14) {
                for j in 0..i {
                    push(r, i, j);
                }
            }
        }
        5 => {
            kind = "tree";
            for i in 1..n {
                let j = r.below(i);
                push(r, i, j);
            }
        }
        _ => {
            kind = "two-parts";
            for _ in 0..3 * n {
                let (a, b) = (r.below(n), r.below(n));
                if (a < n / 2) == (b < n / 2) || r.chance(1, 30) {
                    push(r, a, b);
                }
            }
        }
    }
    let term = r.below(4);
    let mut src = vec![0; n];
    let mut snk = vec![0; n];
    for i in 0..n {
        match term {
            0 => {
                src[i] = cap(r, st2);
                snk[i] = cap(r, st2);
            }
            1 => {
                if r.chance(1, 2) {
                    src[i] = cap(r, st2)
                } else {
                    snk[i] = cap(r, st2)
                }
            }
            2 => {
                if i < 1 + n / 8 {
                    src[i] = cap(r, st2)
                }
                if i + 1 + n / 8 >= n {
                    snk[i] = cap(r, st2)
                }
            }
            _ => {
                if r.chance(1, 6) {
                    src[i] = cap(r, st2)
                }
                if r.chance(1, 6) {
                    snk[i] = cap(r, st2)
                }
            }
        }
    }
    // node numbering is arbitrary
    if r.chance(1, 2) {
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        for a in &mut arcs {
            a.0 = p[a.0];
            a.1 = p[a.1];
        }
    }
    r.shuffle(&mut arcs);
    Net { n, src, snk, arcs, kind }
}

impl Net {
    /// nodes 0 = source, 1..=n, n + 1 = sink
    fn full(&self) -> Vec<(usize, usize, i64)> {
        let mut v = vec![];
        for i in 0..self.n {
            v.push((0, i + 1, self.src[i]));
            v.push((i + 1, self.n + 1, self.snk[i]));
        }
        for (a, b, c, d) in &self.arcs {
            v.push((a + 1, b + 1, *c));
            v.push((b + 1, a + 1, *d));
        }
        v
    }
    fn desc(&self) -> String {
        format!("source caps {:?} sink caps {:?} edges {:?}", self.src, self.snk, self.arcs)
    }
    fn fp(&self, t: u64) -> u64 {
        let mut h = Fp::new();
        h.u(t).u(self.n as u64);
        for (a, b, c, d) in &self.arcs {
            h.u(*a as u64).u(*b as u64).u(*c as u64).u(*d as u64);
        }
        for i in 0..self.n {
            h.u(self.src[i] as u64).u(self.snk[i] as u64);
        }
        h.0
    }
}

fn cut_cap(arcs: &[(usize, usize, i64)], sink_side: &[bool]) -> i64 {
    arcs.iter().filter(|(a, b, _)| !sink_side[*a] && sink_side[*b]).map(|a| a.2).sum()
}

fn note(ctx: &mut Ctx, n: usize, arcs: &[(usize, usize, i64)], flow: i64, side: &[bool], fp: u64) {
    ctx.count(if flow == 0 { "flow:zero" } else { "flow:positive" });
    let inner = side.iter().filter(|s| **s).count();
    ctx.count(if inner == 0 || inner == side.len() { "cut:trivial" } else { "cut:mixed" });
    ctx.maxi("nodes", n as u64);
    ctx.maxi("arcs", arcs.len() as u64);
    ctx.eval(if flow > 0 { Some(fp) } else { None });
}

fn fifo(r: &mut Rng, ctx: &mut Ctx) {
    let w = net(r);
    ctx.count(&format!("kind:{}", w.kind));
    // either through the builder or as a raw arc list with everything duplicated, reversed and shuffled
    let style = r.below(4);
    let mut arcs = w.full();
    let mut extra = vec![];
    if style == 0 {
        // hostile raw list: split parallel arcs, arcs into the source, out of the sink, self loops
        let mut v = vec![];
        for (a, b, c) in &arcs {
            if *c > 1 && r.chance(1, 4) {
                let k = r.range(0, *c);
                v.push((*a, *b, k));
                v.push((*a, *b, c - k));
            } else if *c > 0 || r.chance(1, 2) {
                v.push((*a, *b, *c));
            }
        }
        for _ in 0..r.below(4) {
            let (a, b) = (r.below(w.n + 2), r.below(w.n + 2));
            extra.push((a, b, r.range(0, 30)));
        }
        if r.chance(1, 4) {
            extra.push((0, w.n + 1, r.range(0, 9)));
        }
        v.extend(extra);
        r.shuffle(&mut v);
        arcs = v;
    }
    let flow = dinic(w.n + 2, &arcs, 0, w.n + 1);
    let desc = || format!("{} nodes, arcs {:?}", w.n + 2, arcs);
    let n = w.n + 2;
    let float = r.chance(1, 2);
    let scale = *r.pick(&[1.0, 0.25, 1.0 / 1024.0]);
    let side: Option<Vec<bool>> = ctx.guard("find_max_flow", desc, || {
        macro_rules! solve {
            ($t:ty, $f:expr) => {{
                let mut g = if style == 0 {
                    let a: Vec<(usize, usize, $t)> = arcs.iter().map(|(a, b, c)| (*a, *b, $f(*c))).collect();
                    PushRelabelFifo::<$t>::from((a, n))
                } else {
                    let s: Vec<$t> = w.src.iter().map(|c| $f(*c)).collect();
                    let t: Vec<$t> = w.snk.iter().map(|c| $f(*c)).collect();
                    let mut b = ArcBuilder::new(s, t);
                    for (x, y, c, d) in &w.arcs {
                        if c == d {
                            b.add_arc(*x, *y, $f(*c), true);
                        } else {
                            b.add_arc(*x, *y, $f(*c), false);
                            b.add_arc(*y, *x, $f(*d), false);
                        }
                    }
                    PushRelabelFifo::<$t>::from((b.arcs, n))
                };
                g.find_max_flow();
                (0..n).map(|i| g.is_sink(i)).collect()
            }};
        }
        if float {
            solve!(f64, |c: i64| c as f64 * scale)
        } else {
            solve!(i64, |c: i64| c)
        }
    });
    ctx.count(if style == 0 { "raw-arcs" } else { "builder" });
    ctx.count(if float { "floating" } else { "integer" });
    ctx.sample(desc);
    let Some(side) = side else { return };
    note(ctx, n, &arcs, flow, &side, w.fp(style as u64 * 2 + float as u64));
    ctx.check(!side[0] && side[n - 1], "terminals", || format!("source/sink are on sides {}/{}; {}", side[0], side[n - 1], desc()));
    let c = cut_cap(&arcs, &side);
    ctx.check(c == flow, "minimum-cut", || format!("reported cut has capacity {c}, maximum flow is {flow}; sink side {side:?}; {}", desc()));
}

fn trees(r: &mut Rng, ctx: &mut Ctx) {
    let w = net(r);
    ctx.count(&format!("kind:{}", w.kind));
    let arcs = w.full();
    let flow = dinic(w.n + 2, &arcs, 0, w.n + 1);
    let scale = *r.pick(&[1.0, 0.25, 1.0 / 1024.0]);
    let desc = || w.desc();
    let got = ctx.guard("max_flow", desc, || {
        let s: Vec<f64> = w.src.iter().map(|c| *c as f64 * scale).collect();
        let t: Vec<f64> = w.snk.iter().map(|c| *c as f64 * scale).collect();
        let mut g = GraphCut::new(&s, &t);
        for (a, b, c, d) in &w.arcs {
            if a != b {
                g.add_edge(*a, *b, *c as f64 * scale, *d as f64 * scale);
            }
        }
        let f = g.max_flow();
        (f, g.flow, g.is_sink.clone())
    });
    ctx.sample(desc);
    let Some((f, f2, is_sink)) = got else { return };
    let mut side = vec![false];
    side.extend(&is_sink);
    side.push(true);
    note(ctx, w.n, &arcs, flow, &is_sink, w.fp(99));
    ctx.check(f / scale == flow as f64 && f == f2, "flow-value", || format!("returned {}, maximum flow is {flow}; {}", f / scale, desc()));
    let c = cut_cap(&arcs, &side);
    ctx.check(c == flow, "minimum-cut", || format!("reported cut has capacity {c}, maximum flow is {flow}; sink side {is_sink:?}; {}", desc()));
}

const RULE: &str = "random, grid, chain, layered, dense, tree and split networks of 1..150 inner nodes with unit, small, huge, zero and power-of-two capacities in shuffled order; non-trivial = positive maximum flow";

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P17",
            rule: RULE,
            assumptions: &["capacities are non-negative and their sums exactly representable"],
            min_obs: &[("flow:positive", 5000), ("cut:mixed", 5000), ("raw-arcs", 2000), ("builder", 2000)],
            families: vec![fam("networks", 4000000, 60000000, fifo)],
        },
        Property {
            id: "P18",
            rule: RULE,
            assumptions: &["capacities are non-negative and their sums exactly representable", "no edge joins a node to itself"],
            min_obs: &[("flow:positive", 5000), ("cut:mixed", 5000)],
            families: vec![fam("networks", 5000000, 60000000, trees)],
        },
    ]
}
