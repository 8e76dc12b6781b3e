//! P19 disjoint sets, P20 duplicate removal, P28 vector helpers.
use crate::ctx::*;
use crate::exact::Dy;
use crate::gen::*;
use crate::rng::*;
use gpf::disjoint_set::DisjointSet;
use gpf::polygonlization::remove_duplicates;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn classes(label: &[usize]) -> BTreeSet<Vec<usize>> {
    let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, l) in label.iter().enumerate() {
        m.entry(*l).or_default().push(i);
    }
    m.into_values().collect()
}

fn sets(r: &mut Rng, ctx: &mut Ctx) {
    let n = *r.pick(&[1, 2, 3, 5, 8, 20, 60, 300]);
    let n = 1 + r.below(n);
    let shape = r.below(5);
    let steps = match r.below(4) {
        0 => r.below(n + 1),
        1 => n,
        2 => 3 * n,
        _ => r.below(2 * n + 1),
    };
    let mut label: Vec<usize> = (0..n).collect();
    let Some(mut d) = ctx.guard("new", || format!("n={n}"), || DisjointSet::new(n)) else { return };
    let mut hist: Vec<(usize, usize)> = vec![];
    let mut fp = Fp::new();
    fp.u(n as u64);
    let mut merges = 0;
    for s in 0..steps + 1 {
        if s > 0 {
            let (x, y) = match shape {
                0 => (r.below(n), r.below(n)),
                1 => (s % n, (s - 1) % n),
                2 => ((s - 1) % n, s % n),
                3 => (r.below(n), 0),
                _ => {
                    // binomial: builds deep trees
                    let w = 1usize << r.below(8);
                    let b = r.below(n) / (2 * w) * (2 * w);
                    (b.min(n - 1), (b + w).min(n - 1))
                }
            };
            hist.push((x, y));
            fp.u(x as u64).u(y as u64);
            ctx.guard("merge", || format!("n={n} history {hist:?}"), || d.merge(x, y));
            let (a, b) = (label[x], label[y]);
            if a != b {
                merges += 1;
                for l in &mut label {
                    if *l == a {
                        *l = b;
                    }
                }
            }
            ctx.count(if a != b { "joining-merges" } else { "redundant-merges" });
        }
        if s == steps || r.chance(1, 6) || n <= 4 {
            let Some(out) = ctx.guard("output", || format!("n={n} history {hist:?}"), || d.output()) else { return };
            ctx.count("queries");
            let got: BTreeSet<Vec<usize>> = out
                .values()
                .map(|v| {
                    let mut v = v.clone();
                    v.sort();
                    v
                })
                .collect();
            let want = classes(&label);
            ctx.check(got == want && out.len() == want.len(), "partition", || {
                format!("n={n} history {hist:?}: groups {got:?}, exactly {want:?}")
            });
            ctx.check(d.n_groups == want.len(), "group-count", || {
                format!("n={n} history {hist:?}: reports {} groups, there are {}", d.n_groups, want.len())
            });
            ctx.check(out.iter().all(|(k, v)| v.contains(k)), "representative", || format!("n={n} history {hist:?}: {out:?}"));
        }
    }
    ctx.maxi("elements", n as u64);
    ctx.eval(if merges > 0 { Some(fp.0) } else { None });
    ctx.sample(|| format!("n={n} merges {hist:?}"));
}

fn duplicates(r: &mut Rng, ctx: &mut Ctx) {
    let n = 1 + r.below(*[3, 10, 60, 200].get(ctx.case as usize % 4).unwrap());
    let eps: f64 = *r.pick(&[0.0, 1e-6, 1e-6, 1e-3, 1.0, 1e-9, 0.25, 3e-5, 7.0, 2.0]);
    // the grid the tolerance stands for: the power of two one binade below it
    let base = if eps == 0.0 { 0.0 } else { 2f64.powi(eps.log2().floor() as i32 - 1) };
    let m = *r.pick(&[Mode::Full, Mode::Grid(2), Mode::Grid(20), Mode::Dyadic(2), Mode::Mixed(52, 10), Mode::Shifted(1000.0, 2)]);
    let mut pts: Vec<[f64; 3]> = vec![];
    let kind = r.below(4);
    for _ in 0..n {
        let p = if pts.is_empty() || r.chance(1, 3) {
            p3(r, m)
        } else {
            let mut q = *r.pick(&pts);
            match r.below(5) {
                0 => {}
                1 => ulp_all(r, &mut q, 2),
                2 => {
                    for c in &mut q {
                        *c += r.sym() * if eps > 0.0 { base } else { 1e-6 };
                    }
                }
                3 => {
                    let a = r.below(3);
                    q[a] += r.sym() * base * 2.0;
                }
                _ => {
                    // near the rounding boundary between two grid positions
                    let a = r.below(3);
                    if base > 0.0 {
                        q[a] = ((q[a] / base).floor() + 0.5) * base;
                        q[a] = ulp(r, q[a], 1);
                    }
                }
            }
            if r.chance(1, 10) {
                let a = r.below(3);
                q[a] = if kind == 0 { -0.0 } else { 0.0 };
            }
            q
        };
        pts.push(p);
    }
    let flat: Vec<f64> = pts.iter().flatten().copied().collect();
    let desc = || format!("epsilon {eps:e} points {pts:?}");
    let Some((out, map)) = ctx.guard("remove_duplicates", desc, || remove_duplicates(&flat, eps)) else { return };
    ctx.eval(Some(Fp::new().u(eps.to_bits()).fs(&flat).0));
    ctx.sample(desc);
    ctx.count(if eps == 0.0 { "zero-tolerance" } else { "positive-tolerance" });
    if eps == 0.0 {
        ctx.check(
            out.len() == flat.len() && out.iter().zip(&flat).all(|(a, b)| a.to_bits() == b.to_bits()) && (0..n).all(|i| map.get(i) == Some(&i)),
            "identity",
            || format!("{}: output {out:?} map {map:?}", desc()),
        );
        return;
    }
    if !ctx.check(out.len() % 3 == 0 && map.len() == n && map.iter().all(|i| *i < out.len() / 3), "shape", || {
        format!("{}: output {out:?} map {map:?}", desc())
    }) {
        return;
    }
    let k = out.len() / 3;
    ctx.add("points", n as u64);
    ctx.add("merged", (n - k.min(n)) as u64);
    let o = |i: usize| [out[3 * i], out[3 * i + 1], out[3 * i + 2]];
    // pairwise distinct and all used
    let mut seen: HashMap<[u64; 3], usize> = HashMap::new();
    for i in 0..k {
        let key = o(i).map(|x| (x + 0.0).to_bits());
        if let Some(j) = seen.insert(key, i) {
            ctx.violate("distinct", format!("{}: outputs {j} and {i} are both {:?}", desc(), o(i)));
            return;
        }
    }
    let mut used = vec![false; k];
    for i in 0..n {
        used[map[i]] = true;
        let q = o(map[i]);
        for a in 0..3 {
            // on the grid, and the nearest grid position to the input
            let x = pts[i][a];
            let g = q[a] / base;
            // beyond 2^53 grid steps the input is its own rounding
            let ok = if (x / base).abs() >= 2f64.powi(53) {
                q[a] == x
            } else {
                g == g.round() && {
                    let e = (Dy::f(x) - Dy::f(q[a])).abs();
                    e.cmp(&Dy::f(base * 0.5)) != std::cmp::Ordering::Greater
                }
            };
            if !ctx.check(ok, "rounded", || format!("{}: point {i} {:?} is represented by {q:?} (grid {base:e})", desc(), pts[i])) {
                return;
            }
        }
    }
    ctx.check(used.iter().all(|u| *u), "named", || format!("{}: an output point represents no input; map {map:?}", desc()));
    // equal inputs share an index
    let mut by: HashMap<[u64; 3], usize> = HashMap::new();
    for i in 0..n {
        let key = pts[i].map(|x| (x + 0.0).to_bits());
        if let Some(j) = by.insert(key, map[i]) {
            ctx.check(j == map[i], "equal-inputs", || format!("{}: equal inputs got different indices", desc()));
        }
    }
}

fn vectors(r: &mut Rng, ctx: &mut Ctx) {
    use gpf::math;
    for _ in 0..20 {
        let n = 3;
        let k = *r.pick(&[3i64, 100, 1 << 24]);
        let a: Vec<i64> = (0..n).map(|_| r.range(-k, k)).collect();
        let b: Vec<i64> = (0..n).map(|_| r.range(-k, k)).collect();
        let mut c = vec![0i64; 3];
        math::cross(&a, &b, &mut c);
        let i = |x: usize, y: usize| a[x] * b[y] - a[y] * b[x];
        ctx.eval(Some(Fp::new().u(a[0] as u64).u(a[1] as u64).u(a[2] as u64).u(b[0] as u64).u(b[1] as u64).u(b[2] as u64).0));
        ctx.count("cross");
        ctx.check(c == [i(1, 2), i(2, 0), i(0, 1)], "cross", || format!("{a:?} x {b:?} = {c:?}"));
        let fa: Vec<f64> = a.iter().map(|x| *x as f64).collect();
        let fb: Vec<f64> = b.iter().map(|x| *x as f64).collect();
        let mut fc = vec![0.0; 3];
        math::cross(&fa, &fb, &mut fc);
        ctx.check((0..3).all(|k| fc[k] == c[k] as f64), "cross", || format!("{fa:?} x {fb:?} = {fc:?}"));
        let m = *r.pick(&[1, 2, 3, 3, 4, 5, 7, 8, 9, 16, 33]);
        let k = *r.pick(&[3i64, 100, 1 << 20]);
        let a: Vec<i64> = (0..m).map(|_| r.range(-k, k)).collect();
        let b: Vec<i64> = (0..m).map(|_| r.range(-k, k)).collect();
        let fa: Vec<f64> = a.iter().map(|x| *x as f64).collect();
        let fb: Vec<f64> = b.iter().map(|x| *x as f64).collect();
        let d: i64 = (0..m).map(|k| a[k] * b[k]).sum();
        ctx.check(math::dot(&a, &b) == d && math::dot(&fa, &fb) == d as f64, "dot", || format!("{a:?} . {b:?}"));
        let mut s = vec![0i64; m];
        math::sub(&a, &b, &mut s);
        let mut fs = vec![0.0; m];
        math::sub(&fa, &fb, &mut fs);
        ctx.check((0..m).all(|k| s[k] == a[k] - b[k] && fs[k] == s[k] as f64), "sub", || format!("{a:?} - {b:?} = {s:?} {fs:?}"));
        let nn = math::norm(&fa);
        let sq: f64 = (0..m).map(|k| (a[k] * a[k]) as f64).sum();
        ctx.check((nn * nn - sq).abs() <= 1e-14 * sq && nn >= 0.0, "norm", || format!("|{fa:?}| = {nn}"));
        ctx.count(if m > 3 { "long-vectors" } else { "short-vectors" });
    }
}

fn numbers(r: &mut Rng, ctx: &mut Ctx) {
    use gpf::predicates::{double_to_sign, get_exponent, sign_reverse, sign_reversed, Orientation as O};
    for _ in 0..20 {
        let x = match r.below(5) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::MAX, f64::MIN, 5e-324, -5e-324]),
            1 => 2f64.powi(r.range(-1022, 1023) as i32) * if r.chance(1, 2) { -1.0 } else { 1.0 },
            2 => {
                let p = 2f64.powi(r.range(-1000, 1000) as i32);
                ulp(r, p, 3)
            }
            _ => r.sym() * 2f64.powi(r.range(-1000, 1000) as i32),
        };
        let want = if x == 0.0 { O::Zero } else if x > 0.0 { O::Positive } else { O::Negative };
        ctx.check(double_to_sign(x) == want, "sign", || format!("double_to_sign({x:e}) = {:?}", double_to_sign(x)));
        if x == 0.0 || x.abs() >= f64::MIN_POSITIVE {
            let e = get_exponent(x);
            // the exponent brings the number to [1, 2)
            let m = if x == 0.0 { 1.0 } else { (x.abs() * 2f64.powi(-(e / 2))) * 2f64.powi(-(e - e / 2)) };
            ctx.check((x != 0.0 || e == 0) && m >= 1.0 && m < 2.0, "exponent", || format!("get_exponent({x:e}) = {e}"));
        }
        ctx.eval(Some(Fp::new().u(x.to_bits()).0));
        ctx.count("numbers");
    }
    let all = [O::Positive, O::Negative, O::Zero, O::Undefined];
    for a in 0..4 {
        let back = [1, 0, 2, 3][a];
        ctx.check(sign_reverse(all[a]) == all[back], "reverse", || format!("sign_reverse({:?}) = {:?}", all[a], sign_reverse(all[a])));
        for b in 0..4 {
            ctx.check(sign_reversed(all[a], all[b]) == (a < 2 && b == back), "reversed", || format!("sign_reversed({:?}, {:?})", all[a], all[b]));
        }
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P19",
            rule: "random merge histories (uniform, chains both ways, stars, binomial) on 1..300 elements, queried along the way; one evaluation = one history, non-trivial = at least one merge joined two groups",
            assumptions: &["element indices are in range"],
            min_obs: &[("joining-merges", 5000), ("redundant-merges", 5000), ("queries", 5000)],
            families: vec![fam("merge histories", 450000, 3000000, sets)],
        },
        Property {
            id: "P20",
            rule: "1..200 points with exact, one-ulp, within-tolerance and rounding-boundary repetitions, ten tolerances including zero; non-trivial = every distinct input",
            assumptions: &["at least one point, finite coordinates, tolerance zero or positive"],
            min_obs: &[("merged", 5000), ("zero-tolerance", 500), ("positive-tolerance", 5000)],
            families: vec![fam("duplicates", 1000000, 2000000, duplicates)],
        },
        Property {
            id: "P28",
            rule: "random integer and floating vectors of 1 to 33 components whose exact results are representable; numbers of all magnitudes, powers of two and their neighbours; non-trivial = every distinct input",
            assumptions: &["no overflow"],
            min_obs: &[("cross", 5000), ("long-vectors", 5000), ("short-vectors", 5000), ("numbers", 5000)],
            families: vec![fam("vectors", 800000, 2000000, vectors), fam("numbers", 400000, 1000000, numbers)],
        },
    ]
}
