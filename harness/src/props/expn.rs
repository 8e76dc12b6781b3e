//! P03: expansion arithmetic is exact. P04: interval arithmetic encloses.
use crate::ctx::*;
use crate::exact::Dy;
use crate::gen::*;
use crate::rng::*;
use bumpalo::Bump;
use gpf::predicates as g;
use std::alloc::Global;
use std::cmp::Ordering;
use std::simd::f64x2;

/// lowest set bit position of a double
fn low_bit(x: f64) -> i64 {
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    e + m.trailing_zeros() as i64
}

/// a nonadjacent expansion: components of increasing magnitude with at least one zero bit between them
fn expansion(r: &mut Rng, max: usize) -> Vec<f64> {
    if r.chance(1, 12) {
        return vec![0.0];
    }
    let n = 1 + r.below(max);
    let mut e = r.range(-300, 0);
    let mut v = vec![];
    for _ in 0..n {
        if e > 150 {
            break;
        }
        let b = *r.pick(&[1, 1, 2, 10, 26, 27, 52, 53]);
        let m = if b == 1 {
            1
        } else {
            (1u64 << (b - 1)) | (r.u64() & ((1u64 << (b - 1)) - 1))
        };
        let x = m as f64 * 2f64.powi(e as i32);
        v.push(if r.chance(1, 2) { -x } else { x });
        e += b as i64 + *r.pick(&[1, 1, 1, 2, 20, 60]);
    }
    v
}

fn well_formed(v: &[f64]) -> Result<(), String> {
    if v.is_empty() {
        return Err("empty".into());
    }
    if v.iter().any(|x| !x.is_finite()) {
        return Err("not finite".into());
    }
    if v.len() == 1 {
        return Ok(());
    }
    let nz: Vec<f64> = v.iter().copied().filter(|x| *x != 0.0).collect();
    for w in nz.windows(2) {
        if Dy::f(w[0]).log2_ceil() > low_bit(w[1]) {
            return Err(format!("components {:e} and {:e} overlap", w[0], w[1]));
        }
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, what: &str, got: Option<Vec<f64>>, want: &Dy, elim: bool, desc: &dyn Fn() -> String) {
    ctx.count(what);
    let Some(v) = got else { return };
    let ok = v.iter().all(|x| x.is_finite()) && Dy::sum_f64(&v).eq(want);
    if !ctx.check(ok, &format!("{what}-value"), || {
        format!("{what} returned {v:?}, which is not the exact result; {}", desc())
    }) {
        return;
    }
    if let Err(e) = well_formed(&v) {
        ctx.violate(&format!("{what}-form"), format!("{what} returned {v:?}: {e}; {}", desc()));
        return;
    }
    if elim {
        ctx.check(v.len() == 1 || v.iter().all(|x| *x != 0.0), &format!("{what}-zeroelim"), || {
            format!("{what} kept a zero component: {v:?}; {}", desc())
        });
        let s = v.last().unwrap().partial_cmp(&0.0).unwrap() as i32;
        ctx.check(s == want.sign(), &format!("{what}-sign"), || {
            format!("{what}: leading component of {v:?} has not the sign of the value; {}", desc())
        });
    }
}

fn expansion_ops(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..60 {
        let mut a = expansion(r, 8);
        let mut b = expansion(r, 8);
        if r.chance(1, 6) {
            // massive cancellation
            b = a.iter().map(|x| -x).collect();
            if r.chance(1, 2) && b.len() > 1 {
                b.remove(0);
            }
        }
        if r.chance(1, 10) {
            std::mem::swap(&mut a, &mut b);
        }
        let s = match r.below(4) {
            0 => coord(r, Mode::Grid(5)),
            1 => coord(r, Mode::Full),
            2 => -a[a.len() - 1],
            _ => coord(r, Mode::Mixed(52, 60)),
        };
        let (da, db, ds) = (Dy::sum_f64(&a), Dy::sum_f64(&b), Dy::f(s));
        ctx.eval(if da.is_zero() || db.is_zero() {
            None
        } else {
            Some(Fp::new().fs(&a).u(7).fs(&b).u(s.to_bits()).0)
        });
        ctx.sample(|| format!("a={a:?} b={b:?} s={s:e}"));
        let d2 = || format!("a={a:?} b={b:?}");
        let d1 = || format!("a={a:?} s={s:e}");
        let o = ctx.guard("grow_expansion", d1, || g::grow_expansion(&a, s, Global));
        judge(ctx, "grow_expansion", o, &(&da + &ds), false, &d1);
        let o = ctx.guard("grow_expansion_zeroelim", d1, || g::grow_expansion_zeroelim(&a, s, Global));
        judge(ctx, "grow_expansion_zeroelim", o, &(&da + &ds), true, &d1);
        let o = ctx.guard("expansion_sum", d2, || g::expansion_sum(&a, &b, Global));
        judge(ctx, "expansion_sum", o, &(&da + &db), false, &d2);
        let o = ctx.guard("fast_expansion_sum", d2, || {
            g::fast_expansion_sum_zeroelim(&a, &b, &bump).iter().copied().collect()
        });
        judge(ctx, "fast_expansion_sum", o, &(&da + &db), true, &d2);
        let o = ctx.guard("fast_expansion_diff", d2, || g::fast_expansion_diff_zeroelim(&a, &b, Global));
        judge(ctx, "fast_expansion_diff", o, &(&da - &db), true, &d2);
        let o = ctx.guard("scale_expansion", d1, || g::scale_expansion_zeroelim(&a, s, Global));
        judge(ctx, "scale_expansion", o, &(&da * &ds), true, &d1);
        let o = ctx.guard("mul_expansion", d2, || g::mul_expansion_zeroelim(&a, &b, Global));
        judge(ctx, "mul_expansion", o, &(&da * &db), true, &d2);
        let mut inv = a.clone();
        g::expansion_invert(&mut inv);
        judge(ctx, "expansion_invert", Some(inv), &(-&da), false, &d1);
        // estimate: relative error of a few units in the last place
        let e = g::estimate(&a);
        let err = (Dy::f(e) - &da).abs() * Dy::f(1125899906842624.0); // 2^50
        ctx.count("estimate");
        ctx.check(err.cmp(&da.abs()) != Ordering::Greater, "estimate", || {
            format!("estimate({a:?}) = {e:e} is off by more than 2^-50")
        });
        // an empty operand denotes zero
        if r.chance(1, 10) {
            let one = vec![s];
            let o = ctx.guard("fast_expansion_sum", d1, || g::fast_expansion_sum_zeroelim(&one, &[], Global));
            judge(ctx, "fast_expansion_sum", o, &ds, true, &d1);
        }
    }
}

/// primitive error free transformations
fn primitives(r: &mut Rng, ctx: &mut Ctx) {
    for _ in 0..100 {
        let m = *r.pick(&[Mode::Full, Mode::Mixed(52, 60), Mode::Grid(9), Mode::Dyadic(27)]);
        let (a, mut b, c, d) = (coord(r, m), coord(r, m), coord(r, m), coord(r, m));
        if r.chance(1, 8) {
            b = ulp(r, -a, 3);
        }
        let (da, db) = (Dy::f(a), Dy::f(b));
        ctx.eval(if a == 0.0 || b == 0.0 { None } else { Some(Fp::new().fs(&[a, b, c, d]).0) });
        ctx.sample(|| format!("a={a:e} b={b:e} c={c:e} d={d:e}"));
        let mut two = |name: &str, got: (f64, f64), want: Dy, rounded: f64| {
            ctx.count(name);
            ctx.check(Dy::sum_f64(&[got.0, got.1]).eq(&want) && got.0 == rounded, name, || {
                format!("{name}({a:e},{b:e}) = {got:?} is not exact")
            });
        };
        two("two_sum", g::two_sum(a, b), &da + &db, a + b);
        two("two_diff", g::two_diff(a, b), &da - &db, a - b);
        two("two_product", g::two_product(a, b), &da * &db, a * b);
        two("square", g::square(a), &da * &da, a * a);
        let (x, y) = if a.abs() >= b.abs() { (a, b) } else { (b, a) };
        two("fast_two_sum", g::fast_two_sum(x, y), &da + &db, a + b);
        two("fast_two_diff", g::fast_two_diff(x, y), Dy::f(x) - Dy::f(y), x - y);
        two("two_diff_tail", (a - b, g::two_diff_tail(a, b, a - b)), &da - &db, a - b);
        let (a1, a0) = g::two_sum(a, b);
        let (c1, c0) = g::two_sum(c, d);
        let sa = &da + &db;
        let sc = Dy::f(c) + Dy::f(d);
        let desc = || format!("({a1:e},{a0:e}) ({c1:e},{c0:e}) {c:e}");
        let q = g::two_one_product(a1, a0, c);
        judge(ctx, "two_one_product", Some(vec![q.3, q.2, q.1, q.0]), &(&sa * Dy::f(c)), false, &desc);
        let q = g::two_two_sum(a1, a0, c1, c0);
        judge(ctx, "two_two_sum", Some(vec![q.3, q.2, q.1, q.0]), &(&sa + &sc), false, &desc);
        let q = g::two_two_diff(a1, a0, c1, c0);
        judge(ctx, "two_two_diff", Some(vec![q.3, q.2, q.1, q.0]), &(&sa - &sc), false, &desc);
    }
}

/// straight-line programs over exact numbers and over intervals, against the exact value
fn programs(r: &mut Rng, ctx: &mut Ctx) {
    let bump = Bump::new();
    for _ in 0..12 {
        let m = *r.pick(&[Mode::Grid(3), Mode::Grid(100), Mode::Dyadic(20), Mode::Full, Mode::Mixed(30, 8)]);
        let n = 2 + r.below(4);
        let mut log = String::new();
        let mut ex: Vec<Dy> = vec![];
        let mut deg: Vec<usize> = vec![];
        let mut gx: Vec<g::ExpansionNum<&Bump>> = vec![];
        let mut fp = Fp::new();
        for _ in 0..n {
            let x = coord(r, m);
            fp.u(x.to_bits());
            log.push_str(&format!("{x:e} "));
            ex.push(Dy::f(x));
            deg.push(1);
            let mut v = Vec::new_in(&bump);
            v.push(x);
            gx.push(v.into());
        }
        let steps = 2 + r.below(8);
        for _ in 0..steps {
            let i = r.below(ex.len());
            let j = r.below(ex.len());
            let op = r.below(4);
            // at most degree 8: the exact value must fit in the exponent range
            if op >= 2 && deg[i] + deg[j] > 8 {
                continue;
            }
            fp.u((i * 100 + j * 4 + op) as u64);
            log.push_str(&format!("; #{i} {} #{j}", ["+", "-", "*", "*neg"][op]));
            let (e, d) = match op {
                0 => (&ex[i] + &ex[j], deg[i].max(deg[j])),
                1 => (&ex[i] - &ex[j], deg[i].max(deg[j])),
                2 => (&ex[i] * &ex[j], deg[i] + deg[j]),
                _ => (-(&ex[i] * &ex[j]), deg[i] + deg[j]),
            };
            let form = r.below(4);
            let res = ctx.guard("expansion-op", || log.clone(), || {
                let (a, b) = (&gx[i], &gx[j]);
                let mut v = match (op, form) {
                    (0, 0) => a + b,
                    (0, 1) => a.clone() + b,
                    (0, 2) => a + b.clone(),
                    (0, _) => a.clone() + b.clone(),
                    (1, 0) => a - b,
                    (1, 1) => a.clone() - b,
                    (1, 2) => a - b.clone(),
                    (1, _) => a.clone() - b.clone(),
                    (_, 0) => a * b,
                    (_, 1) => a.clone() * b,
                    (_, 2) => a * b.clone(),
                    (_, _) => a.clone() * b.clone(),
                };
                if op == 3 {
                    v.neg();
                }
                v
            });
            let Some(v) = res else { return };
            judge(ctx, "program-step", Some(v.iter().copied().collect()), &e, true, &|| log.clone());
            ctx.check(v.not_zero() == !e.is_zero() && v.negative() == (e.sign() < 0), "expansion-claims", || {
                format!("not_zero()={} negative()={} but the exact sign is {}; {log}", v.not_zero(), v.negative(), e.sign())
            });
            if !ctx.violations.is_empty() {
                return;
            }
            ex.push(e);
            deg.push(d);
            gx.push(v);
        }
        ctx.eval(if ex.len() > n { Some(fp.0) } else { None });
        ctx.sample(|| log.clone());
    }
}

/// an interval under observation: what the library holds, and exact values known to lie inside
struct Iv {
    v: g::IntervalNumber,
    /// exact members of the true range (witnesses)
    w: Vec<Dy>,
}

/// is x inside the interval? decided only with the interval's own operations and sign claims:
/// v - x must not claim to be of one sign when the exact difference is of another one
fn claims(v: &g::IntervalNumber) -> (bool, bool, bool) {
    (v.not_zero(), v.positive(), v.negative())
}

fn interval_programs(r: &mut Rng, ctx: &mut Ctx) {
    for _ in 0..60 {
        let m = *r.pick(&[Mode::Grid(3), Mode::Grid(100), Mode::Dyadic(10), Mode::Full, Mode::Mixed(52, 12), Mode::Mixed(52, 30)]);
        let n = 2 + r.below(4);
        let mut log = String::new();
        let mut fp = Fp::new();
        let mut iv: Vec<Iv> = vec![];
        for _ in 0..n {
            let x = coord(r, m);
            fp.u(x.to_bits());
            if r.chance(2, 5) {
                // a genuine interval [lo, hi] with exact members
                let y = coord(r, m);
                fp.u(y.to_bits());
                let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
                // only through the arithmetic: lo + t*(hi-lo) is not available, so build [lo,hi] from raw bounds
                let v = g::IntervalNumber::from_f64x2(f64x2::from_array([hi, -lo]));
                log.push_str(&format!("[{lo:e},{hi:e}] "));
                let mid = lo * 0.5 + hi * 0.5;
                let mut w = vec![Dy::f(lo), Dy::f(hi)];
                if mid >= lo && mid <= hi {
                    w.push(Dy::f(mid));
                }
                if lo <= 0.0 && hi >= 0.0 {
                    w.push(Dy::zero());
                }
                iv.push(Iv { v, w });
            } else {
                log.push_str(&format!("{x:e} "));
                iv.push(Iv { v: x.into(), w: vec![Dy::f(x)] });
            }
        }
        let steps = 1 + r.below(9);
        let mut deg = vec![1usize; n];
        for _ in 0..steps {
            let i = r.below(iv.len());
            let j = r.below(iv.len());
            let op = r.below(5);
            if (op == 2 || op == 3) && deg[i] + deg[j] > 10 {
                continue;
            }
            fp.u((i * 100 + j * 8 + op) as u64);
            log.push_str(&format!("; #{i} {} #{j}", ["+", "-", "*", "*", "neg"][op]));
            let form = r.below(4);
            let res = ctx.guard("interval-op", || log.clone(), || {
                let (a, b) = (&iv[i].v, &iv[j].v);
                match (op, form) {
                    (0, 0) => a + b,
                    (0, 1) => a.clone() + b,
                    (0, 2) => a + b.clone(),
                    (0, _) => a.clone() + b.clone(),
                    (1, 0) => a - b,
                    (1, 1) => a.clone() - b,
                    (1, 2) => a - b.clone(),
                    (1, _) => a.clone() - b.clone(),
                    (2..=3, 0) => a * b,
                    (2..=3, 1) => a.clone() * b,
                    (2..=3, 2) => a * b.clone(),
                    (2..=3, _) => a.clone() * b.clone(),
                    _ => {
                        let mut c = a.clone();
                        c.neg();
                        c
                    }
                }
            });
            let Some(v) = res else { return };
            let mut w: Vec<Dy> = vec![];
            if op == 4 {
                w = iv[i].w.iter().map(|x| -x).collect();
            } else if i == j && iv[i].w.len() > 1 {
                // the arithmetic treats operands as independent; any pairing is a member
                for x in &iv[i].w {
                    for y in &iv[i].w {
                        w.push(match op {
                            0 => x + y,
                            1 => x - y,
                            _ => x * y,
                        });
                    }
                }
            } else {
                for x in &iv[i].w {
                    for y in &iv[j].w {
                        w.push(match op {
                            0 => x + y,
                            1 => x - y,
                            _ => x * y,
                        });
                    }
                }
            }
            // keep the extreme and a few other witnesses
            w.sort_by(|a, b| a.cmp(b));
            if w.len() > 5 {
                let k = 1 + r.below(w.len() - 2);
                w = vec![w[0].clone(), w[1].clone(), w[k].clone(), w[w.len() - 2].clone(), w[w.len() - 1].clone()];
            }
            deg.push(if op >= 2 && op < 4 { deg[i] + deg[j] } else { deg[i].max(deg[j]) });
            verify_interval(ctx, &v, &w, &log, r);
            if !ctx.violations.is_empty() {
                return;
            }
            iv.push(Iv { v, w });
        }
        ctx.eval(if iv.len() > n { Some(fp.0) } else { None });
        ctx.sample(|| log.clone());
    }
}

/// sign claims must be true of every witness; so must they after shifting the interval by nearby thresholds
fn verify_interval(ctx: &mut Ctx, v: &g::IntervalNumber, w: &[Dy], log: &str, r: &mut Rng) {
    let lo = w[0].sign();
    let hi = w[w.len() - 1].sign();
    let (nz, pos, neg) = claims(v);
    ctx.count(match (nz, pos, neg) {
        (false, _, _) => "claim:undecided",
        (true, true, _) => "claim:positive",
        (true, _, _) => "claim:negative",
    });
    if lo < 0 && hi > 0 {
        ctx.count("witnesses-straddle-zero");
    }
    let sig = |k: &str| format!("interval-{k}");
    ctx.check(!nz || (lo > 0 || hi < 0), &sig("notzero"), || {
        format!("claims to exclude zero, but contains values of sign {lo}..{hi}; {log}")
    });
    ctx.check(!pos || lo > 0, &sig("positive"), || {
        format!("claims to be positive, but contains a value of sign {lo}; {log}")
    });
    ctx.check(!neg || hi < 0, &sig("negative"), || {
        format!("claims to be negative, but contains a value of sign {hi}; {log}")
    });
    ctx.check(nz == (pos || neg), &sig("claims"), || {
        format!("not_zero={nz} but positive={pos} negative={neg}; {log}")
    });
    // probe the enclosure at the witnesses: v - t for t just below / above a witness
    for k in [0, w.len() - 1] {
        let a = w[k].approx();
        if !a.is_finite() || a.abs() > 1e200 {
            continue;
        }
        let step = (r.below(4) as f64) * a.abs().max(1e-250) * 2f64.powi(-50);
        for t in [a - step, a + step, a] {
            let mut d = v - g::IntervalNumber::from(t);
            let ts = |x: &Dy| (x - Dy::f(t)).sign();
            let (l, h) = (ts(&w[0]), ts(&w[w.len() - 1]));
            ctx.count("probes");
            let (nz, pos, neg) = claims(&d);
            ctx.check(
                !(nz && !(l > 0 || h < 0)) && !(pos && l <= 0) && !(neg && h >= 0),
                &sig("enclosure"),
                || format!("interval minus {t:e} claims nz={nz} pos={pos} neg={neg}, exact signs {l}..{h}; {log}"),
            );
            d.neg();
            let (nz, pos, neg) = claims(&d);
            ctx.check(
                !(nz && !(l > 0 || h < 0)) && !(pos && h >= 0) && !(neg && l <= 0),
                &sig("negation"),
                || format!("{t:e} minus interval claims nz={nz} pos={pos} neg={neg}, exact signs {}..{}; {log}", -h, -l),
            );
        }
    }
}

/// operands given by bounds are not widened beyond usefulness: exact small integers are decided
fn interval_bounds(r: &mut Rng, ctx: &mut Ctx) {
    for _ in 0..100 {
        let mut iv = || {
            let a = coord(r, Mode::Grid(20));
            let b = coord(r, Mode::Grid(20));
            let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
            (lo, hi)
        };
        let (a, b) = (iv(), iv());
        ctx.eval(Some(Fp::new().fs(&[a.0, a.1, b.0, b.1]).0));
        ctx.sample(|| format!("[{},{}] op [{},{}]", a.0, a.1, b.0, b.1));
        let x = g::IntervalNumber::new(a.0, a.1);
        let y = g::IntervalNumber::new(b.0, b.1);
        for op in 0..3 {
            let (v, lo, hi) = match op {
                0 => (ctx.guard("interval-op", || String::new(), || &x + &y), a.0 + b.0, a.1 + b.1),
                1 => (ctx.guard("interval-op", || String::new(), || &x - &y), a.0 - b.1, a.1 - b.0),
                _ => {
                    let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                    (
                        ctx.guard("interval-op", || format!("{a:?}*{b:?}"), || &x * &y),
                        p.iter().copied().fold(f64::INFINITY, f64::min),
                        p.iter().copied().fold(f64::NEG_INFINITY, f64::max),
                    )
                }
            };
            let Some(v) = v else { continue };
            // thresholds at half integers around the exact bounds: outside must be excluded, inside must not
            for (t, inside) in [(lo - 0.5, false), (lo, true), (hi, true), (hi + 0.5, false)] {
                let d = &v - &g::IntervalNumber::from(t);
                let (nz, pos, neg) = claims(&d);
                ctx.count("bound-probes");
                let ok = if inside { !nz && !pos && !neg } else { nz && pos == (t < lo) && neg == (t > hi) };
                ctx.check(ok, "interval-bounds", || {
                    format!("{} of [{},{}] and [{},{}] is [{lo},{hi}], but minus {t} it claims nz={nz} pos={pos} neg={neg}", ["sum", "difference", "product"][op], a.0, a.1, b.0, b.1)
                });
            }
        }
    }
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P03",
            rule: "random nonadjacent expansions (up to 8 components, gaps 1..60 bits, cancelling pairs) through every public expansion operation, every error-free transformation, and straight-line programs of overloaded operators; non-trivial = operands nonzero",
            assumptions: &["operands whose exact results neither overflow nor underflow", "operands are valid (nonadjacent) expansions"],
            min_obs: &[("program-step", 5000), ("mul_expansion", 5000)],
            families: vec![
                fam("expansion operations", 50000, 3000000, expansion_ops),
                fam("error-free transformations", 50000, 3000000, primitives),
                fam("operator programs", 50000, 3000000, programs),
            ],
        },
        Property {
            id: "P04",
            rule: "straight-line interval programs over points and intervals of every sign combination, with exact members tracked beside each value and the enclosure probed at thresholds around them; non-trivial = at least one operation ran",
            assumptions: &["finite bounds, no overflow (products of degree at most 10 of |x| < 2^30)"],
            min_obs: &[("claim:positive", 5000), ("claim:negative", 5000), ("claim:undecided", 5000), ("witnesses-straddle-zero", 5000)],
            families: vec![
                fam("interval programs", 60000, 4000000, interval_programs),
                fam("integer bounds", 40000, 2000000, interval_bounds),
            ],
        },
    ]
}
