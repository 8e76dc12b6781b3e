//! Workload generators: coordinates from friendly to hostile.
use crate::exact::P3;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// integers in [-k, k]
    Grid(i64),
    /// multiples of 2^-b in [-1, 1]
    Dyadic(u32),
    /// random doubles in [-1, 1] (full mantissa)
    Full,
    /// b-bit mantissa times 2^e, |e| <= r
    Mixed(u32, i32),
    /// large offset plus a small integer / 2^b
    Shifted(f64, i64),
}

pub fn coord(r: &mut Rng, m: Mode) -> f64 {
    match m {
        Mode::Grid(k) => r.range(-k, k) as f64,
        Mode::Dyadic(b) => {
            let s = 1i64 << b;
            r.range(-s, s) as f64 / s as f64
        }
        Mode::Full => r.sym(),
        Mode::Mixed(b, e) => {
            let s = 1i64 << b;
            r.range(-s, s) as f64 / s as f64 * 2f64.powi(r.range(-e as i64, e as i64) as i32)
        }
        Mode::Shifted(o, k) => o + r.range(-k, k) as f64,
    }
}

pub fn p3(r: &mut Rng, m: Mode) -> P3 {
    [coord(r, m), coord(r, m), coord(r, m)]
}
pub fn p2(r: &mut Rng, m: Mode) -> [f64; 2] {
    [coord(r, m), coord(r, m)]
}

/// move by up to k units in the last place
pub fn ulp(r: &mut Rng, x: f64, k: i64) -> f64 {
    let mut v = x;
    let n = r.range(-k, k);
    for _ in 0..n.abs() {
        v = if n > 0 { v.next_up() } else { v.next_down() };
    }
    // never create subnormals
    if v.abs() < 1e-280 {
        0.0
    } else {
        v
    }
}
pub fn ulp_all(r: &mut Rng, p: &mut [f64], k: i64) {
    for c in p {
        *c = ulp(r, *c, k);
    }
}

/// every coordinate mode whose products stay far from overflow and underflow at degree 5 with 53 bits
pub fn any_mode(r: &mut Rng) -> Mode {
    match r.below(10) {
        0 => Mode::Grid(2),
        1 => Mode::Grid(10),
        2 => Mode::Grid(1000),
        3 => Mode::Dyadic(8),
        4 => Mode::Dyadic(24),
        5 => Mode::Full,
        6 => Mode::Mixed(53 - 1, 10),
        7 => Mode::Mixed(20, 30),
        8 => Mode::Shifted(1048576.0, 3),
        _ => Mode::Shifted(4503599627370496.0, 40),
    }
}

pub fn hex(v: &[f64]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("{x:e}")).collect();
    format!("[{}]", s.join(","))
}
