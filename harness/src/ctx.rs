//! Per-shard recorder: what the monitors observed, and the violations they saw.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const DISTINCT_CAP: usize = 400_000;

pub struct Violation {
    pub family: usize,
    pub case: u64,
    pub sig: String,
    pub msg: String,
}

pub struct Ctx {
    pub family: usize,
    pub case: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<(usize, String)>,
    pub violations: Vec<Violation>,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(thorough: bool) -> Self {
        Ctx {
            family: 0,
            case: 0,
            thorough,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            verbose: false,
        }
    }
    /// one evaluation of the oracle; `fp` fingerprints the case when it is non trivial
    pub fn eval(&mut self, fp: Option<u64>) {
        self.evals += 1;
        if let Some(h) = fp {
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(h);
            }
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// keep the largest value seen under a name (reported as max:<name>)
    pub fn maxi(&mut self, k: &str, n: u64) {
        let k = format!("max:{k}");
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let fam = self.family;
        if self.samples.iter().filter(|s| s.0 == fam).count() < 1 {
            self.samples.push((fam, f()));
        }
    }
    /// the oracle refutes the property on this case
    pub fn violate(&mut self, sig: &str, msg: String) {
        if self.verbose {
            println!("violation [{sig}] {msg}");
        }
        if self.violations.len() < 200 {
            self.violations.push(Violation {
                family: self.family,
                case: self.case,
                sig: sig.to_string(),
                msg,
            });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(sig, msg());
        }
        ok
    }
    /// run code of the library; a panic inside it is a violation of "returns normally"
    pub fn guard<T>(&mut self, what: &str, desc: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.violate(&format!("panic:{what}"), format!("{what} panicked: {m}; {}", desc()));
                None
            }
        }
    }
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
    static INSIDE: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let inside = INSIDE.with(|i| *i.borrow());
        let s = info.to_string().replace('\n', " ");
        if inside {
            LAST.with(|l| *l.borrow_mut() = s);
        } else {
            eprintln!("HARNESS PANIC: {s}");
        }
    }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    INSIDE.with(|i| *i.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|i| *i.borrow_mut() = false);
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// CPU seconds one case may take before it counts as not returning
    pub cpu_budget: u64,
    pub run: fn(&mut Rng, &mut Ctx),
}

pub fn fam(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Rng, &mut Ctx)) -> Family {
    Family { name, quick, thorough, cpu_budget: 60, run }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be at least this large, or the run observed too little
    pub min_obs: &'static [(&'static str, u64)],
    pub families: Vec<Family>,
}
