#![feature(allocator_api)]
#![feature(portable_simd)]
#![allow(clippy::all)]
mod ctx;
mod exact;
mod fast;
mod gen;
mod geom;
mod props;
mod rng;
mod solid;
#[cfg(verif_hooks)]
mod complexes;

use ctx::*;
use rng::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

fn case_rng(seed: u64, id: &str, fam: &str, case: u64) -> Rng {
    Rng::new(&[seed, hash_str(id), hash_str(fam), case])
}

fn run_case(p: &Property, seed: u64, f: usize, c: u64, ctx: &mut Ctx) {
    ctx.family = f;
    ctx.case = c;
    let mut r = case_rng(seed, p.id, p.families[f].name, c);
    (p.families[f].run)(&mut r, ctx);
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + " ..."
    }
}

/// child: run the cases of one shard, one line of progress per case
fn shard(p: &Property, seed: u64, thorough: bool, k: u64, n: u64, dir: &Path, deadline: u64, skip: &HashSet<(usize, u64)>) {
    install_hook();
    let start = Instant::now();
    let prog = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(dir.join(format!("prog.{k}")))
        .unwrap();
    let mut ctx = Ctx::new(thorough);
    let mut stopped = 0u64;
    // interleave the families so that a deadline cuts all of them alike
    let counts: Vec<u64> = p
        .families
        .iter()
        .map(|f| if thorough { f.thorough } else { f.quick })
        .collect();
    let rounds = 64u64;
    let mut tick = 0u64;
    'outer: for r in 0..rounds {
        for (fi, cnt) in counts.iter().enumerate() {
            let lo = cnt * r / rounds;
            let hi = cnt * (r + 1) / rounds;
            for c in lo..hi {
                if c % n != k || skip.contains(&(fi, c)) {
                    continue;
                }
                if start.elapsed().as_secs() >= deadline {
                    stopped = 1;
                    break 'outer;
                }
                tick += 1;
                let mut b = [0u8; 24];
                b[..8].copy_from_slice(&tick.to_le_bytes());
                b[8..16].copy_from_slice(&(fi as u64).to_le_bytes());
                b[16..].copy_from_slice(&c.to_le_bytes());
                prog.write_at(&b, 0).unwrap();
                run_case(p, seed, fi, c, &mut ctx);
                if ctx.violations.len() >= 100 {
                    stopped = 1;
                    break 'outer;
                }
            }
        }
    }
    let mut out = String::new();
    out.push_str(&format!("E {}\nS {}\n", ctx.evals, stopped));
    for (k, v) in &ctx.counters {
        out.push_str(&format!("C {v} {k}\n"));
    }
    for (f, s) in &ctx.samples {
        out.push_str(&format!("P {f} {}\n", s.replace('\n', " ")));
    }
    for v in &ctx.violations {
        out.push_str(&format!(
            "V {} {} {} {}\n",
            v.family,
            v.case,
            v.sig.replace(' ', "_"),
            v.msg.replace('\n', " ")
        ));
    }
    let mut d = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in &ctx.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("dist.{k}")), d).unwrap();
    fs::write(dir.join(format!("out.{k}.tmp")), out).unwrap();
    fs::rename(dir.join(format!("out.{k}.tmp")), dir.join(format!("out.{k}"))).unwrap();
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

fn read_prog(dir: &Path, k: u64) -> Option<(u64, usize, u64)> {
    let b = fs::read(dir.join(format!("prog.{k}"))).ok()?;
    if b.len() < 24 {
        return None;
    }
    let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    Some((u(0), u(8) as usize, u(16)))
}

struct Worker {
    child: Child,
    k: u64,
    last_tick: u64,
    cpu_at_tick: u64,
    done: bool,
    skip: Vec<(usize, u64)>,
}

enum Solo {
    Ok,
    Violations(Vec<(String, String)>),
    Cpu,
    Died(String),
    Error(String),
}

const MEM_LIMIT: &str = "6000000"; // KiB of address space per worker

fn spawn_self(args: &[String], log: &Path) -> Child {
    let me = std::env::current_exe().unwrap();
    let f = fs::OpenOptions::new().create(true).append(true).open(log).unwrap();
    let g = f.try_clone().unwrap();
    Command::new("/bin/sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {MEM_LIMIT}; exec \"$0\" \"$@\""))
        .arg(me)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::from(f))
        .stderr(Stdio::from(g))
        .spawn()
        .unwrap()
}

/// run one case alone in a fresh process
fn solo(p: &Property, seed: u64, thorough: bool, f: usize, c: u64, dir: &Path) -> Solo {
    let out = dir.join("solo.out");
    let log = dir.join("solo.log");
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(&log);
    let mut ch = spawn_self(
        &[
            "one".into(),
            p.id.into(),
            if thorough { "thorough" } else { "quick" }.into(),
            seed.to_string(),
            f.to_string(),
            c.to_string(),
            out.to_string_lossy().into_owned(),
        ],
        &log,
    );
    let budget = p.families[f].cpu_budget * 100;
    let st = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            break st;
        }
        if cpu_ticks(ch.id()).unwrap_or(0) > budget {
            let _ = ch.kill();
            let _ = ch.wait();
            return Solo::Cpu;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    if st.success() {
        let txt = fs::read_to_string(&out).unwrap_or_default();
        let mut v = vec![];
        for l in txt.lines() {
            if let Some((s, m)) = l.split_once(' ') {
                v.push((s.to_string(), m.to_string()));
            }
        }
        if v.is_empty() {
            Solo::Ok
        } else {
            Solo::Violations(v)
        }
    } else {
        use std::os::unix::process::ExitStatusExt;
        let tail = fs::read_to_string(&log).unwrap_or_default();
        if tail.contains("HARNESS PANIC") {
            return Solo::Error(tail);
        }
        match st.signal() {
            Some(s) => Solo::Died(format!("signal {s}: {}", clip(tail.trim(), 300))),
            None => Solo::Error(format!("exit {:?}: {tail}", st.code())),
        }
    }
}

struct Found {
    family: usize,
    case: u64,
    sig: String,
    msg: String,
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let root = verif_root();
    let txt = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: ") {
            // KNOWN-FINDING: property=<id> sig=<signature> <what fails>
            let mut it = r.splitn(3, ' ');
            let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a == format!("property={id}") {
                if let Some(s) = b.strip_prefix("sig=") {
                    v.push((s.to_string(), c.to_string()));
                }
            }
        }
    }
    v
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn orchestrate(p: &Property, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let root = verif_root();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = root.join("out").join(format!("run-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    fs::create_dir_all(root.join("evidence")).unwrap();
    fs::create_dir_all(root.join("out/replays")).unwrap();
    let n = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let deadline: u64 = std::env::var("VERIF_DEADLINE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 600 } else { 150 });
    let mk = |k: u64, skip: &Vec<(usize, u64)>, deadline: u64| -> Child {
        let s: Vec<String> = skip.iter().map(|(a, b)| format!("{a}:{b}")).collect();
        spawn_self(
            &[
                "shard".into(),
                p.id.into(),
                tier.into(),
                seed.to_string(),
                k.to_string(),
                n.to_string(),
                dir.to_string_lossy().into_owned(),
                deadline.to_string(),
                s.join(","),
            ],
            &dir.join(format!("log.{k}")),
        )
    };
    let mut ws: Vec<Worker> = (0..n)
        .map(|k| Worker {
            child: mk(k, &vec![], deadline),
            k,
            last_tick: 0,
            cpu_at_tick: 0,
            done: false,
            skip: vec![],
        })
        .collect();
    let mut found: Vec<Found> = vec![];
    let mut incon: Vec<String> = vec![];
    let mut solo_runs = 0u64;
    let known_sigs: Vec<String> = load_known(p.id).into_iter().map(|k| k.0).collect();
    loop {
        let mut alive = false;
        for i in 0..ws.len() {
            if ws[i].done {
                continue;
            }
            alive = true;
            let k = ws[i].k;
            let mut failed: Option<&str> = None;
            if let Some(st) = ws[i].child.try_wait().unwrap() {
                if st.success() && dir.join(format!("out.{k}")).exists() {
                    ws[i].done = true;
                    continue;
                }
                failed = Some("died");
            } else if let (Some((t, f, _)), Some(cpu)) = (read_prog(&dir, k), cpu_ticks(ws[i].child.id())) {
                if t != ws[i].last_tick {
                    ws[i].last_tick = t;
                    ws[i].cpu_at_tick = cpu;
                } else if cpu.saturating_sub(ws[i].cpu_at_tick) > p.families[f].cpu_budget * 100 {
                    let _ = ws[i].child.kill();
                    let _ = ws[i].child.wait();
                    failed = Some("cpu budget");
                }
            }
            if let Some(why) = failed {
                let Some((_, f, c)) = read_prog(&dir, k) else {
                    incon.push(format!("shard {k} {why} before its first case"));
                    ws[i].done = true;
                    continue;
                };
                if found.iter().any(|x| !known_sigs.contains(&x.sig)) {
                    // the verdict is known, this shard's trouble needs no confirmation of its own
                    ws[i].done = true;
                    continue;
                }
                let mut confirmed = false;
                // confirm alone, up to three times (the code under test draws its own randomness)
                for _ in 0..3 {
                    solo_runs += 1;
                    match solo(p, seed, thorough, f, c, &dir) {
                        Solo::Ok => continue,
                        Solo::Violations(v) => {
                            for (s, m) in v {
                                found.push(Found { family: f, case: c, sig: s, msg: m });
                            }
                        }
                        Solo::Cpu => found.push(Found {
                            family: f,
                            case: c,
                            sig: format!("no-return:{}", p.families[f].name),
                            msg: format!(
                                "the call did not return within {} CPU seconds, twice (usual cost: milliseconds)",
                                p.families[f].cpu_budget
                            ),
                        }),
                        Solo::Died(s) => found.push(Found {
                            family: f,
                            case: c,
                            sig: format!("crash:{}", p.families[f].name),
                            msg: format!("the process running the call died, twice: {s}"),
                        }),
                        Solo::Error(e) => {
                            incon.push(format!("case {f}:{c}: harness error {}", clip(&e, 400)));
                        }
                    }
                    confirmed = true;
                    break;
                }
                if !confirmed {
                    incon.push(format!("case {f}:{c}: {why} once, not reproduced alone"));
                }
                ws[i].skip.push((f, c));
                let elapsed = t0.elapsed().as_secs();
                if !found.is_empty() || ws[i].skip.len() > 3 || elapsed >= deadline {
                    // enough: the verdict is known, or this shard cannot make progress
                    ws[i].done = true;
                } else {
                    let s = ws[i].skip.clone();
                    ws[i].child = mk(k, &s, deadline - elapsed);
                    ws[i].last_tick = 0;
                    ws[i].cpu_at_tick = 0;
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    // merge
    let mut evals = 0u64;
    let mut stopped = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<usize, String> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    for k in 0..n {
        let Ok(txt) = fs::read_to_string(dir.join(format!("out.{k}"))) else {
            continue;
        };
        for l in txt.lines() {
            let (tag, r) = l.split_once(' ').unwrap();
            match tag {
                "E" => evals += r.parse::<u64>().unwrap(),
                "S" => stopped += r.parse::<u64>().unwrap(),
                "C" => {
                    let (v, name) = r.split_once(' ').unwrap();
                    let v: u64 = v.parse().unwrap();
                    let e = counters.entry(name.to_string()).or_insert(0);
                    if name.starts_with("max:") {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                "P" => {
                    let (f, s) = r.split_once(' ').unwrap();
                    samples.entry(f.parse().unwrap()).or_insert(s.to_string());
                }
                "V" => {
                    let mut it = r.splitn(4, ' ');
                    found.push(Found {
                        family: it.next().unwrap().parse().unwrap(),
                        case: it.next().unwrap().parse().unwrap(),
                        sig: it.next().unwrap().to_string(),
                        msg: it.next().unwrap_or("").to_string(),
                    });
                }
                _ => {}
            }
        }
        if let Ok(d) = fs::read(dir.join(format!("dist.{k}"))) {
            for c in d.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    // known findings
    let known = load_known(p.id);
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut real: Vec<Found> = vec![];
    for f in found {
        if known.iter().any(|k| k.0 == f.sig) {
            *hits.entry(f.sig.clone()).or_insert(0) += 1;
        } else {
            real.push(f);
        }
    }
    for (s, what) in &known {
        println!("KNOWN-FINDING: property={} {} (observed {} times in this run)", p.id, what, hits.get(s).unwrap_or(&0));
    }
    let mut short: Vec<String> = vec![];
    for (name, min) in p.min_obs {
        let got = *counters.get(*name).unwrap_or(&0);
        if got < *min {
            short.push(format!("observed {got} of '{name}', need {min}"));
        }
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::new();
    e.push_str(&format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n",
        p.id,
        distinct.len(),
        esc(p.rule)
    ));
    e.push_str("  \"observed\": {");
    e.push_str(
        &counters
            .iter()
            .map(|(k, v)| format!("\"{}\": {v}", esc(k)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    e.push_str("},\n  \"families\": {");
    e.push_str(
        &p.families
            .iter()
            .map(|f| format!("\"{}\": {}", esc(f.name), if thorough { f.thorough } else { f.quick }))
            .collect::<Vec<_>>()
            .join(", "),
    );
    e.push_str(&format!("}},\n  \"shards_cut_by_deadline\": {stopped},\n  \"cases_rerun_alone\": {solo_runs},\n  \"samples\": ["));
    e.push_str(
        &samples
            .iter()
            .map(|(f, s)| format!("\"{}: {}\"", esc(p.families[*f].name), esc(&clip(s, 1500))))
            .collect::<Vec<_>>()
            .join(",\n   "),
    );
    e.push_str("]\n },\n \"assumptions\": [");
    e.push_str(&p.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(", "));
    e.push_str(&format!("],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", real.len()));
    fs::write(root.join("evidence").join(format!("{}.json", p.id)), e).unwrap();
    println!(
        "{} {tier} seed={seed}: {evals} evaluations, {} distinct non-trivial, {} violations, {} known, {wall:.1}s{}",
        p.id,
        distinct.len(),
        real.len(),
        hits.values().sum::<u64>(),
        if stopped > 0 { " (stopped early)" } else { "" }
    );
    for s in &incon {
        println!("INCONCLUSIVE {}: {}", p.id, s);
    }
    let keep = std::env::var("VERIF_KEEP").is_ok();
    if !real.is_empty() {
        let mut by: BTreeMap<String, Vec<Found>> = BTreeMap::new();
        for f in real {
            by.entry(f.sig.clone()).or_default().push(f);
        }
        for (sig, fs_) in by {
            let f = &fs_[0];
            let path = root.join("out/replays").join(format!(
                "{}-{}.json",
                p.id,
                sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect::<String>()
            ));
            fs::write(
                &path,
                format!(
                    "{{\"property\": \"{}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"family\": {}, \"family_name\": \"{}\", \"case\": {}, \"signature\": \"{}\", \"occurrences\": {}, \"message\": \"{}\", \"how\": \"bash check.sh replay {}\"}}\n",
                    p.id,
                    f.family,
                    p.families[f.family].name,
                    f.case,
                    esc(&sig),
                    fs_.len(),
                    esc(&clip(&f.msg, 200000)),
                    path.display()
                ),
            )
            .unwrap();
            println!("  {} x{}: {}", sig, fs_.len(), clip(&f.msg, 700));
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        if !keep {
            let _ = fs::remove_dir_all(&dir);
        }
        return 1;
    }
    if !incon.is_empty() || !short.is_empty() {
        for s in short {
            println!("INCONCLUSIVE {}: {}", p.id, s);
        }
        return 2;
    }
    if !keep {
        let _ = fs::remove_dir_all(&dir);
    }
    0
}

fn json_field(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{k}\": "))? + k.len() + 4;
    let r = &s[i..];
    Some(r.trim_start_matches('"').split(|c| c == ',' || c == '"' || c == '}').next()?.to_string())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let get = |id: &str| -> &Property {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => {
            exact::self_test();
            fast::self_test();
            props::self_test();
            println!("oracle self test passed");
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        Some("run") => {
            exact::self_test();
            fast::self_test();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            exit(orchestrate(get(&a[2]), seed, tier == "thorough"));
        }
        Some("shard") => {
            let skip: HashSet<(usize, u64)> = a[9]
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| {
                    let (x, y) = s.split_once(':').unwrap();
                    (x.parse().unwrap(), y.parse().unwrap())
                })
                .collect();
            shard(
                get(&a[2]),
                a[4].parse().unwrap(),
                a[3] == "thorough",
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                Path::new(&a[7]),
                a[8].parse().unwrap(),
                &skip,
            );
        }
        Some("one") => {
            install_hook();
            let p = get(&a[2]);
            let mut ctx = Ctx::new(a[3] == "thorough");
            run_case(p, a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &mut ctx);
            let mut s = String::new();
            for v in &ctx.violations {
                s.push_str(&format!("{} {}\n", v.sig.replace(' ', "_"), v.msg.replace('\n', " ")));
            }
            fs::write(&a[7], s).unwrap();
        }
        Some("replay") => {
            install_hook();
            let txt = fs::read_to_string(&a[2]).expect("replay file");
            let p = get(&json_field(&txt, "property").unwrap());
            let seed = json_field(&txt, "seed").unwrap().parse().unwrap();
            let f = json_field(&txt, "family").unwrap().parse().unwrap();
            let c = json_field(&txt, "case").unwrap().parse().unwrap();
            let th = json_field(&txt, "tier").unwrap() == "thorough";
            let runs: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(10);
            for i in 0..runs {
                let mut ctx = Ctx::new(th);
                ctx.verbose = true;
                run_case(p, seed, f, c, &mut ctx);
                if !ctx.violations.is_empty() {
                    println!("reproduced on run {}", i + 1);
                    exit(1);
                }
            }
            println!("not reproduced in {runs} runs");
        }
        _ => {
            eprintln!("usage: gv run <ID> [quick|thorough] | replay <file> | list | selftest");
            exit(2);
        }
    }
}
