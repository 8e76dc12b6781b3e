#!/usr/bin/env python3
"""Mutation campaign over copies of /repo and the harness (development aid; no registered check uses it).
usage: mutate.py OUTDIR LANE NLANES COUNT SEED [file-substring...]
Each lane copies /repo and /verif/harness to OUTDIR/laneN, applies one random small change at a time, builds the harness
against it and runs the quick checks of the properties the file belongs to until one reports a violation."""
import os, random, re, shutil, subprocess, sys, time, json
out, lane, lanes, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
only = sys.argv[6:]
root = f"{out}/lane{lane}"
os.makedirs(root, exist_ok=True)
if not os.path.exists(f"{root}/repo"):
    subprocess.check_call(["git", "clone", "-q", "/repo", f"{root}/repo"])
shutil.rmtree(f"{root}/harness", ignore_errors=True)
shutil.copytree("/verif/harness", f"{root}/harness")
shutil.copy("/verif/known_findings.txt", root)
ct = f"{root}/harness/Cargo.toml"
s = open(ct).read().replace('"/repo"', f'"{root}/repo"'); open(ct, "w").write(s)
env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-05-01", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{root}/target", CARGO_INCREMENTAL="0",
           RUSTFLAGS="--cfg verif_hooks -Awarnings", VERIF_ROOT=root, VERIF_SEED="1", VERIF_DEADLINE="150", VERIF_JOBS=str(max(2, 8 // lanes)))
MAP = [("disjoint_set", ["P19", "P22"]), ("graphcut/mod", ["P18"]), ("push_relabel", ["P17", "P27", "P22"]), ("math/", ["P28"]),
       ("mesh/", ["P14", "P16", "P15", "P25", "P22"]), ("polygonlization/", ["P22", "P26", "P25", "P27", "P23", "P21", "P24", "P20"]),
       ("predicates/predicates", ["P01", "P03", "P02", "P07"]), ("expansion_number", ["P03", "P05", "P07"]), ("interval_number", ["P04", "P05", "P07"]),
       ("generic_point", ["P05", "P07", "P08", "P06"]), ("less_than", ["P08"]), ("predicates/orient2d", ["P06"]), ("predicates/orient3d", ["P07"]),
       ("predicates/mod", ["P09", "P01", "P26", "P22", "P21"]), ("triangle/triangle", ["P10", "P11", "P21", "P22"]), ("tetrahedron", ["P12", "P13", "P22"]), ("lib.rs", ["P21", "P22"])]
def sites():
    r = []
    for f in subprocess.check_output(["git", "ls-files", "src"], cwd=f"{root}/repo", text=True).split():
        if f.endswith("verif.rs") or (only and not any(o in f for o in only)):
            continue
        intest = False
        for i, l in enumerate(open(f"{root}/repo/{f}").read().split("\n")):
            if "#[test]" in l or "#[cfg(test)]" in l or "cfg(verif_hooks)" in l: intest = True
            if intest:
                if l.startswith("}"): intest = False
                continue
            t = l.strip()
            if not t or t.startswith(("//", "use ", "#", "pub mod", "mod ", "fn ", "pub fn", "impl", "struct", "pub struct", "type ", "pub type", "where", "///")): continue
            for m in muts(l):
                r.append((f, i, m))
    return r
SW = [(r" \+ ", " - "), (r" - ", " + "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
      (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"),
      (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2"), (r"\bPositive\b", "Negative"), (r"\bNegative\b", "Positive"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"),
      (r" \* ", " + "), (r" -(?=[a-z])", " "), (r"\bif !", "if "), (r"\bif (?=[a-z(])(?!let)", "if !"), (r"\bnext\(\)", "prev()"), (r"\bprev\(\)", "next()"), (r"\bfrom\(\)", "to()"), (r"\bto\(\)", "from()"),
      (r" \+= ", " -= "), (r" -= ", " += "), (r"\bva\b", "vb"), (r"\bpa\b", "pb"), (r"\bpb\b", "pc"), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\bmin_by", "max_by")]
def muts(l):
    r = []
    for a, b in SW:
        for m in re.finditer(a, l):
            r.append(l[:m.start()] + b + l[m.end():])
    if re.match(r"^\s+[a-z_\[\]\.\*]+.*;\s*$", l) and not l.strip().startswith(("let", "return", "break", "continue", "}")):
        r.append(re.sub(r"\S.*", "", l) + "// removed")
    return [x for x in r if x != l]
rng = random.Random(seed)
allsites = sites()
byfile = {}
for s in allsites: byfile.setdefault(s[0], []).append(s)
print(lane, len(allsites), "sites", {k: len(v) for k, v in byfile.items()}, flush=True)
pick = []
names = sorted(byfile, key=lambda f: f)
while len(pick) < count:
    # files weighted by the square root of their number of sites
    f = rng.choices(names, [len(byfile[f]) ** 0.5 for f in names])[0]
    pick.append(rng.choice(byfile[f]))
seen = set()
log = open(f"{out}/log{lane}.jsonl", "a")
for n, (f, i, new) in enumerate(pick):
    if n % lanes != lane or (f, i, new) in seen: continue
    seen.add((f, i, new))
    p = f"{root}/repo/{f}"
    src = open(p).read(); ls = src.split("\n"); old = ls[i]; ls[i] = new
    open(p, "w").write("\n".join(ls))
    t0 = time.time(); res = "survived"; by = None; ran = []
    try:
        b = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", ct], env=env, capture_output=True, text=True)
        if b.returncode:
            res = "nobuild"
        else:
            for props in [v for k, v in MAP if k in f][:1]:
                for pr in props:
                    c = subprocess.run(["bash", "-c", f"ulimit -v 3500000; exec {root}/target/debug/gv run {pr} quick"], env=env, capture_output=True, text=True, timeout=900)
                    ran.append((pr, c.returncode, round(time.time() - t0)))
                    if c.returncode == 1:
                        res = "killed"; by = pr
                        break
                    if c.returncode != 0 and res == "survived": res = "inconclusive"
    except subprocess.TimeoutExpired:
        res = "timeout"
    finally:
        open(p, "w").write(src)
    log.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), res=res, by=by, ran=ran, t=round(time.time() - t0))) + "\n"); log.flush()
