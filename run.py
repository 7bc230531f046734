#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE]   builds from /repo's working tree, explores, writes evidence.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; anything else: the check itself failed.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
KNOWN = os.path.join(HERE, "known_findings.txt")
BINDING = "bindings/python"


class CheckError(Exception):
    pass


class BuildFailure(CheckError):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ building from /repo's working tree
def lib_sources():
    s = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True) + glob.glob(f"{REPO}/src/**/*.cc", recursive=True))
    if not s:
        raise CheckError("no sources under src/")
    return s


_hash = None


def repo_hash():
    """content of everything the library can include"""
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for base in ("include", "src", BINDING):
            for root, dirs, files in sorted(os.walk(f"{REPO}/{base}")):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(open(p, "rb").read() + b"\0")
        _hash = h.hexdigest()
    return _hash


INC = [f"-I{REPO}/include", f"-I{REPO}/include/public"]
_pool = ThreadPoolExecutor(JOBS)


def compile_obj(src, flags, cxx="g++", deps=()):
    """compile one file; cached by the content of everything it may depend on"""
    h = hashlib.sha256()
    h.update(repr((cxx, flags, src)).encode())
    h.update(repo_hash().encode())
    h.update(open(src, "rb").read())
    for d in deps:
        h.update(open(d, "rb").read())
    out = f"{BUILD}/obj/{h.hexdigest()[:32]}.o"
    if os.path.exists(out):
        return out
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    tmp = f"{out}.{os.getpid()}.tmp"
    r = sh([cxx, *flags, "-c", src, "-o", tmp])
    if r.returncode:
        raise BuildFailure(f"compiling {src} with {cxx} {' '.join(flags)} failed:\n{r.stdout[-3000:]}")
    os.replace(tmp, out)
    return out


def link(objs, out_name, flags, cxx="g++"):
    h = hashlib.sha256(repr((objs, flags, cxx, out_name)).encode()).hexdigest()[:16]
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    out = f"{BUILD}/bin/{out_name}-{h}"
    if os.path.exists(out):
        return out
    tmp = f"{out}.{os.getpid()}.tmp"
    r = sh([cxx, *objs, "-o", tmp, *flags])
    if r.returncode:
        raise BuildFailure(f"linking {out_name} failed:\n{r.stdout[-3000:]}")
    os.replace(tmp, out)
    return out


class V:
    """a build variant of the library and the harness"""

    def __init__(self, name, flags, cxx="g++", small=False, hflags=None, hcxx=None, lflags=(), extra=()):
        self.name, self.flags, self.cxx, self.small = name, list(flags), cxx, small
        self.hflags = list(hflags) if hflags is not None else list(flags)
        self.hcxx = hcxx or cxx
        self.lflags, self.extra = list(lflags), list(extra)
        self.xflags = None   # flags of the extra objects, if they differ


BASE = ["-std=c++17", "-g1"]
PRODUCT = V("product", BASE + ["-O2"])
SMALL = V("scaled", BASE + ["-O2", "-DBIGINTEGERCPP_MC_THRESHOLD=4"], small=True, hflags=BASE + ["-O2"])


def engine_deps():
    return [f"{HERE}/mc/{f}" for f in ("mc.h", "val.h", "ops.h", "table.h", "mcsched.h")]


def build(v, modules):
    """the explorer of a variant with the given modules"""
    jobs = []
    for s in lib_sources():
        jobs.append(_pool.submit(compile_obj, s, v.flags + INC, v.cxx))
    nlib = len(jobs)
    for m in ["mc", "val", *(["ops"] if {"C16", "C17", "C19", "C19small"} & set(modules) else []), *sorted({m.lower().replace("small", "") for m in modules}), *v.extra]:
        jobs.append(_pool.submit(compile_obj, f"{HERE}/mc/{m}.cpp", (v.xflags if m in v.extra and v.xflags else v.hflags) + INC + [f"-I{HERE}/mc"], v.hcxx, tuple(engine_deps())))
    objs = [j.result() for j in jobs]
    return link(objs, f"mcheck-{v.name}", v.lflags + ["-lgmp", "-pthread"], v.cxx)


# ------------------------------------------------------------------ running
class Result:
    def __init__(self, prop):
        self.prop = prop
        self.states = self.transitions = self.cases = self.outcomes = self.skipped = 0
        self.runs, self.samples, self.known, self.violation = [], [], [], None
        self.extra = {}

    def add(self, name, d):
        self.states += d["states"]
        self.transitions += d["transitions"]
        self.cases += d["cases"]
        self.outcomes += d.get("outcomes", 0)
        self.skipped += d.get("skipped", 0)
        r = {k: d[k] for k in ("cases", "states", "transitions", "outcomes", "wall_s") if k in d}
        if d.get("skipped"):
            r["skipped"] = d["skipped"]
        if d.get("states_lower_bound"):
            r["states_is_a_lower_bound"] = True
        r["run"] = name
        r["spaces"] = {s["name"]: s["cases"] for s in d.get("spaces", [])}
        self.runs.append(r)
        sp = d.get("spaces", [])
        for s in sp[:: max(1, len(sp) // 4)][:4]:
            self.samples.append(f"{name}: {s['name']}: {s['sample']}")
        self.known += d.get("known", [])
        if d.get("violation") and not self.violation:
            self.violation = dict(d["violation"], run=name)


def known_lines(prop):
    """lines 'known: property=<id> space|case' of the known-findings file"""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith(f"known: property={prop} "):
                r.append(l.split(" ", 2)[2].rstrip("\n"))
    return r


def explore(res, v, modules, level, env=None, args=(), name=None, wrap=()):
    """run the explorer of one variant over some modules at a level"""
    exe = build(v, modules)
    os.makedirs(f"{BUILD}/run", exist_ok=True)
    tag = f"{res.prop}-{v.name}-{os.getpid()}"
    out = f"{BUILD}/run/{tag}.json"
    rdir = f"{BUILD}/replay"
    os.makedirs(rdir, exist_ok=True)
    kf = f"{BUILD}/run/{tag}.known"
    with open(kf, "w") as f:
        f.writelines(k + "\n" for k in known_lines(res.prop))
    cmd = [*wrap, exe, "--property", res.prop, "--level", str(level), "--jobs", str(JOBS), "--out", out, "--replay-dir", rdir, "--known", kf, "--tabbits", {0: "22", 1: "25", 2: "28"}.get(level, "29"), *args]
    for m in modules:
        cmd += ["--module", m]
    r = sh(cmd, env={**os.environ, **(env or {})})
    nm = name or v.name
    try:
        d = json.load(open(out))
    except Exception:
        raise CheckError(f"{' '.join(cmd)} ended with {r.returncode}:\n{r.stdout[-3000:]}")
    for f in (out, kf):
        if os.path.exists(f):
            os.unlink(f)
    if r.returncode not in (0, 1):
        raise CheckError(f"{' '.join(cmd)} ended with {r.returncode}:\n{r.stdout[-3000:]}")
    res.add(f"{nm}, level {level}", d)
    if r.returncode == 1:
        # the replay file says how to build as well
        p = d["violation"]["replay"]
        with open(p, "a") as f:
            f.write(f"variant={v.name}\n")
            if wrap:
                f.write(f"wrap={' '.join(wrap)}\n")
            for k, x in (env or {}).items():
                f.write(f"env.{k}={x}\n")
        sys.stdout.write("\n".join(l for l in r.stdout[-6000:].splitlines() if not l.startswith("VIOLATION")) + "\n")
        return False
    return True


# ------------------------------------------------------------------ the properties
ASSUME = ["GMP computes the reference results", "the standard library and the compiler are correct",
          "values outside the enumerated spaces behave like the enumerated ones"]


def modules_check(prop, small=False, quick_level=2, thorough_level=3):
    def run(res, tier):
        lv = quick_level if tier == "quick" else thorough_level
        if not explore(res, PRODUCT, [prop], lv):
            return
        if small:
            explore(res, SMALL, [prop + "small"], lv, name="scaled thresholds")
    return run


CHECKS = {p: modules_check(p, small=p in ("C02", "C04", "C05")) for p in [f"C{i:02d}" for i in range(1, 16)]}
LEVEL = {}
VARIANTS = {v.name: v for v in (PRODUCT, SMALL)}

try:
    import more  # further properties register themselves
    more.register(sys.modules[__name__])
except ImportError as e:
    if e.name != "more":
        raise


def replay(prop, path):
    kv = {}
    for l in open(path):
        if "=" in l and not l.startswith("#"):
            k, x = l.rstrip("\n").split("=", 1)
            kv[k] = x
    if "runner" in kv:
        import more
        return more.replay(sys.modules[__name__], prop, path, kv)
    v = VARIANTS[kv["variant"]]
    exe = build(v, [kv["module"]])
    env = {k[4:]: x for k, x in kv.items() if k.startswith("env.")}
    return subprocess.run([*kv.get("wrap", "").split(), exe, "--replay", path], env={**os.environ, **env}).returncode


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print(f"usage: run.py {{{','.join(sorted(CHECKS))}}} [quick|thorough] [--replay FILE]")
        return 2
    prop = sys.argv[1]
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    res = Result(prop)
    prune()
    CHECKS[prop](res, tier)
    # what was found besides the recorded findings
    lvl = LEVEL.get(prop, "model_checking")
    cov = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.cases,
           "distinct_outcomes": res.outcomes, "samples": res.samples[:40], "runs": res.runs,
           "exhaustive": res.violation is None, **res.extra}
    if lvl == "fault_enumeration":
        cov = {"evaluations": res.cases, "distinct_nontrivial": res.states, "samples": res.samples[:40], "runs": res.runs,
               "transitions": res.transitions, "distinct_outcomes": res.outcomes, "exhaustive": res.violation is None, **res.extra}
    if res.skipped:
        cov["skipped_cases"] = res.skipped
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl, "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if res.violation else 0}
    if res.violation:
        ev["coverage"]["violation"] = res.violation
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(res.known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if res.violation:
        print(f"VIOLATION property={prop} replay={res.violation['replay']}")
        return 1
    print(f"{prop} {tier}: held; {res.cases} cases, {res.states} states, {res.transitions} transitions, {round(time.time() - t0, 1)} s")
    return 0


def prune():
    """keep the build cache small"""
    for d in ("obj", "bin"):
        p = f"{BUILD}/{d}"
        if not os.path.isdir(p):
            continue
        fs = sorted((os.path.getmtime(f"{p}/{f}"), f) for f in os.listdir(p))
        now = time.time()
        big = sum(os.path.getsize(f"{p}/{f}") for _, f in fs) > 3 << 30
        for t, f in fs:
            if now - t > (1800 if big else 86400):
                try:
                    os.unlink(f"{p}/{f}")
                except OSError:
                    pass


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print(f"error: {e}", file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
