"""C23: every order in which the library's translation units can be initialised relative to a user's."""
import itertools, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor


def objects(R, cxx, opt, pic):
    fl = R.BASE + [opt] + (["-fPIC"] if pic else [])
    libs = [R._pool.submit(R.compile_obj, s, fl + R.INC, cxx) for s in R.lib_sources()]
    dep = tuple(R.engine_deps())
    user = R._pool.submit(R.compile_obj, f"{R.HERE}/mc/c23_user.cpp", fl + R.INC + [f"-I{R.HERE}/mc"], cxx, dep)
    val = R._pool.submit(R.compile_obj, f"{R.HERE}/mc/val.cpp", R.PRODUCT.flags + R.INC + [f"-I{R.HERE}/mc"], "g++", dep)
    mc = R._pool.submit(R.compile_obj, f"{R.HERE}/mc/mc.cpp", R.PRODUCT.flags + ["-DMC_NO_MAIN"] + R.INC + [f"-I{R.HERE}/mc"], "g++", dep)
    return [j.result() for j in libs], user.result(), [val.result(), mc.result()]


def make(R, cfg, out):
    """link one program; cfg = (compiler, optimisation, kind, mask, reversed)"""
    cxx, opt, kind, mask, rev = cfg
    libs, user, rest = objects(R, cxx, opt, kind == "shared")
    if kind == "objects":
        before = [o for i, o in enumerate(libs) if mask >> i & 1]
        after = [o for i, o in enumerate(libs) if not mask >> i & 1]
        if rev:
            before.reverse(), after.reverse()
        cmd = [cxx, *before, user, *after, *rest, "-o", out, "-lgmp"]
    elif kind == "static":
        a = out + ".a"
        if R.sh(["ar", "rcs", a, *(libs[::-1] if rev else libs)]).returncode:
            raise R.CheckError("ar failed")
        cmd = [cxx, user, a, *rest, a, "-o", out, "-lgmp"] if not mask else [cxx, a, *rest, user, a, "-o", out, "-lgmp"]
    else:
        so = os.path.join(os.path.dirname(out), "lib" + os.path.basename(out) + ".so")
        r = R.sh([cxx, "-shared", *(libs[::-1] if rev else libs), "-o", so])
        if r.returncode:
            raise R.CheckError("linking the shared library failed: " + r.stdout[-2000:])
        cmd = [cxx, user, *rest, so, "-o", out, f"-Wl,-rpath,{os.path.dirname(so)}", "-lgmp"] if not mask else [cxx, "-Wl,--no-as-needed", so, *rest, user, "-o", out, f"-Wl,-rpath,{os.path.dirname(so)}", "-lgmp"]
    r = R.sh(cmd)
    if r.returncode:
        raise R.CheckError("linking failed: " + r.stdout[-2000:])


def clean(out):
    for f in (out, out + ".a", os.path.join(os.path.dirname(out), "lib" + os.path.basename(out) + ".so")):
        if os.path.exists(f):
            os.unlink(f)


def run(R, cfg):
    os.makedirs(f"{R.BUILD}/init", exist_ok=True)
    out = f"{R.BUILD}/init/" + "-".join(str(c).replace("+", "p") for c in cfg) + f"-{os.getpid()}"
    try:
        make(R, cfg, out)
        try:
            p = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            return "does not terminate", None
    finally:
        clean(out)
    if p.returncode < 0:
        return f"crash: signal {-p.returncode}\n{p.stdout[-1500:]}", None
    if p.returncode:
        return p.stdout[-3000:], None
    return None, p.stdout.strip().split("\n")[-1]


def configs(R, tier):
    n = len(R.lib_sources())
    full = list(range(1 << n)) if n <= 10 else [(1 << k) - 1 for k in range(n + 1)] + [((1 << n) - 1) ^ ((1 << k) - 1) for k in range(n + 1)]
    some = [(1 << k) - 1 for k in range(n + 1)] + [1 << k for k in range(n)] + [((1 << n) - 1) ^ (1 << k) for k in range(n)]
    out = []
    for cxx in ("g++", "clang++"):
        for opt in ("-O2", "-O0"):
            masks = full if tier != "quick" or (cxx, opt) == ("g++", "-O2") else list(dict.fromkeys(some))
            for rev in (0, 1):
                if tier == "quick" and rev and (cxx, opt) != ("g++", "-O2"):
                    continue
                out += [(cxx, opt, "objects", m, rev) for m in masks]
            out += [(cxx, opt, k, m, r) for k in ("static", "shared") for m in (0, 1) for r in (0, 1)]
    return out


def explore(R, res, tier):
    t0 = time.time()
    cs = configs(R, tier)
    n = len(R.lib_sources())
    for cxx, opt in dict.fromkeys((c[0], c[1]) for c in cs):   # compile first
        objects(R, cxx, opt, False), objects(R, cxx, opt, True)
    ref = {}
    bad, done, stop, prints = [], 0, [], set()

    def go(c):
        if stop:
            return None
        msg, fp = run(R, c)
        if msg:
            stop.append(1)
            bad.append((c, msg))
        return fp
    with ThreadPoolExecutor(R.JOBS) as ex:
        fps = list(ex.map(go, cs))
    done = sum(1 for f in fps if f)
    nres = int(fps[0].split()[1]) if fps and fps[0] else 0
    if not bad and len(set(fps)) > 1:
        # the values computed in main differ: the odd one out against the order in which everything is ready before the user
        want = {c: f for c, f in zip(cs, fps)}[("g++", "-O2", "objects", (1 << n) - 1, 0)]
        c, f = next((c, f) for c, f in zip(cs, fps) if f != want)
        bad.append((c, f"the program computes other results ({f}) than when the library is initialised first ({want})"))
    d = {"cases": done, "states": done, "transitions": done * nres * 2, "outcomes": len(set(f for f in fps if f)), "wall_s": round(time.time() - t0, 2),
         "spaces": [{"name": f"{cxx} {opt} {kind}", "cases": sum(1 for c in cs if c[:3] == (cxx, opt, kind)), "sample": "link orders: which library units are initialised before the user's, in order and reversed"} for cxx, opt, kind in dict.fromkeys(c[:3] for c in cs)]}
    if bad:
        c, msg = bad[0]
        again, fp = run(R, c)
        if again is None and not msg.startswith("the program computes"):
            raise R.CheckError(f"not reproduced: {c}: {msg}")
        os.makedirs(f"{R.BUILD}/replay", exist_ok=True)
        p = f"{R.BUILD}/replay/{res.prop}.replay"
        with open(p, "w") as f:
            f.write(f"property={res.prop}\nrunner=inits\ncfg={' '.join(map(str, c))}\n")
            f.writelines(f"# {l}\n" for l in msg.splitlines())
        print(f"case: {c}\n{msg}")
        d["violation"] = {"space": "link orders", "case": str(c), "msg": msg, "replay": p}
    res.add("initialisation orders", d)


def replay(R, prop, path, kv):
    c = kv["cfg"].split()
    cfg = (c[0], c[1], c[2], int(c[3]), int(c[4]))
    msg, fp = run(R, cfg)
    if msg is None:
        n = len(R.lib_sources())
        _, want = run(R, ("g++", "-O2", "objects", (1 << n) - 1, 0))
        if want == fp:
            print("held")
            return 0
        msg = f"{fp} and not {want}"
    print(f"VIOLATION property={prop} replay={path}\n{msg}")
    return 1
