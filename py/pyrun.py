"""Builds the Python binding from /repo's working tree and explores it in crash-contained processes."""
import json, os, shutil, struct, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/vp/venv/bin/python"


def python():
    return PY if os.path.exists(PY) else "python3"


# the allocator without its caches: what it counts as used is used
VARIANTS = {"product": (("-O2",), (), {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"})}


def asan_variant(R):
    lib = lambda n: subprocess.run(["g++", f"-print-file-name={n}"], stdout=subprocess.PIPE, text=True).stdout.strip()
    f = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer")
    env = {"LD_PRELOAD": lib("libasan.so") + ":" + lib("libubsan.so") + ":" + lib("libstdc++.so"), "PYTHONMALLOC": "malloc", "MC_PY_ASAN": "1",
           "ASAN_OPTIONS": "detect_leaks=0:exitcode=88:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=173:quarantine_size_mb=16:color=never", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=88:print_stacktrace=1:color=never"}
    VARIANTS["asan"] = (f, ("-fsanitize=address,undefined",), env)


def build_variant(R, name):
    if name == "asan":
        asan_variant(R)
    fl, lf, _ = VARIANTS[name]
    return build(R, name, fl, lflags=lf)


def build(R, name="product", flags=("-O2",), cxx="g++", lflags=()):
    r = R.sh([python(), "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include())"])
    if r.returncode:
        raise R.CheckError("no pybind11: " + r.stdout)
    inc = [f"-I{p}" for p in r.stdout.split()]
    # version.h is generated by cmake; without a configured tree, a stand-in is found after the repository's own
    fake = f"{R.BUILD}/fake/include/public/bigintegercpp"
    os.makedirs(fake, exist_ok=True)
    os.makedirs(f"{R.BUILD}/fake/a/b", exist_ok=True)
    with open(f"{fake}/version.h", "w") as f:
        f.write('#pragma once\n#define BIGINTEGERCPP_VERSION "0"\n')
    fl = R.BASE + [*flags, "-fPIC", "-fvisibility=hidden"]
    jobs = [R._pool.submit(R.compile_obj, s, fl + R.INC, cxx) for s in R.lib_sources()]
    bsrc = sorted(f"{R.REPO}/{R.BINDING}/{f}" for f in os.listdir(f"{R.REPO}/{R.BINDING}") if f.endswith((".cpp", ".cc")))
    jobs += [R._pool.submit(R.compile_obj, s, fl + R.INC + inc + [f"-I{R.BUILD}/fake/a/b"], cxx) for s in bsrc]
    return R.link([j.result() for j in jobs], f"pybiginteger-{name}", ["-shared", *lflags], cxx)


def run_range(R, so, prop, level, k, a, b, variant="product"):
    fd, st = tempfile.mkstemp(prefix="pyst")
    os.close(fd)
    try:
        p = subprocess.run([python(), "-I", f"{R.HERE}/py/pycheck.py", "worker", so, prop, str(level), str(k), str(a), str(b), st], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, **VARIANTS[variant][2]))
        with open(st, "rb") as f:
            d = f.read(8)
        at = struct.unpack("q", d)[0] if len(d) == 8 else a
    finally:
        os.unlink(st)
    if p.returncode == 0 and p.stdout.startswith("OK"):
        return None, int(p.stdout.split()[1]), None
    if p.returncode == 77:
        return at, 0, p.stdout.strip()[4:]
    if p.returncode in (-9, -15, -2):
        return at, 0, None          # ended from outside
    if p.returncode == -14:
        return at, 0, "does not terminate"
    if p.returncode < 0:
        return at, 0, f"crash: signal {-p.returncode}\n{p.stderr[-1500:]}"
    if p.returncode == 88:
        return at, 0, "sanitizer report\n" + p.stderr[:2500]
    raise R.CheckError(f"the worker ended with {p.returncode}: {p.stdout[-500:]}{p.stderr[-2000:]}")


def sh_env(R, variant, cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, **VARIANTS[variant][2]))


def explore(R, res, level, so, name="binding", variant="product"):
    t0 = time.time()
    r = sh_env(R, variant, [python(), "-I", f"{R.HERE}/py/pycheck.py", "list", so, res.prop, str(level)])
    if r.returncode:   # the module cannot even be imported
        spaces, err = [], r.stdout + r.stderr
        if r.returncode < 0 or r.returncode == 88:
            return violation(R, res, so, level, -1, 0, 0, "importing the module crashes\n" + err[:2000], "import", variant=variant)
        raise R.CheckError("listing the spaces failed: " + err[-2000:])
    spaces = json.loads(r.stdout)
    tasks = []
    for k, (nm, n, _) in enumerate(spaces):
        m = min(n, max(8, n // 4000 if n < 10**6 else 64))
        tasks += [(k, n * j // m, n * (j + 1) // m) for j in range(m)]
    ops, bad, stop = 0, [], []

    def go(t):
        if stop:
            return
        k, a, b = t
        for attempt in range(3):
            at, o, msg = run_range(R, so, res.prop, level, k, a, b, variant)
            if at is None or msg is not None:
                break
        else:
            raise R.CheckError("a worker was killed repeatedly")
        if at is not None:
            stop.append(1)
            bad.append((k, a, at, msg))
        return o
    with ThreadPoolExecutor(R.JOBS) as ex:
        for o in ex.map(go, tasks):
            ops += o or 0
    cases = sum(s[1] for s in spaces)
    d = {"cases": cases, "states": cases, "transitions": ops, "wall_s": round(time.time() - t0, 2), "spaces": [{"name": s[0], "cases": s[1], "sample": s[2]} for s in spaces]}
    if bad:
        k, a, at, msg = min(bad)
        # alone, or with what came before it
        frm = at
        again = run_range(R, so, res.prop, level, k, at, at + 1, variant)
        if again[0] is None:
            frm = a
            again = run_range(R, so, res.prop, level, k, a, at + 1, variant)
        if again[0] is None or again[2] is None:
            raise R.CheckError(f"not reproduced: {spaces[k][0]} case {at}: {msg}")
        return violation(R, res, so, level, k, frm, at + 1, again[2], spaces[k][0], d, name, variant)
    res.add(f"{name}, level {level}", d)
    return True


def violation(R, res, so, level, k, frm, to, msg, space, d=None, name="binding", variant="product"):
    os.makedirs(f"{R.BUILD}/replay", exist_ok=True)
    p = f"{R.BUILD}/replay/{res.prop}.replay"
    desc = ""
    if k >= 0:
        r = sh_env(R, variant, [python(), "-I", f"{R.HERE}/py/pycheck.py", "describe", so, res.prop, str(level), str(k), str(to - 1)])
        desc = r.stdout.strip()
    with open(p, "w") as f:
        f.write(f"property={res.prop}\nrunner=python\nvariant={variant}\nlevel={level}\nspace={k}\nfrom={frm}\nto={to}\n# {space}: {desc}\n")
        f.writelines(f"# {l}\n" for l in msg.splitlines())
    print(f"case: {space}: {desc}\n{msg}")
    v = {"space": space, "case": desc, "msg": msg, "replay": p}
    res.add(f"{name}, level {level}", dict(d or {"cases": 0, "states": 0, "transitions": 0, "spaces": []}, violation=v))
    return False


def replay(R, prop, path, kv):
    v = kv.get("variant", "product")
    so = build_variant(R, v)
    if int(kv["space"]) < 0:
        r = sh_env(R, v, [python(), "-I", f"{R.HERE}/py/pycheck.py", "list", so, prop, kv["level"]])
        at, msg = (None, None) if r.returncode == 0 else (0, r.stderr[-2000:])
    else:
        at, o, msg = run_range(R, so, prop, int(kv["level"]), int(kv["space"]), int(kv["from"]), int(kv["to"]), v)
    if at is None:
        print("held")
        return 0
    print(f"VIOLATION property={prop} replay={path}\n{msg}")
    return 1
