"""Checks that need more than one run of the explorer over one build."""
import os, sys
import inits, pyrun

ALL = [f"C{i:02d}" for i in range(1, 18)]
SMALLS = ["C02small", "C04small", "C05small"]


def register(R):
    V = R.V
    UB = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    san = ["-fsanitize=address,undefined"]
    # 1. everything instrumented, assertions on, container bounds checked, stack variables start as garbage
    asan = V("asan-assert", R.BASE + ["-O1", *UB, "-fsanitize=float-cast-overflow", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern"], lflags=san)
    # 2. the other compiler, assertions off
    asan2 = V("asan-clang-ndebug", R.BASE + ["-O1", *UB, "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"], cxx="clang++", hflags=R.PRODUCT.flags, hcxx="g++", lflags=san)
    # 3. thresholds scaled down
    asan3 = V("asan-scaled", R.BASE + ["-O1", *UB, "-D_GLIBCXX_ASSERTIONS", "-DBIGINTEGERCPP_MC_THRESHOLD=4"], hflags=R.PRODUCT.flags, lflags=san)
    # 4. uninitialised reads: the product under memcheck, every case stops at the first error
    VG = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=88", "--leak-check=no", "--child-silent-after-fork=no"]
    VG_ENV = {"MC_LITE": "1", "MC_SANITIZED": "1", "MC_REEXEC": "1"}
    # 5. leaks
    leak = V("leaks", R.PRODUCT.flags, extra=["live"], lflags=["-Wl,-z,now"])
    for v in (asan, asan2, asan3, leak):
        R.VARIANTS[v.name] = v
    SAN_ENV = {"MC_SANITIZED": "1",
               "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=173:quarantine_size_mb=16:color=never",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:color=never"}

    def c18(res, tier):
        lv = 0 if tier == "quick" else 1
        for v, mods, env in ((asan, ALL, SAN_ENV), (asan2, ALL, SAN_ENV), (asan3, SMALLS, SAN_ENV), (leak, ALL, {"MC_LEAKS": "1"})):
            if not R.explore(res, v, mods, lv, env=env, args=["--hang-scale", "4"]):
                return
        if not pyrun.explore(R, res, 0 if tier == "quick" else 1, pyrun.build_variant(R, "product"), name="Python binding: leaks"):
            return
        if not pyrun.explore(R, res, 0 if tier == "quick" else 1, pyrun.build_variant(R, "asan"), name="Python binding under ASAN", variant="asan"):
            return
        R.explore(res, R.PRODUCT, ["C05", "C06", "C10", "C11", "C17"] if tier == "quick" else ALL, 0, env=VG_ENV, args=["--hang-scale", "20"], name="memcheck", wrap=VG)

    R.CHECKS["C16"] = R.modules_check("C16")
    R.CHECKS["C17"] = R.modules_check("C17")
    R.CHECKS["C18"] = c18

    live_small = V("scaled-live", R.SMALL.flags, small=True, hflags=R.SMALL.hflags, extra=["live"], lflags=["-Wl,-z,now"])
    R.VARIANTS[live_small.name] = live_small

    def c19(res, tier):
        lv = 2
        if R.explore(res, leak, ["C19"], lv):
            R.explore(res, live_small, ["C19small"], lv, name="scaled thresholds")
    R.CHECKS["C19"] = c19
    R.LEVEL["C19"] = "fault_enumeration"

    WRAPS = ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock "
             "pthread_rwlock_unlock sched_yield pthread_once memcpy memmove memset memcmp bcmp memchr strlen strcpy strncpy strcat strcmp vsnprintf snprintf sprintf strtok rand setlocale feholdexcept").split()
    TS = R.BASE + ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin"]
    threads = V("threads", TS, cxx="clang++", extra=["sched"], lflags=["-rdynamic", "-ldl"] + [f"-Wl,--wrap={w}" for w in WRAPS])
    threads.xflags = R.BASE + ["-O2", "-U_FORTIFY_SOURCE"]
    R.VARIANTS[threads.name] = threads

    def c20(res, tier):
        R.explore(res, threads, ["C20"], 1 if tier == "quick" else 2)
    R.CHECKS["C20"] = c20

    def python_check(res, tier):
        pyrun.explore(R, res, 2 if tier == "quick" else 3, pyrun.build(R))
    R.CHECKS["C21"] = R.CHECKS["C22"] = python_check

    R.CHECKS["C23"] = lambda res, tier: inits.explore(R, res, tier)

    cfgs = []
    for cxx in ("g++", "clang++"):
        for nm, fl in (("O0", ["-O0"]), ("O0-ndebug", ["-O0", "-DNDEBUG"]), ("O2-ndebug", ["-O2", "-DNDEBUG"]), ("O3-ndebug", ["-O3", "-DNDEBUG"]), ("O3", ["-O3"]), ("O1", ["-O1"]), ("Os-ndebug", ["-Os", "-DNDEBUG"]), ("O2", ["-O2"])):
            v = V(f"{cxx.replace('+', 'p')}-{nm}", R.BASE + fl, cxx=cxx, hflags=R.PRODUCT.flags, hcxx="g++")
            R.VARIANTS[v.name] = v
            cfgs.append(v)

    scaled_nd = V("scaled-clangpp-ndebug", R.SMALL.flags + ["-DNDEBUG"], cxx="clang++", small=True, hflags=R.SMALL.hflags, hcxx="g++")
    R.VARIANTS[scaled_nd.name] = scaled_nd

    def c24(res, tier):
        for v in cfgs:
            if tier == "quick" and v.name in ("gpp-O1", "clangpp-O1", "gpp-O0-ndebug", "clangpp-O3", "gpp-Os-ndebug", "gpp-O2"):
                continue
            if not R.explore(res, v, ALL, 0 if tier == "quick" else 1):
                return
        nohuge = {"MC_NOHUGE": "1"}
        if tier == "quick":   # one optimising configuration without assertions is explored further
            R.explore(res, R.VARIANTS["gpp-O3-ndebug"], ALL, 1, env=nohuge) and R.explore(res, scaled_nd, ["C02small", "C04small", "C05small"], 1, name="scaled thresholds, clang++ -O2 -DNDEBUG")
        else:
            R.explore(res, scaled_nd, ["C02small", "C04small", "C05small"], 2, name="scaled thresholds, clang++ -O2 -DNDEBUG")
    R.CHECKS["C24"] = c24


def replay(R, prop, path, kv):
    if kv["runner"] == "python":
        return pyrun.replay(R, prop, path, kv)
    if kv["runner"] == "inits":
        return inits.replay(R, prop, path, kv)
    raise R.CheckError("unknown runner " + kv["runner"])
