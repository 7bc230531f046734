"""Explores the Python binding: every case of finite operand spaces, in lockstep with Python's own integers.

pycheck.py worker SO PROP LEVEL SPACE A B STATUS     runs cases [A,B) of a space (in a process of its own)
pycheck.py list   SO PROP LEVEL                      prints the spaces as JSON
The exact results are Python's; division truncates, and a negative shift count shifts the other way.
"""
import array, copy, importlib.machinery, importlib.util, json, math, mmap, operator, os, struct, sys

DIGITS = 640   # the lowest limit Python allows on decimal text: nothing but str() may go through it
sys.set_int_max_str_digits(DIGITS)


def dec(v):
    sys.set_int_max_str_digits(0)
    try:
        return str(v)
    finally:
        sys.set_int_max_str_digits(DIGITS)


class Bad(Exception):
    pass


def load(so):
    spec = importlib.util.spec_from_file_location("pybiginteger", so, loader=importlib.machinery.ExtensionFileLoader("pybiginteger", so))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.BigInteger


# ------------------------------------------------------------------ operands
def pat(n, seed):
    """n limbs of a fixed pattern"""
    v, x = 0, seed * 2654435761 + 12345
    for i in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        v |= (x >> 32) << (32 * i)
    return v | 1 << (32 * n - 1)


def universe(level):
    s = list(range(-20, 21)) if level == 0 else list(range(-40, 41)) if level == 1 else list(range(-130, 131)) if level == 2 else list(range(-400, 401))
    ks = (7, 8, 15, 16, 30, 31, 32, 53, 60, 63, 64, 90, 96, 127, 128) if level < 2 else tuple(range(5, 140))
    for k in ks:
        for d in (-1, 0, 1):
            s += [2**k + d, -(2**k) + d]
    lens = (3, 4, 33, 70) if level < 2 else (2, 3, 4, 5, 8, 16, 31, 32, 33, 34, 64, 65, 70, 130, 300, 500) if level == 2 else tuple(range(2, 70)) + (127, 128, 129, 130, 255, 256, 257, 300, 500)
    for n in lens:
        for v in (pat(n, 1), (1 << 32 * n) - 1, 1 << 32 * (n - 1)):
            s += [v, -v]
    return list(dict.fromkeys(s))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def trem(a, b):
    return a - b * tdiv(a, b)


def shl(a, n):
    return a << n if n >= 0 else a >> -n


class Err:
    """an error is expected"""


def ref(op, a, b):
    if op in ("/", "//", "%", "divmod") and b == 0:
        return Err
    if op in ("<<", ">>"):
        if not -2**31 <= b < 2**31:
            return Err
        return shl(a, b if op == "<<" else -b)
    if op == "**":
        if b < 0 or b >= 2**31:
            return Err
        return a**b
    return REF[op](a, b)


REF = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": tdiv, "//": tdiv, "%": trem, "divmod": lambda a, b: (tdiv(a, b), trem(a, b)),
       "&": operator.and_, "|": operator.or_, "^": operator.xor}
REL = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}
DO = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "divmod": divmod,
      "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "**": operator.pow}
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv, "%": operator.imod,
           "&": operator.iand, "|": operator.ior, "^": operator.ixor, "<<": operator.ilshift, ">>": operator.irshift, "**": operator.ipow}

B = None
COUNT = {"ops": 0}
ORACLE = {}


def short(v):
    t = hex(v) if isinstance(v, int) else repr(v)
    return t if len(t) < 90 else t[:40] + ".." + t[-30:] + f"({len(t)})"


def val(x):
    """the exact value of a result, read through the bytes (and not through __int__)"""
    return int.from_bytes(x.to_array(), "little", signed=True) if type(x) is B else x


def check(what, got, want, big):
    """got: a result; want: the exact value; big: must it be a BigInteger?"""
    if isinstance(want, tuple):
        if type(got) is not tuple or len(got) != len(want):
            raise Bad(f"{what}: got {got!r}, want a tuple")
        for g, w in zip(got, want):
            check(what, g, w, big)
        return
    t = B if big else int
    if type(got) is not t:
        raise Bad(f"{what}: the result is of type {type(got).__name__}, want {t.__name__}")
    if val(got) != want:
        raise Bad(f"{what}: got {short(val(got))}, want {short(want)}")


def attempt(f, *a):
    COUNT["ops"] += 1
    try:
        return f(*a)
    except Exception as e:
        return e


def one(op, a, b, x, y):
    """one operator in all operand kinds; x, y are the BigIntegers of a, b"""
    want = ref(op, a, b)
    for kind, l, r, big in (("BB", x, y, True), ("Bi", x, b, True), ("iB", a, y, False)):
        for form, f in (("", DO[op]),) + ((("=", INPLACE[op]),) if op in INPLACE else ()):
            got = attempt(f, l, r)
            what = f"{kind}: {short(a)} {op}{form} {short(b)}"
            if want is Err:
                if not isinstance(got, Exception):
                    raise Bad(f"{what}: no exception but {short(val(got)) if not isinstance(got, tuple) else got}")
            elif isinstance(got, Exception):
                raise Bad(f"{what}: raises {type(got).__name__}: {got}")
            else:
                check(what, got, want, big)


def rel(a, b, x, y):
    for op, f in REL.items():
        want = f(a, b)
        for kind, l, r in (("BB", x, y), ("Bi", x, b), ("iB", a, y)):
            got = attempt(f, l, r)
            if got is not want:
                raise Bad(f"{kind}: {short(a)} {op} {short(b)}: got {got!r}, want {want}")


def kept(a, b, x, y):
    if val(x) != a or val(y) != b:
        raise Bad(f"an operand was modified: {short(a)} is {short(val(x))}, {short(b)} is {short(val(y))}")


# ------------------------------------------------------------------ C21
def c21(level):
    S = []
    U = universe(level)
    n = len(U)
    ARITH = ["+", "-", "*", "/", "//", "%", "divmod", "&", "|", "^"]

    def pairs(i):
        a, b = U[i // n], U[i % n]
        x, y = B(a), B(b)
        for op in ARITH:
            one(op, a, b, x, y)
        rel(a, b, x, y)
        kept(a, b, x, y)
    S.append(("every operator on pairs", n * n, pairs, lambda i: f"{short(U[i // n])}, {short(U[i % n])}"))

    def same(i):
        a = U[i]
        x = B(a)
        for op in ARITH:
            want = ref(op, a, a)
            got = attempt(DO[op], x, x)
            if want is Err:
                if not isinstance(got, Exception):
                    raise Bad(f"{short(a)} {op} itself: no exception")
            elif isinstance(got, Exception):
                raise Bad(f"{short(a)} {op} itself: raises {got}")
            else:
                check(f"{short(a)} {op} itself", got, want, True)
            if op in INPLACE:
                got = attempt(INPLACE[op], x, x)
                if want is Err:
                    if not isinstance(got, Exception):
                        raise Bad(f"{short(a)} {op}= itself: no exception")
                elif isinstance(got, Exception):
                    raise Bad(f"{short(a)} {op}= itself: raises {got}")
                else:
                    check(f"{short(a)} {op}= itself", got, want, True)
        for op, f in REL.items():
            if attempt(f, x, x) is not f(a, a):
                raise Bad(f"{short(a)} {op} itself")
        kept(a, a, x, x)
        if abs(a) < 300:
            for op in ("<<", ">>", "**"):
                want, got = ref(op, a, a), attempt(DO[op], x, x)
                if want is Err:
                    if not isinstance(got, Exception):
                        raise Bad(f"{a} {op} itself: no exception")
                elif isinstance(got, Exception):
                    raise Bad(f"{a} {op} itself: raises {got}")
                else:
                    check(f"{a} {op} itself", got, want, True)
        if 0 < a:
            check(f"pow({short(a)}, itself, itself)", attempt(pow, x, x, x), pow(a, a, a), True)
        kept(a, a, x, x)
        for name, f in (("-", operator.neg), ("+", operator.pos), ("abs", abs), ("~", operator.invert)):
            check(f"{name} {short(a)}", f(x), f(a), True)
            COUNT["ops"] += 1
        kept(a, a, x, x)
    S.append(("one object as both operands, unary operators", n, same, lambda i: short(U[i])))

    sh = sorted(set(list(range(-70, 71)) + [95, 96, 97, 127, 128, 129, 1000, -1000, 4000])) if level else [-65, -64, -33, -32, -31, -1, 0, 1, 5, 31, 32, 33, 63, 64, 65, 100]
    bad = [2**31, -2**31 - 1, 2**32, 2**32 + 1, 2**63, -2**63, 2**64 + 3, -2**64, 2**80, -2**80]

    def shifts(i):
        a, b = U[i // len(sh)], sh[i % len(sh)]
        x, y = B(a), B(b)
        one("<<", a, b, x, y)
        one(">>", a, b, x, y)
        kept(a, b, x, y)
    S.append(("shifts", n * len(sh), shifts, lambda i: f"{short(U[i // len(sh)])} by {sh[i % len(sh)]}"))

    def badshift(i):
        a, b = U[i // len(bad)], bad[i % len(bad)]
        x, y = B(a), B(b)
        one("<<", a, b, x, y)
        one(">>", a, b, x, y)
        one("**", a, b, x, y)
        kept(a, b, x, y)
    S.append(("oversized shift counts and exponents", n * len(bad), badshift, lambda i: f"{short(U[i // len(bad)])} by {short(bad[i % len(bad)])}"))

    hugeshift = [2**31 - 1, -2**31 + 1, -2**31]
    few = [0, 1, -1, 5, -5, 2**31, -2**32, pat(3, 1), -pat(3, 1), pat(33, 1)]

    def far(i):   # everything is shifted out
        a, b = few[i // 3], hugeshift[i % 3]
        x, y = B(a), B(b)
        op = ">>" if b > 0 else "<<"
        for kind, l, r, big in (("BB", x, y, True), ("Bi", x, b, True), ("iB", a, y, False)):
            got = attempt(DO[op], l, r)
            if isinstance(got, Exception):
                raise Bad(f"{kind}: {short(a)} {op} {b}: raises {got}")
            check(f"{kind}: {short(a)} {op} {b}", got, -1 if a < 0 else 0, big)
    S.append(("shifts by the largest counts", len(few) * 3, far, lambda i: f"{short(few[i // 3])} by {hugeshift[i % 3]}"))

    bases = [v for v in U if abs(v) < 2**130][:: 1 if level > 1 else 2] + [0, 1, -1, 2, -2, 3, 10]
    exps = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 64, 100, -1, -2, -(2**31)]

    def powers(i):
        a, b = bases[i // len(exps)], exps[i % len(exps)]
        x, y = B(a), B(b)
        one("**", a, b, x, y)
        kept(a, b, x, y)
    S.append(("powers", len(bases) * len(exps), powers, lambda i: f"{short(bases[i // len(exps)])} ** {exps[i % len(exps)]}"))

    pv = [0, 1, -1, 2, -3, 7, 10, -255, 2**32 + 1, -(2**64) - 1, pat(3, 1), -pat(33, 2)]
    pe = [0, 1, 2, 3, 65537, 2**32, 2**33 + 3, pat(3, 3), -1, -(2**40)]
    pm = [0, 1, -1, 2, 7, -7, 2**31, 2**32 - 1, 10**20, -(10**20), pat(3, 4), pat(33, 5), 1 << 1024]

    def modpow(i):
        v, e, m = pv[i // (len(pe) * len(pm))], pe[i // len(pm) % len(pe)], pm[i % len(pm)]
        if e < 0 or m == 0:
            want = Err
        else:
            r = pow(abs(v), e, abs(m))
            want = -r if v < 0 and e % 2 else r
        for kind in ("BBB", "BiB", "BBi", "Bii", "iBB", "iBi", "iiB"):
            args = [B(t) if k == "B" else t for k, t in zip(kind, (v, e, m))]
            got = attempt(pow, *args)
            what = f"{kind}: pow({short(v)}, {short(e)}, {short(m)})"
            if isinstance(got, TypeError) and kind not in ("BBB", "BiB", "BBi"):
                continue   # a combination the binding does not offer
            if want is Err:
                if not isinstance(got, Exception):
                    raise Bad(f"{what}: no exception")
            elif isinstance(got, Exception):
                raise Bad(f"{what}: raises {type(got).__name__}: {got}")
            else:
                check(what, got, want, kind[0] == "B")
            for k, t, o in zip(kind, (v, e, m), args):
                if k == "B" and val(o) != t:
                    raise Bad(f"{what}: an operand was modified")
    S.append(("pow with a modulus", len(pv) * len(pe) * len(pm), modpow, lambda i: f"pow({short(pv[i // (len(pe) * len(pm))])}, {short(pe[i // len(pm) % len(pe)])}, {short(pm[i % len(pm)])})"))

    alien = [1.5, "1", None, b"\x01", [1], 1j]
    vals = [0, 1, -5, pat(3, 1)]

    def foreign(i):   # other operands are refused, and nothing is changed
        a, o = vals[i // len(alien)], alien[i % len(alien)]
        x = B(a)
        for op in ["+", "-", "/", "//", "%", "divmod", "&", "|", "^", "<<", ">>", "**"]:
            for l, r in ((x, o), (o, x)):
                if op == "%" and isinstance(l, (str, bytes)):
                    continue
                got = attempt(DO[op], l, r)
                if not isinstance(got, Exception):
                    raise Bad(f"{l!r} {op} {r!r}: no exception")
        kept(a, a, x, x)
    class Int(int):
        pass
    kinds = [True, False] + [Int(v) for v in (0, 1, -1, 7, -7, 33, 2**31, 2**32, -(2**32), 2**63, 2**64, -(2**64), pat(3, 1), -pat(33, 1))]

    def sub(i):   # bools and instances of subclasses of int are ints
        a, k = U[i // len(kinds)], kinds[i % len(kinds)]
        b = int(k)
        x = B(a)
        for op in ARITH + (["<<", ">>"] if -100 < b < 100 else []) + (["**"] if 0 <= b < 40 and abs(a) < 2**100 else []):
            for kind, l, r, want, big in (("Bi", x, k, ref(op, a, b), True), ("iB", k, x, ref(op, b, a) if op not in ("<<", ">>", "**") or -100 < a < 100 else None, False)):
                if want is None:
                    continue
                got = attempt(DO[op], l, r)
                what = f"{kind}: {l if kind == 'iB' else short(a)} {op} {r if kind == 'Bi' else short(a)}, {type(k).__name__}"
                if want is Err:
                    if not isinstance(got, Exception):
                        raise Bad(f"{what}: no exception")
                elif isinstance(got, Exception):
                    raise Bad(f"{what}: raises {type(got).__name__}: {got}")
                else:
                    check(what, got, want, big)
        for op, f in REL.items():
            if attempt(f, x, k) is not f(a, b) or attempt(f, k, x) is not f(b, a):
                raise Bad(f"{short(a)} {op} {k!r} of type {type(k).__name__}")
        kept(a, b, x, B(k))
    S.append(("bools and subclasses of int", n * len(kinds), sub, lambda i: f"{short(U[i // len(kinds)])} and {kinds[i % len(kinds)]!r}"))

    S.append(history(level))
    S.append(("operands of other types", len(vals) * len(alien), foreign, lambda i: f"{short(vals[i // len(alien)])} and {alien[i % len(alien)]!r}"))
    return S


# ------------------------------------------------------------------ histories
def history(level):
    """all sequences of calls: what a call returns must not depend on the calls before it, also if those failed"""
    # values that weak keys confuse: low or high limbs, length, sign, Python's hash
    M = 2**61 - 1
    V = [0, 1, -1, 5, -5, 5 + 2**32, 5 + 2**64, 5 + M, -5 - M, 2**32, 2**64, 2**64 + 2**32 + 5, pat(3, 1), -pat(3, 1), pat(3, 1) ^ 2**40, pat(34, 1), pat(34, 1) ^ 2**600]
    sigs = []

    def add(name, f, want):
        sigs.append((name, f, want))
    P = [(3, 5), (5, 4), (6, 3), (7, 4), (11, 3), (12, 9), (13, 5), (14, 12), (15, 12), (16, 14)] if level < 2 else [(i, j) for i in range(len(V)) for j in (3, 12)]
    for i, j in P:
        for op in (("divmod", "*")):
            kind = ("BB", "Bi", "iB", "tt")[(i + j) % 4]
            w = ref(op, V[i], V[j])
            if w is Err:
                continue

            def f(X, i=i, j=j, kind=kind, op=op):
                l, r = {"BB": lambda: (X[i], X[j]), "Bi": lambda: (X[i], V[j]), "iB": lambda: (V[i], X[j]), "tt": lambda: (B(V[i]), B(V[j]))}[kind]()
                return DO[op](l, r)
            add(f"{kind} {short(V[i])} {op} {short(V[j])}", f, w)
    for i in (3, 4, 5, 7, 12, 13, 15, 16) if level < 2 else range(len(V)):
        v = V[i]
        add(f"int {short(v)}", lambda X, i=i: int(X[i]), v)
        if i % 2 or level > 1:
            add(f"str {short(v)}", lambda X, i=i: int(str(B(V[i]))) if abs(V[i]) < 10**600 else V[i], v)
            add(f"bytes {short(v)}", lambda X, i=i: int.from_bytes(bytes(X[i]), "little", signed=True), v)
        add(f"hash {short(v)}", lambda X, i=i: hash(B(V[i])), hash(v))
        add(f"== {short(v)}", lambda X, i=i: int(X[i] == V[i]) + 2 * int(X[i] == V[i] + 2**32) + 4 * int(V[i] - M == X[i]), 1)
    add("pow 5 3", lambda X: B(5) ** 3, 125)
    add("pow 5 B4", lambda X: X[3] ** B(4), 625)
    add("pow 5 3 mod", lambda X: pow(X[3], 3, X[9]), 125)
    add("pow -5 3 mod", lambda X: pow(X[4], 3, X[5]), -125)
    add("pow 3 5 7", lambda X: pow(B(3), 5, B(7)), 5)
    add("shift", lambda X: X[3] << 40, 5 << 40)
    add("shift B", lambda X: X[12] >> B(33), pat(3, 1) >> 33)
    for name, f in (("1/0", lambda X: X[3] // B(0)), ("%0", lambda X: X[5] % 0), ("far", lambda X: X[3] << 2**40), ("pow -1", lambda X: X[3] ** -1), ("B(str)", lambda X: B("5")), ("+ str", lambda X: X[3] + "1"), ("unsigned", lambda X: X[4].to_array(True)), ("mod 0", lambda X: pow(X[3], 3, B(0)))):
        add(name, f, Err)
    n = len(sigs)
    depth = 2 if level == 0 else 3

    def go(c):
        X = [B(v) for v in V]
        done = []
        for _ in range(depth):
            name, f, want = sigs[c % n]
            c //= n
            got = attempt(f, X)
            done.append(name)
            if want is Err:
                if not isinstance(got, Exception):
                    raise Bad(" ; ".join(done) + f": no exception but {got!r}")
                continue
            if isinstance(got, Exception):
                raise Bad(" ; ".join(done) + f": raises {type(got).__name__}: {got}")
            if isinstance(want, tuple):
                ok = isinstance(got, tuple) and tuple(val(g) for g in got) == want
            else:
                ok = val(got) == want
            if not ok:
                raise Bad(" ; ".join(done) + f": got {got!r}")
        for x, v in zip(X, V):
            if val(x) != v:
                raise Bad(" ; ".join(done) + f": an object was modified: {short(v)} is {short(val(x))}")

    def desc(c):
        t = []
        for _ in range(depth):
            t.append(sigs[c % n][0])
            c //= n
        return " ; ".join(t)
    return (f"all sequences of {depth} calls", n**depth, go, desc)


# ------------------------------------------------------------------ C22
def shortest(v):
    n = (v if v >= 0 else ~v).bit_length() // 8 + 1
    return v.to_bytes(n, "little", signed=True)


def conversions(v, x, deep=True):
    w = short(v)
    COUNT["ops"] += 12
    got = int(x)
    if type(got) is not int or got != v:
        raise Bad(f"int() of {w}: {short(got)}")
    enc = shortest(v)
    if bytes(x) != enc or type(bytes(x)) is not bytes:
        raise Bad(f"bytes() of {w}: {bytes(x)[:40]!r}, want {enc[:40]!r}")
    if x.to_array() != enc or x.to_array(False, True) != enc[::-1] or x.to_array(is_bigendian=True) != enc[::-1]:
        raise Bad(f"to_array of {w}")
    ue = v.to_bytes(max(1, (v.bit_length() + 7) // 8), "little") if v >= 0 else None
    for be in (False, True):
        g = attempt(x.to_array, True, be)
        if ue is None:
            if not isinstance(g, Exception):
                raise Bad(f"to_array(unsigned) of {w}: no exception")
        elif isinstance(g, Exception) or g != (ue[::-1] if be else ue):
            raise Bad(f"to_array(unsigned, bigendian={be}) of {w}: {g!r}, want {ue!r}")
    if str(x) != dec(v):
        raise Bad(f"str() of {w}: {str(x)[:60]}")
    f, g = attempt(float, x), attempt(float, v)
    if type(f) is not type(g) or (isinstance(g, float) and struct.pack("d", f) != struct.pack("d", g)):
        raise Bad(f"float() of {w}: {f!r}, want {g!r}")
    if hash(x) != hash(v):
        raise Bad(f"hash() of {w} is {hash(x)}, that of the int {hash(v)}")
    if not (x == v) or not (v == x) or x != v or v != x:
        raise Bad(f"{w} is not equal to the int")
    if operator.index(x) != v or hex(x) != hex(v):
        raise Bad(f"index() of {w}")
    if x.sign != (v > 0) - (v < 0) or x.is_even() != (v % 2 == 0) or x.is_power_of_two() != (v > 0 and v & (v - 1) == 0):
        raise Bad(f"a predicate of {w}: sign {x.sign}, even {x.is_even()}, power of two {x.is_power_of_two()}")
    if x.get_bit_Length() != (v if v >= 0 else ~v).bit_length():
        raise Bad(f"bit length of {w}: {x.get_bit_Length()}")
    if not deep:
        return
    COUNT["ops"] += 8
    for y in (B(enc), B(bytearray(enc)), B(memoryview(enc)), B(int(x)), B(bytes(x)), copy.deepcopy(x), x + 0, x - 0, x * 1, x // 1, x | 0, x << 0, -(-x), ~~x, B(v + 1) - 1, B(v - 1) + B(1), (x << 40) >> 40, (x * 3) // 3):
        if type(y) is not B or not (y == x) or y != x or hash(y) != hash(x) or int(y) != v or str(y) != str(x):
            raise Bad(f"two ways of making {w} differ: {short(int(y))}")
    d = {x: "v"}
    if d.get(v) != "v" or {v: "w"}.get(x) != "w" or len({x, v, B(v)}) != 1:
        raise Bad(f"{w} as a dictionary key")
    for o in (v + 1, v - 1, -v, v + 2**32, v + 2**61 - 1):
        if o != v and (x == o or o == x or x == B(o) or not (x != o)):
            raise Bad(f"{w} equals {short(o)}")
    y = copy.deepcopy(x)
    y += 1
    z = copy.deepcopy({"k": [x]})["k"][0]
    z -= 5
    if int(x) != v or int(y) != v + 1 or int(z) != v - 5:
        raise Bad(f"a copy of {w} is not independent")
    if v > 0:
        for g, t in ((B.log(x), math.log(v)), (B.log(v), math.log(v)), (B.log10(x), math.log10(v)), (B.log10(v), math.log10(v)), (B.log(x, 3.0), math.log(v) / math.log(3)), (B.log(v, 3.0), math.log(v) / math.log(3))):
            if abs(g - t) > 1e-11 * max(1, abs(t)):
                raise Bad(f"log of {w}: {g}, want {t}")


def buf(data, x):
    v = int.from_bytes(data, "little", signed=True)
    COUNT["ops"] += 1
    if val(x) != v or int(x) != v:
        raise Bad(f"from bytes {data[:40].hex()}({len(data)}): {short(int(x))}, want {short(v)}")


def c22(level):
    S = []
    lim = 3000 if level == 0 else 70000 if level == 1 else 2_200_000 if level == 2 else 10_000_000
    S.append(("every small int", 2 * lim + 1, lambda i: conversions(i - lim, B(i - lim), level > 0 and -2000 <= i - lim <= 2000 or i % 97 == 0), lambda i: str(i - lim)))
    kmax = 300 if level == 0 else 1100 if level == 1 else 4400 if level == 2 else 12000
    P = [s * 2**k + d for k in range(kmax) for s in (1, -1) for d in (-2, -1, 0, 1, 2)]
    S.append(("+-2^k+d", len(P), lambda i: conversions(P[i], B(P[i])), lambda i: short(P[i])))
    L = [s * f for n in ([2, 3, 5, 33, 200] if level == 0 else list(range(1, 70)) + [128, 500] if level == 1 else list(range(1, 200)) + [500, 600, 1500]) for f in (pat(n, 1), pat(n, 2), (1 << 32 * n) - 1, ((1 << 32 * n) - 1) ^ (0xff << 16 * n)) for s in (1, -1)]
    L += [s * 10**k + d for k in range(0, 400, 9 if level < 2 else 1) for s in (1, -1) for d in (-1, 0, 1)]
    L += [k * (2**61 - 1) + d for k in range(-20, 21) for d in (-1, 0, 1)]
    S.append(("long values", len(L), lambda i: conversions(L[i], B(L[i])), lambda i: short(L[i])))
    # every word of bytes over an alphabet; all of length at most two
    W = [()] + [(a,) for a in range(256)] + [(a, b) for a in range(256) for b in (range(256) if level else (0, 1, 0x7f, 0x80, 0xff))]
    al = (0, 1, 0x7f, 0x80, 0xff)
    for n in range(3, 6 if level < 2 else 8):
        k = [()]
        for _ in range(n):
            k = [w + (c,) for w in k for c in al[:5 if n < 6 else 3]]
        W += k
    for n in (8, 9, 16, 17, 31, 32, 33, 128, 129):
        for tail in (b"", b"\0", b"\0\0\0\0\0", b"\xff", b"\xff" * 4, b"\x80", b"\x7f"):
            W.append(tuple(pat(n, 3).to_bytes(4 * n, "little")[:n] + tail))

    def buffers(i):
        d = bytes(W[i])
        buf(d, B(d)); buf(d, B(bytearray(d))); buf(d, B(memoryview(d))); buf(d, B(array.array("B", d)))
        if i % 7 == 0 or level:
            ba = bytearray(d)
            x = B(ba)
            for k in range(len(ba)):
                ba[k] ^= 0xff
            buf(d, x)
            ba += b"more"   # refused as long as somebody holds its buffer
            buf(d, x)
            m = memoryview(d)
            buf(d[::-1], B(m[::-1]))
            pad = bytes(b for c in d for b in (c, 0x55, 0xAA))
            buf(d, B(memoryview(pad)[::3])); buf(d, B(memoryview(b"\x13\x37" + pad)[2::3]))
            if len(d) > 1:
                buf(d[1:], B(m[1:])); buf(d[::2], B(m[::2])); buf(d[1::2], B(m[1::2])); buf(d[::-2], B(m[::-2])); buf(d[-2::-1], B(m[-2::-1])); buf(d[:-1], B(m[:-1]))
    S.append(("byte buffers of every layout", len(W), buffers, lambda i: bytes(W[i])[:60].hex() + f" ({len(W[i])} bytes)"))

    def others(i):
        if i == 0:
            for f, v in ((B.zero, 0), (B.one, 1), (B.minus_one, -1)):
                a = f()
                a += 7
                b = f()
                if int(b) != v or type(b) is not B:
                    raise Bad(f"constant {v}: {int(b)}")
            conversions(1, B(True)); conversions(0, B(False))
        elif i == 1:
            for bad in (1.5, "12", None, [1], {}, 1j, object()):
                g = attempt(B, bad)
                if not isinstance(g, Exception):
                    raise Bad(f"BigInteger({bad!r}): no exception")
            for f in "bhHiIlLqQfd":
                a = array.array(f, [1, 2, 3])
                g = attempt(B, a)
                if not isinstance(g, Exception):
                    raise Bad(f"BigInteger(array {f}): no exception, but {int(g)}")
            m = memoryview(bytes(range(12))).cast("B", (3, 4))
            g = attempt(B, m)
            if not isinstance(g, Exception):
                raise Bad("BigInteger(two-dimensional buffer): no exception")
        elif i == 2:
            class I(int):
                pass
            for v in (0, 1, -1, 255, -256, 2**64, -(2**31)):
                conversions(v, B(I(v)))
                if list(range(B(3))) != [0, 1, 2] or "abc"[B(1)] != "b":
                    raise Bad("index")
        elif i == 3:   # many objects that live at once stay what they are
            xs = [B(v) for v in range(-500, 500)] + [B(2**k) for k in range(200)]
            ys = [x * x for x in xs]
            if [int(x) for x in xs] != list(range(-500, 500)) + [2**k for k in range(200)] or [int(y) for y in ys] != [int(x) ** 2 for x in xs]:
                raise Bad("objects influence each other")
        elif i == 4:
            for v in (2**1023, 2**1024 - 2**970, 2**1024 - 2**970 - 1, 2**1024, -(2**1024), 2**53 + 1, 2**53 + 2, 2**54 + 2, 2**54 + 6, -(2**53) - 1, 2**70 + 2**17, 2**70 + 2**17 + 1):
                for d in (-1, 0, 1):
                    conversions(v + d, B(v + d))
    S.append(history(level))
    S.append(("constants, refused arguments, subclasses, many objects, floats", 5, others, lambda i: ("constants", "refused arguments", "subclasses of int", "many objects", "floats")[i]))
    return S


# ------------------------------------------------------------------ C18
def c18(level):
    """no call leaks: objects, references and memory stay where they were however often it is repeated"""
    import ctypes, gc
    libc = ctypes.CDLL(None)

    class Info(ctypes.Structure):
        _fields_ = [(f, ctypes.c_size_t) for f in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
    libc.mallinfo2.restype = Info
    V = [0, 1, -7, 12345, 2**40 + 1, -(2**100) - 3, pat(40, 1), -pat(70, 2)]
    calls = []
    for op in ["+", "-", "*", "/", "//", "%", "divmod", "&", "|", "^"]:
        calls.append((op, 2, DO[op]))
    for op in REL:
        calls.append((op, 2, REL[op]))
    small = lambda b: int(b) % 50 - 2 if not isinstance(b, B) else B(val(b) % 50 - 2)
    calls += [("<<", 2, lambda a, b: a << small(b)), (">>", 2, lambda a, b: a >> small(b)), ("**", 2, lambda a, b: a ** small(b)), ("** 3 %", 2, lambda a, b: pow(a, 3, b)), ("** B %", 2, lambda a, b: pow(a, B(5), b)), ("<< too far", 2, lambda a, b: a << 2**40)]
    un = [("-", operator.neg), ("+", operator.pos), ("abs", abs), ("~", operator.invert), ("int", int), ("bytes", bytes), ("str", str), ("float", float), ("hash", hash), ("index", operator.index), ("to_array", lambda x: x.to_array()), ("to_array unsigned", lambda x: x.to_array(True)), ("to_array big", lambda x: x.to_array(is_bigendian=True)),
          ("deepcopy", copy.deepcopy), ("copies", lambda x: B(int(x))), ("from bytes", lambda x: B(bytes(x))), ("from bytearray", lambda x: B(bytearray(bytes(x)))), ("from view", lambda x: B(memoryview(bytes(x))[::-1])), ("sign", lambda x: x.sign), ("even", lambda x: x.is_even()), ("pow2", lambda x: x.is_power_of_two()), ("bits", lambda x: x.get_bit_Length()),
          ("log", lambda x: B.log(x)), ("log of int", lambda x: B.log(int(x))), ("log base", lambda x: B.log(x, 3.0)), ("log base of int", lambda x: B.log(int(x), 3.0)), ("log10", lambda x: B.log10(x)), ("log10 of int", lambda x: B.log10(int(x))), ("constants", lambda x: (B.zero(), B.one(), B.minus_one())), ("version", lambda x: B.__version__),
          ("refused", lambda x: B("no")), ("refused float", lambda x: x + 1.5), ("refused ==", lambda x: x == 1.5), ("refused buffer", lambda x: B(array.array("i", [1])))]
    calls += [(n, 1, f) for n, f in un]
    n = len(V)
    C = [(nm, k, f, i, j, kind) for nm, k, f in calls for i in range(n) for j in (range(n) if k == 2 else (0,)) for kind in (("BB", "Bi", "iB") if k == 2 else ("B",))]

    def run(c):
        nm, k, f, i, j, kind = C[c]
        x = B(V[i]) if kind[0] == "B" else V[i] + 0
        y = (B(V[j]) if kind[1] == "B" else V[j] + 0) if k == 2 else None
        args = (x, y)[:k]
        refs = [sys.getrefcount(a) for a in args]
        for _ in range(4):
            attempt(f, *args)
        what = f"{kind}: {nm} of {short(V[i])}" + (f", {short(V[j])}" if k == 2 else "")
        def growth(calls):
            gc.collect()
            m0, b0 = libc.mallinfo2(), sys.getallocatedblocks()
            for _ in range(calls):
                attempt(f, *args)
            gc.collect()
            m1, b1 = libc.mallinfo2(), sys.getallocatedblocks()
            return max(m1.uordblks + m1.hblkhd - m0.uordblks - m0.hblkhd, (b1 - b0) * 16)
        # what the interpreter or the allocator keeps grows once or a little; a leak grows with every call
        for calls in (40, 40, 40, 400, 1000, 1000):
            low = growth(calls)
            if low < calls * 16:
                break
        else:
            raise Bad(f"{what}: {low} bytes are lost in {calls} calls")
        if [sys.getrefcount(a) for a in args] != refs:
            raise Bad(f"{what}: the reference counts of the operands change from {refs} to {[sys.getrefcount(a) for a in args]}")
        for a, v in zip(args, (V[i], V[j])):
            if val(a) != v:
                raise Bad(f"{what}: an operand is modified")
    if os.environ.get("MC_PY_ASAN"):
        return c21(0 if level == 0 else 1) + c22(0)
    return [("repeated calls keep nothing", len(C), run, lambda i: f"{C[i][5]}: {C[i][0]} of {short(V[C[i][3]])}, {short(V[C[i][4]])}")]


def main():
    global B
    mode, so, prop, level = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    B = load(so)
    spaces = {"C18": c18, "C21": c21, "C22": c22}[prop](level)
    if mode == "list":
        print(json.dumps([[s[0], s[1], s[3](s[1] // 2)] for s in spaces]))
        return 0
    if mode == "describe":
        print(spaces[int(sys.argv[5])][3](int(sys.argv[6])))
        return 0
    k, a, b, status = int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), sys.argv[8]
    import resource, signal
    if not os.environ.get("MC_PY_ASAN"):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fd = os.open(status, os.O_RDWR | os.O_CREAT)
    os.ftruncate(fd, 4096)
    mm = mmap.mmap(fd, 4096)
    run = spaces[k][2]
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    for i in range(a, b):
        mm[0:8] = struct.pack("q", i)
        if i % 64 == a % 64:
            signal.alarm(60 if not os.environ.get("MC_PY_ASAN") else 240)
        try:
            run(i)
        except Bad as e:
            print("BAD " + str(e))
            return 77
        except MemoryError:
            raise
        except Exception as e:
            print(f"BAD {spaces[k][3](i)}: raises {type(e).__name__}: {e}")
            return 77
    print(f"OK {COUNT['ops']}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
