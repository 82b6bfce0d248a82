"""C08: complex numbers: field operations, compound assignment (also with itself), accessors, conjugate, magnitude."""
from .common import *
from .registry import ASSUME_FP

FUNCTIONS = ["neo::scalar_complex<float|double>: constructors, real/imag getters and setters, unary +/-, + - * /, += -= *= /= (complex and scalar), get, conj, abs",
             "neo::math::abs, real, imag, conj (scalar_complex, std::complex, arithmetic)", "neo::float_equality::exact",
             "neo::fixed_point_complex<q7|q15>: +, -"]
ASSUMPTIONS = ASSUME_FP + ["half precision scalar_complex is not covered (its rounding depends on excess precision)"]
DT = {32: np.float32, 64: np.float64}
N = {32: "c64", 64: "c128"}
CD = {32: np.complex64, 64: np.complex128}


def cvals(c, a, S=None):
    f = (lambda k: a.rpre(c64(k))) if S is None else (lambda k: a.rat(S, c64(k)))
    return f(0), f(1)


def cop(op, x, y):
    (a, b), (d, e) = x, y
    if op == "add":
        return a + d, b + e
    if op == "sub":
        return a - d, b - e
    if op == "mul":
        return a * d - b * e, a * e + b * d
    if op == "div":
        den = d * d + e * e
        return (a * d + b * e) / den, (b * d - a * e) / den


PY = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def crand(w, rng):
    v = floats(DT[w], rng, 2, 4)
    return complex(float(v[0]), float(v[1]))


def pairs_search(w, body):
    """body(L) -> fn(a, b) -> (observed complex or None, expected complex)"""
    def mk(L, models, rng):
        call = body(L)
        for it in range(20000):
            a, b = crand(w, rng), crand(w, rng)
            if abs(b) < 1e-2:
                continue
            if it < 16:
                a, b = complex(it & 1, (it >> 1) & 1), complex((it >> 2) & 1, (it >> 3) & 1)
                if b == 0:
                    continue

            def run(a=a, b=b):
                got, want = call(a, b)
                if not abs(complex(got) - complex(want)) <= 1e-5 * (1 + abs(want) + abs(a) * abs(b)):
                    return "gives %r, expected %r" % (got, want)
            yield Case({"a": a, "b": b}, run)
    return mk


def buf(i, w, *z):
    return arena(i, 1).place(np.array([x for v in z for x in (v.real, v.imag)], DT[w]))


def get(b):
    return complex(float(b.arr[0]), float(b.arr[1]))


def binary(w, op, alias=None):
    fn = "%s_%s" % (N[w], op)

    def setup(c):
        a = c.arr("a", w, 2)
        b = c.arr("b", w, 2) if alias != "ab" else c.same(a)
        o = c.arr("out", w, 2, True) if alias in (None, "ab") else c.same(a if alias == "a" else b)
        x, y = cvals(c, a), cvals(c, b)
        r = cop(op, x, y)
        c.ensures("real part is the exact complex " + op, lambda P: cvals(c, o, P)[0].eq(r[0]))
        c.ensures("imaginary part is the exact complex " + op, lambda P: cvals(c, o, P)[1].eq(r[1]))

    def body(L):
        f = L.fn(fn, None, PTR, PTR, PTR)

        def call(a, b):
            A, B, O = buf(0, w, a), buf(1, w, b), buf(2, w, 0)
            f(A.ptr, B.ptr, O.ptr)
            return get(O), PY[op](a, b)
        return call
    return Contract("C08", fn, setup, lib="complex", variant=alias or "", skey=fn, search=pairs_search(w, body))


def compound(w, op, alias=False):
    fn = "%s_i%s" % (N[w], op)

    def setup(c):
        a = c.arr("a", w, 2, True)
        b = c.same(a) if alias else c.arr("b", w, 2)
        r = cop(op, cvals(c, a), cvals(c, b))
        c.ensures("left operand becomes the exact complex %s (real)" % op, lambda P: cvals(c, a, P)[0].eq(r[0]))
        c.ensures("left operand becomes the exact complex %s (imag)" % op, lambda P: cvals(c, a, P)[1].eq(r[1]))

    def body(L):
        f = L.fn(fn, None, PTR, PTR)

        def call(a, b):
            if alias:
                a = b
            A = buf(0, w, a)
            B = A if alias else buf(1, w, b)
            f(A.ptr, B.ptr)
            return get(A), PY[op](a, b)
        return call
    return Contract("C08", fn, setup, lib="complex", variant="with itself" if alias else "", search=pairs_search(w, body))


def compound_scalar(w, op):
    fn = "%s_i%ss" % (N[w], op)

    def setup(c):
        a = c.arr("a", w, 2, True)
        s = c.f("s", w)
        x, y = cvals(c, a)
        v = c.rv(s)
        r = (x * v, y * v) if op == "mul" else (x / v, y / v)
        c.ensures("real part is scaled", lambda P: cvals(c, a, P)[0].eq(r[0]))
        c.ensures("imaginary part is scaled", lambda P: cvals(c, a, P)[1].eq(r[1]))

    def body(L):
        f = L.fn(fn, None, PTR, CT[("f", w)])

        def call(a, b):
            s = b.real or 1.0
            A = buf(0, w, a)
            f(A.ptr, s)
            return get(A), (a * s if op == "mul" else a / s) if abs(s) > 1e-2 else get(A)
        return call
    return Contract("C08", fn, setup, lib="complex", search=pairs_search(w, body))


def unary(fn, w, spec, pyf):
    def setup(c):
        a = c.arr("a", w, 2)
        o = c.arr("out", w, 2, True)
        r = spec(*cvals(c, a))
        c.ensures("real part", lambda P: cvals(c, o, P)[0].eq(r[0]))
        c.ensures("imaginary part", lambda P: cvals(c, o, P)[1].eq(r[1]))

    def body(L):
        f = L.fn(fn, None, PTR, PTR)

        def call(a, b):
            A, O = buf(0, w, a), buf(1, w, 0)
            f(A.ptr, O.ptr)
            return get(O), pyf(a)
        return call
    return Contract("C08", fn, setup, lib="complex", search=pairs_search(w, body))


def scalar_of(fn, w, spec, pyf):
    def setup(c):
        a = c.arr("a", w, 2)
        r = spec(c, *cvals(c, a))
        c.ensures("result", lambda P: c.rv(P.ret).eq(r))

    def body(L):
        f = L.fn(fn, CT[("f", w)], PTR)
        return lambda a, b: (f(buf(0, w, a).ptr), pyf(a))
    return Contract("C08", fn, setup, lib="complex", search=pairs_search(w, body))


def setter(fn, w, which):
    def setup(c):
        a = c.arr("a", w, 2, True)
        s = c.f("s", w)
        c.ensures("the addressed part is replaced", lambda P: a.at(P, c64(which)) == s)
        c.ensures("the other part is kept", lambda P: a.at(P, c64(1 - which)) == a.pre(c64(1 - which)))

    def body(L):
        f = L.fn(fn, None, PTR, CT[("f", w)])

        def call(a, b):
            A = buf(0, w, a)
            f(A.ptr, b.real)
            return get(A), complex(b.real, a.imag) if which == 0 else complex(a.real, b.real)
        return call
    return Contract("C08", fn, setup, lib="complex", search=pairs_search(w, body))


def maker(fn, w, two):
    def setup(c):
        x = c.f("x", w)
        y = c.f("y", w) if two else BV(0, w)
        o = c.arr("out", w, 2, True)
        c.ensures("real part", lambda P: o.at(P, c64(0)) == x)
        c.ensures("imaginary part", lambda P: o.at(P, c64(1)) == y)

    def body(L):
        f = L.fn(fn, None, *[CT[("f", w)]] * (2 if two else 1), PTR)

        def call(a, b):
            O = buf(0, w, 0)
            f(*([a.real, a.imag] if two else [a.real]), O.ptr)
            return get(O), a if two else complex(a.real, 0)
        return call
    return Contract("C08", fn, setup, lib="complex", search=pairs_search(w, body))


def exact(fn, w, cplx):
    def setup(c):
        if cplx:
            a, b = c.arr("a", w, 2), c.arr("b", w, 2)
            eq = z3.And(*[z3.fpEQ(c.fp.fpv(a.pre(c64(k))), c.fp.fpv(b.pre(c64(k)))) for k in (0, 1)])
        else:
            x, y = c.f("a", w), c.f("b", w)
            eq = z3.fpEQ(c.fp.fpv(x), c.fp.fpv(y))
        c.ensures("true exactly when the numbers are equal", lambda P: P.ret == eq)

    def mk(L, models, rng):
        f = L.fn(fn, ctypes.c_bool, *([PTR, PTR] if cplx else [CT[("f", w)]] * 2))
        vs = [0.0, -0.0, 1.0, -1.0, 0.5, float("inf"), float("nan"), 1.0 + 2 ** -20]
        for p in vs:
            for q in vs:
                for r in vs[:4]:
                    for s in vs[:4]:
                        def run(p=p, q=q, r=r, s=s):
                            if cplx:
                                got = f(buf(0, w, complex(p, r)).ptr, buf(1, w, complex(q, s)).ptr)
                                want = p == q and r == s
                            else:
                                got, want = f(p, q), p == q
                            return None if bool(got) == want else "returned %r" % got
                        yield Case({"a": [p, r], "b": [q, s]}, run)
    return Contract("C08", fn, setup, lib="complex", fpmode="ieee", search=mk)


def simple(fn, kind, w, spec, pyf):
    def setup(c):
        x = c.f("x", w)
        if kind == "i":
            c.requires(x != BV(1 << (w - 1), w))
        c.ensures("result", lambda P: spec(c, x, P.ret))
    return Contract("C08", fn, setup, lib="complex", search=scalar_search(
        fn, (kind, w), [(kind, w)], lambda rng, ms: ((v,) for v in ([0.0, 1.5, -1.5, 3e5, -7.25] if kind == "f" else [0, 1, 2, 7, 2147483647] + ([-1, -5, -2147483647] if kind == "i" else [2147483648, 4294967295]))),
        lambda r, x: None if r == pyf(x) else "returned %r" % r))


def fixed_binary(q, w, op):
    fn = "%s_%s" % (q, op)

    def setup(c):
        a, b = c.arr("a", w, 2), c.arr("b", w, 2)
        o = c.arr("out", w, 2, True)
        for k in (0, 1):
            x, y = z3.SignExt(w, a.pre(c64(k))), z3.SignExt(w, b.pre(c64(k)))
            c.ensures("part %d saturates" % k, lambda P, k=k, x=x, y=y: o.at(P, c64(k)) == sat(x + y if op == "add" else x - y, w))

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, PTR, PTR)
        for _ in range(20000):
            a, b = ints(w, rng, 2), ints(w, rng, 2)

            def run(a=a, b=b):
                A, B, O = arena(0, 1).place(a), arena(1, 1).place(b), arena(2, 1).place(a * 0)
                f(A.ptr, B.ptr, O.ptr)
                x, y = a.astype(int), b.astype(int)
                want = np.clip(x + y if op == "add" else x - y, -(1 << w - 1), (1 << w - 1) - 1)
                return None if (O.arr == want).all() else "gives %s, expected %s" % (O.arr.tolist(), want.tolist())
            yield Case({"a": a, "b": b}, run)
    return Contract("C08", fn, setup, lib="complex", search=mk)


CONTRACTS = []
for w in (32, 64):
    n = N[w]
    for op in ("add", "sub", "mul", "div"):
        CONTRACTS += [binary(w, op), binary(w, op, "a"), binary(w, op, "b"), binary(w, op, "ab"), compound(w, op), compound(w, op, True)]
    CONTRACTS += [compound_scalar(w, "mul"), compound_scalar(w, "div")]
    CONTRACTS += [unary(n + "_pos", w, lambda a, b: (a, b), lambda a: a), unary(n + "_neg", w, lambda a, b: (-a, -b), lambda a: -a)]
    CONTRACTS += [unary(f, w, lambda a, b: (a, -b), lambda a: a.conjugate()) for f in (n + "_conj", n + "_mconj", {32: "s64", 64: "s128"}[w] + "_mconj")]
    CONTRACTS += [scalar_of(f, w, lambda c, a, b: a, lambda a: a.real) for f in (n + "_real", n + "_get0", n + "_mreal", {32: "s64", 64: "s128"}[w] + "_mreal")]
    CONTRACTS += [scalar_of(f, w, lambda c, a, b: b, lambda a: a.imag) for f in (n + "_imag", n + "_get1", n + "_mimag", {32: "s64", 64: "s128"}[w] + "_mimag")]
    CONTRACTS += [scalar_of(f, w, lambda c, a, b: c.lib("sqrt", a * a + b * b), lambda a: abs(a)) for f in (n + "_abs", n + "_mabs")]
    CONTRACTS += [setter(n + "_setre", w, 0), setter(n + "_setim", w, 1), maker(n + "_make", w, True), maker(n + "_make1", w, False)]
    CONTRACTS += [exact(n + "_exact", w, True), exact("f%d_exact" % w, w, False)]
    CONTRACTS += [simple("f%d_mabs" % w, "f", w, lambda c, x, r: c.rv(r).eq(c.rv(c.fp.rabs(c.rv(x).t()))), abs),
                  simple("f%d_mreal" % w, "f", w, lambda c, x, r: r == x, lambda x: x)]
CONTRACTS += [simple("u32_mabs", "u", 32, lambda c, x, r: r == x, abs), simple("i32_mabs", "i", 32, lambda c, x, r: r == z3.If(x < 0, -x, x), abs)]
CONTRACTS += [fixed_binary(q, w, op) for q, w in (("cq15", 16), ("cq7", 8)) for op in ("add", "sub")]
