"""C11: window functions."""
from .common import *
from .registry import ASSUME_FP
from fractions import Fraction
import math

FUNCTIONS = ["neo::rectangular_window, hann_window, hamming_window <float|double> on std::size_t and int", "neo::fill_window", "neo::generate_window"]
ASSUMPTIONS = ASSUME_FP + ["window length at least 2 for the raised-cosine windows (length 1 divides by zero), below 2^31", "std::cos is an uninterpreted function of the real argument",
                           "integer to floating-point conversion is exact"]
DT = {32: np.float32, 64: np.float64}
COEF = {"hann": (0.5, 0.5), "hamming": (0.54, 0.46)}


def fr(dt, x):
    return Fraction(float(dt(x)))


def spec(c, kind, dt, i, n, sgn):
    if kind == "rectangular":
        return c.rv(1)
    two_pi = Fraction(float(dt(dt(math.pi) * dt(2))))
    arg = c.i2r(i, sgn) * two_pi / c.i2r(n - BV(1, n.size()), sgn)
    a, b = COEF[kind]
    return c.rv(fr(dt, a)) - fr(dt, b) * c.lib("cos", arg)


def want(kind, i, n):
    if kind == "rectangular":
        return 1.0
    a, b = COEF[kind]
    return a - b * math.cos(2 * math.pi * i / (n - 1))


def scalar(kind, fw, sgn):
    dt = DT[fw]
    w = 32 if sgn else 64
    fn = "%s%s_f%d" % (kind, "i" if sgn else "", fw)

    def setup(c):
        i, n = c.i("index", w), c.i("size", w)
        c.requires(z3.ULT(n, 1 << 31) if w == 64 else n >= 0, z3.ULT(i, n))
        if kind != "rectangular":
            c.requires(z3.UGE(n, 2))
        c.ensures("result is the %s window" % kind, lambda P: c.rv(P.ret).eq(spec(c, kind, dt, i, n, sgn)))

    def gen(rng, ms):
        yield from model_tuples(ms, ["index", "size"], [("i" if sgn else "u", w)] * 2)
        for n in list(range(2, 40)) + [rng.randint(2, 100000) for _ in range(200)]:
            for i in sorted({0, 1, n // 2, n - 1, rng.randrange(n)}):
                yield i, n

    def oracle(r, i, n):
        e = want(kind, i, n)
        return None if abs(r - e) <= (2e-5 if fw == 32 else 1e-12) * 1 else "returned %r, expected %r" % (r, e)
    k = ("i", 32) if sgn else ("u", 64)
    return Contract("C11", fn, setup, lib="math", search=scalar_search(fn, ("f", fw), [k, k], gen, oracle))


def fill(kind, fw, which):
    dt = DT[fw]
    fn = "%s_f%d" % (which if which == "gen_default" else which + "_" + kind, fw)

    def setup(c):
        n = z3.BitVec("n", 64)
        c.requires(z3.ULT(n, 1 << 31))
        if kind != "rectangular":
            c.requires(n != 1)
        o = c.arr("out", fw, n, True)
        c.args.append(n)
        c.symbols.append(("n", n))
        c.cover("long", lambda P: z3.UGT(n, 1000))
        pred = lambda S, k: o.rat(S, k).eq(spec(c, kind, dt, k, n, False))
        E = c.forall("element k is the %s window at k" % kind, lambda k: z3.ULT(k, n), pred, [o])
        if which != "fill":
            c.heap_forall(E, fw, lambda a, S, k: a.rat(S, k).eq(spec(c, kind, dt, k, n, False)))

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE)
        for n in [m["n"] for m in models if isinstance(m.get("n"), int) and m["n"] < 30000] + list(LENGTHS) + [1000, 4096]:
            if n == 1 and kind != "rectangular":
                continue

            def run(n=n):
                O = arena(0, 64).place(np.zeros(n, dt))
                f(O.ptr, n)
                for i in range(n):
                    e = want(kind, i, n)
                    if not abs(O.arr[i] - e) <= (2e-5 if fw == 32 else 1e-12):
                        return "element %d is %r, expected %r" % (i, O.arr[i], e)
                if not O.intact():
                    return "wrote outside the output"
            yield Case({"n": n}, run)
    return Contract("C11", fn, setup, lib="math", search=mk, cost=2)


CONTRACTS = []
for fw in (32, 64):
    for kind in ("rectangular", "hann", "hamming"):
        CONTRACTS += [scalar(kind, fw, False), scalar(kind, fw, True), fill(kind, fw, "fill"), fill(kind, fw, "gen")]
    CONTRACTS.append(fill("hann", fw, "gen_default"))
