"""C12: mel scale."""
from .common import *
from .registry import ASSUME_FP
from fractions import Fraction
import math

FUNCTIONS = ["neo::hertz_to_mel<float|double>", "neo::mel_to_hertz<float|double>", "neo::mel_frequencies"]
ASSUMPTIONS = ASSUME_FP + ["std::log10 and std::pow are uninterpreted functions of their real arguments; for the round trips 10^log10(x) = x for x > 0 and "
                           "log10(10^y) = y are assumed", "frequencies above -700 Hz for the logarithm, band counts below 2^31"]
DT = {32: np.float32, 64: np.float64}


def h2m(c, x):
    return c.lib("log10", c.rv(x) / 700 + 1) * 2595


def m2h(c, y):
    return (c.lib("pow", c.rv(10), c.rv(y) / 2595) - 1) * 700


H2M = lambda x: 2595 * math.log10(1 + x / 700)
M2H = lambda y: 700 * (10 ** (y / 2595) - 1)


def scalar(fn0, fw, pre, spec, want, lo, hi, tol):
    fn = "%s_f%d" % (fn0, fw)

    def setup(c):
        x = c.rv(c.f("x", fw))
        if pre:
            c.requires(x.t() > -700)
        c.ensures(spec[0], lambda P: c.rv(P.ret).eq(spec[1](c, x)))
        if fn0 == "h2m2h":
            a = x / 700 + 1
            lg = c.lib("log10", a)
            c.spec_axioms.append(z3.Implies(a.t() > 0, c.lib("pow", c.rv(10), lg).t() == a.t()))
        if fn0 == "m2h2m":
            y = x / 2595
            c.spec_axioms.append(c.lib("log10", c.lib("pow", c.rv(10), y)).t() == y.t())

    def gen(rng, ms):
        for x in (0.0, 1.0, 700.0, 1000.0, 440.0, 20000.0):
            yield (x,)
        for _ in range(5000):
            yield (rng.uniform(lo, hi),)
            yield (10 ** rng.uniform(-2, math.log10(hi)),)
    return Contract("C12", fn, setup, lib="math", search=scalar_search(
        fn, ("f", fw), [("f", fw)], gen, lambda r, x: None if abs(r - want(x)) <= tol[fw] * (abs(want(x)) + 300) else "returned %r, expected %r" % (r, want(x))))


def bands(fw):
    fn = "melf_f%d" % fw
    dt = DT[fw]

    def setup(c):
        n = z3.BitVec("n", 64)
        o = c.arr("out", fw, n, True)
        c.args.append(n)
        c.symbols.append(("n", n))
        lo, hi = c.rv(c.f("fmin", fw)), c.rv(c.f("fmax", fw))
        c.requires(z3.ULT(n, 1 << 31), lo.t() > -700, hi.t() > -700)
        c.cover("long", lambda P: z3.UGT(n, 1000))
        m0, m1 = h2m(c, lo), h2m(c, hi)

        def pred(S, k):
            step = (m1 - m0) / c.i2r(n - c64(1), False)
            return z3.If(n == 1, o.rat(S, k).t() == lo.t(), o.rat(S, k).eq(m2h(c, m0 + step * c.i2r(k))))
        c.forall("frequency k lies k steps of equal mel distance above the lowest", lambda k: z3.ULT(k, n), pred, [o])

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, CT[("f", fw)], CT[("f", fw)])
        for n in list(LENGTHS) * 5:
            lo = rng.choice([0.0, 20.0, rng.uniform(0, 500)])
            hi = rng.uniform(600, 22050)

            def run(n=n, lo=lo, hi=hi):
                O = arena(0, 64).place(np.zeros(n, dt))
                f(O.ptr, n, lo, hi)
                for k in range(n):
                    e = lo if n == 1 else M2H(H2M(lo) + (H2M(hi) - H2M(lo)) * k / (n - 1))
                    if not abs(O.arr[k] - e) <= (2e-5 if fw == 32 else 1e-10) * (abs(e) + 1):
                        return "element %d is %r, expected %r" % (k, O.arr[k], e)
                if not O.intact():
                    return "wrote outside the output"
            yield Case({"n": n, "fmin": lo, "fmax": hi}, run)
    return Contract("C12", fn, setup, lib="math", search=mk)


T = {32: 2e-5, 64: 1e-10}
CONTRACTS = []
for fw in (32, 64):
    CONTRACTS += [scalar("h2m", fw, True, ("result is 2595 log10(1 + f/700)", h2m), H2M, 0, 30000, T),
                  scalar("m2h", fw, False, ("result is 700 (10^(m/2595) - 1)", m2h), M2H, 0, 4000, T),
                  scalar("h2m2h", fw, True, ("hertz to mel and back is the identity", lambda c, x: x), lambda x: x, 0, 30000, {32: 1e-4, 64: 1e-9}),
                  scalar("m2h2m", fw, False, ("mel to hertz and back is the identity", lambda c, x: x), lambda x: x, 0, 4000, {32: 1e-4, 64: 1e-9}),
                  bands(fw)]
