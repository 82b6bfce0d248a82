"""C09: amplitude to decibel conversion, its floor, and the fast approximation of the logarithm."""
from .common import *
from .registry import ASSUME_FP
import math
from fractions import Fraction

FUNCTIONS = ["neo::amplitude_to_db<accurate|estimate, float|double> (with and without explicit floor)", "neo::fast_log2", "neo::fast_log10", "neo::math::log2"]
ASSUMPTIONS = ASSUME_FP + ["std::log10 / std::log2 are uninterpreted functions of the real argument",
                           "the accuracy of the approximation against the true logarithm is checked natively (bounded), the contract fixes its clamping and its formula"]
f32 = lambda x: Fraction(float(np.float32(x)))


def fast_log2(c, x):
    """approximation polynomial, over the bits of a single precision number"""
    mx = c.rv((x & BV(0x007FFFFF, 32)) | BV(0x3F000000, 32))
    y = c.i2r(x, False) * f32(1.1920928955078125e-7)
    return y - f32(124.22551499) - f32(1.498030302) * mx - f32(1.72587999) / (f32(0.3520887068) + mx)


def rmax(c, a, b):
    a, b = c.rv(a).t(), c.rv(b).t()
    return z3.If(a >= b, a, b)


def gains(fw, rng):
    vs = [0.0, -0.0, -1.0, -1e-30, 1e-30, 1e-7, 1e-6, 0.5, 1.0, 2.0, 1e6, 1e-3, 0.25, 6.3e-8, 1e10]
    vs += [2.0 ** k for k in range(-40, 20)]
    vs += [2.0 ** k * (1 + 1e-6) for k in range(-40, 20)] + [2.0 ** k * (1 - 1e-6) for k in range(-40, 20)]
    for _ in range(20000):
        vs.append(10 ** rng.uniform(-9, 3) * rng.choice([1, 1, 1, -1]))
    return vs


def db(fn, fw, est, explicit):
    def setup(c):
        g = c.f("gain", fw)
        inf = c.rv(c.f("floor", fw)) if explicit else c.rv(-144)
        x = c.rv(g)
        if est:
            lin = g
            if fw == 64:
                lin = c.fp.trunc(g, 32)
            l10 = fast_log2(c, lin) * f32(0.30102999566)
        else:
            l10 = c.lib("log10", x)
        r = l10 * 20
        c.ensures("silence and negative gains map to the floor", lambda P: z3.Implies(x.t() <= 0, c.rv(P.ret).eq(inf)))
        c.ensures("never below the floor", lambda P: c.rv(P.ret).t() >= inf.t())
        c.ensures("above the floor it is 20 log10(gain)", lambda P: z3.Implies(x.t() > 0, c.rv(P.ret).t() == rmax(c, inf, r)))

    def mk(L, models, rng):
        f = L.fn(fn, CT[("f", fw)], *[CT[("f", fw)]] * (2 if explicit else 1))
        for i, g in enumerate(gains(fw, rng)):
            g = CT[("f", fw)](g).value
            fl = CT[("f", fw)](rng.choice([-144.0, -100.0, -50.0, -20.0, 0.0, -200.0])).value if explicit else -144.0

            def run(g=g, fl=fl):
                r = f(*([g, fl] if explicit else [g]))
                want = fl if g <= 0 else max(fl, 20 * math.log10(g))
                tol = 0.02 if est else 1e-3
                return None if abs(r - want) <= tol else "returned %r, expected %r" % (r, want)
            yield Case({"gain": g, "floor": fl}, run)
    return Contract("C09", fn, setup, lib="unit", search=mk)


def fast(fn, ten):
    def setup(c):
        x = c.f("x", 32)
        r = fast_log2(c, x)
        if ten:
            r = r * f32(0.30102999566)
        c.ensures("result is the approximation formula", lambda P: c.rv(P.ret).eq(r))

    def mk(L, models, rng):
        f = L.fn(fn, ctypes.c_float, ctypes.c_float)
        for g in gains(32, rng):
            if g <= 0:
                continue

            def run(g=np.float32(g).item()):
                r, want = f(g), (math.log10 if ten else math.log2)(g)
                return None if abs(r - want) <= 1e-3 else "returned %r, true logarithm %r" % (r, want)
            yield Case({"x": g}, run)
    return Contract("C09", fn, setup, lib="unit", search=mk)


def mlog2(fw):
    fn = "mlog2_f%d" % fw

    def setup(c):
        x = c.f("x", fw)
        c.ensures("result is log2", lambda P: c.rv(P.ret).eq(c.lib("log2", c.rv(x))))
    return Contract("C09", fn, setup, lib="unit", search=scalar_search(
        fn, ("f", fw), [("f", fw)], lambda rng, ms: ((rng.uniform(1e-6, 1e6),) for _ in range(1000)),
        lambda r, x: None if abs(r - math.log2(x)) < 1e-4 else "returned %r" % r))


CONTRACTS = []
for fw in (32, 64):
    s = "f%d" % fw
    CONTRACTS += [db("db_" + s, fw, False, False), db("dbx_" + s, fw, False, True), db("dbacc_" + s, fw, False, True),
                  db("dbest_" + s, fw, True, False), db("dbxest_" + s, fw, True, True), mlog2(fw)]
CONTRACTS += [fast("fast_log2_f32", False), fast("fast_log10_f32", True)]
