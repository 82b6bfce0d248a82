"""C04: conversion between floating point and fixed point (IEEE-754 semantics, no idealisation)."""
from .common import *
from .c03_fixed_scalar import FORMATS, pysat
from vc.fp import FSORT, RNE
from fractions import Fraction
import math, struct

FUNCTIONS = ["neo::fixed_point<...>::fixed_point(float|double)", "neo::fixed_point<...>::operator float|double", "neo::to_float", "neo::to_double"]
ASSUMPTIONS = ["NaN inputs are excluded; a double is first rounded to single precision (round to nearest even), as documented by the type's float scale"]
F32 = FSORT[32]


def from_float(name, w, fb, fw):
    fn = "%s_from_f%d" % (name, fw)
    lo, hi = -(1 << w - 1), (1 << w - 1) - 1

    def setup(c):
        x = c.f("x", fw)
        f = z3.fpBVToFP(x, FSORT[fw])
        c.requires(z3.Not(z3.fpIsNaN(f)))
        if fw != 32:
            f = z3.fpFPToFP(RNE, f, F32)
        y = z3.fpMul(RNE, f, z3.FPVal(float(1 << fb), F32))
        spec = z3.If(z3.fpLEQ(y, z3.FPVal(float(lo), F32)), BV(lo, w),
                     z3.If(z3.fpGEQ(y, z3.FPVal(float(hi), F32)), BV(hi, w), z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(w))))
        c.ensures("result is x * 2^F truncated toward zero and saturated", lambda P: P.ret == spec)

    def want(x):
        x = float(np.float32(x)) if fw != 32 else x
        if math.isinf(x):
            return hi if x > 0 else lo
        return pysat(math.trunc(Fraction(x) * (1 << fb)), w)

    def gen(rng, ms):
        for m in ms:
            try:
                yield (struct.unpack("<f" if fw == 32 else "<d", m["x"].to_bytes(fw // 8, "little"))[0],)
            except Exception:
                pass
        for v in range(-(1 << min(w, 12)), 1 << min(w, 12)):
            for d in (0, 0.25, 0.5, 0.75):
                yield ((v + d) / (1 << fb),)
        for v in (0.0, -0.0, 1.0, -1.0, 0.999999, -0.999999, 1e30, -1e30, 1e-30, math.inf, -math.inf, 127.99, -128.5, 300.0, -300.0, 1e9, -1e9, 3e9,
                  -3e9, 1e5, -1e5):
            yield (v,)
            yield (v / (1 << fb),)
        for _ in range(20000):
            yield (rng.uniform(-2.2, 2.2) * (1 << (w - 1 - fb)),)
    ct = CT[("f", fw)]

    def mk(L, models, rng):
        f = L.fn(fn, CT[("i", w)], ct)
        for (x,) in gen(rng, models):
            x = ct(x).value
            if x != x:
                continue

            def run(x=x):
                r = f(x)
                return None if r == want(x) else "returned %d, expected %d" % (r, want(x))
            yield Case({"x": repr(x)}, run)
    return Contract("C04", fn, setup, lib="fixed", fpmode="ieee", search=mk, timeout=120, wall=400, cost=5)


def to_float(name, w, fb, fn, fw):
    fn = "%s_%s" % (name, fn)

    def setup(c):
        a = c.i("a", w)
        s = FSORT[fw]
        spec = z3.fpMul(RNE, z3.fpSignedToFP(RNE, a, s), z3.FPVal(1.0 / (1 << fb), s))
        c.ensures("result is exactly value / 2^F", lambda P: P.ret == z3.fpToIEEEBV(spec))
    return Contract("C04", fn, setup, lib="fixed", fpmode="ieee", timeout=120, wall=400, search=scalar_search(
        fn, ("f", fw), [("i", w)], lambda rng, ms: ((v,) for v in range(-(1 << w - 1), 1 << w - 1)),
        lambda r, a: None if r == a / (1 << fb) else "returned %r, expected %r" % (r, a / (1 << fb))))


def roundtrip(name, w, fw):
    fn = "%s_rt_f%d" % (name, fw)

    def setup(c):
        a = c.i("a", w)
        c.ensures("converting to floating point and back is the identity", lambda P: P.ret == a)
    return Contract("C04", fn, setup, lib="fixed", fpmode="ieee", timeout=120, wall=400, search=scalar_search(
        fn, ("i", w), [("i", w)], lambda rng, ms: ((v,) for v in range(-(1 << w - 1), 1 << w - 1)),
        lambda r, a: None if r == a else "returned %d for %d" % (r, a)))


CONTRACTS = []
for name, w, fb in FORMATS:
    CONTRACTS += [from_float(name, w, fb, 32), from_float(name, w, fb, 64), roundtrip(name, w, 32), roundtrip(name, w, 64)]
    CONTRACTS += [to_float(name, w, fb, "to_f32", 32), to_float(name, w, fb, "to_f64", 64), to_float(name, w, fb, "cast_f32", 32),
                  to_float(name, w, fb, "cast_f64", 64)]
