"""Shared pieces of the contracts."""
import ctypes
import numpy as np
import z3
from vc.contract import Contract, c64, RV
from vc.mem import norm
from vc.calls import sat
from vc.native import Case, arena, ints, floats, close, LENGTHS, jsonable

BV = z3.BitVecVal
CT = {("i", 8): ctypes.c_int8, ("i", 16): ctypes.c_int16, ("i", 32): ctypes.c_int32, ("i", 64): ctypes.c_int64,
      ("u", 8): ctypes.c_uint8, ("u", 16): ctypes.c_uint16, ("u", 32): ctypes.c_uint32, ("u", 64): ctypes.c_uint64,
      ("f", 32): ctypes.c_float, ("f", 64): ctypes.c_double, ("b", 8): ctypes.c_bool}
INTS = [("u", 8), ("u", 16), ("u", 32), ("u", 64), ("i", 8), ("i", 16), ("i", 32), ("i", 64)]
SIZE = ctypes.c_size_t
PTR = ctypes.c_void_p


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def scalar_values(kind, w, rng, count, ok=lambda x: True):
    """boundary values first, then random ones of every magnitude"""
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if kind == "i" else (0, (1 << w) - 1)
    if w == 8:
        vals = list(range(lo, hi + 1))
    else:
        vals = list(range(0, 70)) + [-x for x in range(1, 70)] + [hi - x for x in range(5)] + [lo + x for x in range(5)]
        for b in range(w):
            vals += [(1 << b) + d for d in (-2, -1, 0, 1, 2)] + [-(1 << b) + d for d in (-1, 0, 1)]
        for _ in range(count):
            vals.append(rng.getrandbits(rng.randint(1, w)) * rng.choice([1, -1 if kind == "i" else 1]))
    seen = set()
    for v in vals:
        if lo <= v <= hi and v not in seen and ok(v):
            seen.add(v)
            yield v


def scalar_search(fn, ret, argt, gen, oracle):
    """gen(rng, models) yields argument tuples; oracle(*args) -> predicate description: returns None or an error given result"""
    def mk(L, models, rng):
        f = L.fn(fn, CT[ret], *[CT[a] for a in argt])
        for args in gen(rng, models):
            def run(args=args):
                return oracle(f(*args), *args)
            yield Case({"args": list(args)}, run)
    return mk


def model_tuples(models, names, kinds):
    for m in models:
        try:
            yield tuple(signed(m[n], w) if k == "i" else m[n] for n, (k, w) in zip(names, kinds))
        except (KeyError, TypeError):
            pass


def model_ints(models, name, lo, hi):
    """values the verifier's counterexamples give to an argument, where they can be executed"""
    seen = set()
    for m in models:
        v = m.get(name)
        if isinstance(v, int) and lo <= v <= hi and v not in seen:
            seen.add(v)
            yield v


def lanes(c, name, n, pred):
    """one postcondition per lane of a fixed-size batch"""
    for k in range(n):
        c.ensures(name % k, lambda P, k=k: pred(P, c64(k)))
