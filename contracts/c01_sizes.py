"""C01: transform-size arithmetic: smallest power of two, base-2 logarithm, order <-> size."""
from .common import *

FUNCTIONS = ["neo::bit_ceil<uint8|16|32|64>", "neo::detail::bit_ceil_fallback<uint8|16|32|64>", "neo::bit_log2<uint8|16|32|64>",
             "neo::fft::next_order<all 8 standard integer types>", "neo::fft::size<all 8>", "neo::ipow<2>"]
ASSUMPTIONS = ["preconditions: the smallest power of two is representable in the type; the standalone fallback is given a positive argument"]


def is_pow2_ceil(x, r, w):
    """r is the smallest power of two not below x (unsigned); 1 for x = 0"""
    return z3.And(r & (r - 1) == 0, r != 0, z3.UGE(r, x), z3.Or(r == 1, z3.ULT(z3.LShR(r, BV(1, w)), x)))


def pyceil(x):
    return 1 if x <= 1 else 1 << (x - 1).bit_length()


def ceil_contract(fn, w, lo):
    def setup(c):
        x = c.i("x", w)
        c.requires(z3.UGE(x, lo), z3.ULE(x, 1 << (w - 1)))
        c.ensures("result is the smallest power of two that is not less than x", lambda P: is_pow2_ceil(x, P.ret, w))
    k = [("u", w)]
    return Contract("C01", fn, setup, lib="bits", unroll=w + 1, search=scalar_search(
        fn, k[0], k, lambda rng, ms: ((v,) for v in list(t[0] for t in model_tuples(ms, ["x"], k)) +
                                      list(scalar_values("u", w, rng, 3000)) if lo <= v <= 1 << (w - 1)),
        lambda r, x: None if r == pyceil(x) else "returned %d, smallest power of two is %d" % (r, pyceil(x))))


def log2_contract(fn, w):
    def setup(c):
        x = c.i("x", w)
        c.ensures("result is the position of the highest set bit",
                  lambda P: z3.If(x == 0, P.ret == 0, z3.And(z3.ULT(P.ret, w), z3.LShR(x, P.ret) == 1)))
    k = [("u", w)]
    want = lambda x: max(0, x.bit_length() - 1)
    return Contract("C01", fn, setup, lib="bits", unroll=w + 1, search=scalar_search(
        fn, k[0], k, lambda rng, ms: ((v,) for v in list(t[0] for t in model_tuples(ms, ["x"], k)) + list(scalar_values("u", w, rng, 3000))),
        lambda r, x: None if r == want(x) else "returned %d, expected %d" % (r, want(x))))


def order_contract(fn, kind, w):
    hi = 1 << (w - 1) if kind == "u" else (1 << (w - 1)) - 1

    def setup(c):
        x = c.i("x", w)
        c.requires(z3.ULE(x, hi))

        def post(P):
            r = P.ret
            return z3.And(z3.ULT(r, w), z3.UGE(BV(1, w) << r, x),
                          z3.Or(r == 0, z3.ULT(BV(1, w) << (r - 1), x)))
        c.ensures("result is the smallest k with 2^k >= size", post)
    k = [(kind, w)]
    want = lambda x: 0 if x <= 1 else (x - 1).bit_length()
    return Contract("C01", fn, setup, lib="bits", unroll=w + 1, search=scalar_search(
        fn, k[0], k, lambda rng, ms: ((v,) for v in list(t[0] for t in model_tuples(ms, ["x"], k)) +
                                      list(scalar_values(kind, w, rng, 3000)) if 0 <= v <= hi),
        lambda r, x: None if r == want(x) else "returned %d, expected %d" % (r, want(x))))


def size_contract(fn, kind, w):
    hi = w - 1 if kind == "u" else w - 2

    def setup(c):
        x = c.i("order", w)
        c.requires(z3.ULE(x, hi))
        c.ensures("result is 2^order", lambda P: P.ret == BV(1, w) << x)
    k = [(kind, w)]
    return Contract("C01", fn, setup, lib="bits", unroll=w + 1, search=scalar_search(
        fn, k[0], k, lambda rng, ms: ((v,) for v in range(hi + 1)),
        lambda r, x: None if r == 1 << x else "returned %d, expected %d" % (r, 1 << x)))


def roundtrip_contract(fn, kind, w):
    hi = 1 << (w - 1) if kind == "u" else 1 << (w - 2)

    def setup(c):
        x = c.i("x", w)
        c.requires(z3.ULE(x, hi))
        c.ensures("the size of the next order is the smallest power of two that fits", lambda P: is_pow2_ceil(x, P.ret, w))
    k = [(kind, w)]
    return Contract("C01", fn, setup, lib="bits", unroll=w + 1, search=scalar_search(
        fn, k[0], k, lambda rng, ms: ((v,) for v in list(t[0] for t in model_tuples(ms, ["x"], k)) +
                                      list(scalar_values(kind, w, rng, 3000)) if 0 <= v <= hi),
        lambda r, x: None if r == pyceil(x) else "returned %d, expected %d" % (r, pyceil(x))))


CONTRACTS = []
for w in (8, 16, 32, 64):
    CONTRACTS += [ceil_contract("bit_ceil_u%d" % w, w, 0), ceil_contract("bit_ceil_fallback_u%d" % w, w, 1), log2_contract("bit_log2_u%d" % w, w)]
for k, w in INTS:
    CONTRACTS += [order_contract("next_order_%s%d" % (k, w), k, w), size_contract("fft_size_%s%d" % (k, w), k, w),
                  roundtrip_contract("size_of_next_order_%s%d" % (k, w), k, w)]
