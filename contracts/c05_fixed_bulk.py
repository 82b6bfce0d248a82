"""C05: bulk fixed-point add / subtract / multiply over spans of every length, also in place, on every x86 kernel."""
from .common import *
from .c03_fixed_scalar import FORMATS, pysat

FUNCTIONS = ["neo::add / neo::subtract / neo::multiply over std::span<fixed_point<...>> (10 formats)", "neo::detail::apply_fixed_point_kernel",
             "neo::simd::apply_kernel", "neo::detail::{add,sub,mul}_kernel_s8/s16 (SSE2, SSE4.1)"]
ASSUMPTIONS = ["spans have equal length (documented by the assert) and length < 2^32; output is disjoint from the inputs or exactly one of them",
               "the NEON kernels are not compiled on this machine and are not covered"]


def spec_mul(c, x, y, w, fb):
    """exact floor, or round half up for the Q0.15 kernel (documented rounding differs between lanes and tail)"""
    p = c.mul(x, y)
    return sat(p >> fb, w), sat(((p >> (fb - 1)) + 1) >> 1, w)


def ok_elem(c, op, w, fb, a, b, r):
    x, y = z3.SignExt(w, a), z3.SignExt(w, b)
    if op == "add":
        return r == sat(x + y, w)
    if op == "sub":
        return r == sat(x - y, w)
    lo, near = spec_mul(c, x, y, w, fb)
    if fb == 15:
        return z3.Or(r == lo, r == near)
    return r == lo


def py_ok(op, w, fb, a, b):
    a, b = a.astype(np.int64), b.astype(np.int64)
    lo, hi = -(1 << w - 1), (1 << w - 1) - 1
    if op == "add":
        return [np.clip(a + b, lo, hi)]
    if op == "sub":
        return [np.clip(a - b, lo, hi)]
    p = a * b
    r = [np.clip(p >> fb, lo, hi)]
    if fb == 15:
        r.append(np.clip(((p >> 14) + 1) >> 1, lo, hi))
    return r


def bulk_search(fn, w, fb, op, fixed=None):
    dt = np.dtype("int%d" % w)

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, PTR, PTR, *([SIZE] if fixed is None else []))

        def case(a, b, alias, end):
            n = len(a)

            def run():
                A = arena(0).place(a, end)
                B = arena(1).place(b, end)
                O = A if alias == "lhs" else B if alias == "rhs" else arena(2).place(np.zeros(n, dt), end)
                f(A.ptr, B.ptr, O.ptr, *([n] if fixed is None else []))
                good = np.zeros(n, bool)
                for g in py_ok(op, w, fb, a, b):
                    good |= O.arr == g
                if not good.all():
                    k = int(np.argmin(good))
                    return "element %d: %d %s %d gives %d, expected %d" % (k, a[k], op, b[k], O.arr[k], py_ok(op, w, fb, a, b)[0][k])
                if not O.intact():
                    return "wrote outside the output span"
                if O is not A and not (A.arr == a).all() or O is not B and not (B.arr == b).all():
                    return "modified an input"
            return Case({"lhs": a, "rhs": b, "in_place": alias}, run)
        for m in models:
            try:
                a = np.array([((v + (1 << w - 1)) % (1 << w)) - (1 << w - 1) for v in m["lhs"]], dt)
                b = np.array([((v + (1 << w - 1)) % (1 << w)) - (1 << w - 1) for v in m["rhs"]], dt) if "rhs" in m else a
                if len(a) == len(b) and (fixed is None or len(a) == fixed):
                    yield case(a, b, None, True)
            except Exception:
                pass
        for n in ([fixed] * 6 if fixed is not None else LENGTHS):
            for alias in (None, "lhs", "rhs"):
                for end in (True, False):
                    yield case(ints(w, rng, n), ints(w, rng, n), alias, end)
        if w == 8 and fixed is None:
            for a in range(-128, 128):
                for n0 in (0, 3):
                    yield case(np.array([a] * (256 + n0), dt), np.array((list(range(-128, 128)) + [1, 2, 3])[:256 + n0], dt), None, True)
        while True:
            n = fixed if fixed is not None else rng.choice(LENGTHS)
            yield case(ints(w, rng, n), ints(w, rng, n), rng.choice([None, None, "lhs", "rhs"]), rng.random() < .5)
    return mk


def bulk(name, w, fb, op, alias=None, arch="", fixed=None, fnname=None, tier="quick"):
    fn = fnname or "%s_v%s" % (name, op)

    def setup(c):
        n = z3.BitVec("n", 64) if fixed is None else c64(fixed)
        a = c.arr("lhs", w, n)
        b = c.arr("rhs", w, n)
        o = c.same(a) if alias == "lhs" else c.same(b) if alias == "rhs" else c.arr("out", w, n, True)
        if fixed is None:
            c.args.append(n)
            c.symbols.append(("n", n))
            c.requires(z3.ULT(n, 1 << 32))
            c.cover("long spans", lambda P: z3.UGT(n, 1000))
        c.forall("out[k] is the saturated " + op, lambda k: z3.ULT(k, n), lambda S, k: ok_elem(c, op, w, fb, a.pre(k), b.pre(k), o.at(S, k)), [o])
    return Contract("C05", fn, setup, lib="fixed" + ("@" + arch if arch else ""),
                    variant=",".join(x for x in (arch, "in-place " + alias if alias else "") if x), tier=tier,
                    search=bulk_search(fn, w, fb, op, fixed) if arch != "avx512" else None, skey=fn, cost=10)


CONTRACTS = []
for name, w, fb in FORMATS:
    for op in ("add", "sub", "mul"):
        main = name in ("q7_7", "q15_15")
        CONTRACTS.append(bulk(name, w, fb, op))
        CONTRACTS.append(bulk(name, w, fb, op, alias="lhs", tier="quick" if main or op == "mul" else "thorough"))
        CONTRACTS.append(bulk(name, w, fb, op, alias="rhs", tier="quick" if main else "thorough"))
        CONTRACTS.append(bulk(name, w, fb, op, arch="sse2", tier="quick" if main else "thorough"))
        CONTRACTS.append(bulk(name, w, fb, op, arch="sse41", tier="quick" if main and op == "mul" else "thorough"))
        CONTRACTS.append(bulk(name, w, fb, op, alias="lhs", arch="sse2", tier="thorough"))
CONTRACTS.append(bulk("q7_7", 8, 7, "mul", fixed=21, fnname="q7_7_vmul21"))
CONTRACTS.append(bulk("q15_15", 16, 15, "add", fixed=19, fnname="q15_15_vadd19"))
