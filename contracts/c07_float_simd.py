"""C07: floating-point SIMD batches: every lane equals the scalar operation."""
from .common import *
from .c06_fixed_simd import has512

FUNCTIONS = ["neo::float32x4, float64x2 (SSE2), float32x8, float64x4 (AVX), float16x8, float16x16 (F16C), float32x16, float64x8 (AVX-512F): "
             "load_unaligned, store_unaligned, broadcast, +, -, *"]
from .registry import ASSUME_FP
ASSUMPTIONS = ASSUME_FP + ["half precision lanes: the operation is done in single precision and rounded once to half (round16 is uninterpreted)",
                           "NEON batches are not compiled on this machine and are not covered"]
BATCHES = [("float32x4", 32, 4, ""), ("float64x2", 64, 2, ""), ("float32x8", 32, 8, ""), ("float64x4", 64, 4, ""), ("float16x8", 16, 8, ""),
           ("float16x16", 16, 16, ""), ("float32x16", 32, 16, "avx512"), ("float64x8", 64, 8, "avx512")]
DT = {16: np.float16, 32: np.float32, 64: np.float64}


def search(fn, w, N, op):
    dt = DT[w]

    def mk(L, models, rng):
        nin = 2 if op in ("add", "sub", "mul") else 1
        f = L.fn(fn, None, *[PTR] * (nin + 1))
        for it in range(20000):
            a, b = floats(dt, rng, N), floats(dt, rng, N)
            if it < 4 * N:   # one distinguished lane
                a[:] = 1
                b[:] = 1
                a[it % N], b[it % N] = 3, 2

            def run(a=a, b=b, end=bool(it & 1)):
                src = a[:1] if op == "bcast" else a
                A, B, O = arena(0).place(src, end), arena(1).place(b, end), arena(2).place(np.zeros(N, dt), end)
                f(*([A.ptr] + ([B.ptr] if nin == 2 else []) + [O.ptr]))
                want = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "copy": lambda: a,
                        "bcast": lambda: np.full(N, a[0], dt)}[op]()
                if w == 16 and nin == 2:
                    x, y = a.astype(np.float32), b.astype(np.float32)
                    want = {"add": x + y, "sub": x - y, "mul": x * y}[op].astype(np.float16)
                if not (O.arr == want).all():
                    k = int(np.argmin(O.arr == want))
                    return "lane %d: %r, %r gives %r, expected %r" % (k, a[k], b[k], O.arr[k], want[k])
                if not O.intact():
                    return "store writes outside the batch"
            yield Case({"a": a, "b": b}, run)
    return mk


def batch(B, w, N, arch, op):
    fn = "%s_%s" % (B, op)

    def setup(c):
        if op == "bcast":
            a = c.arr("v", w, 1)
            o = c.arr("out", w, N, True)
            lanes(c, "lane %d is the broadcast value", N, lambda S, k: o.at(S, k) == a.pre(c64(0)))
            return
        a = c.arr("a", w, N)
        if op == "copy":
            o = c.arr("out", w, N, True)
            lanes(c, "store after load reproduces lane %d", N, lambda S, k: o.at(S, k) == a.pre(k))
            return
        b = c.arr("b", w, N)
        o = c.arr("out", w, N, True)

        def spec(S, k):
            x, y = a.rpre(k), b.rpre(k)
            r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
            if w == 16:
                r = c.rv(c.fp.round_to(16, r.t()))
            return o.rat(S, k).eq(r)
        lanes(c, "lane %d is the scalar " + op, N, spec)
    return Contract("C07", fn, setup, lib="simd" + ("@" + arch if arch else ""), variant=arch, unroll=N + 1, search=search(fn, w, N, op) if arch != "avx512" or has512() else None)


CONTRACTS = [batch(B, w, N, arch, op) for B, w, N, arch in BATCHES for op in ("add", "sub", "mul", "copy", "bcast")]
