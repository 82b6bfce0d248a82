"""C06: fixed-point SIMD batches: every lane of load / store / broadcast / + / - / * behaves like the saturating scalar."""
from .common import *
from .c05_fixed_bulk import ok_elem, py_ok

FUNCTIONS = ["neo::q7x16, q15x8 (SSE2/SSE4.1), q7x32, q15x16 (AVX2), q7x64, q15x32 (AVX-512BW): load_unaligned, store_unaligned, broadcast, +, -, *",
             "neo::detail::mul_kernel_s8<7>, mul_kernel_s16<15>, mul_kernel_avx2_s16<15>, mul_kernel_avx512_s16<15>"]
ASSUMPTIONS = ["NEON batches are not compiled on this machine and are not covered"]
BATCHES = [("q7x16", 8, 7, 16, "", True), ("q15x8", 16, 15, 8, "", True), ("q7x32", 8, 7, 32, "", False), ("q15x16", 16, 15, 16, "", True),
           ("q7x64", 8, 7, 64, "avx512", False), ("q15x32", 16, 15, 32, "avx512", True),
           ("q7x16", 8, 7, 16, "sse2", False), ("q15x8", 16, 15, 8, "sse2", False), ("q7x16", 8, 7, 16, "sse41", True), ("q15x8", 16, 15, 8, "sse41", True)]


def mk_search(fn, w, fb, N, op):
    dt = np.dtype("int%d" % w)

    def mk(L, models, rng):
        if op == "bcast":
            f = L.fn(fn, None, CT[("i", w)], PTR)
            for v in range(-(1 << w - 1), 1 << w - 1, 1 if w == 8 else 37):
                def run(v=v):
                    O = arena(0).place(np.zeros(N, dt))
                    f(v, O.ptr)
                    return None if (O.arr == v).all() and O.intact() else "broadcast(%d) stores %s" % (v, O.arr.tolist())
                yield Case({"v": v}, run)
            return
        nin = 1 if op == "copy" else 2
        f = L.fn(fn, None, *[PTR] * (nin + 1))
        for it in range(100000):
            a, b = ints(w, rng, N), ints(w, rng, N)

            def run(a=a, b=b, end=bool(it & 1)):
                A, B, O = arena(0).place(a, end), arena(1).place(b, end), arena(2).place(np.zeros(N, dt), end)
                f(*([A.ptr] + ([B.ptr] if nin == 2 else []) + [O.ptr]))
                goods = [a] if op == "copy" else py_ok(op, w, fb, a, b)
                good = np.zeros(N, bool)
                for g in goods:
                    good |= O.arr == g
                if not good.all():
                    k = int(np.argmin(good))
                    return "lane %d: %d, %d gives %d, expected %d" % (k, a[k], b[k], O.arr[k], goods[0][k])
                if not O.intact():
                    return "store writes outside the batch"
            yield Case({"a": a, "b": b}, run)
    return mk


def batch(B, w, fb, N, arch, op):
    fn = "%s_%s" % (B, op)

    def setup(c):
        if op == "bcast":
            v = c.i("v", w)
            o = c.arr("out", w, N, True)
            lanes(c, "lane %d is the broadcast value", N, lambda S, k: o.at(S, k) == v)
            return
        a = c.arr("a", w, N)
        if op != "copy":
            b = c.arr("b", w, N)
        o = c.arr("out", w, N, True)
        if op == "copy":
            lanes(c, "store after load reproduces lane %d", N, lambda S, k: o.at(S, k) == a.pre(k))
        else:
            lanes(c, "lane %d is the saturated " + op, N, lambda S, k: ok_elem(c, op, w, fb, a.pre(k), b.pre(k), o.at(S, k)))
    return Contract("C06", fn, setup, lib="fixed" + ("@" + arch if arch else ""), variant=arch, cost=3, unroll=N + 1,
                    search=mk_search(fn, w, fb, N, op) if arch != "avx512" or has512() else None)


def has512():
    return "avx512bw" in open("/proc/cpuinfo").read()


CONTRACTS = []
for B, w, fb, N, arch, hasmul in BATCHES:
    for op in ("add", "sub", "copy", "bcast") + (("mul",) if hasmul else ()):
        CONTRACTS.append(batch(B, w, fb, N, arch, op))
