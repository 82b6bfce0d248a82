"""C20: the transform kernels and plans compute the discrete Fourier transform."""
from .common import *
from .registry import ASSUME_FP
from .c13_linalg import TY, rnd
from .fftspec import Stages
from vc.mem import div_exact, lin

FUNCTIONS = ["neo::fft::kernel::c2c_dit2_v3 (proved: every butterfly stage, every order up to 27)",
             "bounded stand-ins: neo::fft::kernel::c2c_dit2_v1, v2, v4; neo::fft::fft_plan / c2c_dit2_plan and neo::fft::fft / ifft in place and out of place; "
             "neo::fft::split_fft_plan; c2c_dit4, c2c_dif4, c2c_dif3, c2c_dif5, c2c_stockham_dif2r/dif2i/dif3/dif4/dif5/dif8/dit4 plans"]
ASSUMPTIONS = ASSUME_FP + ["the step from 'every stage of the decimation-in-time recursion is applied to the bit-reversed input' to the Fourier sum is the textbook Cooley-Tukey identity",
                           "bounded stand-ins are compared with the transform computed by numpy in double precision, to a relative tolerance of 2e-4 (float) and 1e-9 (double)"]


def dec2(idx):
    """element index of an interleaved array -> complex index"""
    d, cst = lin(idx)
    return div_exact(norm(idx - c64(cst & 1)), 2)


CTY = {"c64": np.complex64, "c128": np.complex128, "n64": np.complex64, "n128": np.complex128, "f32": np.complex64, "f64": np.complex128}
TOL = {np.complex64: 2e-4, np.complex128: 1e-9}


def dft_of(x, back):
    x = x.astype(np.complex128)
    return np.fft.ifft(x) * len(x) if back else np.fft.fft(x)


def off(got, want, dt):
    """None if close, else a description"""
    got = got.astype(np.complex128)
    lim = TOL[dt] * (1e-6 + np.max(np.abs(want), initial=0))
    d = np.abs(got - want)
    if (d <= lim).all():
        return None
    k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
    return "element %d is %r, expected %r" % (k, complex(got[k]), complex(want[k]))


def signals(n, dt, rng, nrand=2, basis=64):
    """every basis vector of a short transform (a linear map is determined by them), then random signals"""
    if n <= basis:
        for i in range(n):
            for v in (1, 1j):
                x = np.zeros(n, dt)
                x[i] = v
                yield x
    r = np.random.default_rng(rng.getrandbits(32))
    for _ in range(nrand):
        yield (r.normal(size=n) + 1j * r.normal(size=n)).astype(dt)


def pages(n, dt):
    return max(8, (n * np.dtype(dt).itemsize + 4095) // 4096)


def sizes(rng, orders, deep, big=()):
    """orders within the stated bound, each once; then all of them again and again with fresh random signals"""
    for o in orders:
        yield o, True
        if o == 4:      # a few long ones early on
            for b in big:
                yield b, False
    while True:
        yield rng.choice(deep), False


def transform_search(call, dt, radix, orders, deep):
    """call(L) -> f(order, x) -> result array, error or None"""
    def mk(L, models, rng):
        f = call(L)
        top = max(orders)
        big = [o for o in range(top + 1, 20) if radix ** o <= 1 << 18]
        big = list(model_ints(models, "order", 0, 20 if radix == 2 else 8)) + big
        for o, first in sizes(rng, orders, deep, big):
            n = radix ** o
            for x in signals(n, dt, rng, 1 if n > 1 << 15 else 2, 64 if first else 0):
                for back in (0, 1):
                    def run(o=o, x=x, back=back, n=n):
                        got, err = f(o, x, back)
                        return err or off(got, dft_of(x, back), dt)
                    yield Case({"order": o, "size": n, "input": x if n <= 64 else "random, size %d" % n, "backward": bool(back)}, run)
    return mk


def inplace(fn, dt, ret=False):
    def call(L):
        f = L.fn(fn, SIZE if ret else None, SIZE, PTR, ctypes.c_int)

        def go(o, x, back):
            X = arena(0, pages(len(x), dt)).place(x)
            r = f(o, X.ptr, back)
            if ret and r != len(x):
                return X.arr, "the plan reports size %d" % r
            return X.arr, None if X.intact() else "wrote outside the signal"
        return go
    return call


def outofplace(fn, dt):
    def call(L):
        f = L.fn(fn, None, SIZE, PTR, PTR, ctypes.c_int, SIZE)

        def go(o, x, back):
            n = len(x)
            xx = np.concatenate([x, x[::-1], x])
            X, O = arena(0, pages(3 * n, dt)).place(xx), arena(1, pages(3 * n, dt)).place(np.full(3 * n, 9, dt))
            f(o, X.ptr, O.ptr, back, 3)
            if not (X.arr == xx).all():
                return O.arr, "the input was changed"
            if not (X.intact() and O.intact()):
                return O.arr, "wrote outside the output"
            for j, part in ((0, x), (1, x[::-1])):
                e = off(O.arr[j * n:j * n + n], dft_of(part, back), dt)
                if e:
                    return O.arr, "call %d of the same plan: %s" % (j + 1, e)
            return O.arr[2 * n:], None
        return go
    return call


def split(fn, dt, out):
    fl = np.float32 if dt == np.complex64 else np.float64

    def call(L):
        f = L.fn(fn, None, SIZE, *([PTR] * (4 if out else 2)), ctypes.c_int)

        def go(o, x, back):
            re, im = x.real.astype(fl), x.imag.astype(fl)
            B = [arena(i, pages(len(x), fl)).place(v) for i, v in enumerate([re, im] + [np.full(len(x), 9, fl)] * (2 if out else 0))]
            f(o, *[b.ptr for b in B], back)
            if not all(b.intact() for b in B):
                return x, "wrote outside the signal"
            if out and not ((B[0].arr == re).all() and (B[1].arr == im).all()):
                return x, "the input was changed"
            return B[-2].arr + 1j * B[-1].arr.astype(np.complex128), None
        return go
    return call


def kernel_search(fn, dt):
    def call(L):
        f = L.fn(fn, None, SIZE, PTR, PTR)

        def go(o, x, back):
            n = len(x)
            i, rev = np.arange(n), np.zeros(n, np.int64)
            for _ in range(o):
                rev, i = rev * 2 + i % 2, i // 2
            w = np.exp((2j if back else -2j) * np.pi * np.arange(n // 2) / n).astype(dt)
            X, W = arena(0, pages(n, dt)).place(x[rev]), arena(1, pages(n, dt)).place(w)
            f(o, X.ptr, W.ptr)
            return X.arr, None if X.intact() and W.intact() and (W.arr == w).all() else "wrote outside the signal"
        return go
    return transform_search(call, dt, 2, range(0, 11), range(0, 13))


def kernel(v, ty):
    w, parts, dt = TY[ty]
    fn = "dit2_%s_%s" % (v, ty)

    def setup(c):
        c.instantiate = True
        order = c.i("order")
        c.requires(z3.ULE(order, 27))
        N = c64(1) << order
        x = c.arr("x", w, N * 2, True)
        tw = c.arr("twiddle", w, z3.LShR(N, c64(1)) * 2)
        k = z3.BitVec("k0_stage", 64)
        S = Stages(c, order, lambda i: c.rv(x.pre(i * 2)), lambda i: c.rv(x.pre(i * 2 + 1)), lambda j: c.rv(tw.pre(j * 2)), lambda j: c.rv(tw.pre(j * 2 + 1)),
                   lambda M, i: c.rv(x.at(M, i * 2)), lambda M, i: c.rv(x.at(M, i * 2 + 1)), dec2)
        S.base(k)
        c.hint(S.scalar_hints())
        c.hint(S.hint(k, [x.r], lambda i: z3.ULT(i, N)))
        e = c.forall("element k is the result of every stage", lambda i: z3.ULT(i, N), lambda M, i: S.holds(M, N, i), [x], pos=[lambda i: i * 2, lambda i: i * 2 + 1])
        e.ks = [k]
        e.noauto = True
        c.cover("large", lambda P: order == 20)
    if v != "v3":
        return Contract("C20", fn, None, lib="fft", search=kernel_search(fn, CTY[ty]), bounded="orders 0 to 10, both twiddle directions, every basis vector up to size 64")
    return Contract("C20", fn, setup, lib="fft", cost=5, wall=500, search=kernel_search(fn, CTY[ty]))




def plan(nm, ty, radix, top, deep):
    fn = "plan_%s_%s" % (nm, ty)
    return Contract("C20", fn, None, lib="xform", bounded="orders 0 to %d, forward and backward, every basis vector up to size 64, random signals above" % top,
                    search=transform_search(inplace(fn, CTY[ty], True), CTY[ty], radix, range(0, top + 1), range(0, deep + 1)))


def fp(fn, ty, mk):
    return Contract("C20", fn, None, lib="xform", bounded="orders 0 to 10, forward and backward, every basis vector up to size 64, random signals above",
                    search=transform_search(mk, CTY[ty], 2, range(0, 11), range(0, 13)))


CONTRACTS = [kernel(v, t) for v in ("v3", "v1", "v2", "v4") for t in ("c64", "c128")]
CONTRACTS += [plan("fft", t, 2, 12, 14) for t in ("c64", "c128", "n64", "n128")]
CONTRACTS += [plan("exp", t, 2, 10, 11) for t in ("c64", "c128")]
CONTRACTS += [plan("dit2_" + v, t, 2, 10, 11) for v in ("v1", "v2", "v4") for t in ("c64", "c128")]
for nm, radix, top in (("dit4", 4, 5), ("dif4", 4, 5), ("dif3", 3, 6), ("dif5", 5, 4), ("stockham_dif2r", 2, 10), ("stockham_dif2i", 2, 10), ("stockham_dif3", 3, 6),
                       ("stockham_dif4", 4, 5), ("stockham_dif5", 5, 4), ("stockham_dif8", 8, 4), ("stockham_dit4", 4, 5)):
    CONTRACTS += [plan(nm, t, radix, top, top) for t in ("c64", "c128")]
CONTRACTS += [fp("fft_free_" + t, t, outofplace("fft_free_" + t, CTY[t])) for t in ("c64", "c128", "n64")]
CONTRACTS += [fp("fft_inplace_" + t, t, inplace("fft_inplace_" + t, CTY[t])) for t in ("c64", "c128", "n64")]
CONTRACTS += [fp("split_" + t, t, split("split_" + t, CTY[t], False)) for t in ("f32", "f64")]
CONTRACTS += [fp("split_out_" + t, t, split("split_out_" + t, CTY[t], True)) for t in ("f32", "f64")]
