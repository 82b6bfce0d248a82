"""C22: twiddle factors and bin frequencies."""
from .common import *
from .registry import ASSUME_FP
from fractions import Fraction
import math, cmath

FUNCTIONS = ["neo::fft::twiddle<std::complex<float|double>, neo::scalar_complex<float|double>> on std::size_t and int", "neo::fft::fill_twiddle_lut_radix2",
             "neo::fft::make_twiddle_lut_radix2", "neo::math::polar", "neo::rfftfreq (scalar and vector)"]
ASSUMPTIONS = ASSUME_FP + ["std::cos and std::sin are uninterpreted functions of the real argument; the sine is odd and the cosine even", "transform size below 2^31",
                           "integer to floating-point conversion is exact"]
TY = {"c64": (32, np.complex64), "c128": (64, np.complex128), "n64": (32, np.complex64), "n128": (64, np.complex128)}
DT = {32: np.float32, 64: np.float64}


def spec(c, fw, n, i, fwd, sgn):
    """(cos, sin) of -+ 2 pi i / n"""
    two_pi = Fraction(float(DT[fw](math.pi * 2.0)))
    a = c.i2r(i, sgn) * two_pi / c.i2r(n, sgn)
    co, si = c.lib("cos", a), c.lib("sin", a)
    cn, sn = c.lib("cos", -a), c.lib("sin", -a)
    key = a.t().get_id()
    if key not in c.__dict__.setdefault("_odd", {}):
        c._odd[key] = a
        c.spec_axioms += [co.t() == cn.t(), si.t() == -sn.t()]
    return co.t(), -si.t() if fwd else si.t()


def want(n, i, fwd):
    return cmath.exp((-2j if fwd else 2j) * math.pi * i / n)


def scalar(ty, sgn, fwd):
    fw, dt = TY[ty]
    w = 32 if sgn else 64
    fn = ("twi_" if sgn else "tw_") + ty

    def setup(c):
        n, i = c.i("size", w), c.i("index", w)
        c.args.append(z3.BoolVal(fwd))
        o = c.arr("out", fw, 2, True)
        c.requires(z3.ULT(n, 1 << 31), z3.UGT(n, 0), z3.ULT(i, 1 << 31)) if w == 64 else c.requires(n > 0, i >= 0)
        c.ensures("real part is the cosine of the angle", lambda P: o.rat(P, c64(0)).t() == spec(c, fw, n, i, fwd, sgn)[0])
        c.ensures("imaginary part is the signed sine of the angle", lambda P: o.rat(P, c64(1)).t() == spec(c, fw, n, i, fwd, sgn)[1])

    def mk(L, models, rng):
        k = CT[("i", 32)] if sgn else SIZE
        f = L.fn(fn, None, k, k, ctypes.c_bool, PTR)

        def one(n, i, fwd):
            def run():
                O = arena(0).place(np.zeros(1, dt))
                f(n, i, fwd, O.ptr)
                return None if abs(O.arr[0] - want(n, i, fwd)) < (1e-5 if fw == 32 else 1e-11) and O.intact() else "returned %r, expected %r" % (O.arr[0], want(n, i, fwd))
            return Case({"size": n, "index": i, "forward": fwd}, run)
        for n in list(range(1, 40)) + [rng.randint(1, 5000) for _ in range(300)]:
            for i in {0, 1, n // 2, n - 1, rng.randrange(n), rng.randrange(2 * n)}:
                for fwd in (True, False):
                    yield one(n, i, fwd)
    return Contract("C22", fn, setup, lib="math", search=mk, variant="forward" if fwd else "backward", skey=fn)


def lut(ty, make, fwd, empty=False):
    fw, dt = TY[ty]
    fn = ("twmake_" if make else "twlut_") + ty

    def setup(c):
        n = z3.BitVec("n", 64)
        cnt = z3.LShR(n, c64(1)) if make else n
        o = c.arr("out", fw, cnt * c64(2), True)
        c.args.append(n)
        c.symbols.append(("n", n))
        c.args.append(z3.BoolVal(fwd))
        c.requires(z3.ULT(n, 1 << 30))
        size = n if make else n * c64(2)
        if make:
            c.requires(z3.ULT(n, 2) if empty else z3.UGE(n, 2))
            c.requires((n & c64(1)) == 0)
            size = z3.LShR(n, c64(1)) * c64(2)
            c.requires(size == n)
        if not empty:
            c.cover("long", lambda P: z3.UGT(n, 1000))

        def pred(S, k, a=o):
            e = spec(c, fw, size, k, fwd, False)
            return z3.And(a.rat(S, k * 2).t() == e[0], a.rat(S, k * 2 + 1).t() == e[1])
        E = c.forall("entry k is the twiddle factor k", lambda k: z3.ULT(k, cnt), pred, [o], pos=[lambda k: k * 2, lambda k: k * 2 + 1])
        if make:
            c.heap_forall(E, fw, lambda a, S, k: pred(S, k, a))

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, ctypes.c_bool)
        for n in list(LENGTHS):
            for fwd in (True, False):
                def run(n=n, fwd=fwd):
                    O = arena(0, 64).place(np.zeros(n, dt))
                    f(O.ptr, 2 * n if make else n, fwd)
                    for k in range(n):
                        e = want(2 * n, k, fwd)
                        if not abs(O.arr[k] - e) < (1e-5 if fw == 32 else 1e-11):
                            return "entry %d is %r, expected %r" % (k, O.arr[k], e)
                    if not O.intact():
                        return "wrote outside the output"
                yield Case({"entries": n, "forward": fwd}, run)
    return Contract("C22", fn, setup, lib="math", search=mk, cost=2, variant=("empty " if empty else "") + ("forward" if fwd else "backward"), skey=fn)


def freq(fw):
    fn = "rff_f%d" % fw

    def setup(c):
        n, i = c.i("size", 32), c.i("index", 32)
        s = c.rv(c.f("inv_sample_rate", 64))
        c.requires(n > 0, i >= 0)
        s2 = s if fw == 64 else c.rv(c.fp.trunc(c.args[2], 32))
        c.ensures("result is index * sample rate / size", lambda P: c.rv(P.ret).eq(c.i2r(i) / s2 / c.i2r(n)))
    return Contract("C22", fn, setup, lib="math", search=scalar_search(
        fn, ("f", fw), [("i", 32), ("i", 32), ("f", 64)],
        lambda rng, ms: ((n, i, 1 / sr) for n in range(1, 200) for i in {0, 1, n // 2, n - 1} for sr in (44100.0, 8000.0, 1.0)),
        lambda r, n, i, s: None if abs(r - i / (n * s)) <= (1e-5 if fw == 32 else 1e-12) * (1 + i / (n * s)) else "returned %r, expected %r" % (r, i / (n * s))))


def freqvec(fw):
    fn = "rffv_f%d" % fw
    dt = DT[fw]

    def setup(c):
        n = z3.BitVec("n", 64)
        o = c.arr("out", fw, n, True)
        c.args.append(n)
        c.symbols.append(("n", n))
        s = c.f("inv_sample_rate", 64)
        s2 = c.rv(s) if fw == 64 else c.rv(c.fp.trunc(s, 32))
        c.requires(z3.ULT(n, 1 << 31))
        c.forall("element k is the frequency of bin k", lambda k: z3.ULT(k, n), lambda S, k: o.rat(S, k).eq(c.i2r(k) / s2 / c.i2r(n)), [o])

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, CT[("f", 64)])
        for n in list(LENGTHS):
            def run(n=n):
                O = arena(0, 64).place(np.zeros(n, dt))
                f(O.ptr, n, 1 / 8000.0)
                for k in range(n):
                    e = k * 8000.0 / n
                    if not abs(O.arr[k] - e) <= 1e-5 * (1 + e):
                        return "element %d is %r, expected %r" % (k, O.arr[k], e)
                if not O.intact():
                    return "wrote outside the output"
            yield Case({"n": n}, run)
    return Contract("C22", fn, setup, lib="math", search=mk)


CONTRACTS = []
for ty in TY:
    for fwd in (True, False):
        CONTRACTS += [scalar(ty, False, fwd), scalar(ty, True, fwd), lut(ty, False, fwd), lut(ty, True, fwd), lut(ty, True, fwd, True)]
for fw in (32, 64):
    CONTRACTS += [freq(fw), freqvec(fw)]
