"""C23: real, cosine, arbitrary-size and short-time transforms."""
import scipy.fft
from .common import *
from .registry import ASSUME_FP
from .c20_fft import off, pages, dft_of, CTY
from . import c23_modular as M

FUNCTIONS = ["neo::fft::fallback_rfft_plan::operator() (both directions), rfft, irfft", "neo::fft::rfft_deinterleave", "neo::fft::fallback_dct2_plan::operator()",
             "neo::fft::dft (direct sum, both directions)", "neo::fft::fallback_dft_plan (Bluestein): constructor and operator(), dft and idft on a plan",
             "bounded stand-ins: repeated transforms on one plan, neo::fft::stft_plan, stft"]
ASSUMPTIONS = ASSUME_FP + ["the complex transform called by the plans is used through its contract (C20); harness/modular.cpp substitutes the call",
                           "that conjugate symmetry, Makhoul's reordering and the chirp product give the defining sums of the real, cosine and arbitrary-size transforms is textbook algebra, cross-checked natively and not mechanised",
                           "cexp(z) is exp(Re z)(cos Im z + i sin Im z); sine and cosine are uninterpreted", "orders up to 27, arbitrary-size transforms below 2^24",
                           "bounded stand-ins are compared with numpy in double precision, to a relative tolerance of 2e-4 (float) and 1e-9 (double)"]
FL = {"f32": np.float32, "f64": np.float64}
CX = {"f32": np.complex64, "f64": np.complex128}


def reals(n, dt, rng, basis):
    if n <= basis:
        for i in range(n):
            x = np.zeros(n, dt)
            x[i] = 1
            yield x
    r = np.random.default_rng(rng.getrandbits(32))
    for _ in range(2):
        yield r.normal(size=n).astype(dt)


def orders(rng, top, models=(), big=18):
    for o in model_ints(models, "order", 0, 20):
        yield o, 0
    for o in range(top + 1):
        yield o, 64
        if o == 4:
            for b in range(top + 1, big + 1):
                yield b, 0
    while True:
        yield rng.randint(0, top), 0


def place(i, x):
    return arena(i, pages(max(1, len(x)), x.dtype)).place(x)


def s_rfft(ty, fwd):
    fl, cx = FL[ty], CX[ty]
    fn = ("rfft_" if fwd else "irfft_") + ty

    def mk(L, models, rng):
        f = L.fn(fn, None, SIZE, PTR, PTR, SIZE) if fwd else L.fn(fn, None, SIZE, PTR, SIZE, PTR)
        for o, b in orders(rng, 11, models):
            n = 1 << o
            for x in reals(n, fl, rng, b):
                for full in (0, 1):
                    m = n if full and n > 1 else n // 2 + 1
                    def run(x=x, o=o, n=n, m=m):
                        if fwd:
                            X, O = place(0, x), place(1, np.full(m, 9 + 9j, cx))
                            f(o, X.ptr, O.ptr, m)
                            want = np.fft.rfft(x.astype(np.float64))
                            if not ((X.arr == x).all() and X.intact() and O.intact() and (O.arr[n // 2 + 1:] == 9 + 9j).all()):
                                return "wrote outside the first n/2+1 coefficients"
                            return off(O.arr[:n // 2 + 1], want, cx)
                        s = np.fft.fft(x.astype(np.float64)).astype(cx)[:m]
                        if m > n // 2 + 1:
                            s[n // 2 + 1:] = 77       # only the first half counts
                        X, O = place(0, s), place(1, np.full(n, 9, fl))
                        f(o, X.ptr, m, O.ptr)
                        if not ((X.arr == s).all() and X.intact() and O.intact()):
                            return "wrote outside the output"
                        return off(O.arr, x.astype(np.float64) * n, cx)
                    yield Case({"order": o, "size": n, "signal": x if n <= 64 else "random", "spectrum length": m}, run)
    return Contract("C23", fn, (M.rfft if fwd else M.irfft)(ty), lib="modular", nlib="xform", search=mk, cost=2)


def s_packed(ty):
    """in place: coefficients 0 and n/2 in the first two places, then the complex coefficients between; the inverse gives n/2 times the signal"""
    fl, cx = FL[ty], CX[ty]
    fn = "exp_rfft_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, SIZE, SIZE, PTR, ctypes.c_int)
        for o, b in orders(rng, 11, (), 13):
            if o < 1:
                continue
            n = 1 << o
            for x in reals(n, fl, rng, b):
                def pack(z):
                    p = np.empty(n, np.float64)
                    p[0], p[1], p[2::2], p[3::2] = z[0].real, z[-1].real, z[1:-1].real, z[1:-1].imag
                    return p

                def run(x=x, o=o, n=n):
                    p = pack(np.fft.rfft(x.astype(np.float64)))
                    for back, start, want in ((0, x, p), (1, p.astype(fl), x.astype(np.float64) * (n / 2))):
                        X = place(0, start)
                        if f(o, X.ptr, back) != n:
                            return "the plan reports another size"
                        if not X.intact():
                            return "wrote outside the signal"
                        e = off(X.arr, want, cx)
                        if e:
                            return ("backward: " if back else "forward: ") + e
                yield Case({"order": o, "size": n, "signal": x if n <= 64 else "random"}, run)
    return Contract("C23", fn, None, lib="xform", search=mk, bounded="orders 1 to 13, forward and backward, every basis vector up to size 64, random signals above")


def s_chain(ty):
    fl, cx = FL[ty], CX[ty]
    fn = "rfft_chain_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, None, SIZE, PTR, PTR, PTR, SIZE)
        r = np.random.default_rng(rng.getrandbits(32))
        while True:
            for o in range(0, 10):
                n, t = 1 << o, 4
                x = r.normal(size=n * t).astype(fl)

                def run(x=x, o=o, n=n, t=t):
                    m = n // 2 + 1
                    X, S, O = place(0, x), place(1, np.full(m * t, 9, cx)), place(2, np.full(n * t, 9, fl))
                    f(o, X.ptr, S.ptr, O.ptr, t)
                    if not (X.intact() and S.intact() and O.intact() and (X.arr == x).all()):
                        return "wrote outside the outputs"
                    for i in range(t):
                        p = x[i * n:i * n + n].astype(np.float64)
                        e = off(S.arr[i * m:i * m + m], np.fft.rfft(p), cx) or off(O.arr[i * n:i * n + n], p * n, cx)
                        if e:
                            return "transform %d of the same plan: %s" % (i + 1, e)
                yield Case({"order": o, "transforms": t}, run)
    return Contract("C23", fn, None, lib="xform", search=mk, bounded="orders 0 to 9, four forward-backward round trips on one plan, random signals")


def s_deinter(ty):
    fl, cx = FL[ty], CX[ty]
    fn = "deinterleave_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, None, SIZE, PTR, PTR, PTR)
        r = np.random.default_rng(rng.getrandbits(32))
        ns = list(model_ints(models, "n", 1, 200000)) + list(range(1, 70)) + [128, 255, 256, 1000, 40000, 70001]
        while True:
            for n in ns:
                a, b = r.normal(size=n), r.normal(size=n)

                def run(a=a, b=b, n=n):
                    z = np.fft.fft(a + 1j * b).astype(cx)
                    m = n // 2 + 1
                    Z, X, Y = place(0, z), place(1, np.full(m, 9, cx)), place(2, np.full(m, 9, cx))
                    f(n, Z.ptr, X.ptr, Y.ptr)
                    if not (X.intact() and Y.intact() and (Z.arr == z).all()):
                        return "wrote outside the outputs"
                    e = off(X.arr, np.fft.rfft(a), cx)
                    e2 = off(Y.arr, np.fft.rfft(b), cx)
                    return e and "first signal: " + e or e2 and "second signal: " + e2
                yield Case({"size": n, "first": a, "second": b}, run)
    return Contract("C23", fn, M.deinterleave(ty), lib="modular", nlib="xform", search=mk, cost=2)


def s_dct(ty):
    fl, cx = FL[ty], CX[ty]
    fn = "dct2_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, None, SIZE, PTR)
        for o, b in orders(rng, 9, models):
            n = 1 << o
            for x in reals(n, fl, rng, b):
                def run(x=x, o=o, n=n):
                    X = place(0, x)
                    f(o, X.ptr)
                    k = np.arange(n)
                    want = 2 * np.cos(np.pi * np.outer(k, 2 * k + 1) / (2 * n)) @ x.astype(np.float64) if n <= 512 else scipy.fft.dct(x.astype(np.float64), type=2)
                    return off(X.arr, want + 0j, cx) if X.intact() else "wrote outside the signal"
                yield Case({"order": o, "signal": x if n <= 64 else "random"}, run)
    return Contract("C23", fn, M.dct2(ty), lib="modular", nlib="xform", search=mk, cost=2)


def s_dft(cty, kind):
    dt = CTY[cty]
    fn = {"direct": "dft_", "plan": "dftplan_", "out": "dftplan_out_"}[kind] + cty

    def mk(L, models, rng):
        args = {"direct": (SIZE, PTR, PTR, ctypes.c_int), "plan": (SIZE, PTR, ctypes.c_int, SIZE), "out": (SIZE, PTR, PTR, ctypes.c_int)}[kind]
        f = L.fn(fn, None, *args)
        r = np.random.default_rng(rng.getrandbits(32))
        first = list(model_ints(models, "n", 1, 1500 if kind == "direct" else 200000)) + list(range(1, 41)) + [47, 64, 65, 97, 100, 127, 128, 129, 200, 256, 257, 360]
        first += [1000] if kind == "direct" else [1000, 4099, 32769, 50000, 70001]

        def sigs(n, basis):
            if basis and n <= 24:
                for i in range(n):
                    x = np.zeros(n, dt)
                    x[i] = 1
                    yield x
            yield (r.normal(size=n) + 1j * r.normal(size=n)).astype(dt)

        def ns():
            for n in first:
                yield n, True
            while True:
                yield rng.randint(1, 300), False
        for n, basis in ns():
            for x in sigs(n, basis):
                for back in (0, 1):
                    def run(n=n, x=x, back=back):
                        t = 2 if kind == "plan" else 1
                        xx = np.concatenate([x, x[::-1]])[:n * t]
                        X, O = place(0, xx), place(1, np.full(n, 9, dt))
                        if kind == "plan":
                            f(n, X.ptr, back, t)
                            e = off(X.arr[n:], dft_of(x[::-1], back), dt)
                            if e:
                                return "second transform of the plan: " + e
                            return off(X.arr[:n], dft_of(x, back), dt) if X.intact() else "wrote outside the signal"
                        f(n, X.ptr, O.ptr, back)
                        if not (O.intact() and (X.arr == xx).all()):
                            return "wrote outside the output"
                        # the direct sum accumulates one angle rounding per term
                        w = dft_of(x, back)
                        return off(O.arr, w, dt) if kind != "direct" or dt != np.complex64 else (None if np.abs(O.arr - w).max() < 3e-3 * (1 + np.abs(w).max()) else off(O.arr, w, dt))
                    yield Case({"size": n, "signal": x if n <= 64 else "random", "backward": bool(back)}, run)
    if kind == "out":
        return [Contract("C23", fn, M.bluestein(cty, b), lib="modular", nlib="xform", search=mk, cost=4, variant="backward" if b else "forward", skey=fn) for b in (0, 1)]
    if kind == "direct":
        return [Contract("C23", fn, M.direct(cty, b), lib="modular", nlib="xform", search=mk, cost=2, variant="backward" if b else "forward", skey=fn) for b in (0, 1)]
    return Contract("C23", fn, None, lib="xform", search=mk, bounded="sizes 1 to 40 and selected sizes to 360, every basis vector up to size 24, random signals")


def s_stft(ty):
    fl, cx = FL[ty], CX[ty]
    fn = "stft_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, SIZE, PTR, SIZE, SIZE, SIZE, SIZE, SIZE, ctypes.c_int, PTR, SIZE)
        r = np.random.default_rng(rng.getrandbits(32))

        def case(ch, n, frame, transform, overlap, win):
            x = r.normal(size=ch * n).astype(fl)

            def run():
                hop = frame - overlap
                K = 1
                while K < transform:
                    K *= 2
                frames = (n + hop - 1) // hop
                bins = K // 2 + 1
                cap = ch * frames * bins
                X, O = place(0, x), place(1, np.full(cap, 9, cx))
                res = f(X.ptr, ch, n, frame, transform, overlap, win, O.ptr, cap)
                if (res >> 32, res & 0xffffffff) != (frames, bins):
                    return "%d frames of %d bins, expected %d of %d" % (res >> 32, res & 0xffffffff, frames, bins)
                w = np.ones(K) if win else 0.5 * (1 - np.cos(2 * np.pi * np.arange(K) / (K - 1)))
                want = []
                for c in range(ch):
                    for i in range(frames):
                        seg = x[c * n + i * hop:c * n + min(n, i * hop + frame)].astype(np.float64)
                        b = np.zeros(K)
                        b[:len(seg)] = seg
                        want.append(np.fft.rfft(b * w))
                want = np.concatenate(want)
                return off(O.arr, want, cx) if O.intact() and (X.arr == x).all() else "wrote outside the result"
            return Case({"channels": ch, "signal length": n, "frame": frame, "transform": transform, "overlap": overlap, "window": "rectangular" if win else "hann"}, run)
        for frame in (2, 4, 8, 16):
            for overlap in sorted({0, 1, frame // 2, frame - 1}):
                for n in range(1, 3 * frame + 2):
                    for win in (0, 1):
                        yield case(1 + n % 2, n, frame, frame, overlap, win)
                    yield case(1, n, frame, frame * 2, overlap, 1)
        for n in (1000, 1023, 1024, 1025, 5000):
            yield case(2, n, 1024, 1024, 512, 0)
            yield case(1, n, 300, 512, 17, 1)
        yield case(1, 70000, 4096, 4096, 0, 0)
        while True:
            frame = rng.randint(2, 40)
            tr = frame + rng.randint(0, 40)
            yield case(rng.randint(1, 3), rng.randint(1, 200), frame, tr, rng.randint(0, frame - 1), 1)
    return Contract("C23", fn, None, lib="xform", search=mk, bounded="frames of 2 to 40 samples, every overlap class, signals of 1 to 200 samples, selected frames to 4096 and signals to 70000, one to three channels, Hann (power-of-two frame) and rectangular window")


CONTRACTS = []
for ty in ("f32", "f64"):
    CONTRACTS += [s_rfft(ty, True), s_rfft(ty, False), s_chain(ty), s_packed(ty), s_deinter(ty), s_dct(ty), s_stft(ty)]
for ty in ("c64", "c128"):
    CONTRACTS += s_dft(ty, "direct") + s_dft(ty, "out") + [s_dft(ty, "plan")]
