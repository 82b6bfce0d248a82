"""C24: streaming and transform-based convolution equals the linear convolution."""
import math
from .common import *
from .registry import ASSUME_FP
from .c20_fft import pages
from .c23_real import FL, CX, place, off

FUNCTIONS = ["proved after any number of earlier blocks: neo::convolution::overlap_add, neo::convolution::overlap_save, neo::fft_convolver (the real transform by its contract, C23)",
             "proved after any number of earlier blocks: neo::convolution::uniform_partitioned_convolver::operator() with the real neo::fdl_index (overlap stage, delay line and filter by contract, C17 and C19)",
             "bounded stand-ins: neo::convolution::upols_convolver, upola_convolver, upola_convolver_v2 (overlap_add_convolver), split_upols_convolver, split_upola_convolver, "
             "sparse_upols_convolver, sparse_upola_convolver, uniform_partitioned_convolver with compressed_fdl, end to end; fft_convolve, uniform_partition, normalize_impulse, chunked processing"]
ASSUMPTIONS = ASSUME_FP + ["the real transform inside the overlap stages is replaced by its contract (reads and writes exactly its arguments, result a function of them: C23)",
                           "in the proof of the partitioned convolver the overlap stage, the delay line and the filter are replaced by their contracts (C24, C19)",
                           "that the circular convolution of zero-padded blocks, overlapped, is the linear convolution is textbook mathematics and is not rechecked by the solver; the stand-ins check the composition numerically",
                           "block sizes up to 2^26; the wrapped write position of the delay line is the arithmetic recurrence proved in lemmas/Wrap.lean",
                           "bounded stand-ins are compared with the direct linear convolution computed by numpy in double precision, to a relative tolerance of 2e-4 (float) and 1e-9 (double)"]


def near(got, want, fl, scale, tol=None):
    lim = (tol or (2e-4 if fl == np.float32 else 1e-9)) * (1e-6 + scale)
    d = np.abs(got.astype(np.float64) - want)
    if (d <= lim).all():
        return None
    k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
    return "sample %d is %r, expected %r" % (k, float(got[k]), float(want[k]))


def s_stream(nm, ty):
    fl = FL[ty]
    fn = "stream_%s_%s" % (nm, ty)
    sparse, comp = "sparse" in nm, "comp" in nm

    def mk(L, models, rng):
        f = L.fn(fn, SIZE, PTR, SIZE, SIZE, PTR, SIZE, SIZE, *([PTR] if sparse else []))
        r = np.random.default_rng(rng.getrandbits(32))

        def case(n, B, nb, reps, imp=False):
            ir = r.normal(size=n).astype(fl)
            x = r.normal(size=nb * B * reps).astype(fl)
            if imp:
                x[:] = 0
                x[rng.randrange(len(x))] = 1
            if comp:      # stay within the range of the quantised spectrum
                x *= 0.9 / (1e-9 + np.max([np.abs(x[i * B:i * B + 2 * B]).sum() for i in range(nb * reps)]))
            segs = (n + B - 1) // B
            mask = (r.random((segs, B + 1)) < rng.choice([0.0, 0.3, 0.7, 1.0])).astype(np.uint8) if sparse else None

            def run():
                I, X = place(0, ir), place(1, x)
                extra = []
                if sparse:
                    M = place(2, mask.reshape(-1))
                    extra = [M.ptr]
                s = f(I.ptr, n, B, X.ptr, nb, reps, *extra)
                if s != segs:
                    return "the impulse response has %d partitions, expected %d" % (s, segs)
                if not (X.intact() and (I.arr == ir).all()):
                    return "wrote outside the block"
                tail = False
                if sparse:
                    h = np.zeros(segs * B)
                    h[:n] = ir
                    H = np.fft.rfft(h.reshape(segs, B), 2 * B, axis=1) * mask
                    parts = np.fft.irfft(H, 2 * B, axis=1)
                    # a masked filter part is a circular filter of 2B taps: what overlap-add and overlap-save make of it
                for k in range(reps):
                    xs = x[k * nb * B:(k + 1) * nb * B].astype(np.float64)
                    if sparse:
                        want = blockwise(xs, parts, B, "upola" in nm)
                    else:
                        want = np.convolve(xs, ir.astype(np.float64))[:nb * B]
                    sc = max(np.abs(want).max(), np.abs(ir).max() * np.abs(xs).max())
                    e = near(X.arr[k * nb * B:(k + 1) * nb * B], want, fl, sc, 5e-3 * B if comp else None)
                    if e:
                        return ("after setting the filter again: " if k else "") + e
            return Case({"impulse response": ir, "block": B, "blocks": nb, "filter set": reps, "signal": x}, run)
        for B in (2, 4, 8):
            for n in range(1, 4 * B + 2):
                for imp in (True, False):
                    yield case(n, B, 2 * ((n + B - 1) // B) + 3, 1 + (n % 3 == 0), imp)
        # large blocks, many partitions, long streams
        for n, B, nb in ((700, 64, 14), (1500, 512, 6), (33, 1024, 3), (2100, 2048, 3), (600, 2, 330), (1100, 4, 300), (50, 16, 300)):
            yield case(n, B, nb, 1)
        while True:
            if rng.random() < .1:
                B = 2 ** rng.randint(5, 9)
                yield case(rng.randint(1, 5 * B), B, rng.randint(1, 8), rng.choice([1, 2]))
            yield case(rng.randint(1, 60), rng.choice([2, 4, 8, 16, 32]), rng.randint(1, 14), rng.choice([1, 1, 2]), rng.random() < .2)
    return Contract("C24", fn, None, lib="stream", search=mk,
                    bounded="blocks of 2, 4 and 8 samples with every impulse response length up to four blocks plus one, up to 13 blocks of signal; single streams with blocks to 2048, 300 partitions and 330 blocks; random streams with blocks to 512, impulse responses to five blocks, "
                    "filter set once or twice")


def blockwise(x, parts, B, ola):
    """reference for filter parts given as 2B-tap circular filters"""
    nb = len(x) // B
    P = len(parts)
    out = np.zeros(len(x))
    xb = x.reshape(nb, B)
    prev = np.zeros(B)
    tail = np.zeros(B)
    specs = []
    H = np.fft.rfft(parts, axis=1)
    for i in range(nb):
        w = np.concatenate([xb[i], np.zeros(B)]) if ola else np.concatenate([prev, xb[i]])
        prev = xb[i]
        specs.append(np.fft.rfft(w))
        acc = sum(specs[i - p] * H[p] for p in range(P) if i - p >= 0)
        y = np.fft.irfft(acc, 2 * B)
        if ola:
            out[i * B:i * B + B] = y[:B] + tail
            tail = y[B:]
        else:
            out[i * B:i * B + B] = y[B:]
    return out


def s_chunks(ty):
    fl = FL[ty]
    fn = "chunks_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, SIZE, PTR, PTR, SIZE)
        r = np.random.default_rng(rng.getrandbits(32))
        while True:
            B = rng.choice([2, 4, 8, 16, 2, 4, 8, 16, 64, 256])
            n = rng.randint(1, 4 * B + 3)
            ch = np.array([rng.randint(B, 3 * B) for _ in range(rng.randint(1, 8))], dtype=np.uint64)
            ir, x = r.normal(size=n).astype(fl), r.normal(size=int(ch.sum())).astype(fl)

            def run(B=B, n=n, ch=ch, ir=ir, x=x):
                I, X, C = place(0, ir), place(1, x), place(2, ch)
                f(I.ptr, n, B, X.ptr, C.ptr, len(ch))
                want = np.convolve(x.astype(np.float64), ir.astype(np.float64))[:len(x)]
                return near(X.arr, want, fl, np.abs(want).max()) if X.intact() and (I.arr == ir).all() else "wrote outside the signal"
            yield Case({"impulse response": ir, "block": B, "chunks": ch, "signal": x}, run)
    return Contract("C24", fn, None, lib="stream", search=mk, bounded="random chunkings into up to 8 chunks of one to three blocks, blocks of 2 to 256 samples, impulse responses up to four blocks")


def s_change(nm, ty):
    fl = FL[ty]
    fn = "change_%s_%s" % (nm, ty)

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, SIZE, PTR, SIZE, PTR, SIZE, SIZE, PTR, SIZE)
        r = np.random.default_rng(rng.getrandbits(32))
        while True:
            B, B2 = rng.choice([2, 4, 8, 64]), rng.choice([2, 4, 8, 64])
            if rng.random() < .4:
                B2 = B
            n, n2 = rng.randint(1, 4 * B + 1), rng.randint(1, 4 * B2 + 1)
            nb, nb2 = rng.randint(0, 7), rng.randint(1, 9)
            ir, ir2, x, x2 = (r.normal(size=k).astype(fl) for k in (n, n2, nb * B, nb2 * B2))

            def run(B=B, B2=B2, n=n, n2=n2, nb=nb, nb2=nb2, ir=ir, ir2=ir2, x=x, x2=x2):
                I, X, I2, X2 = place(0, ir), place(1, x), place(2, ir2), place(3, x2)
                f(I.ptr, n, B, X.ptr, nb, I2.ptr, n2, B2, X2.ptr, nb2)
                if not (X.intact() and X2.intact() and (I.arr == ir).all() and (I2.arr == ir2).all()):
                    return "wrote outside the blocks"
                for nme, A, xs, h in (("", X, x, ir), ("after the new filter: ", X2, x2, ir2)):
                    if len(xs):
                        want = np.convolve(xs.astype(np.float64), h.astype(np.float64))[:len(xs)]
                        e = near(A.arr, want, fl, max(np.abs(want).max(), np.abs(h).max() * np.abs(xs).max()))
                        if e:
                            return nme + e
            yield Case({"impulse response": ir, "block": B, "signal": x, "new impulse response": ir2, "new block": B2, "new signal": x2}, run)
    return Contract("C24", fn, None, lib="stream", search=mk, bounded="random pairs of filters of up to four partitions with blocks of 2, 4, 8 or 64, the second set after up to 7 blocks")


def s_normimp(ty, one):
    fl = FL[ty]
    fn = ("normimp1_" if one else "normimp_") + ty

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE) if one else L.fn(fn, None, PTR, SIZE, SIZE)
        r = np.random.default_rng(rng.getrandbits(32))

        def case(ch, n, zero):
            x = (r.normal(size=(ch, n)) * 10.0 ** r.integers(-3, 3, size=(ch, 1))).astype(fl)
            if zero is not None and ch:
                x[zero % ch] = 0

            def run():
                X = place(0, x.reshape(-1))
                f(X.ptr, n) if one else f(X.ptr, ch, n)
                e = (x.astype(np.float64) ** 2).sum(axis=1)
                # silent channels count as having unit energy
                k = min([1 / math.sqrt(v) if v else 1.0 for v in e], default=1.0)
                return near(X.arr, x.astype(np.float64).reshape(-1) * k, fl, 1.0) if X.intact() else "wrote outside the impulse response"
            return Case({"impulse response": x}, run)
        for ch in ((1,) if one else range(4)):
            for n in range(8):
                for z in (None, 0, 1):
                    yield case(ch, n, z)
        while True:
            if rng.random() < .1:
                yield case(1 if one else rng.randint(1, 40), rng.randint(0, 3000), rng.choice([None, None, 0, 2]))
            yield case(1 if one else rng.randint(1, 8), rng.randint(0, 40), rng.choice([None, None, 0, 2]))
    return Contract("C24", fn, None, lib="stream", search=mk, bounded="up to 40 channels of up to 3000 samples, silent channels included")


def s_overlap(nm, ty):
    fl, cx = FL[ty], CX[ty]
    fn = "%s_%s" % (nm, ty)
    add = nm == "overlap_add"

    def mk(L, models, rng):
        f = L.fn(fn, SIZE, SIZE, SIZE, PTR, SIZE, PTR)
        r = np.random.default_rng(rng.getrandbits(32))

        def case(B, F, nb):
            K = 1
            while K < max(B + F - 1, 2 * B if add else 1):
                K *= 2
            h, x = r.normal(size=F).astype(fl), r.normal(size=B * nb).astype(fl)

            def run():
                H = place(0, np.fft.rfft(h.astype(np.float64), K).astype(cx))
                X = place(1, x)
                k = f(B, F, X.ptr, nb, H.ptr)
                if k != K:
                    return "transform size %d, expected %d" % (k, K)
                want = np.convolve(x.astype(np.float64), h.astype(np.float64))[:B * nb]
                return near(X.arr, want, fl, np.abs(want).max()) if X.intact() else "wrote outside the block"
            return Case({"block": B, "filter": h, "blocks": nb, "signal": x}, run)
        for B in range(1, 18):
            for F in range(1, B + 2 if add else 2 * B + 3):
                yield case(B, F, 5)
        if not add:
            for B in range(1, 9):
                for F in range(2 * B + 3, 9 * B + 3):
                    yield case(B, F, 14)
        yield case(2048, 2048, 3)
        yield case(3000, 700, 3)
        while True:
            B = rng.randint(1, 70) if rng.random() < .9 else rng.randint(70, 1500)
            yield case(B, rng.randint(1, B + 1 if add else 3 * B), rng.randint(1, 8))
    return Contract("C24", fn, None, lib="stream", search=mk, bounded="blocks of 1 to 17 samples with every filter length up to %s, five blocks of signal; blocks of 3000; random blocks to 1500" % ("the block plus one" if add else "twice the block (nine times for blocks to 8)"))


def s_fftconv(ty, free):
    fl = FL[ty]
    fn = ("fftconvolve_" if free else "fftconv_") + ty

    def mk(L, models, rng):
        f = L.fn(fn, SIZE if free else None, PTR, SIZE, PTR, SIZE, PTR, *([] if free else [SIZE]))
        r = np.random.default_rng(rng.getrandbits(32))

        def case(n, m):
            t = 1 if free else 2
            x, h = r.normal(size=n * t).astype(fl), r.normal(size=m * t).astype(fl)

            def run():
                k = n + m - 1
                X, H, O = place(0, x), place(1, h), place(2, np.full(k * t, 9, fl))
                res = f(X.ptr, n, H.ptr, m, O.ptr, *([] if free else [t]))
                if free and res != k:
                    return "the result has %d samples, expected %d" % (res, k)
                if not (O.intact() and (X.arr == x).all() and (H.arr == h).all()):
                    return "wrote outside the output"
                for i in range(t):
                    want = np.convolve(x[i * n:i * n + n].astype(np.float64), h[i * m:i * m + m].astype(np.float64))
                    e = near(O.arr[i * k:i * k + k], want, fl, np.abs(want).max())
                    if e:
                        return e
            return Case({"signal": x, "patch": h}, run)
        lo = 1 if free else 2
        for n in range(lo, 22):
            for m in range(lo, 22):
                yield case(n, m)
        while True:
            t = 200 if rng.random() < .9 else 5000
            yield case(rng.randint(lo, t), rng.randint(lo, t))
    return Contract("C24", fn, None, lib="stream", search=mk, bounded="every pair of lengths up to 21, random lengths to 5000; the same convolver used twice")


def s_partition(ty):
    fl, cx = FL[ty], CX[ty]
    fn = "partition_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, SIZE, PTR, SIZE, SIZE, SIZE, PTR, SIZE)
        r = np.random.default_rng(rng.getrandbits(32))

        def case(ch, n, B):
            x = r.normal(size=ch * n).astype(fl)

            def run():
                K = 2
                while K < 2 * B:
                    K *= 2
                P = (n + B - 1) // B
                cap = ch * P * (K // 2 + 1)
                X, O = place(0, x), place(1, np.full(cap, 9, cx))
                res = f(X.ptr, ch, n, B, O.ptr, cap)
                if (res >> 32, res & 0xffffffff) != (P, K // 2 + 1):
                    return "%d partitions of %d bins, expected %d of %d" % (res >> 32, res & 0xffffffff, P, K // 2 + 1)
                pad = np.zeros((ch, P * B))
                pad[:, :n] = x.reshape(ch, n)
                want = np.fft.rfft(pad.reshape(ch * P, B), K, axis=1).reshape(-1)
                return off(O.arr, want, cx) if O.intact() else "wrote outside the result"
            return Case({"channels": ch, "impulse response": x, "block": B}, run)
        for B in range(1, 10):
            for n in range(1, 3 * B + 3):
                yield case(1 + n % 3, n, B)
        while True:
            if rng.random() < .1:
                yield case(rng.randint(1, 3), rng.randint(1, 9000), 2 ** rng.randint(5, 11))
            yield case(rng.randint(1, 3), rng.randint(1, 150), rng.randint(1, 64))
    return Contract("C24", fn, None, lib="stream", search=mk, bounded="blocks of 1 to 9 samples with every impulse response up to three blocks plus two, one to three channels; random sizes to 9000")


CONTRACTS = []
for ty in ("f32", "f64"):
    CONTRACTS += [s_stream(nm, ty) for nm in ("upols", "upola", "upola2", "split_upols", "split_upola", "sparse_upols", "sparse_upola")]
    CONTRACTS += [s_chunks(ty), s_overlap("overlap_add", ty), s_overlap("overlap_save", ty), s_fftconv(ty, True), s_fftconv(ty, False), s_partition(ty)]
    CONTRACTS += [s_change(nm, ty) for nm in ("upols", "upola", "upola2")] + [s_normimp(ty, one) for one in (False, True)]
CONTRACTS += [s_change("split_upols", "f32"), s_change("split_upola", "f64")]
CONTRACTS += [s_stream(nm, "f32") for nm in ("comp_upols", "comp_upola")]
from . import c24_modular as MOD
for ty in ("f32", "f64"):
    CONTRACTS += [Contract("C24", "first_overlap_add_" + ty, MOD.overlap(True, ty, False), lib="modstream", nlib="stream", skey="overlap_add_" + ty, search=s_overlap("overlap_add", ty).search, cost=3)]
    CONTRACTS += [Contract("C24", "hist_overlap_add_" + ty, MOD.overlap(True, ty, True), lib="modstream", nlib="stream", skey="overlap_add_" + ty, search=s_overlap("overlap_add", ty).search, cost=4, wall=360)]
    CONTRACTS += [Contract("C24", "last_overlap_save_" + ty, MOD.save(ty), lib="modstream", nlib="stream", skey="overlap_save_" + ty, search=s_overlap("overlap_save", ty).search, cost=5, wall=450)]
    CONTRACTS += [Contract("C24", "hist_fftconv_" + ty, MOD.fftconv(ty), lib="modstream", nlib="stream", skey="fftconv_" + ty, search=s_fftconv(ty, False).search, cost=3)]
    CONTRACTS += [Contract("C24", "hist_partitioned_" + ty, MOD.partitioned(ty), lib="modstream", nlib="stream", skey="stream_upols_" + ty, search=s_stream("upols", ty).search, cost=3)]
