"""C14: multiply-add over interleaved, split and strided vectors, in every SIMD build, also accumulating in place."""
from .common import *
from .registry import ASSUME_FP
from .c06_fixed_simd import has512
from .c13_linalg import View, TY, rnd, val

FUNCTIONS = ["neo::multiply_add over contiguous and strided vectors (float, double, std::complex<float|double>, neo::scalar_complex<float>)",
             "neo::multiply_add over split complex vectors: SSE2, AVX, xsimd/AVX-512 and scalar forms",
             "neo::simd::multiply_add, neo::simd::detail::multiply_add"]
ASSUMPTIONS = ASSUME_FP + ["operands have equal extents (documented by the assert), below 2^31; the output is disjoint from the inputs or is exactly z"]


def search(fn, ty, stride):
    w, parts, dt = TY[ty]

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, PTR, PTR, PTR, SIZE)

        def case(n, alias, end):
            x, y, z, o = [rnd(ty, rng, n * stride) for _ in range(4)]

            def run():
                want = (z if alias else o).copy()
                want[::stride] = x[::stride] * y[::stride] + z[::stride]
                X, Y, Z = [arena(i).place(v, end) for i, v in enumerate((x, y, z))]
                O = Z if alias else arena(3).place(o, end)
                f(X.ptr, Y.ptr, Z.ptr, O.ptr, n)
                if not close(O.arr, want):
                    k = int(np.argmax(np.abs(O.arr - want)))
                    return "position %d holds %r, expected %r" % (k, O.arr[k], want[k])
                if not O.intact():
                    return "wrote outside the output"
            return Case({"n": n, "in_place": alias, "x": x, "y": y, "z": z}, run)
        for n in LENGTHS:
            yield case(n, False, True)
            yield case(n, True, False)
        while True:
            yield case(rng.choice(LENGTHS), rng.random() < .5, rng.random() < .5)
    return mk


def dense(prefix, ty, alias, lib="conv"):
    w, parts, dt = TY[ty]
    fn = "%sfma_%s" % (prefix, ty)
    stride = 2 if prefix == "s" else 1

    def setup(c):
        n = z3.BitVec("n", 64)
        c.requires(z3.ULT(n, 1 << 31))
        mk = lambda nm, wr=False: View(c, c.arr(nm, w, n * c64(parts * stride), wr), parts, stride)
        x, y, z = mk("x"), mk("y"), mk("z")
        o = View(c, c.same(z.a), parts, stride) if alias else mk("out", True)
        c.args.append(n)
        c.symbols.append(("n", n))
        c.cover("long", lambda P: z3.UGT(n, 1000))
        pos = [lambda k, j=j: o.idx(k)[j] for j in range(parts)]
        c.forall("out[k] is x[k]*y[k]+z[k]", lambda k: z3.ULT(k, n),
                 lambda S, k: z3.And([c.rv(g).eq(e + c.rv(q)) for g, e, q in zip(o.at(S, k), val(c, "mul", x.pre(k), y.pre(k)), z.pre(k))]),
                 [o.a], pos=pos)
        if stride > 1:
            gap = [lambda k, j=j: k * c64(parts * stride) + c64(parts + j) for j in range(parts)]
            c.forall("elements between the strided ones keep their value", lambda k: z3.ULT(k, n),
                     lambda S, k: z3.And([o.a.at(S, g(k)) == o.a.pre(g(k)) for g in gap]), [o.a], pos=gap)
    v = ", ".join([s for s in ("in place" if alias else "", lib.partition("@")[2]) if s])
    return Contract("C14", fn, setup, lib=lib, nlib="conv" if "avx512" in lib and not has512() else lib, variant=v, cost=2, search=search(fn, ty, stride), skey=fn + lib)


def split_search(fn, w, stride):
    dt = np.float32 if w == 32 else np.float64

    def mk(L, models, rng):
        f = L.fn(fn, None, *([PTR] * 8 + [SIZE]))

        def case(n, alias, end):
            v = [floats(dt, rng, n * stride) for _ in range(8)]

            def run():
                B = [arena(i).place(a, end) for i, a in enumerate(v[:6])]
                O = B[4:6] if alias else [arena(6 + i).place(v[6 + i], end) for i in range(2)]
                x, y, z = [v[2 * i][::stride].astype(float) + 1j * v[2 * i + 1][::stride] for i in range(3)]
                r = x * y + z
                want = [b.arr.copy() for b in O]
                want[0][::stride], want[1][::stride] = r.real, r.imag
                f(*[b.ptr for b in B + O], n)
                for nm, b, wv in zip(("real", "imaginary"), O, want):
                    if not close(b.arr, wv):
                        k = int(np.argmax(np.abs(b.arr - wv)))
                        return "%s part at %d is %r, expected %r" % (nm, k, b.arr[k], wv[k])
                    if not b.intact():
                        return "wrote outside the output"
            return Case({"n": n, "in_place": alias, "x_re,x_im,y_re,y_im,z_re,z_im": v[:6]}, run)
        for n in LENGTHS:
            yield case(n, False, True)
            yield case(n, True, False)
        while True:
            yield case(rng.choice(LENGTHS), rng.random() < .5, rng.random() < .5)
    return mk


def split(prefix, ty, alias, lib):
    w = TY[ty][0]
    fn = "%sspfma_%s" % (prefix, ty)
    st = 2 if prefix == "s" else 1

    def setup(c):
        n = z3.BitVec("n", 64)
        c.requires(z3.ULT(n, 1 << 31))
        mk = lambda nm, wr=False: c.arr(nm, w, n * c64(st), wr)
        xr, xi, yr, yi, zr, zi = [mk(s) for s in ("x_re", "x_im", "y_re", "y_im", "z_re", "z_im")]
        orr, oi = (c.same(zr), c.same(zi)) if alias else (mk("out_re", True), mk("out_im", True))
        c.args.append(n)
        c.symbols.append(("n", n))
        c.cover("long", lambda P: z3.UGT(n, 1000))
        at = lambda k: norm(k * c64(st))
        p = lambda a, k: c.rv(a.pre(at(k)))
        c.forall("real part of x*y+z", lambda k: z3.ULT(k, n),
                 lambda S, k: c.rv(orr.at(S, at(k))).eq(p(xr, k) * p(yr, k) - p(xi, k) * p(yi, k) + p(zr, k)), [orr], pos=[at])
        c.forall("imaginary part of x*y+z", lambda k: z3.ULT(k, n),
                 lambda S, k: c.rv(oi.at(S, at(k))).eq(p(xr, k) * p(yi, k) + p(xi, k) * p(yr, k) + p(zi, k)), [oi], pos=[at])
        if st > 1:
            gap = lambda k: norm(k * c64(2) + c64(1))
            for a in (orr, oi):
                c.forall("elements between the strided ones keep their value (%s)" % a.r.name, lambda k: z3.ULT(k, n),
                         lambda S, k, a=a: a.at(S, gap(k)) == a.pre(gap(k)), [a], pos=[gap])
    v = ", ".join([s for s in ("in place" if alias else "", lib.partition("@")[2]) if s])
    return Contract("C14", fn, setup, lib=lib, nlib="conv" if "avx512" in lib and not has512() else lib, variant=v, cost=3, search=split_search(fn, w, st), skey=fn + lib)


CONTRACTS = []
for alias in (False, True):
    for ty in TY:
        CONTRACTS.append(dense("", ty, alias))
        if ty != "n64":
            CONTRACTS.append(dense("s", ty, alias))
        if ty in ("c64", "c128"):
            CONTRACTS += [dense("", ty, alias, "conv@sse2"), dense("", ty, alias, "conv@avx512")]
    for ty in ("f32", "f64"):
        for lib in ("conv", "conv@sse2", "conv@avx512"):
            CONTRACTS.append(split("", ty, alias, lib))
        CONTRACTS.append(split("s", ty, alias, "conv"))
