"""C18: direct convolution computes the full linear convolution."""
from .common import *
from .registry import ASSUME_FP
from .c13_linalg import TY, rnd

FUNCTIONS = ["neo::convolution::direct_convolve(signal, patch, output) (float, double, std::complex<float|double>)",
             "neo::convolution::direct_convolve(signal, patch)", "neo::convolution::output_size<mode::full>"]
ASSUMPTIONS = ASSUME_FP + ["signal and patch are non-empty and shorter than 2^30; the output has their full convolution length (documented by the assert) and is "
                           "disjoint from both",
                           "a finite sum does not depend on the direction in which its terms are taken (lemma conv_flip, proved in lemmas/Sums.lean)"]
LEMMAS = ["Sums.lean"]


def search(fn, ty, ret):
    w, parts, dt = TY[ty]

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, PTR, SIZE, PTR)

        def case(n, m, end):
            x, h, o = rnd(ty, rng, n), rnd(ty, rng, m), rnd(ty, rng, n + m - 1)

            def run():
                X, H, O = [arena(i).place(v, end) for i, v in enumerate((x, h, o))]
                want = np.convolve(x.astype(np.complex128), h.astype(np.complex128))
                f(X.ptr, n, H.ptr, m, O.ptr)
                if not close(O.arr, want, 1e-3, 1e-3):
                    k = int(np.argmax(np.abs(O.arr - want)))
                    return "output %d is %r, expected %r" % (k, O.arr[k], want[k])
                if not (O.intact() and (X.arr == x).all() and (H.arr == h).all()):
                    return "wrote outside the output"
            return Case({"signal": x, "patch": h}, run)
        for n in range(1, 10):
            for m in range(1, 10):
                yield case(n, m, True)
        while True:
            yield case(rng.randint(1, 40), rng.randint(1, 40), rng.random() < .5)
    return mk


def direct(ty):
    w, parts, dt = TY[ty]
    fn = "conv_" + ty

    def setup(c):
        n, l = z3.BitVec("n", 64), z3.BitVec("l", 64)
        c.requires(n != 0, l != 0, z3.ULT(n, 1 << 30), z3.ULT(l, 1 << 30))
        mm = norm(n + l - 1)
        x = c.arr("signal", w, n * c64(parts))
        c.args.append(n)
        h = c.arr("patch", w, l * c64(parts))
        c.args.append(l)
        o = c.arr("out", w, mm * c64(parts), True)
        c.symbols += [("n", n), ("l", l)]
        E = [None]
        k = z3.BitVec("k0_sum", 64)
        mx = lambda a, b: z3.If(z3.UGT(a, b), a, b)
        lo = {0: z3.If(z3.ULT(k, l), c64(0), k - l + 1), 1: z3.If(z3.ULT(k, n), c64(0), k - n + 1)}
        hi = {0: z3.If(z3.ULT(k, n), k + 1, n), 1: z3.If(z3.ULT(k, l), k + 1, l)}

        def el(a, i):
            return [c.rv(a.pre(norm(i * c64(parts) + c64(j)))) for j in range(parts)]

        def prod(a, b):
            return [a[0] * b[0]] if parts == 1 else [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
        # prefix sums of output k, by signal index (0) and by patch index (1)
        F = {}
        for d, (p, q) in ((0, (x, h)), (1, (h, x))):
            for j in range(parts):
                F[d, j] = c.fold("sum%d_%d" % (d, j), 0, lambda t, acc, p=p, q=q, j=j: acc + prod(el(p, t), el(q, k - t))[j], at=lo[d], auto=False)
        for j in range(parts):   # lemma conv_flip
            c.spec_axioms.append(F[0, j].raw(hi[0]) == F[1, j].raw(hi[1]))
        pos = [lambda kk, j=j: norm(kk * c64(parts) + c64(j)) for j in range(parts)]
        e = c.forall("output k is the sum of signal[m]*patch[k-m] over every valid m", lambda kk: z3.ULT(kk, mm),
                     lambda S, kk: z3.And([c.rv(o.at(S, pos[j](kk))).eq(c.rv(F[0, j].raw(hi[0]))) for j in range(parts)]), [o], pos=pos)
        e.ks = [k]
        c.cover("long", lambda P: z3.And(z3.UGT(n, 1000), z3.UGT(l, 1000)))
        c.cover("long patch", lambda P: z3.UGT(l, n))

        def hint(ex, li, ivs):
            out = []
            chain = []
            q = li.parent
            while q is not None:
                chain.append(q)
                q = ex.loopinfos[q].parent
            from vc.inv import ivs_of
            ovs = [(iv, ex.loopinfos[hh].head) for hh in chain for iv in ivs_of(ex.loopinfos[hh])]
            for ov, ohead in ovs:
                if ov.w != 64 or ov.kind != "int":
                    continue
                for iv in ivs:
                    for en, ee in iv.exts():
                        for d in (0, 1):
                            for sh in (0, 1):
                                # ascending: prefix up to iv; descending: from the end down to iv
                                def at(st, j, iv=iv, ee=ee, d=d, sh=sh):
                                    t = norm(ee(iv.get(st)) + c64(sh))
                                    if iv.step is not None and iv.step < 0:
                                        return c.rv(F[d, j].raw(hi[d])) - F[d, j].at(norm(t - c64(1)) if False else t, unfold=st is li.head)
                                    return F[d, j].at(t, unfold=st is li.head)

                                def unf(iv=iv, ee=ee, d=d, sh=sh):
                                    if iv.step is not None and iv.step < 0:
                                        for j in range(parts):
                                            F[d, j].at(norm(ee(iv.get(li.head)) + c64(sh - 1)))
                                unf()
                                okc = norm(ov.get(ohead))
                                if iv.step not in (1, -1) or (sh == 1 and iv.step == 1):
                                    continue

                                def mem(st, at=at, okc=okc):
                                    return z3.Implies(k == okc, z3.And([c.rv(o.at(st, pos[j](k))).eq(at(st, j)) for j in range(parts)]))
                                out.append(("out[%s] is the partial sum %d up to %s%s+%d" % (ov.name, d, iv.name, en, sh), mem))
                                fl = [nm for nm, ty_ in li.phis if ty_.isfloat]
                                for pnm in fl:
                                    for j in range(parts):
                                        out.append(("%s is the partial sum %d.%d up to %s%s+%d" % (pnm, d, j, iv.name, en, sh),
                                                    lambda st, at=at, okc=okc, pnm=pnm, j=j: z3.Implies(k == okc, c.rv(st.phis[pnm]).eq(at(st, j)))))
            return out
        c.hint(hint)
    return Contract("C18", fn, setup, lib="conv", cost=5, search=search(fn, ty, False), wall=450)


CONTRACTS = [direct(ty) for ty in ("f32", "f64", "c64", "c128")]
