"""Contracts of the real, cosine and arbitrary-size transforms; the complex transform they call is used through its contract (C20)."""
from .common import *
from .calleespec import transform, the_call
from vc.contract import Arr
from fractions import Fraction
import math

W = {"f32": 32, "f64": 64}
MAXO = 27
DT = {32: np.float32, 64: np.float64}


def two(k, j):
    return norm(k * c64(2) + c64(j))


def calls_once(c, N, back):
    def post(P):
        k = the_call(c.ex)
        return z3.And(k.g, k.args[1] == N, k.args[2] == back)
    c.ensures("one %s transform of the whole buffer" % ("backward" if back else "forward"), post)


def rfft(ty):
    w = W[ty]

    def setup(c):
        order = c.i("order")
        c.requires(z3.ULE(order, MAXO))
        N = c64(1) << order
        H = z3.LShR(N, c64(1)) + c64(1)
        m = z3.BitVec("nout", 64)
        c.requires(z3.UGE(m, H), z3.ULE(m, 1 << 40))
        x = c.arr("in", w, N)
        out = c.arr("out", w, m * c64(2), True)
        c.args.append(m)
        c.symbols.append(("spectrum length", m))
        transform(c, "^spec_fft_" + ty + "$", w, lambda n: n * c64(2))
        calls_once(c, N, 0)
        dom = lambda k: z3.ULT(k, N)
        E = c.forall("the transform receives the signal with zero imaginary part", dom,
                     lambda S, k: z3.And(the_call(c.ex).pre(two(k, 0)) == x.pre(k), c.rv(the_call(c.ex).pre(two(k, 1))).eq(0)))
        E.noauto = True
        c.heap_forall(E, w, lambda a, S, k: z3.And(a.at(S, two(k, 0)) == x.pre(k), a.rat(S, two(k, 1)).eq(0)), [lambda k: two(k, 0), lambda k: two(k, 1)])
        pos = [lambda k: two(k, 0), lambda k: two(k, 1)]
        c.forall("output k is coefficient k of the transform", lambda k: z3.ULT(k, H),
                 lambda S, k: z3.And([out.at(S, two(k, j)) == the_call(c.ex).post(two(k, j)) for j in range(2)]), [out], pos=pos)
        c.forall("coefficients above the first half are not written", lambda k: z3.And(z3.UGE(k, H), z3.ULT(k, m)),
                 lambda S, k: z3.And([out.at(S, two(k, j)) == out.pre(two(k, j)) for j in range(2)]), [out], pos=pos)
        c.cover("large", lambda P: z3.And(order == 20, m == N))
    return setup


def irfft(ty):
    w = W[ty]

    def setup(c):
        order = c.i("order")
        c.requires(z3.ULE(order, MAXO))
        N = c64(1) << order
        H = z3.LShR(N, c64(1)) + c64(1)
        m = z3.BitVec("nin", 64)
        c.requires(z3.UGE(m, H), z3.ULE(m, N))
        x = c.arr("in", w, m * c64(2))
        c.args.append(m)
        c.symbols.append(("spectrum length", m))
        out = c.arr("out", w, N, True)
        transform(c, "^spec_fft_" + ty + "$", w, lambda n: n * c64(2))
        calls_once(c, N, 1)
        dom = lambda k: z3.ULT(k, N)

        def low(rd, k):
            return z3.And(rd(two(k, 0)) == x.pre(two(k, 0)), rd(two(k, 1)) == x.pre(two(k, 1)))

        def high(rd, k):
            q = norm(N - k)
            return z3.And(rd(two(k, 0)) == x.pre(two(q, 0)), c.rv(rd(two(k, 1))).eq(-c.rv(x.pre(two(q, 1)))))
        E = c.forall("the transform receives the conjugate-symmetric spectrum", dom,
                     lambda S, k: z3.If(z3.ULT(k, H), low(the_call(c.ex).pre, k), high(the_call(c.ex).pre, k)))
        E.noauto = True
        up = lambda k: z3.And(z3.UGE(k, H), z3.ULT(k, N))
        pos = [lambda k: two(k, 0), lambda k: two(k, 1)]
        c.heap_forall(E, w, lambda a, S, k: low(lambda i: a.at(S, i), k), pos, lambda k: z3.ULT(k, H))
        c.heap_forall(E, w, lambda a, S, k: low(lambda i: a.at(S, i), norm(N - k)), [lambda k: two(norm(N - k), 0), lambda k: norm(N - k)], up)
        c.heap_forall(E, w, lambda a, S, k: high(lambda i: a.at(S, i), k), pos, up)
        c.forall("sample k is the real part of the transform", dom, lambda S, k: out.at(S, k) == the_call(c.ex).post(two(k, 0)), [out])
        c.cover("large", lambda P: z3.And(order == 20, m == H))
    return setup


def deinterleave(ty):
    w = W[ty]

    def setup(c):
        n = c.i("n")
        c.requires(z3.UGE(n, 1), z3.ULT(n, 1 << 31))
        H = z3.LShR(n, c64(1)) + c64(1)
        z = c.arr("dft", w, n * c64(2))
        x = c.arr("x", w, H * c64(2), True)
        y = c.arr("y", w, H * c64(2), True)
        pos = [lambda k: two(k, 0), lambda k: two(k, 1)]

        def halves(k):
            q = z3.If(k == 0, c64(0), norm(n - k))
            a, b = [c.rv(z.pre(two(k, j))) for j in range(2)], [c.rv(z.pre(two(q, j))) for j in range(2)]
            return a, b
        half = Fraction(1, 2)

        def px(S, k):
            q = norm(n - k)
            a, b, o = [[c.rv(z.pre(two(v, j))) for j in range(2)] for v in (k, q, c64(0))]
            z0 = [c.rv(z.pre(c64(j))) for j in range(2)]
            return z3.If(k == 0, z3.And(x.rat(S, two(k, 0)).eq(z0[0]), x.rat(S, two(k, 1)).eq(0)),
                         z3.And(x.rat(S, two(k, 0)).eq((a[0] + b[0]) * half), x.rat(S, two(k, 1)).eq((a[1] - b[1]) * half)))

        def py(S, k):
            q = norm(n - k)
            a, b = [[c.rv(z.pre(two(v, j))) for j in range(2)] for v in (k, q)]
            z0 = [c.rv(z.pre(c64(j))) for j in range(2)]
            return z3.If(k == 0, z3.And(y.rat(S, two(k, 0)).eq(z0[1]), y.rat(S, two(k, 1)).eq(0)),
                         z3.And(y.rat(S, two(k, 0)).eq((a[1] + b[1]) * half), y.rat(S, two(k, 1)).eq((b[0] - a[0]) * half)))
        c.forall("x[k] is the conjugate-even half (Z[k]+conj Z[n-k])/2", lambda k: z3.ULT(k, H), px, [x], pos=pos)
        c.forall("y[k] is the conjugate-odd half (Z[k]-conj Z[n-k])/2i", lambda k: z3.ULT(k, H), py, [y], pos=pos)
        c.cover("large", lambda P: n == 1001)
    return setup


def dct2(ty):
    w = W[ty]

    def setup(c):
        order = c.i("order")
        c.requires(z3.ULE(order, MAXO))
        N = c64(1) << order
        x = c.arr("x", w, N, True)
        transform(c, "^spec_fft_" + ty + "$", w, lambda n: n * c64(2))
        calls_once(c, N, 0)
        dom = lambda k: z3.ULT(k, N)
        src = lambda k: norm(z3.If(z3.ULT(k, z3.LShR(N + c64(1), c64(1))), k * c64(2), (N - c64(1) - k) * c64(2) + c64(1)))
        E = c.forall("the transform receives the even samples forwards and the odd samples backwards", dom,
                     lambda S, k: z3.And(the_call(c.ex).pre(two(k, 0)) == x.pre(src(k)), c.rv(the_call(c.ex).pre(two(k, 1))).eq(0)))
        E.noauto = True
        c.heap_forall(E, w, lambda a, S, k: z3.And(a.at(S, two(k, 0)) == x.pre(src(k)), a.rat(S, two(k, 1)).eq(0)), [src], frame=False)
        pi = Fraction(float(DT[w](math.pi)))

        def out(S, k):
            t = [c.rv(the_call(c.ex).post(two(k, j))) for j in range(2)]
            a = c.i2r(k, False) * (-pi) / (c.i2r(N, False) * 2)
            return x.rat(S, k).eq((t[0] * c.lib("cos", a) - t[1] * c.lib("sin", a)) * 2)
        c.forall("output k is the real part of 2 exp(-i pi k / 2N) times coefficient k", dom, out, [x])
        c.cover("large", lambda P: order == 20)
    return setup


def direct(cty, back):
    w = {"c64": 32, "c128": 64}[cty]

    def setup(c):
        n = c.i("n")
        c.requires(z3.ULT(n, 1 << 31))
        x = c.arr("in", w, n * c64(2))
        out = c.arr("out", w, n * c64(2), True)
        c.args.append(z3.BitVecVal(back, 32))
        two_pi = Fraction(float(DT[w](math.pi * 2.0)))
        B64 = z3.BitVecSort(64)
        G = [z3.Function("dft_" + p, B64, B64, z3.RealSort()) for p in ("re", "im")]
        done = {}

        def unfold(k, j):
            """partial sums of coefficient k: G(k, 0) = 0, G(k, j+1) = G(k, j) + in[j] exp(-+ 2 pi i j k / n)"""
            k, j = norm(k), norm(j)
            key = (k.get_id(), j.get_id())
            if key in done:
                return
            done[key] = (k, j)
            a = c.i2r(j, False) * c.i2r(k, False) * (two_pi if back else -two_pi) / c.i2r(n, False)
            co, si = c.lib("cos", a), c.lib("sin", a)
            p = [c.rv(x.pre(two(j, i))) for i in range(2)]
            st = [p[0] * co - p[1] * si, p[0] * si + p[1] * co]
            for i in range(2):
                c.spec_axioms += [G[i](k, c64(0)) == 0, G[i](k, norm(j + c64(1))) == (c.rv(G[i](k, j)) + st[i]).t()]
        E = c.forall("coefficient k is the sum of in[j] exp(%s2 pi i j k / n)" % ("" if back else "-"), lambda k: z3.ULT(k, n),
                     lambda S, k: z3.And([out.rat(S, two(k, i)).t() == G[i](k, n) for i in range(2)]), [out], pos=[lambda k: two(k, 0), lambda k: two(k, 1)])

        def hint(ex, li, ivs):
            from vc.inv import ivs_of
            res = []
            if li.parent is None:
                return res
            for nm, ty in li.phis:
                if not ty.isfloat:
                    continue
                for ov in ivs_of(ex.loopinfos[li.parent]):
                    for _, oe in ov.exts():
                        K = oe(ov.get(ex.loopinfos[li.parent].head))
                        for iv in ivs:
                            for en, e in iv.exts():
                                for i in range(2):
                                    def acc(st, nm=nm, K=K, iv=iv, e=e, i=i):
                                        j = e(iv.get(st))
                                        if st is li.head:
                                            unfold(K, j)
                                        else:
                                            unfold(K, c64(0))
                                        return c.rv(st.phis[nm]).t() == G[i](norm(K), norm(j))
                                    res.append(("%s == partial sum %d of %s up to %s%s" % (nm, i, ov.name, iv.name, en), acc))
            return res
        c.hint(hint)
        c.cover("large", lambda P: n == 1000)
    return setup


def bluestein(cty, back):
    w = {"c64": 32, "c128": 64}[cty]
    ty = "f%d" % w

    def setup(c):
        c.div_abstract = True
        n = c.i("n")
        c.requires(z3.UGE(n, 1), z3.ULT(n, 1 << 24))
        x = c.arr("in", w, n * c64(2))
        out = c.arr("out", w, n * c64(2), True)
        c.args.append(z3.BitVecVal(back, 32))
        transform(c, "^spec_fft_" + ty + "$", w, lambda n: n * c64(2))
        pi = Fraction(float(DT[w](math.pi)))
        call = lambda i: the_call(c.ex, 3)[i]
        M = lambda: call(0).args[1]

        def W(k):
            """chirp: exp(-+ i pi k^2 / n), the square reduced modulo 2n"""
            j = c.divrem("urem", c.mul(k, k), norm(n * c64(2)))
            a = c.i2r(j, False) * ((pi if back else -pi) / c.i2r(n, False))
            return c.lib("cos", a), c.lib("sin", a)

        def cmul(p, q):
            return p[0] * q[0] - p[1] * q[1], p[0] * q[1] + p[1] * q[0]
        X = lambda k: [c.rv(x.pre(two(k, j))) for j in range(2)]
        R = lambda i, k: [c.rv(call(i).post(two(k, j))) for j in range(2)]
        is_ = lambda rd, k, v: z3.And([c.rv(rd(two(k, j))).eq(v[j]) for j in range(2)])
        conj = lambda v: (v[0], -v[1])
        B64 = z3.BitVecSort(64)
        Sf = [z3.Function("scaled_" + p, B64, z3.RealSort()) for p in ("re", "im")]
        done = {}

        def S(k):
            """coefficient k of the inverse transform divided by its size"""
            if k.get_id() not in done:
                done[k.get_id()] = k
                r = R(2, k)
                for j in range(2):
                    c.spec_axioms.append(Sf[j](k) == (r[j] / c.i2r(M(), False)).t())
            return [c.rv(Sf[j](k)) for j in range(2)]
        lowk = lambda k: z3.ULT(k, n)
        mir = lambda k: norm(M() - k)
        inM = lambda k: z3.ULT(k, M())
        chirp1 = lambda rd, k: is_(rd, k, W(k))
        pa = lambda rd, k: is_(rd, k, cmul(X(k), W(k)))
        zero = lambda rd, k: is_(rd, k, (c.rv(0), c.rv(0)))
        b0 = lambda k: k == 0
        blo = lambda k: z3.And(k != 0, z3.ULT(k, n))
        bhi = lambda k: z3.And(inM(k), z3.UGE(k, n), z3.ULT(mir(k), n))
        bmid = lambda k: z3.And(inM(k), z3.UGE(k, n), z3.UGE(mir(k), n))

        def pred(S_, k):
            p = [lambda i, q=call(q): q.pre(i) for q in range(3)]
            return z3.Implies(inM(k), z3.And(
                z3.If(lowk(k), pa(p[0], k), zero(p[0], k)),
                z3.Implies(b0(k), is_(p[1], k, W(k))), z3.Implies(blo(k), is_(p[1], k, conj(W(k)))),
                z3.Implies(bhi(k), is_(p[1], k, conj(W(mir(k))))), z3.Implies(bmid(k), zero(p[1], k)),
                is_(p[2], k, cmul(R(0, k), R(1, k)))))
        E = c.forall("chirp, filter and product spectra handed to the transforms", lambda k: z3.BoolVal(True), pred)
        E.noauto = True
        F = c.forall("output k is the scaled inverse times the chirp", lowk, lambda S_, k: is_(lambda i: out.at(S_, i), k, cmul(S(k), W(k))), [out])
        k0, f0 = E.ks[0], F.ks[0]
        c.requires(k0 == f0)
        pos = [lambda k: two(k, 0), lambda k: two(k, 1)]

        def hint(ex, li, ivs):
            res = []
            A, B = call(0).region, call(1).region
            k, q = k0, mir(k0)
            for nm, reg in ex.heaps.items():
                if reg.elem * 8 != w or not (reg in li.mods or reg in li.havoc):
                    continue
                ar = Arr(c, reg)
                rd = lambda st, ar=ar: (lambda i: ar.at(st, i))
                if reg is A:
                    ps = [("product with the chirp", lowk, pa, k), ("zero above", lambda k: z3.And(inM(k), z3.Not(lowk(k))), zero, k),
                          ("product of spectra", inM, lambda r, k: is_(r, k, cmul(R(0, k), R(1, k))), k), ("scaled", inM, lambda r, k: is_(r, k, S(k)), k)]
                    for iv in ivs:
                        for en, e in iv.exts():
                            for j in range(2):
                                res.append(("%s unchanged from %s%s on (%d)" % (nm, iv.name, en, j), lambda st, iv=iv, e=e, ar=ar, j=j:
                                            z3.Implies(z3.And(inM(k), z3.UGE(k, e(iv.get(st)))), ar.at(st, two(k, j)) == ar.at(li.entry, two(k, j)))))
                elif reg is B:
                    ps = [("chirp at 0", b0, lambda r, k: is_(r, k, W(k)), k), ("conjugate chirp", blo, lambda r, k: is_(r, k, conj(W(k))), k),
                          ("mirrored chirp", bhi, lambda r, k: is_(r, k, conj(W(mir(k)))), q), ("zero between", bmid, zero, k)]
                else:
                    ps = [("chirp", lowk, chirp1, k), ("chirp mirrored", bhi, lambda r, k: chirp1(r, mir(k)), q)]
                for pn, cond, pr, at in ps:
                    res.append(("%s %s" % (nm, pn), lambda st, cond=cond, pr=pr, rd=rd: z3.Implies(cond(k), pr(rd(st), k))))
                    for iv in ivs:
                        for en, e in iv.exts():
                            res.append(("%s %s before %s%s" % (nm, pn, iv.name, en), lambda st, cond=cond, pr=pr, rd=rd, iv=iv, e=e, at=at:
                                        z3.Implies(z3.And(cond(k), z3.ULT(at, e(iv.get(st)))), pr(rd(st), k))))
            return res
        c.hint(hint)

        def cases(ex, li):
            from vc.inv import ivs_of
            return [v == iv.get(li.head) for iv in ivs_of(li) if iv.kind == "int" and iv.w == 64 for v in (k0, mir(k0))]
        c.case_hook = cases
        from vc.contract import Forall
        G = Forall("input copied", F.ks, F.cond, lambda S_, k: z3.And([out.at(S_, two(k, j)) == x.pre(two(k, j)) for j in range(2)]), [out], pos)
        c.aux_foralls.append(G)

        def post(P):
            cs = the_call(c.ex, 3)
            return z3.And([z3.And(q.g, q.args[1] == M(), q.args[2] == b) for q, b in zip(cs, (0, 0, 1))])
        c.ensures("two forward transforms and one backward transform", post)
        c.ensures("the transforms are long enough", lambda P: z3.And(z3.UGE(M(), n * c64(2) - c64(1)), (M() & (M() - c64(1))) == 0))
        c.ensures("the first two transform different arrays", lambda P: z3.BoolVal(call(0).region is call(2).region and call(0).region is not call(1).region))
        c.cover("large", lambda P: n == 1000)
    return setup
