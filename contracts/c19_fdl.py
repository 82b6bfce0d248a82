"""C19: segment stores and filters hold what was put in; compressed stores hold it to half a quantisation step."""
from vc.contract import Arr
from .common import *
from .registry import ASSUME_FP
from .c13_linalg import TY, rnd

FUNCTIONS = ["neo::convolution::dense_fdl<std::complex<float|double>>::{constructor, insert, operator[]}",
             "neo::convolution::dense_split_fdl<float|double>::{constructor, insert, operator[]}",
             "neo::convolution::compressed_fdl<std::complex<float>, scalar_complex<int8_t|int16_t>>::{constructor, insert, operator[]}",
             "neo::compressed_accessor<float|double|std::complex<float|double>>::access (from int8_t, int16_t and complex numbers of them)",
             "neo::convolution::dense_filter<std::complex<float|double>>::{filter, operator()}",
             "neo::convolution::dense_split_filter<float|double>::{filter, operator()}",
             "bounded stand-in: both filters after an earlier filter of another shape"]
ASSUMPTIONS = ASSUME_FP + ["rows and columns below 2^31, fewer than 2^40 elements, row indices within the store; values put into a compressed store have components in [-1, 1]",
                           "arithmetic facts about row offsets (row * row length) are instances of the lemmas in lemmas/Grid.lean",
                           "std::lround returns an integer within one half of its argument"]
LEMMAS = ["Grid.lean"]


def shapes(rng):
    for r in range(1, 5):
        for c in range(0, 5):
            yield r, c
    while True:
        yield rng.randint(1, 9), rng.randint(0, 40)


def rowlemma(c, xs, R, C, S):
    """different rows do not overlap (Grid.lean, row_lt)"""
    t = [c.mul(x, C) for x in xs]
    for i in range(len(xs)):
        for j in range(len(xs)):
            if i != j:
                c.mul_axioms.append(z3.Implies(z3.And(z3.ULT(xs[i], xs[j]), z3.ULT(xs[j], R)), z3.ULE(t[i] + C, t[j])))
    return t


# ---- compressed view
def access(it, ft):
    bits = 8 if it.startswith("i8") else 16
    parts = 2 if it.endswith("c") else 1
    fw = 32 if ft in ("f32", "c64") else 64
    mx = (1 << bits - 1) - 1
    fn = "comp_%s_%s" % (it, ft)

    def setup(c):
        n = z3.BitVec("n", 64)
        c.requires(z3.ULT(n, 1 << 31))
        p = c.arr("p", bits, n * c64(parts))
        c.args.append(n)
        o = c.arr("out", fw, n * c64(parts), True)
        c.symbols.append(("n", n))
        eps = 2.0 ** (-22 if fw == 32 else -50)

        def pred(S, k):
            q, v = c.i2r(p.pre(k)).t(), o.rat(S, k).t() * mx
            a = z3.If(q >= 0, q, -q)
            d = v - q
            return z3.And(d <= a * z3.RealVal(str(c.rv(eps).t())), -d <= a * z3.RealVal(str(c.rv(eps).t())))
        c.forall("element k is the stored integer divided by the largest one", lambda k: z3.ULT(k, n * c64(parts)), pred, [o],
                 pos=[lambda k: k] if parts == 1 else [lambda k: k, lambda k: z3.LShR(k, c64(1))])
        c.cover("long", lambda P: z3.UGT(n, 1000))

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE, PTR)
        dt, ot = {8: np.int8, 16: np.int16}[bits], {32: np.float32, 64: np.float64}[fw]
        allv = np.arange(-mx - 1, mx + 1).astype(dt)
        while True:
            for x in (allv, np.array([rng.randint(-mx - 1, mx) for _ in range(2 * rng.randint(0, 40))], dt)):
                def run(x=x):
                    X, O = arena(0, 40).place(x), arena(4, 160).place(np.zeros(len(x), ot))
                    f(X.ptr, len(x) // parts, O.ptr)
                    want = x.astype(np.float64) / mx
                    b = np.abs(O.arr - want) > np.abs(want) * 2.0 ** (-20 if fw == 32 else -48)
                    if b.any() or not O.intact():
                        k = int(np.argmax(b))
                        return "%d reads as %r, expected %r" % (x[k], O.arr[k], want[k])
                yield Case({"p": x if len(x) < 100 else "every value"}, run)
    return Contract("C19", fn, setup, lib="store", search=mk)


# ---- delay lines
def fdl(kind, ty):
    w, parts, dt = TY[ty]
    comp = kind.startswith("comp")
    bits = int(kind[4:]) if comp else 0
    mx = (1 << bits - 1) - 1 if comp else 0
    split = kind == "split"
    fn = "fdl_%s_%s" % (kind, "f%d" % w if split else ty) if not comp else "fdl_" + kind

    def setup(c):
        r, cc = c.i("rows"), c.i("columns")
        S_ = c.grid(r, cc)
        c.requires(cc != 0)
        if split:
            f = z3.Function("mul64", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        a = c.arr("first", w, cc * c64(2))
        ia = c.i("first_row")
        if comp:
            b, ib = a, ia
        else:
            b = c.arr("second", w, cc * c64(2))
            ib = c.i("second_row")
        row = c.i("row")
        c.requires(z3.ULT(ia, r), z3.ULT(ib, r), z3.ULT(row, r))
        o = [c.arr("re", w, cc, True), c.arr("im", w, cc, True)] if split else [c.arr("out", w, cc * c64(2), True)] * 2
        ta, tb, tr = (lambda t: (t[0], t[-2], t[-1]))(rowlemma(c, [ia, row] if comp else [ia, ib, row], r, cc, S_))
        oi = (lambda k, j: k) if split else (lambda k, j: norm(k * c64(2) + c64(j)))
        ii = lambda k, j: norm(k * c64(2) + c64(j))
        if comp:
            for x in (a,):
                c.requires_each(x, lambda i, x=x: z3.And(c.rv(x.r.base.f(norm(i))).t() <= 1, c.rv(x.r.base.f(norm(i))).t() >= -1))
        half = z3.RealVal("1/2")
        c.fp.i2r_zero = True
        if comp:    # invariants speak about std::lround where the code calls it, otherwise about the distance
            from vc import build
            txt = build.ir_text("store")
            txt = txt[txt.index("@%s(" % fn):]
            exact = "@lround" in txt[:txt.index("\n}")]
        slack = z3.RealVal("1/256")

        def held(stage, k, j):
            """(condition, value) pairs"""
            va, vb = [c.rv(q.pre(ii(k, j))) if comp else q.pre(ii(k, j)) for q in (a, b)]
            if stage == 0:
                return [(z3.BoolVal(True), None)]
            if stage == 1:
                return [(row == ia, va), (row != ia, None)]
            return [(row == ib, vb), (z3.And(row == ia, row != ib), va), (z3.And(row != ia, row != ib), None)]

        def okheap(h, S, pos, stage, k, j):
            g = []
            for cond, v in held(stage, k, j):
                x = h.at(S, pos)
                if comp and exact:
                    e = x == (BV(0, bits) if v is None else z3.Extract(bits - 1, 0, c.fp.lround_r((v * mx).t())))
                elif comp:
                    q = c.i2r(x).t()
                    e = x == 0 if v is None else z3.And(q - v.t() * mx <= half, v.t() * mx - q <= half)
                else:
                    e = x == (BV(0, w) if v is None else v)
                g.append(z3.Implies(cond, e))
            return z3.And(g)

        def okout(S, k):
            g = []
            for j in range(2):
                got = o[j].at(S, oi(k, j))
                for cond, v in held(1 if comp else 2, k, j):
                    if not comp:
                        e = got == (BV(0, w) if v is None else v)
                    elif v is None:
                        e = c.rv(got).eq(c.rv(0))
                    else:
                        d = (c.rv(got).t() - v.t()) * mx
                        e = z3.And(d <= half + slack, -d <= half + slack)
                    g.append(z3.Implies(cond, e))
            return z3.And(g)
        title = "the row reads as %s the last insertion into it, zero if there was none" % ("(to half a quantisation step)" if comp else "")
        E = c.forall(title, lambda k: z3.ULT(k, cc), okout, list(dict.fromkeys(o)), pos=[lambda k: oi(k, 0), lambda k: oi(k, 1)] if not split else None)
        hb = bits or w
        if split:
            hp = [lambda k: norm(tr + k), lambda k: norm(S_ + tr + k)]
        else:
            hp = [lambda k, j=j: norm((tr + k) * c64(2) + c64(j)) for j in range(2)]
        nst = 2 if comp else 3

        def hint(ex, li, ivs):
            out = []
            for nm, reg in ex.heaps.items():
                if reg.elem * 8 != hb or not (reg in li.mods or reg in li.havoc):
                    continue
                h = Arr(c, reg)
                k = E.ks[0]
                dom = E.cond(k)
                for j in range(2):
                    z = lambda st, p: h.at(st, p) == 0
                    ok = lambda st, stage, j=j: okheap(h, st, hp[j](k), stage, k, j)
                    for stage in range(nst):
                        out.append(("%s.%d holds insertion %d" % (nm, j, stage), lambda st, stage=stage, ok=ok: z3.Implies(dom, ok(st, stage))))
                    out.append(("%s starts with zero" % nm, lambda st, j=j, z=z: z(st, c64(j))))
                    for iv in ivs:
                        for en, e in iv.exts():
                            cur = lambda st, iv=iv, e=e: e(iv.get(st))
                            for rn, rel in (("<", z3.ULT), ("<=", z3.ULE)):
                                if j and not split:
                                    out.append(("%s.%d is zero, first %s %s%s" % (nm, j, rn, iv.name, en),
                                                lambda st, cur=cur, rel=rel, ok=ok: z3.Implies(z3.And(dom, rel(hp[0](k), cur(st))), ok(st, 0))))
                                out.append(("%s.%d is zero %s %s%s" % (nm, j, rn, iv.name, en),
                                            lambda st, cur=cur, rel=rel, ok=ok, j=j: z3.Implies(z3.And(dom, rel(hp[j](k), cur(st))), ok(st, 0))))
                            for stage in range(nst):
                                out.append(("%s.%d holds insertion %d before %s%s" % (nm, j, stage, iv.name, en),
                                            lambda st, cur=cur, ok=ok, stage=stage: z3.Implies(z3.And(dom, z3.ULT(k, cur(st))), ok(st, stage))))
                                out.append(("%s.%d holds insertion %d from %s%s on" % (nm, j, stage, iv.name, en),
                                            lambda st, cur=cur, ok=ok, stage=stage: z3.Implies(z3.And(dom, z3.UGE(k, cur(st))), ok(st, stage))))
            return out
        c.hint(hint)
        E.frame = False
        c.flat = False
        c.case_hook = lambda ex, li: [row == ia] if comp else [row == ib, row == ia]
        c.cover("large", lambda P: z3.And(z3.UGT(r, 10), z3.UGT(cc, 100)))

    def mk(L, models, rng):
        f = L.fn(fn, None, SIZE, SIZE, PTR, SIZE, *([] if comp else [PTR, SIZE]), SIZE, PTR, *([PTR] if split else []))
        for r, n in shapes(rng):
            x, y = [np.array([complex(rng.uniform(-1, 1), rng.choice([-1, 1, 0, rng.uniform(-1, 1)])) for _ in range(n)], dt) for _ in range(2)]
            ia, ib, row = [rng.randrange(r) for _ in range(3)]
            if comp:
                y, ib = x, ia
            if rng.random() < .6:
                row = rng.choice([ia, ib])

            def run(r=r, n=n, x=x, y=y, ia=ia, ib=ib, row=row):
                X, Y = arena(0).place(x), arena(1).place(y)
                fl = np.float32 if w == 32 else np.float64
                O = [arena(2).place(np.zeros(n, fl)), arena(3).place(np.zeros(n, fl))] if split else [arena(2).place(np.zeros(n, dt))]
                f(r, n, X.ptr, ia, *([] if comp else [Y.ptr, ib]), row, *[v.ptr for v in O])
                got = O[0].arr + 1j * O[1].arr if split else O[0].arr
                want = y if row == ib else x if row == ia else np.zeros(n)
                d = np.maximum(np.abs(got.real - want.real), np.abs(got.imag - want.imag))
                lim = (0.5 + 2.0 ** -7) / mx if comp and (row == ia or row == ib) else 0
                if (d > lim).any():
                    k = int(np.argmax(d))
                    return "element %d of row %d is %r, expected %r" % (k, row, got[k], want[k])
                if not all(v.intact() for v in O):
                    return "wrote outside the output"
            yield Case({"rows": r, "columns": n, "first": x, "first_row": ia, "second": y, "second_row": ib, "row": row}, run)
    return Contract("C19", fn, setup, lib="store", search=mk, cost=4, wall=240)


# ---- filters
def fsearch(fn, ty, split, again):
    w = TY[ty][0]

    def mk(L, models, rng):
        f = L.fn(fn, None, *([PTR, SIZE, SIZE] if again else []), PTR, SIZE, SIZE, SIZE, PTR, PTR, *([PTR] if split else []))
        fl = np.float32 if w == 32 else np.float64
        for r, n in shapes(rng):
            h, x, a = rnd(ty, rng, r * n), rnd(ty, rng, n), rnd(ty, rng, n)
            row = rng.randrange(r)
            r0, n0 = rng.randint(1, r + 3), n if rng.random() < .6 else rng.randint(1, n + 4)
            g = rnd(ty, rng, r0 * n0)

            def run(r=r, n=n, h=h, x=x, a=a, row=row, r0=r0, n0=n0, g=g):
                H = arena(0).place(h)
                if split:
                    X = [arena(1).place(x.real.astype(fl)), arena(2).place(x.imag.astype(fl))]
                    A = arena(3).place(np.concatenate([a.real, a.imag]).astype(fl))
                else:
                    X, A = [arena(1).place(x)], arena(3).place(a)
                f(*([arena(4).place(g).ptr, r0, n0] if again else []), H.ptr, r, n, row, *[v.ptr for v in X], A.ptr)
                got = A.arr[:n] + 1j * A.arr[n:] if split else A.arr
                want = a.astype(complex) + x.astype(complex) * h.reshape(r, n)[row]
                if not close(got, want, 1e-4, 1e-4):
                    k = int(np.argmax(np.abs(got - want)))
                    return "accumulator %d is %r, expected %r" % (k, got[k], want[k])
                if not A.intact() or not (H.arr == h).all():
                    return "wrote outside the accumulator"
            yield Case({"rows": r, "columns": n, "row": row, "earlier filter": (r0, n0) if again else None, "filter": h, "x": x, "acc": a}, run)
    return mk


def filt(ty, split):
    w, parts, dt = TY[ty]
    fn = "sfilter_f%d" % w if split else "filter_" + ty

    def setup(c):
        r, cc = z3.BitVec("rows", 64), z3.BitVec("columns", 64)
        S_ = c.grid(r, cc)
        c.requires(cc != 0)
        if split:
            c.requires(z3.ULT(r, 1 << 31), z3.ULT(cc, 1 << 31))
        h = c.arr("filter", w, S_ * c64(2))
        c.args += [r, cc]
        row = c.i("row")
        c.requires(z3.ULT(row, r))
        tr, = rowlemma(c, [row], r, cc, S_)
        if split:
            x = [c.arr("xr", w, cc), c.arr("xi", w, cc)]
            acc = [c.arr("acc", w, cc * c64(2), True)] * 2
            xe = lambda k: [c.rv(x[0].pre(k)), c.rv(x[1].pre(k))]
            ai = lambda k, j: norm(k + (cc if j else c64(0)))
        else:
            x = c.arr("x", w, cc * c64(2))
            acc = [c.arr("acc", w, cc * c64(2), True)] * 2
            xe = lambda k: [c.rv(x.pre(norm(k * c64(2) + c64(j)))) for j in range(2)]
            ai = lambda k, j: norm(k * c64(2) + c64(j))
        c.symbols += [("rows", r), ("columns", cc)]
        he = lambda k: [c.rv(h.pre(norm((tr + k) * c64(2) + c64(j)))) for j in range(2)]

        def out(S, k):
            p, q = xe(k), he(k)
            v = [p[0] * q[0] - p[1] * q[1], p[0] * q[1] + p[1] * q[0]]
            return z3.And([acc[j].rat(S, ai(k, j)).eq(c.rv(acc[j].pre(ai(k, j))) + v[j]) for j in range(2)])
        E = c.forall("accumulator k grows by x[k]*filter[row][k]", lambda k: z3.ULT(k, cc), out, acc[:1], pos=[lambda k, j=j: ai(k, j) for j in range(2)])
        hp = [(lambda k: norm(tr + k)), (lambda k: norm(S_ + tr + k))] if split else [lambda k, j=j: norm((tr + k) * c64(2) + c64(j)) for j in range(2)] + [lambda k: norm(tr + k)]
        c.flat = False
        k = E.ks[0]

        def hint(ex, li, ivs):
            out = []
            from vc.inv import ivs_of
            for nm, reg in ex.heaps.items():
                if reg.elem * 8 != w or not (reg in li.mods or reg in li.havoc):
                    continue
                a = Arr(c, reg)
                dom = z3.ULT(k, cc)
                outer = [(ov, oe(ov.get(ex.loopinfos[li.parent].head))) for ov in ivs_of(ex.loopinfos[li.parent]) for _, oe in ov.exts()] if li.parent else []
                for j in range(2):
                    ok = lambda st, j=j: a.at(st, hp[j](k)) == h.pre(norm((tr + k) * c64(2) + c64(j)))
                    for iv in ivs:
                        for en, e in iv.exts():
                            cur = lambda st, iv=iv, e=e: e(iv.get(st))
                            out.append(("%s.%d rows before %s%s stored" % (nm, j, iv.name, en), lambda st, ok=ok, cur=cur: z3.Implies(z3.And(dom, z3.ULT(row, cur(st))), ok(st))))
                            out.append(("%s.%d flat positions before %s%s stored" % (nm, j, iv.name, en), lambda st, ok=ok, cur=cur: z3.Implies(z3.And(dom, z3.ULT(norm(tr + k), cur(st))), ok(st))))
                            for ov, oc in outer:
                                out.append(("%s.%d positions before %s, %s%s stored" % (nm, j, ov.name, iv.name, en), lambda st, ok=ok, cur=cur, oc=oc:
                                            z3.Implies(z3.And(dom, z3.Or(z3.ULT(row, oc), z3.And(row == oc, z3.ULT(k, cur(st))))), ok(st))))
                                ax = [z3.Implies(z3.And(z3.ULT(p, q), z3.ULT(q, r)), z3.ULE(c.mul(p, cc) + cc, c.mul(q, cc))) for p, q in ((oc, row), (row, oc))]
                                for x in ax:
                                    if x.get_id() not in seen:
                                        seen[x.get_id()] = x
                                        c.spec_axioms.append(x)
            return out
        seen = {}
        c.hint(hint)

        def cases(ex, li):
            from vc.inv import ivs_of
            return [k == norm(iv.get(li.head) + c64(l)) for iv in ivs_of(li) if iv.kind == "int" and iv.w == 64 and iv.step and 0 < iv.step < 17 for l in range(iv.step)]
        c.case_hook = cases
        c.cover("large", lambda P: z3.And(z3.UGT(r, 10), z3.UGT(cc, 100)))
    return Contract("C19", fn, setup, lib="store", search=fsearch(fn, ty, split, False), cost=4, wall=240)


CONTRACTS = [access(i, f) for i, f in (("i8", "f32"), ("i16", "f32"), ("i8", "f64"), ("i16", "f64"), ("i8c", "c64"), ("i16c", "c64"), ("i8c", "c128"), ("i16c", "c128"))]
CONTRACTS += [fdl("dense", "c64"), fdl("dense", "c128"), fdl("split", "c64"), fdl("split", "c128"), fdl("comp8", "c64"), fdl("comp16", "c64")]
CONTRACTS += [filt("c64", False), filt("c128", False), filt("c64", True), filt("c128", True)]
CONTRACTS += [Contract("C19", fn, None, lib="store", search=fsearch(fn, ty, split, True), bounded="filter shapes as generated, set after another filter with up to three rows and four columns more")
              for fn, ty, split in (("refilter_c64", "c64", False), ("refilter_c128", "c128", False), ("resfilter_f32", "c64", True), ("resfilter_f64", "c128", True))]
