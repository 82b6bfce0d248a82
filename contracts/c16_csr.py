"""C16: a sparse matrix reads back what was put in; multiply-add with a row touches exactly the stored columns."""
from .common import *
from .registry import ASSUME_FP
from .c13_linalg import TY, rnd

FUNCTIONS = ["neo::csr_matrix::csr_matrix(rows, columns), csr_matrix(matrix, filter), operator(), insert, rows, columns, extent",
             "neo::multiply_add(vector, csr_matrix, row, vector, vector)"]
ASSUMPTIONS = ASSUME_FP + ["the matrix is instantiated with containers over the caller's memory (harness/sparse.cpp), in any state in which the row offsets ascend and the columns of a row ascend; "
                           "an insertion into a container is recorded there instead of moving the elements behind it (what std::vector::insert does is trusted)",
                           "rows, columns and stored elements below 2^31, fewer than 2^40 positions; row and column within the matrix",
                           "the number of selected positions before p grows with p (lemma rank_mono in lemmas/Grid.lean)"]
LEMMAS = ["Grid.lean"]


class State:
    """an arbitrary valid matrix as seen from one of its rows"""

    def __init__(self, c, ty, wr=False, wv=False):
        w, parts, dt = TY[ty]
        self.c, self.w, self.parts = c, w, parts
        self.r, self.cols = c.i("rows"), c.i("columns")
        nnz = z3.BitVec("stored", 64)
        c.requires(z3.ULT(self.r, 1 << 31), z3.ULT(self.cols, 1 << 31), z3.ULT(nnz, 1 << 31))
        self.rix = c.arr("row_offsets", 64, norm(self.r + 1), wr)
        self.cix = c.arr("column_indices", 64, nnz)
        self.vals = c.arr("values", w, nnz * c64(parts), wv)
        c.args.append(nnz)
        c.symbols.append(("stored", nnz))
        self.row = c.i("row")
        c.requires(z3.ULT(self.row, self.r))
        self.lo, self.hi = self.rix.pre(self.row), self.rix.pre(norm(self.row + 1))
        c.requires(z3.ULE(self.lo, self.hi), z3.ULE(self.hi, nnz))
        self.nnz = nnz
        # where a column is stored in the row (columns of a row are distinct)
        self.has = z3.Function("has", z3.BitVecSort(64), z3.BoolSort())
        self.at = z3.Function("where", z3.BitVecSort(64), z3.BitVecSort(64))
        inside = lambda i: z3.And(z3.UGE(i, self.lo), z3.ULT(i, self.hi))
        self.inside = inside
        f = self.cix.r.base.f
        c.requires_each(self.cix, lambda i: z3.Implies(inside(i), z3.And(z3.ULT(f(i), self.cols), self.has(f(i)), self.at(f(i)) == i)))

    def query(self, k):
        """facts about looking for column k"""
        self.c.spec_axioms.append(z3.Implies(self.has(k), z3.And(self.inside(self.at(k)), self.cix.r.base.f(norm(self.at(k))) == k)))

    def v(self, i):
        return [self.vals.pre(norm(i * c64(self.parts) + c64(j))) for j in range(self.parts)]


def ivs64(ivs):
    return [(iv, en, e) for iv in ivs for en, e in iv.exts()]


def get(ty):
    w, parts, dt = TY[ty]
    fn = "csrget_" + ty

    def setup(c):
        s = State(c, ty)
        col = c.i("column")
        c.requires(z3.ULT(col, s.cols))
        o = c.arr("out", w, parts, True)
        dim = c.arr("dim", 64, 4, True)
        s.query(col)
        for j in range(parts):
            c.ensures("the element is the stored value of its column, zero if there is none (part %d)" % j,
                      lambda P, j=j: c.rv(o.at(P, c64(j))).t() == z3.If(s.has(col), c.rv(s.v(s.at(col))[j]).t(), c.rv(0).t()))
        c.ensures("the extents are those given", lambda P: z3.And(dim.at(P, c64(0)) == s.r, dim.at(P, c64(1)) == s.cols, dim.at(P, c64(2)) == s.r, dim.at(P, c64(3)) == s.cols))
        c.cover("found late", lambda P: z3.And(s.has(col), z3.UGT(s.at(col) - s.lo, 10)))
        c.cover("not found", lambda P: z3.And(z3.Not(s.has(col)), z3.UGT(s.hi - s.lo, 10)))
        c.hint(lambda ex, li, ivs: [("column not before %s%s" % (iv.name, en), lambda st, iv=iv, e=e: z3.Implies(s.has(col), z3.UGE(s.at(col), e(iv.get(st)))))
                                    for iv, en, e in ivs64(ivs)]
               + [("column not at or behind %s%s" % (iv.name, en), lambda st, iv=iv, e=e: z3.Implies(s.has(col), z3.ULT(s.at(col), e(iv.get(st)))))
                  for iv, en, e in ivs64(ivs) if iv.step == -1])
    return Contract("C16", fn, setup, lib="sparse", search=hist(ty), nlib="sparse", skey="csrhist_" + ty)


def fma(ty, alias):
    w, parts, dt = TY[ty]
    fn = "csrfma_" + ty

    def setup(c):
        s = State(c, ty)
        x, z = c.arr("x", w, s.cols * c64(parts)), c.arr("z", w, s.cols * c64(parts), alias)
        o = c.same(z) if alias else c.arr("out", w, s.cols * c64(parts), True)
        el = lambda a, k: [c.rv(a.pre(norm(k * c64(parts) + c64(j)))) for j in range(parts)]
        pos = [lambda k, j=j: norm(k * c64(parts) + c64(j)) for j in range(parts)]

        def done(S, k):
            a, b, d = el(x, k), [c.rv(q) for q in s.v(s.at(k))], el(z, k)
            p = [a[0] * b[0]] if parts == 1 else [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
            return z3.And([c.rv(o.at(S, pos[j](k))).eq(p[j] + d[j]) for j in range(parts)])

        def same(S, k):
            return z3.And([o.at(S, p(k)) == o.pre(p(k)) for p in pos])
        E = c.forall("column k of the output is x[k]*row[k]+z[k] where the row stores k, and keeps its value elsewhere", lambda k: z3.ULT(k, s.cols),
                     lambda S, k: z3.And(z3.Implies(s.has(k), done(S, k)), z3.Implies(z3.Not(s.has(k)), same(S, k))), [o], pos=pos)
        k = E.ks[0]
        s.query(k)
        E.noauto = True
        c.cover("many", lambda P: z3.UGT(s.hi - s.lo, 10))

        def hint(ex, li, ivs):
            out = []
            dom = z3.ULT(k, s.cols)
            for iv, en, e in ivs64(ivs):
                for nm, lt in (("before", lambda a, b: z3.ULT(a, b)), ("behind", lambda a, b: z3.UGE(a, b))):
                    g = lambda st, iv=iv, e=e, lt=lt: z3.And(dom, s.has(k), lt(s.at(k), e(iv.get(st))))
                    out += [("column stored %s %s%s done" % (nm, iv.name, en), lambda st, g=g: z3.Implies(g(st), done(st, k))),
                            ("column stored %s %s%s kept" % (nm, iv.name, en), lambda st, g=g: z3.Implies(g(st), same(st, k)))]
            out.append(("other columns kept", lambda st: z3.Implies(z3.And(dom, z3.Not(s.has(k))), same(st, k))))
            return out
        c.hint(hint)
    return Contract("C16", fn, setup, lib="sparse", variant="in place" if alias else "", search=hist(ty), skey="csrhist_" + ty)


def insert(ty):
    w, parts, dt = TY[ty]
    fn = "csrins_" + ty

    def setup(c):
        s = State(c, ty, True, True)
        col = c.i("column")
        c.requires(z3.ULT(col, s.cols))
        v = c.arr("v", w, parts)
        val, vlog, cval, clog = c.arr("value", w, parts, True), c.arr("vlog", 64, 2, True), c.arr("column_value", 64, 1, True), c.arr("clog", 64, 2, True)
        s.query(col)
        # columns of the row ascend: p is the first one not below col
        p = z3.BitVec("place", 64)
        f = s.cix.r.base.f
        c.symbols.append(("place", p))
        c.requires(z3.UGE(p, s.lo), z3.ULE(p, s.hi))
        c.requires_each(s.cix, lambda i: z3.Implies(s.inside(i), z3.ULT(f(i), col) == z3.ULT(i, p)))
        c.requires(z3.Implies(s.has(col), s.at(col) == p))
        n1 = lambda a, P: a.at(P, c64(1)) - a.pre(c64(1))
        c.ensures("a column that is not stored is inserted once, in ascending order", lambda P: z3.Implies(z3.Not(s.has(col)), z3.And(
            n1(vlog, P) == 1, n1(clog, P) == 1, vlog.at(P, c64(0)) == p, clog.at(P, c64(0)) == p, cval.at(P, c64(0)) == col, *[val.at(P, c64(j)) == v.pre(c64(j)) for j in range(parts)])))
        c.ensures("a column that is stored gets the new value in place", lambda P: z3.Implies(s.has(col), z3.And(
            n1(vlog, P) == 0, n1(clog, P) == 0, *[s.vals.at(P, norm(p * c64(parts) + c64(j))) == v.pre(c64(j)) for j in range(parts)])))
        c.forall("later rows move by one exactly when a column is inserted", lambda k: z3.ULE(k, s.r),
                 lambda S, k: s.rix.at(S, k) == s.rix.pre(k) + z3.If(z3.And(z3.Not(s.has(col)), z3.UGT(k, s.row)), c64(1), c64(0)), [s.rix])
        c.forall("other values stay", lambda k: z3.ULT(k, s.nnz * c64(parts)),
                 lambda S, k: z3.Implies(z3.Or(z3.Not(s.has(col)), (k != p) if parts == 1 else (z3.LShR(k, c64(1)) != p)), s.vals.at(S, k) == s.vals.pre(k)), [s.vals])
        c.cover("inserted", lambda P: z3.And(z3.Not(s.has(col)), z3.UGT(p - s.lo, 5), z3.UGT(s.hi - p, 5)))
        c.cover("replaced", lambda P: s.has(col))
        c.hint(lambda ex, li, ivs: [("%s%s not behind the place" % (iv.name, en), lambda st, iv=iv, e=e: z3.ULE(e(iv.get(st)), p)) for iv, en, e in ivs64(ivs)]
               + [("%s%s not before the place" % (iv.name, en), lambda st, iv=iv, e=e: z3.UGE(e(iv.get(st)), p)) for iv, en, e in ivs64(ivs)])
    return Contract("C16", fn, setup, lib="sparse", search=hist(ty), skey="csrhist_" + ty)


def make(ty):
    w, parts, dt = TY[ty]
    fn = "csrmake_" + ty

    def setup(c):
        r, cc = z3.BitVec("rows", 64), z3.BitVec("columns", 64)
        S_ = c.grid(r, cc)
        d = c.arr("matrix", w, S_ * c64(parts))
        c.args += [r, cc]
        mask = c.arr("mask", 8, S_)
        c.symbols += [("rows", r), ("columns", cc)]
        f = [None]
        mf = mask.r.base.f
        kr, kc = z3.BitVec("kr", 64), z3.BitVec("kc", 64)
        kp = norm(c.mul(kr, cc) + kc)
        sel = lambda i: mf(i) != 0

        def lemma(i, kk):
            F = f[0].raw
            for a, b in ((i, kk), (kk, i)):
                c.spec_axioms.append(z3.Implies(z3.And(z3.ULT(a, b), z3.ULE(b, S_)), z3.ULE(F(a) + z3.If(sel(a), c64(1), c64(0)), F(b))))

        def step(i, acc):
            c.spec_axioms.append(z3.Implies(z3.ULE(i, S_), z3.ULE(acc, i)))
            if f[0] is not None:
                for q in (S_, kp, norm(kp + 1)):
                    lemma(i, q)
                    lemma(norm(i + 1), q)
            return acc + z3.If(sel(i), c64(1), c64(0))
        fo = c.fold("rank", c64(0), step, real=False, auto=False)
        f[0] = fo
        rank = fo.raw
        for i in (S_, kp):
            fo.at(i)
        nnz = rank(S_)
        rix, cix, vals = c.arr("row_offsets", 64, norm(r + 1), True), c.arr("column_indices", 64, nnz, True), c.arr("values", w, nnz * c64(parts), True)
        c.args.append(nnz)
        vlog, clog = c.arr("vlog", 64, 2, True), c.arr("clog", 64, 2, True)
        c.ensures("both containers get the number of selected elements", lambda P: z3.And(vlog.at(P, c64(0)) == nnz, clog.at(P, c64(0)) == nnz))
        R = c.forall("row r starts behind the selected elements of the rows before it", lambda k: z3.ULE(k, r), lambda S, k: rix.at(S, k) == rank(norm(c.mul(k, cc))), [rix])
        fo.at(norm(c.mul(R.ks[0], cc)))
        pos = [lambda a, b, j=j: norm(rank(norm(c.mul(a, cc) + b)) * c64(parts) + c64(j)) for j in range(parts)]
        dom = lambda a, b: z3.And(z3.ULT(a, r), z3.ULT(b, cc), sel(norm(c.mul(a, cc) + b)))
        stored = lambda S, a, b: z3.And(cix.at(S, rank(norm(c.mul(a, cc) + b))) == b,
                                        *[vals.at(S, p(a, b)) == d.pre(norm((c.mul(a, cc) + b) * c64(parts) + c64(j))) for j, p in enumerate(pos)])
        E = c.forall("every selected element is stored at its rank with its column", dom, stored, [cix, vals], nk=2)
        E.ks = [kr, kc]
        E.noauto = True
        c.spec_axioms.append(z3.Implies(z3.And(z3.ULT(kr, r), z3.ULT(kc, cc)), z3.ULT(kp, S_)))
        c.cover("large", lambda P: z3.And(z3.UGT(r, 10), z3.UGT(cc, 10), z3.UGT(nnz, 50)))
        c.flat = False
        seen = {}

        def hint(ex, li, ivs):
            out = []
            cur = []
            from vc.inv import ivs_of
            hd = li.parent
            outer = ivs_of(ex.loopinfos[hd]) if hd else []
            for iv, en, e in ivs64(ivs):
                if iv.step != 1:
                    continue
                cur.append((iv.name + en + "*row", lambda st, iv=iv, e=e: norm(c.mul(e(iv.get(st)), cc))))
                cur.append((iv.name + en, lambda st, iv=iv, e=e: norm(e(iv.get(st)))))
                for ov, on, oe in ivs64(outer):
                    if ov.step == 1:
                        cur.append((ov.name + "*row+" + iv.name, lambda st, iv=iv, e=e, ov=ov, oe=oe: norm(c.mul(oe(ov.get(ex.loopinfos[hd].head)), cc) + e(iv.get(st)))))
            for nm, g in cur:
                for pn, ty_ in li.phis:
                    if ty_.k == "int" and ty_.n == 64 and not any(iv.name == pn and iv.step == 1 for iv in ivs):
                        out.append(("%s is the rank of %s" % (pn, nm), lambda st, pn=pn, g=g: st.phis[pn] == fo.at(g(st))))
                if vals.r in li.mods or cix.r in li.mods:
                    out.append(("elements before %s are stored" % nm, lambda st, g=g: z3.Implies(z3.And(dom(kr, kc), z3.ULT(kp, g(st))), stored(st, kr, kc))))
            for iv, en, e in ivs64(ivs):
                for ov, on, oe in ivs64(outer):
                    oc = oe(ov.get(ex.loopinfos[hd].head))
                    fo.at(norm(c.mul(oc, cc)))
                    for a, b in ((oc, kr), (kr, oc)):    # different rows do not overlap (row_lt)
                        ax = z3.Implies(z3.And(z3.ULT(a, b), z3.ULT(b, r)), z3.ULE(c.mul(a, cc) + cc, c.mul(b, cc)))
                        if ax.get_id() not in seen:
                            seen[ax.get_id()] = ax
                            c.spec_axioms.append(ax)
            return out
        c.hint(hint)
    return Contract("C16", fn, setup, lib="sparse", search=hist(ty), skey="csrhist_" + ty, cost=3, wall=240)


def hist(ty, bound=False):
    w, parts, dt = TY[ty]
    fn = "csrhist_" + ty

    def mk(L, models, rng):
        f = L.fn(fn, SIZE, PTR, SIZE, SIZE, PTR, PTR, PTR, SIZE, PTR, PTR, PTR, PTR)

        def case(r, n, ops, masked):
            d, mask = rnd(ty, rng, r * n), np.array([rng.random() < .4 for _ in range(r * n)], np.uint8)
            ij = np.array([[rng.randrange(r), rng.randrange(n)] for _ in range(ops)], np.uint64).reshape(-1)
            v, x, z, o = rnd(ty, rng, ops), rnd(ty, rng, n), rnd(ty, rng, r * n), rnd(ty, rng, r * n)

            def run():
                D, M, IJ, V, X, Z = [arena(i).place(q) for i, q in enumerate((d, mask, ij, v, x, z))]
                A, O = arena(6).place(np.zeros(r * n, dt)), arena(7).place(o)
                cnt = f(D.ptr, r, n, M.ptr if masked else None, IJ.ptr, V.ptr, ops, A.ptr, X.ptr, Z.ptr, O.ptr)
                want = {}
                if masked:
                    want = {i: d[i] for i in range(r * n) if mask[i]}
                for k in range(ops):
                    want[int(ij[2 * k]) * n + int(ij[2 * k + 1])] = v[k]
                for i in range(r * n):
                    if A.arr[i] != want.get(i, 0):
                        return "element (%d, %d) is %r, expected %r" % (i // n, i % n, A.arr[i], want.get(i, 0))
                if cnt != len(want):
                    return "%d elements are stored, expected %d" % (ctypes.c_int64(cnt).value, len(want))
                e = np.array([complex(x[i % n]) * complex(want[i]) + complex(z[i]) if i in want else complex(o[i]) for i in range(r * n)])
                if not close(O.arr, e, 1e-4, 1e-4):
                    k = int(np.argmax(np.abs(O.arr - e)))
                    return "multiply-add with row %d: column %d is %r, expected %r" % (k // n, k % n, O.arr[k], e[k])
                if not (A.intact() and O.intact()):
                    return "wrote outside the output"
            return Case({"rows": r, "columns": n, "matrix": d if masked else None, "mask": mask if masked else None, "inserts": ij, "values": v}, run)
        for r in range(1, 6):
            for n in range(1, 6):
                for ops in (0, 1, 2, 5, 12):
                    yield case(r, n, ops, True)
                    yield case(r, n, ops, False)
        while True:
            yield case(rng.randint(1, 9), rng.randint(1, 12), rng.randint(0, 40), rng.random() < .5)
    if not bound:
        return mk
    return Contract("C16", fn, None, lib="sparse", search=mk, skey=fn,
                    bounded="std::vector storage; matrices up to 5 by 5 with up to 12 insertions, random ones up to 9 by 12 with up to 40 insertions")


CONTRACTS = [get(t) for t in ("f32", "f64", "c64", "c128")] + [fma(t, a) for t in ("f32", "f64", "c64", "c128") for a in (False, True)]
CONTRACTS += [insert(t) for t in ("f32", "f64", "c64", "c128")]
CONTRACTS += [make(t) for t in ("f32", "f64", "c64", "c128")]
CONTRACTS += [hist(t, True) for t in ("f32", "f64", "c64", "c128")]
