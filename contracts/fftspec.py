"""Specification of the radix-2 decimation-in-time butterflies, and the loop invariants they need.

X(L, i) is element i of the array once every sub-transform of length L is complete: X(1, i) is the (reordered) input and
    X(2L, i) = X(L, i) + T X(L, i+L)      if bit L of i is clear
             = X(L, i-L) - T X(L, i)      otherwise,      T = twiddle[(i mod L) * N/(2L)]
(lemmas/Fft.lean proves that X(N, k) is then the discrete Fourier transform).  X is unfolded at the terms that occur.

The bit-level vocabulary (i mod L, bit L of i, multiple of L, power of two) is uninterpreted; the solver sees instances of the
lemmas in LEMMAS below, each of which is an obligation of its own (proved once, by bit-blasting, with the definitions in DEF)."""
import z3
from vc.contract import c64, RV
from vc.mem import norm, div_exact, lin

BV = z3.BitVecVal
B64, R, BOOL = z3.BitVecSort(64), z3.RealSort(), z3.BoolSort()
MAXO = 28
MAXL = 1 << MAXO

# ---- the vocabulary: uninterpreted symbols and their definitions
lo_f = z3.Function("mod_pow2", B64, B64, B64)        # lo(L, i) = i mod L
up_f = z3.Function("bit_of", B64, B64, BOOL)         # up(L, i) : bit L of i is set
al_f = z3.Function("multiple_of", B64, B64, BOOL)    # al(M, k) : M divides k
p2_f = z3.Function("is_pow2", B64, BOOL)             # p2(L)    : L = 2^s with s <= MAXO
tix_f = z3.Function("twiddle_index", B64, B64, B64, B64)   # tix(N, L, p) = p * N / (2L)


def d_lo(L, i): return i & (L - 1)
def d_up(L, i): return (i & L) != 0
def d_al(M, k): return (k & (M - 1)) == 0
def d_p2(L): return z3.And(L != 0, (L & (L - 1)) == 0, z3.ULE(L, MAXL))


def log2(L):
    r = c64(0)
    for j in range(1, MAXO + 1):
        r = z3.If(L == (1 << j), c64(j), r)
    return r


def d_tix(N, L, p): return p << (log2(N) - 1 - log2(L))


ABS = dict(lo=lo_f, up=up_f, al=al_f, p2=p2_f, tix=tix_f)
DEF = dict(lo=d_lo, up=d_up, al=d_al, p2=d_p2, tix=d_tix)


class V:
    def __init__(self, d):
        self.__dict__.update(d)


def l_small(v, L, i):
    return z3.Implies(v.p2(L), z3.And(z3.ULT(v.lo(L, i), L), L != 0, z3.ULE(L, MAXL)))


def l_block(v, L, k, i):
    d = i - k
    return z3.Implies(z3.And(v.p2(L), v.al(L * 2, k), z3.ULT(d, L * 2)),
                      z3.And(v.up(L, i) == z3.UGE(d, L), v.lo(L, i) == z3.If(z3.UGE(d, L), d - L, d)))


def l_next(v, M, k):
    return z3.Implies(v.p2(M), z3.And(v.al(M, c64(0)), z3.Implies(v.al(M, k), v.al(M, k + M))))


def l_fits(v, M, N, k):
    return z3.Implies(z3.And(v.p2(M), v.p2(N), z3.ULE(M, N), v.al(M, k), z3.ULT(k, N)), z3.ULE(k + M, N))


def l_shift(v, s):
    return z3.Implies(z3.ULE(s, MAXO), z3.And(v.p2(c64(1) << s), c64(1) << (s + 1) == (c64(1) << s) * 2, c64(2) << s == (c64(1) << s) * 2,
                                              c64(4) << s == (c64(1) << s) * 4, c64(1) << (s + 2) == (c64(1) << s) * 4))


def l_mono(v, s, o):
    return z3.Implies(z3.And(z3.ULT(s, o), z3.ULE(o, MAXO)), z3.ULE((c64(1) << s) * 2, c64(1) << o))


def l_double(v, L):
    return z3.Implies(z3.And(v.p2(L), z3.ULT(L, MAXL)), v.p2(L * 2))


def l_half(v, L):
    return z3.Implies(z3.And(v.p2(L), z3.UGE(L, 2)), z3.And(v.p2(z3.LShR(L, c64(1))), z3.LShR(L, c64(1)) * 2 == L))


def l_lt(v, L, N):
    """powers of two: less means at most half"""
    return z3.Implies(z3.And(v.p2(L), v.p2(N), z3.ULT(L, N)), z3.ULE(L * 2, N))


def l_tix_shift(v, s, o, p):
    return z3.Implies(z3.And(z3.ULT(s, o), z3.ULE(o, MAXO)), v.tix(c64(1) << o, c64(1) << s, p) == p << (o - 1 - s))


def l_tix_div(v, L, N, p):
    return z3.Implies(z3.And(v.p2(L), v.p2(N), z3.ULT(L, N)), v.tix(N, L, p) == p * z3.UDiv(N, L * 2))


def l_tix_range(v, L, N, p):
    t = v.tix(N, L, p)
    return z3.Implies(z3.And(v.p2(L), v.p2(N), z3.ULT(L, N), z3.ULT(p, L)), z3.And(z3.ULT(t, z3.LShR(N, c64(1))), z3.ULE(p, t), z3.Implies(L * 2 == N, t == p)))


# name -> (function, number of arguments, is the division exact circuit needed)
LEMMAS = {"small": (l_small, 2), "block": (l_block, 3), "next": (l_next, 2), "fits": (l_fits, 3), "shift": (l_shift, 1), "mono": (l_mono, 2),
          "double": (l_double, 1), "half": (l_half, 1), "lt": (l_lt, 2), "tix_shift": (l_tix_shift, 3), "tix_div": (l_tix_div, 3), "tix_range": (l_tix_range, 3)}


def prove_lemmas():
    """every lemma, for all arguments, with the definitions"""
    out = []
    for nm, (f, n) in LEMMAS.items():
        s = z3.Solver()
        s.set("timeout", 60000)
        xs = [z3.BitVec("x%d" % j, 64) for j in range(n)]
        if nm == "tix_div":      # by cases over the finitely many powers of two: a division by a constant each
            ok = True
            p = xs[0]
            for o in range(1, MAXO + 1):
                for q in range(0, o):
                    N, L = c64(1 << o), c64(1 << q)
                    g = z3.simplify(z3.Not(f(V(DEF), L, N, p)))
                    if z3.is_false(g):
                        continue
                    s.push()
                    s.add(g)
                    ok = ok and s.check() == z3.unsat
                    s.pop()
            out.append((nm, ok))
            continue
        s.add(z3.Not(f(V(DEF), *xs)))
        out.append((nm, s.check() == z3.unsat))
    return out


class Stages:
    def __init__(self, c, order, re0, im0, twr, twi, re, im, dec=None):
        """re0/im0(i): input element (RV); twr/twi(j): twiddle (RV); re/im(S, i): current element; dec: element index of a read -> i"""
        self.c, self.order = c, order
        self.N = c64(1) << order
        self.re0, self.im0, self.twr, self.twi, self.re, self.im, self.dec = re0, im0, twr, twi, re, im, dec
        self.fr, self.fi = z3.Function("Xre", B64, B64, R), z3.Function("Xim", B64, B64, R)
        self.skolems = []
        self.ax = []
        self.reset()
        c.stage_hooks.append(lambda stage: self.reset())
        c.smt_lemmas = prove_lemmas

    def reset(self):
        """forget the instances made so far: each round of invariant inference makes its own"""
        drop = {a.get_id() for a in self.ax}
        self.c.spec_axioms[:] = [a for a in self.c.spec_axioms if a.get_id() not in drop]
        self.ax = []
        self.done = {}
        self.sof = {}            # L -> s with L = 2^s
        self.Lset = {}           # every stage length in use
        self.elems = {}          # every element looked at
        self.blocks = {}         # (L, block start)
        self.tw_terms = {}
        self.sknown(self.N, self.order)
        for i in self.skolems:
            self.base(i)

    def say(self, *fs):
        self.ax += fs
        self.c.spec_axioms += fs

    # ---- lemma instances
    def lem(self, nm, *xs):
        xs = [norm(x) for x in xs]
        k = (nm,) + tuple(x.get_id() for x in xs)
        if k in self.done:
            return
        f = LEMMAS[nm][0](V(ABS), *xs)
        if nm == "tix_div":
            L, N, p = xs
            f = z3.Implies(z3.And(p2_f(L), p2_f(N), z3.ULT(L, N)), tix_f(N, L, p) == self.c.mul(p, self.c.divrem("udiv", N, norm(L * 2))))
        self.done[k] = (xs, f)
        self.say(f)

    def sknown(self, L, s):
        """L is 2^s"""
        L, s = norm(L), norm(s)
        if (L.get_id(), s.get_id()) in self.sof:
            return
        self.sof[L.get_id(), s.get_id()] = (L, s)
        self.lem("shift", s)
        if not s.eq(norm(self.order)):
            self.lem("mono", s, self.order)
        for (l, p) in list(self.tw_terms.values()):
            if l.eq(L):
                self.lem("tix_shift", s, self.order, p)

    def lenknown(self, L):
        L = norm(L)
        if L.get_id() in self.Lset or z3.is_bv_value(L):
            return
        self.Lset[L.get_id()] = L
        self.lem("double", L)
        self.lem("lt", L, self.N)
        for i in list(self.elems.values()):
            self.lem("small", L, i)

    def elem(self, i):
        i = norm(i)
        if i.get_id() in self.elems:
            return
        self.elems[i.get_id()] = i
        for L in list(self.Lset.values()):
            self.lem("small", L, i)
        for L, k in list(self.blocks.values()):
            self.lem("block", L, k, i)

    def block(self, L, k):
        """k is the start of a block of length 2L"""
        L, k = norm(L), norm(k)
        if z3.is_bv_value(L) or (L.get_id(), k.get_id()) in self.blocks:
            return
        self.lenknown(L)
        self.blocks[L.get_id(), k.get_id()] = (L, k)
        M = norm(L * 2)
        self.lem("next", M, k)
        self.lem("fits", M, self.N, k)
        for i in list(self.elems.values()):
            self.lem("block", L, k, i)

    # ---- vocabulary
    def lo(self, L, i):
        L, i = norm(L), norm(i)
        return i & (L - 1) if z3.is_bv_value(L) else lo_f(L, i)

    def up(self, L, i):
        L, i = norm(L), norm(i)
        return (i & L) != 0 if z3.is_bv_value(L) else up_f(L, i)

    def al(self, M, k):
        M, k = norm(M), norm(k)
        return (k & (M - 1)) == 0 if z3.is_bv_value(M) else al_f(M, k)

    def X(self, L, i):
        L, i = norm(L), norm(i)
        return self.c.rv(self.fr(L, i)), self.c.rv(self.fi(L, i))

    def base(self, i):
        """X(1, i) is the input"""
        i = norm(i)
        if ("b", i.get_id()) not in self.done:
            self.done["b", i.get_id()] = i
            if not any(i.eq(x) for x in self.skolems):
                self.skolems.append(i)
            r, m = self.X(c64(1), i)
            self.say(r.t() == self.re0(i).t(), m.t() == self.im0(i).t())

    def tw(self, L, p):
        L, p = norm(L), norm(p)
        t = tix_f(norm(self.N), L, p)
        self.tw_terms[L.get_id(), p.get_id()] = (L, p)
        for l, s in list(self.sof.values()):
            if l.eq(L):
                self.lem("tix_shift", s, self.order, p)
        self.lem("tix_range", L, self.N, p)
        if self.c.div_abstract:
            self.lem("tix_div", L, self.N, p)
        return self.twr(t), self.twi(t)

    def unfold(self, L, i):
        """X(2L, i) in terms of X(L, .)"""
        L, i = norm(L), norm(i)
        k = (L.get_id(), i.get_id())
        if k in self.done:
            return
        self.done[k] = (L, i)
        self.elem(i)
        self.lenknown(L)
        up = z3.Not(self.up(L, i))
        e = self.X(L, z3.If(up, i, i - L))
        o = self.X(L, z3.If(up, i + L, i))
        one = z3.is_bv_value(L) and L.as_long() == 1
        if one:
            tr, ti = o
        else:
            wr, wi = self.tw(L, self.lo(L, i))
            tr, ti = wr * o[0] - wi * o[1], wr * o[1] + wi * o[0]
        n = self.X(norm(L * 2), i)
        for a, b, t in ((n[0], e[0], tr), (n[1], e[1], ti)):
            ax = a.t() == z3.If(up, (b + t).t(), (b - t).t())
            self.say(ax if one else z3.Implies(L != 1, ax))

    def holds(self, S, L, i):
        r, m = self.X(L, i)
        return z3.And(self.re(S, i).eq(r), self.im(S, i).eq(m))

    # ------------------------------------------------------------------ invariants
    def chain(self, ex, li):
        out = []
        q = li.parent
        while q is not None:
            out.append(ex.loopinfos[q])
            q = ex.loopinfos[q].parent
        return out

    @staticmethod
    def ext(iv, t):
        return t if iv.w == 64 else z3.ZeroExt(64 - iv.w, t)

    def Lexprs(self, ivs):
        """ways in which loop variables determine the stage: (name, L(st), s(st) or None)"""
        out = []
        counter = False
        for iv in ivs:
            if iv.kind == "int" and iv.step == 1:
                counter = True
                out.append(("2^" + iv.name, lambda st, iv=iv: c64(1) << norm(self.ext(iv, iv.get(st))), lambda st, iv=iv: norm(self.ext(iv, iv.get(st)))))
        for iv in ivs:
            if iv.kind == "int" and iv.step is None and iv.pow2 is not False and not counter:
                out.append((iv.name, lambda st, iv=iv: norm(self.ext(iv, iv.get(st))), None))
                out.append((iv.name + "/2", lambda st, iv=iv: self.half(iv, st), None))
        return out

    def half(self, iv, st):
        t = iv.get(st)
        h = norm(self.ext(iv, z3.LShR(t, BV(1, iv.w))))
        # name the relation between the two views
        self.lenknown(norm(self.ext(iv, t)))
        self.lem("half", norm(self.ext(iv, t)))
        self.say(h == z3.LShR(norm(self.ext(iv, t)), c64(1)))
        return h

    def stage_lengths(self, ex, li):
        """(name, L) fixed while the loop runs: given by the outermost loop around it; without one, the first or the last stage"""
        up = self.chain(ex, li)
        if not up:
            self.lem("half", self.N)
            return [("1", c64(1)), ("N/2", z3.LShR(self.N, c64(1)))]
        Ls = []
        o = up[-1]
        for nm, Lf, sf in self.Lexprs(ex.all_ivs[o.name]):
            L = Lf(o.head)
            if sf is not None:
                self.sknown(L, sf(o.head))
            Ls.append((nm, L))
        return Ls

    def hint(self, k, regions, valid):
        """k: the skolem element; regions: the arrays holding the elements; valid(i): i is an element"""
        def at_reads(li):
            """elements read from the memory at the loop head"""
            out, seen = [], set()
            for r in regions:
                n = li.head.mem.get(r)
                for idx in list(getattr(n, "reads", {}).values()):
                    i = self.dec(idx)
                    if i is not None and i.get_id() not in seen and not i.eq(k):
                        seen.add(i.get_id())
                        self.elem(i)
                        out.append(i)
            return out

        def split(ex, li):
            return [k == i for i in at_reads(li)]
        self.c.case_hook = split

        def cand(name, f, li):
            def fn(st):
                return z3.Implies(valid(k), f(st, k))
            fn.inst = lambda l: [z3.Implies(valid(i), f(l.head, i)) for i in at_reads(l)]
            return (name, fn)

        def hint(ex, li, ivs):
            if not any(r in li.mods or r in li.havoc for r in regions):
                return []
            self.elem(k)
            at_reads(li)
            out = []
            up = self.chain(ex, li)
            # nothing done so far
            out.append(cand("all at stage 1", lambda st, i: self.holds(st, c64(1), i), li))
            out.append(cand("all at stage 2", lambda st, i: self.holds(st, c64(2), i), li))
            # stage loop
            kids = any(ex.loopinfos[h].parent == li.name for h in ex.loopinfos)
            for nm, Lf, sf in self.Lexprs(ivs) if kids and not up else []:
                L = Lf(li.head)
                if sf is not None:
                    self.sknown(L, sf(li.head))
                self.lenknown(L)
                out.append(cand("all at stage " + nm, lambda st, i, Lf=Lf: z3.If(z3.ULE(Lf(st), self.N), self.holds(st, Lf(st), i), self.holds(st, self.N, i)), li))
            # loops inside a stage whose length is fixed by an outer loop (or constant, or half the array)
            kk = [(o, iv) for o in up for iv in ex.all_ivs[o.name] if iv.kind == "int"]
            for Ln, L in self.stage_lengths(ex, li):
                self.unfold(L, k)
                if Ln == "N/2":
                    self.block(L, c64(0))
                for iv in ivs:
                    if iv.kind != "int":
                        continue
                    for en, e in iv.exts():
                        cur = lambda st, iv=iv, e=e: norm(e(iv.get(st)))
                        if iv.step is None or abs(iv.step) > 1:
                            # blocks before the current one
                            self.block(L, cur(li.head))
                            blk = lambda st, i, cur=cur, L=L: z3.And(z3.Implies(z3.ULT(i, cur(st)), self.holds(st, L * 2, i)),
                                                                     z3.Implies(z3.UGE(i, cur(st)), self.holds(st, L, i)))
                            out.append(cand("stage %s: blocks before %s%s" % (Ln, iv.name, en), blk, li))
                        # pairs before the current one in every block
                        if iv.step == 1:
                            prs = lambda st, i, cur=cur, L=L: z3.If(z3.ULT(self.lo(L, i), cur(st)), self.holds(st, L * 2, i), self.holds(st, L, i))
                            out.append(cand("stage %s: pairs before %s%s" % (Ln, iv.name, en), prs, li))
                        for o, ov in kk:
                            for oen, oe in ov.exts():
                                b = norm(oe(ov.get(o.head)))
                                if iv.step == 1 and ov.step is None:
                                    self.block(L, b)
                                    z0 = z3.simplify(iv.init)
                                    offs = (0,) if z3.is_bv_value(z0) else (0, 1)
                                    for off in offs:
                                        # within block b: pairs before cur (or cur - b)
                                        def fp(st, i, cur=cur, L=L, b=b, off=off):
                                            p = cur(st) - b if off else cur(st)
                                            d = z3.Or(z3.ULT(i, b), z3.And(z3.ULT(i - b, L * 2), z3.ULT(self.lo(L, i), p)))
                                            return z3.If(d, self.holds(st, L * 2, i), self.holds(st, L, i))
                                        out.append(cand("stage %s: blocks before %s%s, pairs before %s%s%s" % (Ln, ov.name, oen, iv.name, en, "-block" if off else ""), fp, li))
                                if iv.step is None and ov.step == 1:
                                    # pair loop outside, block loop inside
                                    def fq(st, i, cur=cur, L=L, b=b):
                                        p = self.lo(L, i)
                                        d = z3.Or(z3.ULT(p, b), z3.And(p == b, z3.ULT(i, cur(st))))
                                        return z3.If(d, self.holds(st, L * 2, i), self.holds(st, L, i))
                                    out.append(cand("stage %s: pairs before %s%s, blocks before %s%s" % (Ln, ov.name, oen, iv.name, en), fq, li))
            return out
        return hint

    def scalar_hints(self):
        """facts about the loop variables themselves: powers of two, multiples of the block length"""
        def hint(ex, li, ivs):
            out = []

            def sc(nm, fn):
                fn.scalar = True
                out.append((nm, fn))
            up = self.chain(ex, li)
            for bi, B in enumerate(li.bounds):
                B = norm(B) if B.size() == 64 else norm(z3.ZeroExt(64 - B.size(), B))
                if not z3.is_bv_value(B):
                    sc("bound%d is the order" % bi, lambda st, B=B: B == self.order)
                    sc("bound%d is the order - 1" % bi, lambda st, B=B: z3.And(self.order != 0, B == self.order - 1))
                    sc("bound%d is the size" % bi, lambda st, B=B: B == self.N)
            for iv in ivs:
                if iv.kind != "int":
                    continue
                for en, e in iv.exts():
                    cur = lambda st, iv=iv, e=e: norm(e(iv.get(st)))
                    if iv.step is None:
                        self.lenknown(cur(li.head))
                        sc("%s%s is a power of two" % (iv.name, en), lambda st, cur=cur: self.p2(cur(st)))
                        for m in (1, 2, 4):
                            sc("%s%s <= %dN" % (iv.name, en, m), lambda st, cur=cur, m=m: z3.ULE(cur(st), self.N * m))
                        for j in ivs:
                            if j is not iv and j.kind == "int":
                                for jn, je in j.exts():
                                    if j.step == 1:
                                        jh = norm(je(j.get(li.head)))
                                        self.sknown(c64(1) << jh, jh)
                                        self.lem("shift", jh + 1)
                                        for m in (0, 1, 2):
                                            sc("%s%s is 2^(%s%s+%d)" % (iv.name, en, j.name, jn, m),
                                               lambda st, cur=cur, j=j, je=je, m=m: cur(st) == (c64(1) << norm(je(j.get(st)))) * (1 << m))
                    sc("%s%s <= order" % (iv.name, en), lambda st, cur=cur: z3.ULE(cur(st), self.order))
                    sc("%s%s <= order or at init" % (iv.name, en), lambda st, cur=cur, iv=iv: z3.Or(iv.get(st) == iv.init, z3.ULE(cur(st), self.order)))
                    sc("%s%s <= N" % (iv.name, en), lambda st, cur=cur: z3.ULE(cur(st), self.N))
                    for nm, L in (self.stage_lengths(ex, li) if up else []):
                        if iv.step is None:
                            self.block(L, cur(li.head))
                            sc("%s%s is a multiple of 2*%s" % (iv.name, en, nm), lambda st, cur=cur, L=L: self.al(L * 2, cur(st)))
                        sc("%s%s <= %s" % (iv.name, en, nm), lambda st, cur=cur, L=L: z3.ULE(cur(st), L))
                        for o in up:
                            for ov in ex.all_ivs[o.name]:
                                if ov.kind == "int" and iv.step == 1 and ov.step is None:
                                    for on, oe in ov.exts():
                                        b = norm(oe(ov.get(o.head)))
                                        sc("%s%s <= %s%s+%s" % (iv.name, en, ov.name, on, nm), lambda st, cur=cur, L=L, b=b: z3.And(z3.UGE(cur(st), b), z3.ULE(cur(st), b + L)))
            return out
        return hint

    def p2(self, L):
        L = norm(L)
        if z3.is_bv_value(L):
            v = L.as_long()
            return z3.BoolVal(0 < v <= MAXL and v & (v - 1) == 0)
        return p2_f(L)
