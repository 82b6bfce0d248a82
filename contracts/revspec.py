"""Bit reversal: its vocabulary, the lemmas about it, and the loop invariants of code that computes or applies it.

rev(o, i) reverses the low o bits of i.  part(o, j, i) = rev(o, i mod 2^j).  Both are uninterpreted in the obligations; the solver
sees instances of the lemmas below, each an obligation of its own (by bit-blasting, one order at a time where that is easier)."""
import z3
from vc.contract import c64, Arr
from vc.mem import norm, lin, div_exact
from vc.inv import ivs_of

B64 = z3.BitVecSort(64)
MAXO = 31
rev_f = z3.Function("rev", B64, B64, B64)
part_f = z3.Function("rev_part", B64, B64, B64, B64)


def d_rev(o, i):
    return z3.LShR(z3.Concat(*[z3.Extract(b, b, i) for b in range(64)]), c64(64) - o)


def d_part(o, j, i):
    return d_rev(o, i & ((c64(1) << j) - 1))


class V:
    def __init__(self, **k):
        self.__dict__.update(k)


ABS = V(rev=rev_f, part=part_f)
DEF = V(rev=d_rev, part=d_part)


def inr(o, i):
    return z3.And(z3.ULE(o, MAXO), z3.ULT(i, c64(1) << o))


def l_inv(v, o, i):
    r = v.rev(o, i)
    return z3.And(z3.Implies(inr(o, i), z3.And(z3.ULT(r, c64(1) << o), v.rev(o, r) == i)), v.rev(o, c64(0)) == 0, z3.Implies(z3.ULE(o, MAXO), v.rev(o, (c64(1) << o) - 1) == (c64(1) << o) - 1))


def l_part(v, o, j, i):
    return z3.And(v.part(o, c64(0), i) == 0, z3.Implies(inr(o, i), v.part(o, o, i) == v.rev(o, i)),
                  z3.Implies(z3.And(inr(o, i), z3.ULT(j, o)), z3.And(v.part(o, norm(j + 1), i) == v.part(o, j, i) | ((z3.LShR(i, j) & 1) << (o - 1 - j)),
                                                                   z3.ULT(v.part(o, j, i), c64(1) << o))))


def l_half(v, o, i):
    """reversal of i from that of i/2"""
    return z3.Implies(z3.And(inr(o, i), o != 0), v.rev(o, i) == z3.LShR(v.rev(o, z3.LShR(i, c64(1))), c64(1)) | ((i & 1) << (o - 1)))


def l_next(v, o, i, k):
    """the reversed increment: carry through the leading ones down to bit k (k a power of two)"""
    r = v.rev(o, i)
    return z3.Implies(z3.And(inr(o, norm(i + 1)), i + 1 != 0, k != 0, (k & (k - 1)) == 0, z3.ULT(k, c64(1) << o), r & ~(k * 2 - 1) == (c64(1) << o) - k * 2, (r & k) == 0),
                      v.rev(o, norm(i + 1)) == (r & (k - 1)) + k)


def l_mask(v, a, k):
    """clearing the leading ones one by one"""
    return z3.Implies(z3.And(k != 0, (k & (k - 1)) == 0, z3.ULE(k, 1 << 32)), z3.And(z3.ULT(a & (k * 2 - 1), k * 2), (z3.UGE(a & (k * 2 - 1), k)) == ((a & k) != 0),
                                                               z3.Implies((a & k) != 0, z3.And((a & (k * 2 - 1)) - k == a & (k - 1)))))


LEMMAS = {"inv": (l_inv, 2), "part": (l_part, 3), "half": (l_half, 2), "next": (l_next, 3), "mask": (l_mask, 2)}


def prove_lemmas():
    out = []
    for nm, (f, n) in LEMMAS.items():
        ok = True
        xs = [z3.BitVec("x%d" % j, 64) for j in range(n)]
        cases = [[]] if nm == "mask" else [[c64(o)] for o in range(MAXO + 1)]
        for cs in cases:
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 60000)
            s.add(z3.Not(z3.simplify(f(DEF, *(cs + xs[len(cs):])))))
            r = s.check()
            ok = ok and r == z3.unsat
            if not ok:
                break
        if ok and cases != [[]]:      # orders above MAXO: only the unconditional parts
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 60000)
            s.add(z3.UGT(xs[0], MAXO), z3.Not(f(DEF, *xs)))
            ok = s.check() == z3.unsat
        out.append(("rev_" + nm, ok))
    return out


class Rev:
    def __init__(self, c, order):
        self.c, self.o = c, order
        self.N = c64(1) << order
        self.done = {}
        c.smt_lemmas = prove_lemmas

    def lem(self, nm, *xs):
        xs = [norm(x) for x in xs]
        k = (nm,) + tuple(x.get_id() for x in xs)
        if k not in self.done:
            self.done[k] = xs
            self.c.spec_axioms.append(LEMMAS[nm][0](ABS, self.o, *xs) if nm != "mask" else l_mask(ABS, *xs))

    def rev(self, i):
        i = norm(i)
        self.lem("inv", i)
        return rev_f(self.o, i)

    def part(self, j, i, step=False):
        if step:
            self.lem("part", j, i)
        return part_f(self.o, norm(j), norm(i))

    def valid(self, i):
        return z3.ULT(i, self.N)


def z64(t):
    return t if t.size() == 64 else norm(z3.ZeroExt(64 - t.size(), t)) if t.size() < 64 else z3.Extract(63, 0, t)


def heads(ex, li, steps=None):
    """(name, value at the head, iv) of the integer variables of the loops around li"""
    out = []
    q = li.parent
    while q is not None:
        o = ex.loopinfos[q]
        for iv in ivs_of(o):
            if iv.kind == "int" and (steps is None or iv.step in steps):
                for en, e in iv.exts():
                    out.append((iv.name + en, norm(e(iv.get(o.head)))))
        q = o.parent
    return out


def table_hints(c, R, k):
    """a heap buffer that is filled with the reversals of its indices"""
    def tables(ex, li):
        return [r for r in ex.heaps.values() if r.elem in (4, 8) and (r in li.mods or r in li.havoc)]

    def at_reads(li, reg):
        n = li.head.mem.get(reg)
        return [i for i in list(getattr(n, "reads", {}).values()) if not i.eq(k)]

    def hint(ex, li, ivs):
        out = []
        for reg in tables(ex, li):
            a = Arr(c, reg)
            w = reg.elem * 8
            at = lambda st, i: z64(a.at(st, i))

            def cand(name, f):
                def fn(st):
                    return z3.Implies(R.valid(k), f(st, k))

                def inst(l):
                    res = []
                    for i in at_reads(l, reg):
                        R.rev(i)
                        res.append(z3.Implies(R.valid(i), f(l.head, i)))
                    return res
                fn.inst = inst
                out.append((name, fn))
            nm = reg.name
            cand("%s is zero" % nm, lambda st, i: at(st, i) == 0)
            cand("%s is reversed" % nm, lambda st, i: at(st, i) == R.rev(i))
            curs = [("%s%s" % (iv.name, en), lambda st, iv=iv, e=e: norm(e(iv.get(st)))) for iv in ivs for en, e in iv.exts()]
            for cn, cur in curs:
                cand("%s is zero before %s" % (nm, cn), lambda st, i, cur=cur: z3.Implies(z3.ULT(i, cur(st)), at(st, i) == 0))
                cand("%s is zero from %s" % (nm, cn), lambda st, i, cur=cur: z3.Implies(z3.UGE(i, cur(st)), at(st, i) == 0))
                cand("%s is reversed before %s" % (nm, cn), lambda st, i, cur=cur: z3.Implies(z3.ULT(i, cur(st)), at(st, i) == R.rev(i)))
            for on, oc in heads(ex, li):
                R.lem("half", oc)
                cand("%s is reversed before outer %s" % (nm, on), lambda st, i, oc=oc: z3.Implies(z3.ULT(i, oc), at(st, i) == R.rev(i)))
                cand("%s is zero behind outer %s" % (nm, on), lambda st, i, oc=oc: z3.Implies(z3.UGT(i, oc), at(st, i) == 0))
                for cn, cur in curs:
                    R.part(cur(li.head), oc, True)
                    out.append(("%s[%s] has %s bits" % (nm, on, cn), lambda st, oc=oc, cur=cur: z3.Implies(R.valid(oc), at(st, oc) == R.part(cur(st), oc))))
        # a value built up bit by bit in a variable
        for on, oc in heads(ex, li):
            for iv in ivs:
                if iv.kind != "int":
                    continue
                for n, ty in li.phis:
                    if ty.k == "int" and ty.n in (32, 64) and n != iv.name:
                        for en, e in iv.exts():
                            R.part(norm(e(iv.get(li.head))), oc, True)
                            out.append(("%s has %s%s bits of %s" % (n, iv.name, en, on), lambda st, n=n, iv=iv, e=e, oc=oc:
                                        z3.Implies(R.valid(oc), z64(st.phis[n]) == R.part(norm(e(iv.get(st))), oc))))
        return out
    c.hint(hint)

    def scalars(ex, li, ivs):
        out = []

        def sc(nm, fn):
            fn.scalar = True
            out.append((nm, fn))
        for bi, B in enumerate(li.bounds):
            B = z64(B)
            if not z3.is_bv_value(B):
                sc("bound%d is the order" % bi, lambda st, B=B: B == R.o)
                sc("bound%d is the size" % bi, lambda st, B=B: B == R.N)
        for iv in ivs:
            if iv.kind == "int":
                for en, e in iv.exts():
                    cur = lambda st, iv=iv, e=e: norm(e(iv.get(st)))
                    sc("%s%s <= order" % (iv.name, en), lambda st, cur=cur: z3.ULE(cur(st), R.o))
                    sc("%s%s <= size" % (iv.name, en), lambda st, cur=cur: z3.ULE(cur(st), R.N))
        return out
    c.hint(scalars)


def swap_hints(c, R, k, arrs, ix, dec):
    """arrs: the arrays permuted together; ix(i): element positions of i in each of them; dec: position -> i"""
    def at_reads(li):
        out, seen = [], set()
        for a in arrs:
            n = li.head.mem.get(a.r)
            for idx in list(getattr(n, "reads", {}).values()):
                i = dec(idx)
                if i is not None and i.get_id() not in seen and not i.eq(k):
                    seen.add(i.get_id())
                    R.rev(i)
                    out.append(i)
        return out

    c.case_hook = lambda ex, li: [k == i for i in at_reads(li)] if any(a.r in li.mods or a.r in li.havoc for a in arrs) else []

    def hint(ex, li, ivs):
        if not any(a.r in li.mods or a.r in li.havoc for a in arrs):
            return []
        out = []

        def cand(name, lim):
            def f(st, i):
                r = R.rev(i)
                d = z3.Or(z3.ULT(i, lim(st)), z3.ULT(r, lim(st)))
                return z3.If(d, z3.And([a.at(st, p) == a.pre(q) for a in arrs for p, q in zip(ix(i), ix(r))]), z3.And([a.at(st, p) == a.pre(p) for a in arrs for p in ix(i)]))

            def fn(st):
                return z3.Implies(R.valid(k), f(st, k))
            fn.inst = lambda l: [z3.Implies(R.valid(i), f(l.head, i)) for i in at_reads(l)]
            out.append((name, fn))
        for iv in ivs:
            if iv.kind == "int" and iv.step is not None:
                for en, e in iv.exts():
                    if abs(iv.step) == 2:
                        cand("pairs before half %s%s are swapped" % (iv.name, en), lambda st, iv=iv, e=e: z3.LShR(norm(e(iv.get(st))), c64(1)))
                    else:
                        cand("pairs before %s%s are swapped" % (iv.name, en), lambda st, iv=iv, e=e: norm(e(iv.get(st))))
        return out
    c.hint(hint)


def counter_hints(c, R):
    """a variable that steps through the reversed indices by propagating a carry from the top bit"""
    def hint(ex, li, ivs):
        out = []

        def sc(nm, fn):
            fn.scalar = True
            out.append((nm, fn))
        forms = (("", lambda t: t, lambda t: t), ("2x+1 ", lambda t: z3.LShR(t - 1, c64(1)), lambda t: t * 2 + 1))
        ints = [n for n, ty in li.phis if ty.k == "int" and ty.n in (32, 64)]
        get = lambda st, n: z64(st.phis[n])
        step = {iv.name: iv.step for iv in ivs}
        for a in ints:
            for b in ints:
                if a == b:
                    continue
                for fn, dn, upf in forms if step.get(a) in (1, 2) and step.get(b) is None else ():
                    R.rev(dn(get(li.head, a)))
                    sc("%s%s is the reversal of %s" % (fn, b, a), lambda st, a=a, b=b, dn=dn, upf=upf: z3.Implies(R.valid(dn(get(st, a))), get(st, b) == upf(R.rev(dn(get(st, a))))))
                    sc("%s%s is the reversal of %s while below the last" % (fn, b, a), lambda st, a=a, b=b, dn=dn, upf=upf:
                       z3.Implies(z3.ULT(dn(get(st, a)), R.N - 1), get(st, b) == upf(R.rev(dn(get(st, a))))))
                # inner loop: a is the carry position
                for on, i in heads(ex, li, (1, 2)) if step.get(a) is None else ():
                    for fn, dn, upf in forms:
                        for mn, mk in (("", lambda t: t), ("2*", lambda t: t * 2), ("half ", lambda t: z3.LShR(t, c64(1)))):
                            e = norm(dn(i))
                            r = R.rev(e)
                            M = lambda st, a=a, mk=mk: mk(get(st, a))
                            k0 = z3.LShR(M(li.head), c64(1))
                            R.lem("mask", r, k0)
                            R.lem("next", e, k0)
                            R.rev(norm(e + 1))

                            def f(st, b=b, M=M, r=r, upf=upf):
                                m = M(st)
                                return z3.And(m != 0, (m & (m - 1)) == 0, z3.ULE(m, R.N), r & ~(m - 1) == R.N - m, get(st, b) == upf(r & (m - 1)))
                            sc("%s%s is the reversal of %s%s below %s%s" % (fn, b, fn, on, mn, a), f)
        return out
    c.hint(hint)
