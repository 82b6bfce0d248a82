"""Contracts of the block convolvers; the real transform they call is used through its contract (C23), the processing of the spectrum is unknown."""
from .common import *
from .calleespec import whole, Splice, Node
from vc.contract import Arr
from vc.mem import Base, norm
from vc.ir import Unsupported
import vc.inv

W = {"f32": 32, "f64": 64}
LIM = 1 << 26


class Rec:
    def __init__(self, kind, g, n, nin, src, sr, res, dr):
        self.kind, self.g, self.n, self.nin, self.src, self.sr, self.res, self.dr = kind, g, n, nin, src, sr, res, dr

    def pre(self, i):
        return self.src.read(norm(i))

    def post(self, i):
        return self.res.read(norm(i))


def parts(ty, c):
    """the real transform, its inverse and the processing as external functions; calls outside loops are recorded"""
    w = W[ty]

    def arr(ex, p, g, what, n):
        r, off = whole(ex, p, g, what, "")
        ex.note_access(r, w // 8)
        ex.touched.add(r)
        ex.oblig("pre", "%s starts at the array" % what, g, off == 0)
        ex.oblig("pre", "%s stays inside the array" % what, g, z3.And(z3.ULE(n, 1 << 41), z3.ULE(n * c64(w // 8), r.size * c64(r.elem))))
        return r

    def write(ex, r, mem, n, what, g):
        if not r.writable:
            ex.oblig("frame", "no store to read-only %s" % r.name, g, z3.BoolVal(False))
        ex.mark_mod(r, True)
        calls = ex.__dict__.setdefault("part_ids", [])
        calls.append(what)
        fn = z3.Function("res%d_%s" % (len(calls), r.name), z3.BitVecSort(64), z3.BitVecSort(r.elem * 8))
        res = Base(fn, "result of " + what)
        mem[r] = Splice(ex.node(mem, r), res, n)
        return res

    def rec(ex, *a):
        ex.contract.ex = ex
        if not ex.blockloops[ex.cur_block]:
            ex.__dict__.setdefault("spec_calls", []).append(Rec(*a))

    def dead(g):
        return z3.is_false(z3.simplify(g))

    def rfft(ex, I, args, g, mem):
        if dead(g):
            return None
        src, nin, dst, nout, n = args
        H = z3.LShR(n, c64(1)) + c64(1)
        a = arr(ex, src, g, "real transform input", nin)
        b = arr(ex, dst, g, "real transform output", nout * c64(2))
        ex.oblig("pre", "real transform of its size", g, z3.And(nin == n, z3.UGE(nout, H)))
        node = ex.node(mem, a)
        res = write(ex, b, mem, H * c64(2), "real transform", g)
        rec(ex, "rfft", g, n, nin, node, a, res, b)

    def irfft(ex, I, args, g, mem):
        if dead(g):
            return None
        src, nin, dst, nout, n = args
        H = z3.LShR(n, c64(1)) + c64(1)
        a = arr(ex, src, g, "inverse transform input", nin * c64(2))
        b = arr(ex, dst, g, "inverse transform output", nout)
        ex.oblig("pre", "inverse transform of its size", g, z3.And(nout == n, z3.UGE(nin, H), z3.ULE(nin, n)))
        node = ex.node(mem, a)
        res = write(ex, b, mem, n, "inverse transform", g)
        rec(ex, "irfft", g, n, nin, node, a, res, b)

    def process(ex, I, args, g, mem):
        if dead(g):
            return None
        x, n = args
        a = arr(ex, x, g, "processing", n * c64(2))
        node = ex.node(mem, a)
        res = write(ex, a, mem, n * c64(2), "processing", g)
        rec(ex, "process", g, n, n, node, a, res, a)
    def mark(ex, I, args, g, mem):
        ex.contract.ex = ex
        ex.mark = args[0]
    c.callee("^spec_mark$", mark)
    c.callee("^spec_rfft_" + ty + "$", rfft)
    c.callee("^spec_irfft_" + ty + "$", irfft)
    c.callee("^spec_process_" + ty + "$", process)


def calls(c, kinds):
    cs = getattr(c.ex, "spec_calls", [])
    if [q.kind for q in cs] != kinds:
        raise Unsupported("calls %s, expected %s" % ([q.kind for q in cs], kinds))
    return cs


def pieces_hint(c, w, k, plist, extra_pos=()):
    """candidates for every allocated array: each piece (name, position, condition, value) holds always, below or above the loop variable"""
    def hint(ex, li, ivs):
        res = []
        regs = [(nm, r) for nm, r in ex.heaps.items() if r.elem * 8 == w and (r in li.mods or r in li.havoc)]
        from vc.inv import ivs_of
        for nm, reg in regs:
            ar = Arr(c, reg)
            for pn, pos, cond, pred in plist():
                res.append(("%s %s" % (nm, pn), lambda st, pos=pos, cond=cond, pred=pred, ar=ar: z3.Implies(cond, pred(st, lambda i: ar.at(st, i)))))
                for iv in ivs:
                    for en, e in iv.exts():
                        for rn, rel in (("before", z3.ULT), ("from", z3.UGE)) + ((("upto", z3.ULE),) if iv.kind == "ptr" else ()):
                            res.append(("%s %s %s %s%s" % (nm, pn, rn, iv.name, en),
                                        lambda st, pos=pos, cond=cond, pred=pred, ar=ar, iv=iv, e=e, rel=rel:
                                        z3.Implies(z3.And(cond, rel(pos, e(iv.get(st)))), pred(st, lambda i: ar.at(st, i)))))
            for pn, pos in [("k", k)] + list(extra_pos):
                for iv in ivs:
                    for en, e in iv.exts():
                        for rn, rel in (("before", z3.ULT), ("from", z3.UGE)):
                            res.append(("%s[%s] unchanged %s %s%s" % (nm, pn, rn, iv.name, en), lambda st, pos=pos, ar=ar, iv=iv, e=e, rel=rel:
                                        z3.Implies(z3.And(rel(pos, e(iv.get(st))), z3.ULT(pos, ar.r.size)), ar.at(st, pos) == ar.at(li.entry, pos))))
                res.append(("%s[%s] unchanged" % (nm, pn), lambda st, pos=pos, ar=ar: z3.Implies(z3.ULT(pos, ar.r.size), ar.at(st, pos) == ar.at(li.entry, pos))))
        return res
    c.hint(hint)


def scaler(c, w):
    """result k of an inverse transform divided by the transform size, as a function of the call and k"""
    done = {}

    def S(q, k):
        k = norm(k)
        f = z3.Function("scaled_" + q.res.fn.name() if hasattr(q.res, "fn") else "scaled_%d" % id(q), z3.BitVecSort(64), z3.RealSort())
        key = (id(q), k.get_id())
        if key not in done:
            done[key] = (q, k, f)
            c.spec_axioms.append(f(k) == (c.rv(q.post(k)) / c.i2r(q.n, False)).t())
        return c.rv(done[key][2](k))
    return S


SEQ = ["rfft", "process", "irfft"]


def overlap(add, ty, hist):
    w = W[ty]

    def setup(c):
        B, F = c.i("block"), c.i("filter")
        c.requires(z3.UGE(B, 1), z3.ULE(B, LIM), z3.UGE(F, 1), z3.ULE(F, B + c64(1) if add else c64(LIM)))
        if hist:
            T = z3.BitVec("total", 64)
            c.requires(z3.ULE(T, 1 << 40))
            past = c.arr("past", w, T, True)
            c.args.append(T)
            c.symbols.append(("earlier samples", T))
        x = c.arr("x", w, B, True)
        y = c.arr("y", w, B, True) if hist else None
        parts(ty, c)
        n = 2 if hist else 1
        cs = lambda: calls(c, SEQ * n)
        K = lambda: cs()[0].n
        S = scaler(c, w)
        zero = c.rv(0)
        need = z3.If(z3.ULT(B + F - c64(1), B * c64(2)), B * c64(2), B + F - c64(1)) if add else B + F - c64(1)

        def shape(P):
            q = cs()
            return z3.And([z3.And(v.g, v.n == K()) if v.kind != "process" else v.g for v in q])
        c.ensures("transform, processing and inverse once per block", shape)
        c.ensures("the transform size is the smallest power of two not below %s" % ("block + filter - 1 and twice the block" if add else "block + filter - 1"),
                  lambda P: z3.And((K() & (K() - c64(1))) == 0, z3.UGE(K(), need), z3.ULT(K(), need * c64(2))))
        c.ensures("the processing gets the first half of the spectrum",
                  lambda P: z3.And([z3.BoolVal(q[1].sr is q[0].dr and q[2].sr is q[1].dr) for q in (cs()[i:i + 3] for i in range(0, 3 * n, 3))]
                                   + [q[1].n == z3.LShR(K(), c64(1)) + c64(1) for q in (cs()[i:i + 3] for i in range(0, 3 * n, 3))]))
        blocks = [x, y][:n]
        kk = z3.BitVec("k_master", 64)
        c.symbols.append(("position", kk))
        inK = lambda k: z3.ULT(k, K())
        inB = lambda k: z3.ULT(k, B)
        if add:
            def fed(rd, b, k):
                return z3.If(inB(k), rd(k) == b.pre(k), c.rv(rd(k)).eq(0))
            E = c.forall("the transform receives the block followed by zeros", inK,
                         lambda S_, k: z3.And([fed(cs()[3 * i].pre, b, k) for i, b in enumerate(blocks)]))
            E.noauto = True
            E2 = c.forall("the inverse transform receives the processed spectrum", lambda k: z3.ULT(k, z3.LShR(K(), c64(1)) * c64(2) + c64(2)),
                          lambda S_, k: z3.And([cs()[3 * i + 2].pre(k) == cs()[3 * i + 1].post(k) for i in range(n)]))
            E2.noauto = True

            def o1(S_, k):
                return x.rat(S_, k).eq(S(cs()[2], k)) if not hist else z3.BoolVal(True)
            if not hist:
                X = c.forall("the first output is the inverse transform over the size", inB, lambda S_, k: x.rat(S_, k).eq(S(cs()[2], k)), [x])
            else:
                X = c.forall("the next output adds the tail of the block before", inB,
                             lambda S_, k: y.rat(S_, k).eq(S(cs()[5], k) + S(cs()[2], k + B)), [y])
            k = E.ks[0]
            c.requires(k == X.ks[0])
            kb = norm(k + B)

            def plist():
                P = []
                for i, b in enumerate(blocks):
                    P += [("block %d" % i, k, inB(k), lambda st, rd, b=b: rd(k) == b.pre(k)),
                          ("scaled result %d" % i, k, inK(k), lambda st, rd, i=i: c.rv(rd(k)).eq(S(cs()[3 * i + 2], k))),
                          ("scaled result %d at B+k" % i, kb, inB(k), lambda st, rd, i=i: c.rv(rd(kb)).eq(S(cs()[3 * i + 2], kb))),
                          ("tail %d" % i, k, inB(k), lambda st, rd, i=i: c.rv(rd(k)).eq(S(cs()[3 * i + 2], kb)))]
                P += [("zero", k, inB(k), lambda st, rd: c.rv(rd(k)).eq(0))]
                P += [("zero above", norm(k - B), z3.And(inK(k), z3.Not(inB(k))), lambda st, rd: c.rv(rd(k)).eq(0))]
                return P
            pieces_hint(c, w, k, plist, [("B+k", kb)])
            km = norm(k - B)

            def cases(ex, li):
                return [v == iv.get(li.head) for iv in vc.inv.ivs_of(li) if iv.kind == "int" and iv.w == 64 for v in (k, kb, km)]
            c.case_hook = cases
        if hist:
            def bounds(ex, li, ivs):
                return [("%s <= total" % iv.name, lambda st, iv=iv: z3.ULE(iv.get(st), T)) for iv in ivs if iv.kind == "int" and iv.w == 64]
            bounds.scalar = True
            c.hint(bounds)
        c.cover("large", lambda P: z3.And(B == 1024, F == 513, *([T == 2048] if hist else [])))
    return setup


def save(ty):
    """any number of earlier blocks, then one more: what the transform receives and what comes out"""
    w = W[ty]

    def setup(c):
        B, F = c.i("block"), c.i("filter")
        c.requires(z3.UGE(B, 1), z3.ULE(B, LIM), z3.UGE(F, 1), z3.ULE(F, LIM))
        T = z3.BitVec("total", 64)
        c.requires(z3.ULE(T, 1 << 40))
        past = c.arr("past", w, T, True)
        c.args.append(T)
        c.symbols.append(("earlier samples", T))
        x = c.arr("x", w, B, True)
        parts(ty, c)
        c.instantiate = True
        cs = lambda: calls(c, SEQ)
        K = lambda: cs()[0].n
        D = lambda: norm(K() - B)
        S = scaler(c, w)
        need = norm(B + F - c64(1))
        off = lambda: c.ex.mark
        c.ensures("transform, processing and inverse once per block", lambda P: z3.And([z3.And(v.g, v.n == K()) if v.kind != "process" else v.g for v in cs()]))
        c.ensures("the transform size is the smallest power of two not below block + filter - 1",
                  lambda P: z3.And((K() & (K() - c64(1))) == 0, z3.UGE(K(), need), z3.ULT(K(), need * c64(2))))
        c.ensures("the processing gets the first half of the spectrum",
                  lambda P: z3.And([z3.BoolVal(q[1].sr is q[0].dr and q[2].sr is q[1].dr) for q in (cs(),)]
                                   + [q[1].n == z3.LShR(K(), c64(1)) + c64(1) for q in (cs(),)]))
        c.ensures("every whole block of the history is fed", lambda P: z3.And(z3.ULE(off(), T), z3.ULT(T - off(), B)))
        zero = lambda v: c.rv(v).eq(0)

        def H(o, p):
            """predicate: v is the sample p of the last K samples before position o of the history"""
            i = norm(o + p - K())
            e = past.pre(i)
            return lambda v: z3.If(z3.UGE(norm(o + p), K()), v == e, zero(v))

        def blk(a, p):
            e = a.pre(norm(p - D()))
            return lambda v: v == e

        def W1(p):
            h, b = H(off(), norm(p + B)), blk(x, p)
            return lambda v: z3.If(z3.ULT(p, D()), h(v), b(v))

        inK = lambda k: z3.ULT(k, K())
        inB = lambda k: z3.ULT(k, B)
        E = c.forall("the transform receives the latest samples, oldest first, zeros before the start", inK,
                     lambda S_, k: W1(k)(cs()[0].pre(k)))
        E.noauto = True
        E2 = c.forall("the inverse transform receives the processed spectrum", lambda k: z3.ULT(k, z3.LShR(K(), c64(1)) * c64(2) + c64(2)),
                      lambda S_, k: z3.And([cs()[3 * i + 2].pre(k) == cs()[3 * i + 1].post(k) for i in range(1)]))
        E2.noauto = True
        X = [c.forall("the output is the end of the inverse transform over the size", inB,
                      lambda S_, k, a=a, j=j: a.rat(S_, k).eq(S(cs()[3 * j + 2], norm(D() + k))), [a]) for j, a in enumerate((x,))]
        k = E.ks[0]
        for e in X:
            c.requires(k == e.ks[0])

        def at_reads(reg, l):
            n = l.head.mem.get(reg)
            return [i for i in list(getattr(n, "reads", {}).values()) if not i.eq(k)]

        def hint(ex, li, ivs):
            from .revspec import heads
            out = []
            ints = [iv for iv in ivs if iv.kind == "int" and iv.w == 64]
            outer = any(ex.loopinfos[h].parent is not None and ex.loopinfos[ex.loopinfos[h].parent] is li for h in ex.loopinfos)
            if outer:
                offs = [("off " + iv.name, lambda st, iv=iv: iv.get(st)) for iv in ints]
            elif li.parent is not None:
                offs = [("off " + nm, lambda st, v=v: v) for nm, v in heads(ex, li)]
            else:
                offs = [("end", lambda st: off())]
            ALL, BEF, FROM = "", "before", "from"
            pieces = []      # name, position compared with the loop variable, condition, predicate, relations

            def piece(nm, rel, cond, pred, how):
                pieces.append((nm, rel, cond, pred, how))
            idp = lambda p: p
            low = lambda p: z3.ULT(p, D())
            top = lambda p: z3.And(z3.UGE(p, D()), inK(p))
            for on, o in offs:
                piece("history to " + on, idp, inK, lambda st, p, o=o: H(o(st), p), (ALL,) if outer else (FROM,))
                if not outer:
                    piece("slid history to " + on, idp, low, lambda st, p, o=o: H(o(st), norm(p + B)), (ALL, BEF))
                    if on != "end":
                        piece("block at " + on, lambda p: norm(p - D()), top, lambda st, p, o=o: (lambda v, e=past.pre(norm(o(st) + p - D())): v == e), (BEF,))
            if not outer:
                piece("zero", idp, inK, lambda st, p: zero, (BEF, "upto"))
            if li.parent is None and not outer:
                piece("block x", lambda p: norm(p - D()), top, lambda st, p: blk(x, p), (BEF,))
                for j in range(1):
                    piece("scaled %d" % j, idp, inK, lambda st, p, j=j: (lambda v: c.rv(v).eq(S(cs()[3 * j + 2], p))), (BEF,))
                    piece("result %d" % j, idp, inK, lambda st, p, j=j: (lambda v: v == cs()[3 * j + 2].post(p)), (FROM,))

            def add(nm, f, reg):
                def fn(st):
                    return f(st, k)
                fn.inst = lambda l: [f(l.head, i) for i in at_reads(reg, l)]
                out.append((nm, fn))
            for nm, reg in ex.heaps.items():
                if reg.elem * 8 != w or not (reg in li.mods or reg in li.havoc):
                    continue
                ar = Arr(c, reg)
                for pn, rel, cond, pred, how in pieces:
                    if ALL in how:
                        add("%s %s" % (nm, pn), lambda st, p, cond=cond, pred=pred, ar=ar: z3.Implies(cond(p), pred(st, p)(ar.at(st, p))), reg)
                    for iv in ivs:
                        if iv.kind == "int" and iv.w != 64:
                            continue
                        for rn, r in (("before", z3.ULT), ("from", z3.UGE), ("upto", z3.ULE)):
                            if rn not in how or rn == "upto" and iv.kind != "ptr":
                                continue
                            add("%s %s %s %s" % (nm, pn, rn, iv.name), lambda st, p, cond=cond, pred=pred, ar=ar, rel=rel, iv=iv, r=r:
                                z3.Implies(z3.And(cond(p), r(rel(p), iv.get(st))), pred(st, p)(ar.at(st, p))), reg)
            if past.r in li.mods or past.r in li.havoc:
                for on, o in offs:
                    add("past unchanged from " + on, lambda st, p, o=o: z3.Implies(z3.And(z3.UGE(p, o(st)), z3.ULT(p, T)), past.at(st, p) == past.pre(p)), past.r)
                    for iv in ints:
                        add("past unchanged from %s + %s" % (on, iv.name), lambda st, p, o=o, iv=iv:
                            z3.Implies(z3.And(z3.UGE(p, norm(o(st) + iv.get(st))), z3.ULT(p, T)), past.at(st, p) == past.pre(p)), past.r)
                    add("past unchanged above the block at " + on, lambda st, p, o=o: z3.Implies(z3.And(z3.UGE(p, norm(o(st) + B)), z3.ULT(p, T)), past.at(st, p) == past.pre(p)), past.r)
            return out
        c.hint(hint)

        def bounds(ex, li, ivs):
            return [("%s <= total" % iv.name, lambda st, iv=iv: z3.ULE(iv.get(st), T)) for iv in ivs if iv.kind == "int" and iv.w == 64]
        bounds.scalar = True
        c.hint(bounds)
        c.cover("large", lambda P: z3.And(B == 1024, F == 513, T == 2048))
    return setup


def fftconv(ty):
    w = W[ty]

    def setup(c):
        n, m = z3.BitVec("n", 64), z3.BitVec("m", 64)
        c.symbols += [("n", n), ("m", m)]
        c.requires(z3.UGE(n, 2), z3.ULE(n, LIM), z3.UGE(m, 2), z3.ULE(m, LIM))
        N = norm(n + m - c64(1))
        c.arr("px", w, n)
        c.arr("ph", w, m)
        c.arr("po", w, N, True)
        c.i("times")
        x = c.arr("x", w, n)
        c.args.append(n)
        h = c.arr("h", w, m)
        c.args.append(m)
        out = c.arr("out", w, N, True)
        parts(ty, c)
        cs = lambda: calls(c, ["rfft", "rfft", "irfft"])
        K = lambda: cs()[0].n
        Hf = lambda: norm(z3.LShR(K(), c64(1)) + c64(1))
        S = scaler(c, w)
        c.ensures("two transforms and one inverse", lambda P: z3.And([z3.And(v.g, v.n == K()) for v in cs()]))
        c.ensures("the transform size is the smallest power of two not below the output length",
                  lambda P: z3.And((K() & (K() - c64(1))) == 0, z3.UGE(K(), N), z3.ULT(K(), N * c64(2))))
        inK = lambda k: z3.ULT(k, K())

        def fed(rd, a, l, k):
            return z3.If(z3.ULT(k, l), rd(k) == a.pre(k), c.rv(rd(k)).eq(0))
        E = c.forall("the transforms receive the signal and the patch followed by zeros", inK,
                     lambda S_, k: z3.And(fed(cs()[0].pre, x, n, k), fed(cs()[1].pre, h, m, k)))
        E.noauto = True

        def prod(k):
            a, b = [[c.rv(q.post(norm(k * c64(2) + c64(j)))) for j in range(2)] for q in cs()[:2]]
            return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]

        def isprod(rd, k):
            return z3.And([c.rv(rd(norm(k * c64(2) + c64(j)))).eq(v) for j, v in enumerate(prod(k))])
        E2 = c.forall("the inverse transform receives the product of the spectra", lambda k: z3.ULT(k, Hf()), lambda S_, k: isprod(cs()[2].pre, k))
        E2.noauto = True
        X = c.forall("output k is the inverse transform over the size", lambda k: z3.ULT(k, N), lambda S_, k: out.rat(S_, k).eq(S(cs()[2], k)), [out])
        k = E.ks[0]
        c.requires(k == X.ks[0], k == E2.ks[0])

        def spec(q, rd, k):
            return z3.And([rd(norm(k * c64(2) + c64(j))) == q.post(norm(k * c64(2) + c64(j))) for j in range(2)])

        def plist():
            P = []
            for nm, a, l in (("signal", x, n), ("patch", h, m)):
                P += [(nm, k, z3.ULT(k, l), lambda st, rd, a=a: rd(k) == a.pre(k)),
                      ("zero above " + nm, norm(k - l), z3.And(inK(k), z3.UGE(k, l)), lambda st, rd: c.rv(rd(k)).eq(0))]
            P += [("scaled", k, inK(k), lambda st, rd: c.rv(rd(k)).eq(S(cs()[2], k))),
                  ("product", k, z3.ULT(k, Hf()), lambda st, rd: isprod(rd, k)),
                  ("spectrum", k, z3.ULT(k, Hf()), lambda st, rd: spec(cs()[0], rd, k))]
            return P
        pieces_hint(c, w, k, plist)
        kn, km = norm(k - n), norm(k - m)
        c.case_hook = lambda ex, li: [v == iv.get(li.head) for iv in vc.inv.ivs_of(li) if iv.kind == "int" and iv.w == 64 for v in (k, kn, km)]
        c.cover("large", lambda P: z3.And(n == 1000, m == 513))
    return setup


class Mapped(Node):
    """fn(old element, its index) below n, the old contents from there on"""
    def __init__(self, old, fn, n):
        super().__init__()
        self.old, self.fn, self.n = old, fn, n

    def _read(self, i):
        o = self.old.read(i)
        return z3.If(z3.ULT(i, self.n), self.fn(o, i), o)


def partitioned(ty):
    """the convolver over an overlap stage, a delay line and a filter known by contract only, after any number of earlier blocks"""
    w = W[ty]

    def setup(c):
        c.div_abstract = True
        R, C = z3.BitVec("rows", 64), z3.BitVec("columns", 64)
        c.symbols += [("rows", R), ("columns", C)]
        c.requires(z3.UGE(R, 1), z3.ULT(R, 1 << 30), z3.UGE(C, 2), z3.ULE(C, LIM))
        RC = z3.BitVec("size", 64)
        c.requires(z3.ULE(RC, 1 << 40))
        h = c.arr("h", w, RC)
        c.args += [R, C]
        B = norm(C - c64(1))
        past = c.arr("past", w, B, True)
        times = c.i("times")
        x = c.arr("x", w, B, True)
        bv = z3.BitVecSort(64)
        M = z3.Function("madd_" + ty, z3.BitVecSort(w), bv, bv, bv, z3.BitVecSort(w))
        log = {}

        def arr(ex, p, g, what, n):
            r, off = whole(ex, p, g, what, "")
            ex.note_access(r, w // 8)
            ex.touched.add(r)
            ex.contract.ex = ex
            ex.oblig("pre", "%s starts at the array" % what, g, off == 0)
            ex.oblig("pre", "%s stays inside the array" % what, g, z3.And(z3.ULE(n, 1 << 40), z3.ULE(n * c64(w // 8), r.size * c64(r.elem))))
            return r

        def top(ex):
            return not ex.blockloops[ex.cur_block]

        def fresh(ex, r, n, mem, what):
            ex.mark_mod(r, True)
            ids = ex.__dict__.setdefault("part_ids", [])
            ids.append(what)
            res = Base(z3.Function("res%d_%s" % (len(ids), r.name), bv, z3.BitVecSort(r.elem * 8)), what)
            mem[r] = Splice(ex.node(mem, r), res, n)
            return res

        def note(ex, kind, *a):
            if top(ex):
                ex.__dict__.setdefault("notes", []).append((kind,) + a)

        def analysis(ex, I, args, g, mem):
            blk, n, sp, bins = args
            a, s = arr(ex, blk, g, "analysis", n), arr(ex, sp, g, "spectrum", bins * c64(2))
            ex.oblig("pre", "the overlap stage has the size of a filter part", g, z3.And(n == B, bins == C))
            res = fresh(ex, s, norm(C * c64(2)), mem, "analysis")
            note(ex, "analysis", g, a, s, res)

        def synthesis(ex, I, args, g, mem):
            sp, bins, blk, n = args
            s, a = arr(ex, sp, g, "spectrum", bins * c64(2)), arr(ex, blk, g, "synthesis", n)
            node = ex.node(mem, s)
            fresh(ex, a, n, mem, "synthesis")
            note(ex, "synthesis", g, a, s, node)

        def insert(ex, I, args, g, mem):
            xs, bins, slot, rows, cols = args
            s = arr(ex, xs, g, "inserted segment", bins * c64(2))
            ex.oblig("pre", "the segment fits the delay line", g, z3.And(bins == C, rows == R, cols == C, z3.ULT(slot, R)))
            note(ex, "insert", g, s, slot, ex.node(mem, s))

        def filt(ex, I, args, g, mem):
            p, rows, cols = args
            r, off = whole(ex, p, g, "filter", "")
            ex.oblig("pre", "the filter receives the caller's matrix", g, z3.And(z3.BoolVal(r is h.r), off == 0, rows == R, cols == C))
            note(ex, "filter", g)

        def madd(ex, I, args, g, mem):
            seg, part, acc, bins = args
            r = arr(ex, acc, g, "accumulator", bins * c64(2))
            ex.oblig("pre", "segment and filter part exist and have the accumulator's length", g, z3.And(z3.ULT(seg, R), z3.ULT(part, R), bins == C))
            ex.mark_mod(r, True)
            mem[r] = Mapped(ex.node(mem, r), lambda o, i: M(o, seg, part, i), norm(bins * c64(2)))
        for nm, fn in (("analysis", analysis), ("synthesis", synthesis), ("insert", insert), ("filter", filt), ("madd", madd)):
            c.callee("^spec_%s_%s$" % (nm, ty), lambda ex, I, args, g, mem, fn=fn: None if z3.is_false(z3.simplify(g)) else fn(ex, I, args, g, mem))

        def notes():
            ns = getattr(c.ex, "notes", [])
            if [q[0] for q in ns] != ["filter", "analysis", "insert", "synthesis"]:
                raise Unsupported("calls %s" % [q[0] for q in ns])
            return ns
        f = c.fold("w", c64(0), lambda i, v: z3.If(v + 1 == R, c64(0), v + 1), real=False, bits=64)
        ws = f.at(times, unfold=False)
        age = lambda s: z3.If(z3.ULE(s, ws), ws - s, ws + R - s)
        two = lambda k, j: norm(k * c64(2) + c64(j))
        c.ensures("one analysis, insertion and synthesis per block, on one spectrum", lambda P: z3.And(
            [q[1] for q in notes()] + [z3.BoolVal(notes()[1][2] is x.r and notes()[3][2] is x.r and notes()[1][3] is notes()[2][2] and notes()[1][3] is notes()[3][3])]))
        c.ensures("the segment goes to slot t mod N", lambda P: notes()[2][3] == ws)
        dom = lambda k: z3.ULT(k, C)
        E = c.forall("the spectrum of the block is inserted", dom, lambda S_, k: z3.And([notes()[2][4].read(two(k, j)) == notes()[1][4].read(two(k, j)) for j in range(2)]))
        E.noauto = True
        A = [z3.Function("acc%d_%s" % (j, ty), bv, z3.BitVecSort(w)) for j in range(2)]
        E2 = c.forall("the synthesis receives the sum over all segments, each with the filter part of its age, from zero", dom,
                      lambda S_, k: z3.And([notes()[3][4].read(two(k, j)) == A[j](R) for j in range(2)]))
        E2.noauto = True
        k = E2.ks[0]
        c.requires(k == E.ks[0])
        for j in range(2):
            c.spec_axioms.append(A[j](c64(0)) == z3.BitVecVal(0, w))
        done = set()

        def unfold(s):
            s = norm(s)
            if s.get_id() not in done:
                done.add(s.get_id())
                for j in range(2):
                    c.spec_axioms.append(A[j](norm(s + c64(1))) == M(A[j](s), s, age(s), two(k, j)))
            return s

        def bounds(ex, li, ivs):
            out = [("%s below rows" % nm, lambda st, nm=nm: z3.ULT(st.phis[nm], R)) for nm, t in li.phis if t.k == "int" and t.n == 64]
            out += [("%s up to rows" % nm, lambda st, nm=nm: z3.ULE(st.phis[nm], R)) for nm, t in li.phis if t.k == "int" and t.n == 64]
            return out
        bounds.scalar = True
        c.hint(bounds)

        def hint(ex, li, ivs):
            if li.parent is not None:
                return []
            res = []
            for nm, reg in ex.heaps.items():
                if reg.elem * 8 != w or not (reg in li.mods or reg in li.havoc):
                    continue
                ar = Arr(c, reg)
                both = lambda st, v, ar=ar: z3.Implies(dom(k), z3.And([ar.at(st, two(k, j)) == v(j) for j in range(2)]))
                for iv in ivs:
                    if iv.kind == "int":
                        for en, e in iv.exts():
                            g = lambda st, iv=iv, e=e: norm(e(iv.get(st)))
                            unfold(g(li.head))
                            res.append(("%s is the sum before %s%s" % (nm, iv.name, en), lambda st, g=g, both=both: both(st, lambda j: A[j](g(st)))))
                            for vn, v in (("zero", lambda j: z3.BitVecVal(0, w)), ("the sum", lambda j: A[j](R))):
                                res.append(("%s is %s before %s%s" % (nm, vn, iv.name, en), lambda st, g=g, both=both, v=v: z3.Implies(z3.ULT(k, g(st)), both(st, v))))
            return res
        c.hint(hint)
        c.cover("many", lambda P: z3.And(z3.UGT(R, 100), times == 3, C == 513))
    return setup
