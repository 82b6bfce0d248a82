"""Candidate loop invariants.  Candidates are guesses; Houdini keeps exactly those that are proved inductive."""
import z3
from .mem import Ptr, norm, div_exact, lin, diff_const
from .ir import Unsupported

BV = z3.BitVecVal


def c64(n):
    return BV(n, 64)


_fc = {}
_keepalive = []


def free_consts(t):
    """set of names of uninterpreted constants/functions in t"""
    i = t.get_id()
    if i in _fc:
        return _fc[i]
    st = [t]
    seen = set()
    out = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    _fc[i] = out
    _keepalive.append(t)
    return out


def serial(name):
    if "!" in name:
        try:
            return int(name.rsplit("!", 1)[1])
        except ValueError:
            return 0
    return 0


class IV:
    def __init__(self, name, get, w, init, step, kind, region=None):
        self.name, self.get, self.w, self.init, self.step, self.kind, self.region = name, get, w, init, step, kind, region

    nonneg = False
    pow2 = None     # known after the first stage

    def exts(self):
        """64-bit views of the variable"""
        if self.w == 64:
            return [("", lambda v: v)]
        w = self.w
        if self.nonneg:
            return [("u", lambda v: z3.ZeroExt(64 - w, v))]
        return [("u", lambda v: z3.ZeroExt(64 - w, v)), ("s", lambda v: z3.SignExt(64 - w, v))]


def ptr_elem(p):
    _, r, off = p.alts[0]
    if r is None:
        return off
    q = div_exact(off, r.elem)
    if q is None:
        q = z3.LShR(off, c64(r.elem.bit_length() - 1))
    return q


def ivs_of(li):
    out = []
    for n, ty in li.phis:
        if ty.k == "int" and ty.n > 1:
            get = (lambda st, n=n: st.phis[n])
            w, kind, region = ty.n, "int", None
        elif ty.k == "ptr":
            get = (lambda st, n=n: ptr_elem(st.phis[n]))
            w, kind, region = 64, "ptr", li.head.phis[n].alts[0][1]
        else:
            continue
        h = get(li.head)
        steps = set()
        for l in li.latches:
            d = z3.simplify(get(l) - h)
            if not z3.is_bv_value(d) and w == 64:
                dc = diff_const(get(l), h)
                if dc is not None:
                    d = c64(dc)
            steps.add(d.as_signed_long() if z3.is_bv_value(d) else None)
        step = steps.pop() if len(steps) == 1 else None
        out.append(IV(n, get, w, get(li.entry), step, kind, region))
    return out


def candidates(ex, ctx, li, all_ivs, stage=0, rich=True):
    """list of (name, fn(LState) -> Bool); stage 1: facts about loop variables only, stage 2: the rest, stage 0: all"""
    C = []
    ivs = all_ivs[li.name]
    head = li.head
    serial0 = min([serial(nm) for n, ty in li.phis for v in [head.phis[n]] for nm in
                   (free_consts(v.alts[0][2]) if isinstance(v, Ptr) else
                    (set().union(*[free_consts(x) for x in v]) if isinstance(v, list) else free_consts(v)))] or [1 << 60])

    def inside(t):
        return any(serial(n) >= serial0 for n in free_consts(t))

    def add(name, fn):
        C.append((name, fn))

    # --- bounds terms
    bounds = []
    seenb = set()
    for cmpx in li.cmps:
        if cmpx[0] == "ptr":
            a, b, r = cmpx[1], cmpx[2], cmpx[3]
            if r is None:
                continue
            a = div_exact(a, r.elem) if div_exact(a, r.elem) is not None else None
            b = div_exact(b, r.elem) if div_exact(b, r.elem) is not None else None
            if a is None or b is None:
                continue
        else:
            a, b = cmpx[1], cmpx[2]
        for x, y in ((a, b), (b, a)):
            if not inside(y) and inside(x):
                k = y.get_id()
                if k not in seenb:
                    seenb.add(k)
                    bounds.append(y)
    li.bounds = bounds
    for iv in ivs:
        n = iv.name
        w = iv.w
        init = iv.init
        add("%s >=u init" % n, lambda st, iv=iv: z3.UGE(iv.get(st), iv.init))
        add("%s >=s init" % n, lambda st, iv=iv: iv.get(st) >= iv.init)
        add("%s <=u init" % n, lambda st, iv=iv: z3.ULE(iv.get(st), iv.init))
        add("%s <=s init" % n, lambda st, iv=iv: iv.get(st) <= iv.init)
        add("%s >=s 0" % n, lambda st, iv=iv: iv.get(st) >= 0)
        add("%s == init" % n, lambda st, iv=iv: iv.get(st) == iv.init)
        add("%s != 0" % n, lambda st, iv=iv: iv.get(st) != 0)
        s = iv.step
        if s is not None and abs(s) > 1 and (abs(s) & (abs(s) - 1)) == 0:
            m = abs(s) - 1
            add("%s aligned to init" % n, lambda st, iv=iv, m=m: ((iv.get(st) - iv.init) & BV(m, iv.w)) == 0)
        for bi, B in enumerate(bounds):
            W = B.size()
            if W < w:
                Bs = [("u", z3.ZeroExt(w - W, B)), ("s", z3.SignExt(w - W, B))]
                es = [("", lambda v: v)]
            elif W == w:
                Bs = [("", B)]
                es = [("", lambda v: v)]
            else:
                Bs = [("", B)]
                es = [("u", lambda v, d=W - w: z3.ZeroExt(d, v)), ("s", lambda v, d=W - w: z3.SignExt(d, v))]
            for en, e in es:
                for bn, b in Bs:
                    p = "%s%s vs bound%d%s" % (n, en, bi, bn)
                    for rn, rel in (("<=u", z3.ULE), ("<u", z3.ULT), (">=u", z3.UGE), (">u", z3.UGT),
                                    ("<=s", lambda x, y: x <= y), ("<s", lambda x, y: x < y),
                                    (">=s", lambda x, y: x >= y), (">s", lambda x, y: x > y)):
                        add(p + " " + rn, lambda st, iv=iv, e=e, b=b, rel=rel: rel(e(iv.get(st)), b))
                        # also when the loop is skipped: init may already violate it
                        add(p + " " + rn + " or at init",
                            lambda st, iv=iv, e=e, b=b, rel=rel: z3.Or(iv.get(st) == iv.init, rel(e(iv.get(st)), b)))
                    if s is not None and abs(s) > 1:
                        m = abs(s)
                        if m & (m - 1) == 0:
                            add(p + " distance aligned",
                                lambda st, iv=iv, e=e, b=b, m=m: ((b - e(iv.get(st))) & BV(m - 1, b.size())) == 0)
    # --- relations between two loop variables
    for a in range(len(ivs)):
        for b in range(len(ivs)):
            if a == b:
                continue
            p, q = ivs[a], ivs[b]
            if p.step is not None and q.step is not None and p.step and q.step and a < b:
                for en, e in p.exts():
                    for fn_, f in q.exts():
                        add("%s%s ~ %s%s" % (p.name, en, q.name, fn_),
                            lambda st, p=p, q=q, e=e, f=f: (e(p.get(st)) - e(p.init)) * c64(q.step)
                            == (f(q.get(st)) - f(q.init)) * c64(p.step))
            if p.step is None:
                add("%s = init if %s starts at 0" % (q.name, p.name), lambda st, p=p, q=q: z3.Or(p.init != 0, q.get(st) == q.init))
            # shift loops: p halves/doubles while q counts
            if q.step is not None and abs(q.step) == 1 and p.step is None:
                def sh(st, p=p, q=q):
                    cnt = (q.get(st) - q.init) * BV(q.step, q.w)
                    if q.w < p.w:
                        return z3.ZeroExt(p.w - q.w, cnt)
                    return z3.Extract(p.w - 1, 0, cnt) if q.w > p.w else cnt

                def big(st, p=p, q=q):
                    cnt = (q.get(st) - q.init) * BV(q.step, q.w)
                    return z3.ULT(cnt, BV(p.w, q.w)) if q.w >= 8 else z3.BoolVal(True)
                for l in li.latches:
                    nx, cur = p.get(l), p.get(head)
                    for kk in (1, 2):
                        if z3.simplify(nx == z3.LShR(cur, BV(kk, p.w))).eq(z3.BoolVal(True)) or nx.eq(z3.LShR(cur, BV(kk, p.w))):
                            add("%s == init >> %d*%s" % (p.name, kk, q.name),
                                lambda st, p=p, sh=sh, kk=kk: p.get(st) == z3.LShR(p.init, sh(st) * BV(kk, p.w)))
                            add("%s count below width" % q.name, lambda st, big=big: big(st))
                        if nx.eq(cur << BV(kk, p.w)) or z3.simplify(nx == (cur << BV(kk, p.w))).eq(z3.BoolVal(True)):
                            add("%s == init << %d*%s" % (p.name, kk, q.name),
                                lambda st, p=p, sh=sh, kk=kk: p.get(st) == (p.init << (sh(st) * BV(kk, p.w))))
                            add("%s count below width" % q.name, lambda st, big=big: big(st))
    if stage == 1:
        for hf in ctx.hints:
            for nm, fn in hf(ex, li, ivs):
                if getattr(fn, "scalar", False):
                    add(nm, fn)
        return C
    if stage == 2:
        C.clear()
    # --- pointwise predicates
    chain = []
    x = li.parent
    while x is not None:
        chain.append(x)
        x = ex.loopinfos[x].parent
    outer_ivs = [(h, iv) for h in chain for iv in all_ivs[h]]
    # position in a dense matrix: row * row length (+ column)
    flat = []
    for R, Cc, S in (ctx.grids if ctx.flat else ()):
        for iv in ivs:
            for en, e in iv.exts():
                flat.append(("%s%s*row" % (iv.name, en), lambda st, iv=iv, e=e, Cc=Cc: ctx.mul(e(iv.get(st)), Cc)))
                for h, ov in outer_ivs:
                    for oen, oe in ov.exts():
                        flat.append(("%s%s*row+%s%s" % (ov.name, oen, iv.name, en),
                                     lambda st, iv=iv, e=e, oc=oe(ov.get(ex.loopinfos[h].head)), Cc=Cc: ctx.mul(oc, Cc) + e(iv.get(st))))
    for E in ctx.foralls + ctx.aux_foralls:
        ks = E.ks
        regs = [a.r for a in E.arrs if a.r in li.havoc or a.r in li.mods]
        if E.noauto or (not regs and not E.pure):
            continue

        def elem_atoms(st_get, iv):
            out = []
            for en, e in iv.exts():
                for ki, k in enumerate(ks):
                    poss = [("k%d" % ki, k)]
                    if E.pos and rich:
                        poss += [("pos%d.%d" % (ki, j), f(*ks)) for j, f in enumerate(E.pos)]
                    for pn, kk in poss:
                        out.append((pn, en, kk, e))
            return out
        guards = [("always", lambda st: z3.BoolVal(True))]
        for vn, cur in flat:
            for ki, k in enumerate(ks):
                poss = [("k%d" % ki, k)] + ([("pos%d.%d" % (ki, j), f(*ks)) for j, f in enumerate(E.pos)] if E.pos and rich else [])
                for pn, kk in poss:
                    guards.append(("%s<%s" % (pn, vn), lambda st, kk=kk, cur=cur: z3.ULT(kk, cur(st))))
                    guards.append(("not %s<%s" % (pn, vn), lambda st, kk=kk, cur=cur: z3.UGE(kk, cur(st))))
        for iv in ivs:
            for pn, en, kk, e in elem_atoms(None, iv):
                g = "%s<%s%s" % (pn, iv.name, en)
                lt = (lambda st, iv=iv, kk=kk, e=e: z3.ULT(kk, e(iv.get(st))))
                le = (lambda st, iv=iv, kk=kk, e=e: z3.ULE(kk, e(iv.get(st))))
                ge0 = (lambda st, iv=iv, kk=kk, e=e: z3.UGE(kk, e(iv.init)))
                guards.append((g, lt))
                guards.append(("not " + g, lambda st, lt=lt: z3.Not(lt(st))))
                guards.append((g + " or eq", le))
                guards.append(("not(%s or eq)" % g, lambda st, le=le: z3.Not(le(st))))
                ival = z3.simplify(iv.init)
                if not (z3.is_bv_value(ival) and ival.as_long() == 0):
                    guards.append((g + " since init", lambda st, lt=lt, ge0=ge0: z3.And(ge0(st), lt(st))))
                    guards.append(("outside " + g + " since init",
                                   lambda st, lt=lt, ge0=ge0: z3.Not(z3.And(ge0(st), lt(st)))))
                    # descending loops: current <= k < init (and (current, init])
                    dn = (lambda st, iv=iv, kk=kk, e=e: z3.And(z3.UGE(kk, e(iv.get(st))), z3.ULT(kk, e(iv.init))))
                    guards.append((g + " down", dn))
                    guards.append(("outside " + g + " down", lambda st, dn=dn: z3.Not(dn(st))))
                # nested: lexicographic with an outer variable
                for h, ov in outer_ivs:
                    for oen, oe in ov.exts():
                        for oki, ok in enumerate(ks):
                            if ok is kk and len(ks) > 1:
                                continue
                            ocur = oe(ov.get(ex.loopinfos[h].head))
                            if len(ks) > 1:
                                gn = "k%d<%s%s or (= and %s)" % (oki, ov.name, oen, g)
                                lx = (lambda st, ok=ok, ocur=ocur, lt=lt: z3.Or(z3.ULT(ok, ocur), z3.And(ok == ocur, lt(st))))
                                guards.append((gn, lx))
                                guards.append(("not " + gn, lambda st, lx=lx: z3.Not(lx(st))))
        if len(ks) > 1 or True:
            for h, ov in outer_ivs:
                for oen, oe in ov.exts():
                    for oki, ok in enumerate(ks):
                        ocur = oe(ov.get(ex.loopinfos[h].head))
                        gn = "k%d<%s%s(outer)" % (oki, ov.name, oen)
                        guards.append((gn, lambda st, ok=ok, ocur=ocur: z3.ULT(ok, ocur)))
                        guards.append(("not " + gn, lambda st, ok=ok, ocur=ocur: z3.UGE(ok, ocur)))
                        guards.append((gn + " beyond", lambda st, ok=ok, ocur=ocur: z3.UGT(ok, ocur)))
        for gn, gf in guards:
            if not E.frame_only:
                add("%s: %s" % (E.name, gn),
                    lambda st, E=E, gf=gf: z3.Implies(z3.And(E.cond(*E.ks), gf(st)), E.pred(st, *E.ks)))
            for r in (regs if E.frame else ()):
                a = next(a for a in E.arrs if a.r is r)
                posf = E.pos or ([lambda *ks: ks[0]] if len(ks) == 1 else [])
                for j, pf in enumerate(posf):
                    add("%s unchanged at pos%d: %s" % (r.name, j, gn),
                        lambda st, a=a, gf=gf, pf=pf, E=E: z3.Implies(z3.And(E.cond(*E.ks), gf(st)),
                                                                      a.at(st, pf(*E.ks)) == a.pre(pf(*E.ks))))
                    if not li.entry.mem[r] is a.r.base:
                        add("%s unchanged in loop at pos%d: %s" % (r.name, j, gn),
                            lambda st, a=a, gf=gf, pf=pf, E=E: z3.Implies(z3.And(E.cond(*E.ks), gf(st)),
                                                                          a.at(st, pf(*E.ks)) == a.at(li.entry, pf(*E.ks))))
    # --- accumulators against spec recursions
    for fo in ctx.folds:
        for n, ty in li.phis:
            if (ty.isfloat and fo.real) or (ty.k == "int" and ty.n > 1 and not fo.real):
                for iv in ivs:
                    if iv.name == n:
                        continue
                    for en, e in iv.exts():
                        def acc(st, n=n, iv=iv, e=e, fo=fo):
                            i = e(iv.get(st))
                            v = st.phis[n]
                            if fo.real:
                                return ctx.rv(v).eq(fo.at(i, unfold=st is head))
                            F = fo.at(i, unfold=st is head)
                            d = v.size() - F.size()
                            if d < 0:
                                return z3.BoolVal(False)
                            return z3.Extract(F.size() - 1, 0, v) == F
                        add("%s == %s(%s%s)" % (n, fo.name, iv.name, en), acc)
                        if fo.real and iv.step == -1:
                            def racc(st, n=n, iv=iv, e=e, fo=fo, sh=0):
                                i = norm(e(iv.get(st)) + c64(sh))
                                return ctx.rv(st.phis[n]).eq(fo.at(norm(e(iv.init) + c64(sh))) - fo.at(i, unfold=True))
                            add("%s == sum from %s%s down" % (n, iv.name, en), racc)
                            add("%s == sum from %s%s+1 down" % (n, iv.name, en), lambda st, racc=racc: racc(st, sh=1))
                        if not fo.real and ty.n > fo.f.range().size():
                            for xn, X in (("zext", z3.ZeroExt), ("sext", z3.SignExt)):
                                def accx(st, n=n, iv=iv, e=e, fo=fo, X=X):
                                    F = fo.at(e(iv.get(st)), unfold=st is head)
                                    return st.phis[n] == X(st.phis[n].size() - F.size(), F)
                                add("%s == %s %s(%s%s)" % (n, xn, fo.name, iv.name, en), accx)
    for fo in ctx.folds:
        for n, ty in li.phis:
            if ty.isfloat and fo.real:
                for vn, cur in flat:
                    add("%s == %s(%s)" % (n, fo.name, vn),
                        lambda st, n=n, cur=cur, fo=fo: ctx.rv(st.phis[n]).eq(fo.at(cur(st), unfold=st is head)))
    for hf in ctx.hints:
        for nm, fn in hf(ex, li, ivs):
            if stage != 2 or not getattr(fn, "scalar", False):      # those were settled in stage 1
                add(nm, fn)
    return C
