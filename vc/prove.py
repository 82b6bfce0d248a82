"""Discharge the obligations of one contract."""
import time, traceback
import z3
from . import ir
from .ir import Unsupported, Module
from .execu import Exec, LState
from .contract import Ctx, Post, Arr
from .inv import candidates, ivs_of, free_consts
from .mem import Ptr, norm
from . import mem as memmod, inv as invmod

T = z3.BoolVal(True)
DEBUG = False


class Result:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.obligations = []   # dicts
        self.status = "proved"
        self.error = None
        self.time = 0.0
        self.ninv = 0
        self.invariants = []
        self.model = None
        self.assumed = []
        self.mul_used = False
        self.grids = 0
        self.ninv_loops = 0

    def to_dict(self):
        return self.__dict__


def chk(s, *assump, timeout=None):
    if timeout:
        s.set("timeout", int(timeout * 1000))
    return s.check(*assump)


def reset_caches():
    memmod._lincache.clear()
    memmod._keep.clear()
    invmod._fc.clear()
    invmod._keepalive.clear()


def setup(contract, exact=False):
    c = Ctx(contract.fpmode)
    c.mul_exact = exact
    contract.setup(c)
    return c


def execute(contract, module, exact=False):
    c = setup(contract, exact)
    ex0 = Exec(module, contract.fn, c.fp, c, {}, dry=True)
    if len(ex0.f.params) != len(c.args):
        raise Unsupported("wrapper %s takes %d arguments, contract gives %d" % (contract.fn, len(ex0.f.params), len(c.args)))
    ex0.run(c.args, c.mem0, c.req)
    elem = {r.name: r.minacc for r in ex0.regions}
    for _ in range(4):
        for a, b in ex0.links:
            es = [elem.get(r.name) or (r.elem if r.kind == "arg" else None) for r in (a, b)]
            es = [e for e in es if e]
            for r in (a, b):
                if es and r.kind != "arg":
                    elem[r.name] = min(es)
    hints = {"modset": ex0.modset, "elem": {n: e or 1 for n, e in elem.items()}}
    c = setup(contract, exact)
    ex = Exec(module, contract.fn, c.fp, c, hints)
    ex.run(c.args, c.mem0, c.req)
    # second look: the set of written regions may grow once element sizes are known
    for h, m in ex.modset.items():
        for r, s in m.items():
            if r not in hints["modset"][h] or not s <= hints["modset"][h][r]:
                raise Unsupported("unstable loop frame")
    return c, ex


def final_post(ex):
    if not ex.rets:
        return None, None
    g = z3.Or([r[0] for r in ex.rets]) if len(ex.rets) > 1 else ex.rets[0][0]
    mem = ex.merge_mem([(r[0], r[2]) for r in ex.rets])
    ret = None
    if ex.rets[0][1] is not None:
        ret = ex.merge([(r[0], r[1]) for r in ex.rets], ex.f.ret)
    return g, Post(ret, mem)


def verify(contract, module, budget=None):
    res = Result(contract.name, contract.fn)
    t0 = time.time()
    reset_caches()
    try:
        _verify(contract, module, res, budget or contract.timeout)
        if res.status in ("failed", "unknown") and res.ninv_loops:
            # the small set of candidate invariants may be too weak
            reset_caches()
            r2 = Result(contract.name, contract.fn)
            _verify(contract, module, r2, budget or contract.timeout, rich=True)
            res = r2
        if res.grids and res.status == "failed":
            # products are abstracted by lemmas, or the contract follows the calls the code makes: a refutation may be spurious
            res.status = "unknown"
            for o in res.obligations:
                if o["status"] == "failed":
                    o["status"], o["reason"] = "unknown", "not provable with these lemmas and callee contracts"
        elif res.status in ("failed", "unknown") and res.mul_used:
            # the product abstraction may be too weak: decide again with exact products
            reset_caches()
            r2 = Result(contract.name, contract.fn)
            _verify(contract, module, r2, budget or contract.timeout, exact=True, rich=bool(res.ninv_loops))
            r2.refined = True
            res = r2
    except Unsupported as e:
        res.status, res.error = "unsupported", str(e)
    except z3.Z3Exception as e:
        res.status, res.error = "unsupported", "z3: %s\n%s" % (e, traceback.format_exc()[-1500:])
    except RecursionError as e:
        res.status, res.error = "unsupported", "recursion"
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError) as e:
        res.status, res.error = "unsupported", traceback.format_exc()[-3000:]
    res.time = time.time() - t0
    return res


def _verify(contract, module, res, budget, exact=False, rich=False):
    import sys
    sys.setrecursionlimit(20000)
    c, ex = execute(contract, module, exact)
    c.bind_heaps(ex)
    res.mul_used = c.mul_used
    res.grids = len(c.grids) + (1 if c.smt_lemmas or c.callees else 0)
    if c.smt_lemmas:
        # the vocabulary of the specification is uninterpreted, described by lemmas that are obligations of their own
        for nm, ok in c.smt_lemmas():
            res.obligations.append({"name": "lemma " + nm, "kind": "lemma", "status": "proved" if ok else "unknown"})
            if not ok:
                raise Unsupported("lemma %s not proved" % nm)
    g, post = final_post(ex)
    if g is None:
        raise Unsupported("function never returns")
    obls = list(ex.obls)
    from .execu import Obl
    for nm, fn in c.posts:
        obls.append(Obl(nm, "post", g, fn(post)))
    for E in c.foralls:
        if E.frame_only:
            continue
        obls.append(Obl(E.name, "post", z3.And(g, E.cond(*E.ks)), E.pred(post, *E.ks)))
    # ---- loops
    order = [h for h in ex.order if h in ex.loopinfos]
    all_ivs = {h: ivs_of(ex.loopinfos[h]) for h in order}
    ex.all_ivs = all_ivs
    res.ninv_loops = len(order)
    if rich:
        cands = houdini(c, ex, order, all_ivs, 0, True, [], budget, res)
    else:
        cands = houdini(c, ex, order, all_ivs, 1, False, [], budget, res)
        alive = {(cd["loop"], cd["name"]) for cd in cands}
        for h in order:
            for iv in all_ivs[h]:
                if (h, iv.name + " >=s 0") in alive:
                    iv.nonneg = True
                iv.pow2 = any((h, "%s%s is a power of two" % (iv.name, e)) in alive for e in ("", "u", "s"))
        cands += houdini(c, ex, order, all_ivs, 2, False, cands, budget, res)
    covers = [(nm, z3.And(g, fn(post))) for nm, fn in c.covers]
    facts = list(ex.facts) + list(c.spec_axioms) + list(c.fp.axioms) + list(c.mul_axioms)
    live = [cd for cd in cands if cd["alive"]]
    res.ninv = len(live)
    res.invariants = ["%s: %s" % (cd["loop"], cd["name"]) for cd in live]
    acts = [cd["act"] for cd in live]
    # every surviving invariant is itself a discharged obligation (initiation + preservation)
    for cd in live:
        res.obligations.append({"name": "invariant %s of loop %s" % (cd["name"], cd["loop"]), "kind": "inv", "status": "proved"})
    # ---- obligations
    s2 = z3.Solver()
    for f in facts:
        s2.add(f)
    for cd in live:
        s2.add(z3.Implies(cd["hg"], cd["head"]))
        for x in cd["inst"]:
            s2.add(z3.Implies(cd["hg"], x))
    s2.set("timeout", int(budget * 1000))
    # vacuity: the precondition is satisfiable and the function can return
    r = s2.check(g)
    if r == z3.unsat:
        res.status, res.error = "vacuous", "no execution satisfies the precondition and returns"
        return
    res.obligations.append({"name": "precondition admits a returning execution", "kind": "cover",
                            "status": "proved" if r == z3.sat else "unknown"})
    for nm, f in covers:
        r = s2.check(f)
        if r == z3.unsat:
            res.status, res.error = "vacuous", "cover %s is unreachable" % nm
            return
        res.obligations.append({"name": "cover " + nm, "kind": "cover", "status": "proved" if r == z3.sat else "unknown"})
    bad = False
    unk = False
    safety = [o for o in obls if o.kind not in ("post",)]
    todo = [o for o in obls if o.kind == "post"]
    if safety:
        s2.set("timeout", int(min(budget, 8) * 1000))
        r = s2.check(z3.Or([z3.Not(o.formula()) for o in safety]))
        s2.set("timeout", int(budget * 1000))
        if r == z3.unsat:
            for o in safety:
                res.obligations.append({"name": o.name, "kind": o.kind, "status": "proved", "line": o.line})
        else:
            todo = safety + todo
    for o in todo:
        ts = time.time()
        nf = z3.Not(o.formula())
        r = s2.check(nf)
        d = {"name": o.name, "kind": o.kind, "line": o.line, "time": round(time.time() - ts, 3)}
        if r == z3.unsat:
            d["status"] = "proved"
        elif r == z3.sat:
            d["status"] = "failed"
            bad = True
            d["model"] = model_args(s2.model(), c)
            if res.model is None:
                res.model = d["model"]
        else:
            r2 = cvc5_check(facts, live, nf, budget)
            if r2 == "unsat":
                d["status"] = "proved"
                d["backend"] = "cvc5"
            else:
                d["status"] = "unknown"
                d["reason"] = s2.reason_unknown()
                unk = True
        res.obligations.append(d)
    if bad:
        res.status = "failed"
    elif unk:
        res.status = "unknown"


def houdini(c, ex, order, all_ivs, stage, rich, given, budget, res):
    """the largest inductive subset of the candidates, relative to the invariants already established"""
    cands = []
    seen = set()
    for f in c.stage_hooks:
        f(stage)
    for h in order:
        li = ex.loopinfos[h]
        for nm, fn in candidates(ex, c, li, all_ivs, stage, rich):
            head = fn(li.head)
            if z3.is_true(z3.simplify(head)) or (h, head.get_id()) in seen:
                continue
            seen.add((h, head.get_id()))
            cands.append({"loop": h, "name": nm, "fn": fn, "head": head, "alive": True})
    for i, cd in enumerate(cands):
        li = ex.loopinfos[cd["loop"]]
        cd["act"] = z3.Bool("act!%d!%d" % (stage, i))
        cd["hg"] = li.head.guard
        fails = [z3.And(li.entry.guard, z3.Not(cd["fn"](li.entry)))]
        for l in li.latches:
            fails.append(z3.And(l.guard, z3.Not(cd["fn"](l))))
        cd["fails"] = fails
    for cd in cands:
        cd["inst"] = []
        if c.instantiate and getattr(cd["fn"], "inst", None):
            cd["inst"] = list(cd["fn"].inst(ex.loopinfos[cd["loop"]]))
    if not cands:
        return []
    hs = z3.Solver()
    hs.set("timeout", int(budget * 1000))
    for f in list(ex.facts) + list(c.spec_axioms) + list(c.fp.axioms) + list(c.mul_axioms):
        hs.add(f)
    for cd in given:
        hs.add(z3.Implies(cd["hg"], cd["head"]))
        for x in cd["inst"]:
            hs.add(z3.Implies(cd["hg"], x))
    for cd in cands:
        hs.add(z3.Implies(z3.And(cd["act"], cd["hg"]), cd["head"]))
        for x in cd["inst"]:
            hs.add(z3.Implies(z3.And(cd["act"], cd["hg"]), x))
    # one group per loop edge; a group is settled when none of its live candidates can fail, and is looked at again
    # whenever a candidate has been dropped since
    groups = []
    for h in order:
        mine = [cd for cd in cands if cd["loop"] == h]
        if mine:
            for e in range(1 + len(ex.loopinfos[h].latches)):
                groups.append((mine, e))
    base = list(ex.facts) + list(c.spec_axioms) + list(c.fp.axioms) + list(c.mul_axioms)

    def fresh(cd, e):
        """one candidate, with a new solver per case of the case distinction"""
        asm = list(base)
        for x in given:
            asm.append(z3.Implies(x["hg"], z3.And([x["head"]] + x["inst"])))
        for x in cands:
            if x["alive"]:
                asm.append(z3.Implies(x["hg"], z3.And([x["head"]] + x["inst"])))
        neg = []
        for t in c.case_hook(ex, ex.loopinfos[cd["loop"]]) + [T]:
            s = z3.Solver()
            s.set("timeout", int(budget * 1000))
            s.add(asm)
            s.add(cd["fails"][e])
            s.add(neg + [t])
            t0 = time.time()
            r = s.check()
            if DEBUG:
                print("   case", cd["name"], r, round(time.time() - t0, 1), flush=True)
            if r != z3.unsat:
                return r
            neg.append(z3.Not(t))
        return z3.unsat

    split = c.case_hook is not None and stage != 1
    rounds = 0
    version = 0
    settled = [-1] * len(groups)
    while True:
        todo = [i for i in range(len(groups)) if settled[i] != version]
        if not todo:
            break
        for gi in todo:
            mine, e = groups[gi]
            while True:
                live = [cd for cd in cands if cd["alive"]]
                here = [cd for cd in mine if cd["alive"]]
                if not here:
                    settled[gi] = version
                    break
                rounds += 1
                hs.push()
                hs.add(z3.Or([cd["fails"][e] for cd in here]))
                acts = [cd["act"] for cd in live]
                if split:
                    hs.set("timeout", 10000)
                r = hs.check(*acts)
                if r == z3.unsat:
                    hs.pop()
                    settled[gi] = version
                    break
                drop = []
                if r == z3.sat:
                    m = hs.model()
                    drop = [cd for cd in here if z3.is_true(m.eval(cd["fails"][e], model_completion=True))]
                    hs.pop()
                    if not drop:
                        raise Unsupported("houdini made no progress")
                else:
                    hs.pop()
                    # decide one by one, dropping what cannot be decided
                    hs.set("timeout", 5000)
                    for cd in here:
                        hs.push()
                        hs.add(cd["fails"][e])
                        r1 = hs.check(*[x["act"] for x in cands if x["alive"]])
                        hs.pop()
                        if r1 == z3.unknown and split and e > 0:
                            r1 = fresh(cd, e)
                        if r1 != z3.unsat:
                            cd["alive"] = False
                            drop.append(cd)
                    hs.set("timeout", int(budget * 1000))
                    if not drop:
                        settled[gi] = version
                        break
                for cd in drop:
                    cd["alive"] = False
                    if DEBUG and stage != 1:
                        print("drop (%s, edge %d) %s: %s" % (r, e, cd["loop"], cd["name"]))
                version += 1
    res.rounds = getattr(res, "rounds", 0) + rounds
    return [cd for cd in cands if cd["alive"]]


def cvc5_check(facts, live, goal, budget):
    """second opinion from cvc5 on an SMT-LIB export"""
    import subprocess, tempfile, os
    s = z3.Solver()
    for f in facts:
        s.add(f)
    for cd in live:
        s.add(z3.Implies(cd["hg"], cd["head"]))
        for x in cd["inst"]:
            s.add(z3.Implies(cd["hg"], x))
    s.add(goal)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(budget * 1000), f.name], capture_output=True, text=True,
                           timeout=budget + 20)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)


def model_args(m, c):
    out = {}
    for nm, v in c.symbols:
        try:
            if isinstance(v, Arr):
                n = m.eval(v.n, model_completion=True).as_long() if v.n is not None else 0
                if n <= 4096:
                    out[nm] = [m.eval(v.r.base.f(z3.BitVecVal(i, 64)), model_completion=True).as_long() for i in range(min(n, 512))]
                else:
                    out[nm] = "length %d" % n
            elif z3.is_bool(v):
                out[nm] = str(m.eval(v, model_completion=True))
            else:
                out[nm] = m.eval(v, model_completion=True).as_long()
        except Exception as e:
            out[nm] = "?"
    for E in c.foralls:
        for k in E.ks:
            x = m.eval(k, model_completion=False)
            if z3.is_bv_value(x):
                out[str(k)] = x.as_long()
    return out
