"""Callees used through their contract: the complex transform and its kernel, as declared in harness/modular.cpp."""
import z3
from .common import *
from vc.mem import Base, norm, Ptr
from vc.ir import Unsupported


class St:
    """a memory state at the call"""
    def __init__(self, mem):
        self.mem = mem


class Call:
    def __init__(self, g, args, node, region, res, mem):
        self.g, self.args, self.node, self.region, self.res, self.mem = g, args, node, region, res, mem

    def pre(self, i):
        return self.node.read(norm(i))

    def post(self, i):
        return self.res.read(norm(i))


def whole(ex, p, g, what, line):
    """the pointer is the start of one array"""
    if len(p.alts) != 1:
        p = ex.prune_ptr(p, g)
    if len(p.alts) != 1 or p.alts[0][1] is None:
        raise Unsupported(what + ": several arrays")
    _, r, off = p.alts[0]
    if r.slots:
        raise Unsupported(what + ": not an array")
    return r, off


def transform(c, pat, bits, elems, name="transform"):
    """callee(x, n, ...) that reads and overwrites elems(n) numbers at x; calls are recorded in order in ex.spec_calls"""
    def handler(ex, I, args, g, mem):
        if z3.is_false(z3.simplify(g)):
            return None
        if ex.blockloops[ex.cur_block]:
            raise Unsupported(name + " inside a loop")
        r, off = whole(ex, args[0], g, name, I.line)
        ex.note_access(r, bits // 8)
        ex.touched.add(r)
        ex.contract.ex = ex
        calls = ex.__dict__.setdefault("spec_calls", [])
        node = ex.node(mem, r)
        ex.oblig("pre", "%s starts at the array" % name, g, off == 0, I.line)
        ex.oblig("pre", "%s stays inside the array" % name, g, z3.And(z3.ULE(args[1], 1 << 40), z3.ULE(elems(args[1]) * c64(bits // 8), r.size * c64(r.elem))), I.line)
        if not r.writable:
            ex.oblig("frame", "no store to read-only %s" % r.name, g, z3.BoolVal(False), I.line)
        ex.mark_mod(r, True)
        fn = z3.Function("res%d_%s" % (len(calls), r.name), z3.BitVecSort(64), z3.BitVecSort(r.elem * 8))
        res = Base(fn, "result of " + name)
        k = elems(args[1])
        mem[r] = Splice(node, res, k)
        calls.append(Call(g, args, node, r, res, dict(mem)))
        return None
    c.callee(pat, handler)


from vc.mem import Node


class Splice(Node):
    """res below n, the old contents from there on"""
    def __init__(self, old, res, n):
        super().__init__()
        self.old, self.res, self.n = old, res, n

    def _read(self, i):
        return z3.If(z3.ULT(i, self.n), self.res.read(i), self.old.read(i))


def the_call(ex, n=1):
    cs = getattr(ex, "spec_calls", [])
    if len(cs) != n:
        raise Unsupported("%d transform calls, expected %d" % (len(cs), n))
    return cs if n > 1 else cs[0]
