"""Memory regions and read-over-write elimination (memory never reaches the solver as an array)."""
import z3
from .ir import Unsupported

_lincache = {}
_keep = []
M64 = (1 << 64) - 1


def lin(t):
    """linear normal form of a 64-bit term: ({ast id: (term, coef)}, const) modulo 2^64"""
    i = t.get_id()
    r = _lincache.get(i)
    if r is None:
        r = _lin(t)
        _lincache[i] = r
        _keep.append(t)
    return r


def _addto(d, o, s):
    for k, (tm, c) in o.items():
        x = (d[k][1] if k in d else 0) + s * c
        x &= M64
        if x:
            d[k] = (tm, x)
        else:
            d.pop(k, None)


def _lin(t):
    if z3.is_bv_value(t):
        return {}, t.as_long()
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_BADD:
        d, c = {}, 0
        for x in ch:
            dx, cx = lin(x)
            _addto(d, dx, 1)
            c += cx
        return d, c & M64
    if k == z3.Z3_OP_BSUB:
        d, c = {}, 0
        for j, x in enumerate(ch):
            dx, cx = lin(x)
            s = 1 if j == 0 else -1
            _addto(d, dx, s)
            c += s * cx
        return d, c & M64
    if k == z3.Z3_OP_BNEG:
        dx, cx = lin(ch[0])
        d = {}
        _addto(d, dx, -1)
        return d, (-cx) & M64
    if k == z3.Z3_OP_BMUL and len(ch) == 2:
        for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
            if z3.is_bv_value(a):
                dx, cx = lin(b)
                d = {}
                _addto(d, dx, a.as_long())
                return d, (cx * a.as_long()) & M64
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < 64:
        m = 1 << ch[1].as_long()
        dx, cx = lin(ch[0])
        d = {}
        _addto(d, dx, m)
        return d, (cx * m) & M64
    return {t.get_id(): (t, 1)}, 0


def unlin(d, c):
    ts = []
    for k in sorted(d):
        tm, co = d[k]
        if co == 1:
            ts.append(tm)
        else:
            ts.append(tm * z3.BitVecVal(co, 64))
    if not ts:
        return z3.BitVecVal(c, 64)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    if c:
        r = r + z3.BitVecVal(c, 64)
    return r


def norm(t):
    d, c = lin(t)
    return unlin(d, c)


def diff_const(a, b):
    """a-b if it is a known constant, else None"""
    da, ca = lin(a)
    db, cb = lin(b)
    if len(da) != len(db):
        return None
    for k, (tm, c) in da.items():
        if k not in db or db[k][1] != c:
            return None
    return (ca - cb) & M64


def div_exact(t, e):
    """t/e when every coefficient of the linear form is divisible by e, else None"""
    d, c = lin(t)

    def dv(x):
        # interpret as signed so that negative multiples stay small
        s = x - (1 << 64) if x >> 63 else x
        if s % e:
            return None
        return (s // e) & M64

    nd = {}
    for k, (tm, co) in d.items():
        q = dv(co)
        if q is None:
            return None
        nd[k] = (tm, q)
    q = dv(c)
    if q is None:
        return None
    return unlin(nd, q)


class Node:
    _n = 0

    def __init__(self):
        Node._n += 1
        self.id = Node._n
        self.cache = {}

    def read(self, i):
        r = self.cache.get(i.get_id())
        if r is None:
            r = self._read(i)
            self.cache[i.get_id()] = r
            _keep.append(i)
        return r


class Base(Node):
    """arbitrary contents; f maps an index to a value"""

    def __init__(self, f, name=""):
        super().__init__()
        self.f, self.name = f, name
        self.reads = {}
        self.hook = None     # called once for every index read: instantiates assumptions about all elements

    def _read(self, i):
        i = norm(i)
        if i.get_id() not in self.reads:
            self.reads[i.get_id()] = i
            if self.hook:
                self.hook(i)
        return self.f(i)


class Store(Node):
    def __init__(self, parent, idx, val):
        super().__init__()
        self.parent, self.idx, self.val = parent, idx, val

    def _read(self, i):
        # iterative descent through a chain of stores
        chain = []
        n = self
        while isinstance(n, Store):
            d = diff_const(i, n.idx)
            if d == 0:
                base = n.val
                break
            if d is None:
                chain.append(n)
            n = n.parent
        else:
            base = n.read(i)
        for s in reversed(chain):
            base = ite(i == s.idx, s.val, base)
        return base


class IteMem(Node):
    def __init__(self, alts):
        super().__init__()
        self.alts = alts  # [(guard, node)], last guard ignored

    def _read(self, i):
        r = self.alts[-1][1].read(i)
        for g, n in reversed(self.alts[:-1]):
            v = n.read(i)
            r = ite(g, v, r)
        return r


class Fill(Node):
    """[lo, lo+n) replaced by fn(index)"""

    def __init__(self, parent, lo, n, fn):
        super().__init__()
        self.parent, self.lo, self.n, self.fn = parent, lo, n, fn

    def _read(self, i):
        d = norm(i - self.lo)
        inside = z3.simplify(z3.ULT(d, self.n))
        if z3.is_true(inside):
            return self.fn(i)
        if z3.is_false(inside):
            return self.parent.read(i)
        return ite(inside, self.fn(i), self.parent.read(i))


def ite(c, a, b):
    if a.eq(b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


class Region:
    def __init__(self, name, elem, size, writable=True, kind="arg", base=None):
        self.name, self.elem, self.size, self.writable, self.kind = name, elem, size, writable, kind
        self.slots = False
        self.addr = z3.BitVec("addr_" + name, 64)
        self.base = base
        self.minacc = None   # smallest scalar access seen
        self.concrete = None  # size in bytes when a constant

    def __repr__(self):
        return "Region(%s)" % self.name


class Ptr:
    """alternatives [(guard or None, Region or None, byte offset)]"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    @staticmethod
    def single(r, off):
        return Ptr([(None, r, off)])

    def add(self, o):
        return Ptr([(g, r, norm(off + o)) for g, r, off in self.alts])


def merge_ptr(pairs):
    """pairs: [(guard, Ptr)], exactly one guard holds; returns Ptr"""
    alts = []
    for g, p in pairs:
        for g2, r, o in p.alts:
            gg = g if g2 is None else z3.And(g, g2)
            alts.append((gg, r, o))
    # merge same region
    byr = {}
    order = []
    for g, r, o in alts:
        if id(r) not in byr:
            byr[id(r)] = []
            order.append((r, id(r)))
        byr[id(r)].append((g, o))
    out = []
    for r, k in order:
        l = byr[k]
        off = l[-1][1]
        for g, o in reversed(l[:-1]):
            off = ite(g, o, off)
        g = z3.Or([x for x, _ in l]) if len(l) > 1 else l[0][0]
        out.append((g, r, off))
    if len(out) == 1:
        return Ptr([(None, out[0][1], out[0][2])])
    return Ptr(out)
