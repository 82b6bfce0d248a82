"""Symbolic execution of one LLVM function into passive verification conditions.

Every loop is cut at its header: the header's phis and the memory the loop writes are havocked, and the only thing
known about them afterwards is the loop invariant (see inv.py).  There is no unrolling and no bound.
"""
import re
import z3
from . import ir
from .ir import Unsupported, size_of, struct_layout
from .mem import (Base, Store, IteMem, Fill, Region, Ptr, merge_ptr, ite, lin, norm, div_exact, diff_const)

T, F = z3.BoolVal(True), z3.BoolVal(False)
BV = z3.BitVecVal


def c64(n):
    return z3.BitVecVal(n, 64)


class Obl:
    def __init__(self, name, kind, guard, cond, line=""):
        self.name, self.kind, self.guard, self.cond, self.line = name, kind, guard, cond, line

    def formula(self):
        return z3.Implies(self.guard, self.cond)


class LState:
    """what a loop invariant may talk about at one program point of a loop"""

    def __init__(self, guard, phis, mem, env):
        self.guard, self.phis, self.mem, self.env = guard, phis, mem, env


class LoopInfo:
    def __init__(self, loop, name):
        self.loop, self.name = loop, name
        self.phis = []       # (name, ty)
        self.entry = None
        self.head = None
        self.latches = []
        self.cmps = []       # (pred, a, b) comparisons of ints inside the loop
        self.mods = []       # havocked regions
        self.havoc = {}      # region -> Base node
        self.depth = 0
        self.parent = None
        self.counter = None


class Slots(dict):
    pass


class Exec:
    def __init__(self, mod, fname, fp, contract=None, hints=None, dry=False):
        self.mod, self.fname, self.fp, self.contract = mod, fname, fp, contract
        self.f = mod.function(fname)
        self.order, self.idom, self.loops = ir.loops(self.f)
        self.dry = dry
        self.hints = hints or {}      # from pass 0: region elem sizes, loop modsets
        self.env = {}
        self.obls = []
        self.facts = []
        self.fresh_n = 0
        self.loopinfos = {}
        self.regions = []
        self.globals = {}
        self.allocas = {}
        self.heaps = {}
        self._pruned = {}
        self.links = []      # regions copied into each other as blocks
        self.modset = {h: {} for h in self.loops}   # header -> {region name: set of slot offsets or True}
        self.blockloops = {}
        for b in self.order:
            self.blockloops[b] = [h for h, l in self.loops.items() if b in l.blocks]
        self.calls = []
        self.cur_block = None
        self.touched = set()

    # ------------------------------------------------------------ helpers
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    def fresh_val(self, name, ty):
        if ty.k == "int":
            return self.fresh(name, z3.BoolSort() if ty.n == 1 else z3.BitVecSort(ty.n))
        if ty.isfloat:
            return self.fresh(name, z3.BitVecSort(ty.bits()))
        if ty.k == "vec":
            return [self.fresh_val(name, ty.elem) for _ in range(ty.n)]
        if ty.k == "arr":
            return [self.fresh_val(name, ty.elem) for _ in range(ty.n)]
        if ty.k == "struct":
            return [self.fresh_val(name, e) for e in ty.elems]
        if ty.k == "ptr":
            return Ptr.single(None, self.fresh(name, z3.BitVecSort(64)))
        raise Unsupported("fresh %r" % ty)

    def zero(self, ty):
        if ty.k == "int":
            return F if ty.n == 1 else BV(0, ty.n)
        if ty.isfloat:
            return BV(0, ty.bits())
        if ty.k in ("vec", "arr"):
            return [self.zero(ty.elem) for _ in range(ty.n)]
        if ty.k == "struct":
            return [self.zero(e) for e in ty.elems]
        if ty.k == "ptr":
            return Ptr.single(None, c64(0))
        raise Unsupported("zero %r" % ty)

    def oblig(self, kind, name, guard, cond, line=""):
        if z3.is_true(cond):
            return
        self.obls.append(Obl(name, kind, guard, cond, line))

    def assume(self, f):
        self.facts.append(f)

    # ------------------------------------------------------------ values
    def val(self, v):
        k = v.kind
        if k == "local":
            if v.v not in self.env:
                raise Unsupported("use of %s before definition" % v.v)
            return self.env[v.v]
        if k == "int":
            if v.ty.n == 1:
                return T if v.v else F
            return BV(v.v, v.ty.n)
        if k == "fp":
            return BV(v.v, v.ty.bits())
        if k == "null":
            return Ptr.single(None, c64(0))
        if k == "undef":
            return self.fresh_val("undef", v.ty)
        if k == "zero":
            return self.zero(v.ty)
        if k == "agg":
            return [self.val(x) for x in v.v]
        if k == "global":
            return Ptr.single(self.global_region(v.v), c64(0))
        if k == "cgep":
            bt, base, idx = v.v
            return self.gep(bt, self.val(base), [(x.ty, self.val(x)) for x in idx])
        if k == "meta":
            return None
        raise Unsupported("value kind " + k)

    def write_only(self, g):
        """a file-local variable of the harness (g_...) that this function sets and does not read"""
        if not re.match(r'@?"?_ZL\d+g_', g):
            return False
        for b in self.f.blocks.values():
            for I in b.instrs:
                for j, o in enumerate(I.ops):
                    if getattr(o, "kind", None) == "global" and o.v == g and not (I.op == "store" and j == 1):
                        return False
        return True

    def global_region(self, g):
        if g in self.globals:
            return self.globals[g]
        ty, v, const = self.mod.global_init(g)
        t = ty
        while t.k in ("arr", "vec"):
            t = t.elem
        if t.k == "struct":
            # flatten homogeneous structs
            fl = []

            def flat(x):
                if x.k == "struct":
                    for e in x.elems:
                        flat(e)
                elif x.k in ("arr", "vec"):
                    for _ in range(min(x.n, 1)):
                        flat(x.elem)
                else:
                    fl.append(x)
            flat(t)
            if not fl or any(repr(x) != repr(fl[0]) for x in fl):
                raise Unsupported("global %s of type %r" % (g, ty))
            t = fl[0]
        r = Region("g" + re.sub(r'\W', '_', g), 1 if t.k == "ptr" else size_of(t), None, False, "global")
        r.size = c64(size_of(ty) // r.elem)
        if not const:
            raise Unsupported("mutable global " + g)
        vals = []

        def flatv(ty, v):
            if ty.k in ("arr", "vec"):
                if v.kind == "cstr":
                    s = v.v[2:-1]
                    out = []
                    i = 0
                    while i < len(s):
                        if s[i] == "\\":
                            out.append(int(s[i + 1:i + 3], 16))
                            i += 3
                        else:
                            out.append(ord(s[i]))
                            i += 1
                    vals.extend(BV(x, 8) for x in out)
                    return
                for j in range(ty.n):
                    flatv(ty.elem, v.v[j] if v.kind == "agg" else ir.Val("zero", ty.elem))
            elif ty.k == "struct":
                for j, e in enumerate(ty.elems):
                    flatv(e, v.v[j] if v.kind == "agg" else ir.Val("zero", e))
            elif ty.k == "ptr":
                raise Unsupported("global with pointers " + g)
            else:
                vals.append(self.val(v))
        try:
            flatv(ty, v)
        except Unsupported:
            vals = None
        w = r.elem * 8

        def rd(i):
            if vals is None:
                raise Unsupported("reading global " + g)
            if z3.is_bv_value(i) and i.as_long() < len(vals):
                return vals[i.as_long()]
            if len(vals) > 512:
                raise Unsupported("symbolic index into large global " + g)
            x = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                x = ite(i == c64(j), vals[j], x)
            return x
        r.base = Base(rd, r.name)
        self.globals[g] = r
        return r

    # ------------------------------------------------------------ pointers
    def toi64(self, v):
        w = v.size()
        if w == 64:
            return v
        if w < 64:
            return z3.simplify(z3.SignExt(64 - w, v)) if z3.is_bv_value(v) else z3.SignExt(64 - w, v)
        return z3.Extract(63, 0, v)

    def gep(self, bt, base, idx):
        off = c64(0)
        t = bt
        for j, (ity, v) in enumerate(idx):
            if j == 0:
                off = off + self.toi64(v) * c64(size_of(t))
            elif t.k == "struct":
                n = v.as_long()
                off = off + c64(struct_layout(t)[0][n])
                t = t.elems[n]
            elif t.k in ("arr", "vec"):
                t = t.elem
                off = off + self.toi64(v) * c64(size_of(t))
            else:
                raise Unsupported("gep into %r" % t)
        return base.add(norm(off))

    # ------------------------------------------------------------ memory
    def node(self, mem, r):
        n = mem.get(r)
        if n is None:
            if r.base is not None:
                return r.base
            raise Unsupported("read of unknown region " + r.name)
        return n

    def elem_index(self, r, off, guard, line):
        q = div_exact(off, r.elem)
        if q is not None:
            return q, 0
        d, c = lin(off)
        # constant misalignment inside an element
        rem = c % r.elem
        q = div_exact(off - c64(rem), r.elem)
        if q is not None:
            return q, rem
        sh = r.elem.bit_length() - 1
        if not self.dry:
            self.oblig("bounds", "aligned access", guard, z3.Extract(sh - 1, 0, off) == 0, line)
        return z3.LShR(off, c64(sh)), 0

    def bounds(self, r, idx, n, guard, line, what):
        if r.size is None:
            return
        nn = c64(n)
        self.oblig("bounds", "%s of %s in bounds" % (what, r.name), guard,
                   z3.And(z3.ULE(nn, r.size), z3.ULE(idx, r.size - nn)), line)

    def bits_of(self, v, ty):
        """little-endian list of (bitvector) pieces"""
        if ty.k == "int":
            if ty.n == 1:
                return [z3.If(v, BV(1, 8), BV(0, 8))]
            return [v]
        if ty.isfloat:
            return [v]
        if ty.k in ("vec", "arr"):
            if ty.elem.k == "int" and ty.elem.n == 1:
                raise Unsupported("memory access to <n x i1>")
            r = []
            for x in v:
                r += self.bits_of(x, ty.elem)
            return r
        if ty.k == "struct":
            offs, tot = struct_layout(ty)
            r = []
            pos = 0
            for x, e, o in zip(v, ty.elems, offs):
                if o != pos:
                    raise Unsupported("struct padding in memory access")
                r += self.bits_of(x, e)
                pos += size_of(e)
            return r
        raise Unsupported("bits of %r" % ty)

    @staticmethod
    def chop(pieces, size_bits):
        """re-slice a little-endian list of bit-vectors into pieces of size_bits"""
        if all(p.size() == size_bits for p in pieces):
            return pieces
        if all(p.size() > size_bits and p.size() % size_bits == 0 for p in pieces):
            out = []
            for p in pieces:
                for j in range(p.size() // size_bits):
                    out.append(z3.simplify(z3.Extract((j + 1) * size_bits - 1, j * size_bits, p)))
            return out
        out, cur = [], []
        curbits = 0
        for p in pieces:
            cur.append(p)
            curbits += p.size()
            if curbits == size_bits:
                out.append(cur[0] if len(cur) == 1 else z3.simplify(z3.Concat(*reversed(cur))))
                cur, curbits = [], 0
            elif curbits > size_bits:
                # generic
                allv = z3.Concat(*reversed(pieces)) if len(pieces) > 1 else pieces[0]
                n = allv.size() // size_bits
                return [z3.simplify(z3.Extract((j + 1) * size_bits - 1, j * size_bits, allv)) for j in range(n)]
        if cur:
            raise Unsupported("cannot reslice memory access")
        return out

    def typed(self, pieces, ty):
        """build a value of type ty out of little-endian bit-vector pieces"""
        if ty.k == "int":
            if ty.n == 1:
                return z3.Extract(0, 0, self.chop(pieces, 8)[0]) == 1
            b = size_of(ty) * 8
            x = self.chop(pieces, b)[0]
            return x if b == ty.n else z3.Extract(ty.n - 1, 0, x)
        if ty.isfloat:
            return self.chop(pieces, ty.bits())[0]
        if ty.k in ("vec", "arr"):
            es = size_of(ty.elem) * 8
            ps = self.chop(pieces, es)
            return [self.typed([p], ty.elem) for p in ps[:ty.n]]
        if ty.k == "struct":
            offs, tot = struct_layout(ty)
            out = []
            bs = self.chop(pieces, 8)
            for e, o in zip(ty.elems, offs):
                out.append(self.typed(bs[o:o + size_of(e)], e))
            return out
        raise Unsupported("load of %r" % ty)

    def access_unit(self, ty):
        while ty.k in ("vec", "arr"):
            ty = ty.elem
        if ty.k == "struct":
            return min(self.access_unit(e) for e in ty.elems)
        return size_of(ty)

    def note_access(self, r, n):
        r.minacc = n if r.minacc is None else min(r.minacc, n)

    def load(self, ty, p, mem, guard, line):
        vals = []
        for g, r, off in p.alts:
            gg = guard if g is None else z3.And(guard, g)
            if r is None:
                self.oblig("bounds", "load through null pointer", gg, F, line)
                vals.append((g, self.fresh_val("null_load", ty)))
                continue
            vals.append((g, self.load1(ty, r, off, mem, gg, line)))
        if len(vals) == 1:
            return vals[0][1]
        return self.merge([(g, v) for g, v in vals], ty)

    def load1(self, ty, r, off, mem, guard, line):
        self.touched.add(r)
        if r.slots:
            return self.slot_load(ty, r, off, mem, guard, line)
        if ty.k == "ptr":
            h = getattr(r, "ptr_at", None)
            if h is not None:
                return h(self, off, guard)
            raise Unsupported("load of a pointer from " + r.name + ": " + line)
        self.note_access(r, self.access_unit(ty))
        nb = size_of(ty)
        idx, rem = self.elem_index(r, off, guard, line)
        n = self.node(mem, r)
        if rem == 0 and nb % r.elem == 0:
            k = nb // r.elem
            self.bounds(r, idx, k, guard, line, "load")
            pieces = [n.read(norm(idx + c64(j))) for j in range(k)]
            return self.typed(pieces, ty)
        # sub-element access
        tot = rem + nb
        k = (tot + r.elem - 1) // r.elem
        self.bounds(r, idx, k, guard, line, "load")
        pieces = [n.read(norm(idx + c64(j))) for j in range(k)]
        bs = self.chop(pieces, 8)[rem:rem + nb]
        return self.typed(bs, ty)

    def store(self, v, ty, p, mem, guard, line):
        for g, r, off in p.alts:
            gg = guard if g is None else z3.And(guard, g)
            if r is None:
                self.oblig("bounds", "store through null pointer", gg, F, line)
                continue
            self.store1(v, ty, r, off, mem, gg, line, g)

    def mark_mod(self, r, what):
        for h in self.blockloops[self.cur_block]:
            s = self.modset[h].setdefault(r.name, set())
            s.add(what)

    def store1(self, v, ty, r, off, mem, guard, line, cond):
        self.touched.add(r)
        if not r.writable:
            self.oblig("frame", "no store to read-only %s" % r.name, guard, F, line)
            return
        if r.slots:
            return self.slot_store(v, ty, r, off, mem, guard, line, cond)
        if ty.k == "ptr":
            raise Unsupported("store of a pointer to " + r.name + ": " + line)
        self.note_access(r, self.access_unit(ty))
        self.mark_mod(r, True)
        nb = size_of(ty)
        idx, rem = self.elem_index(r, off, guard, line)
        n = self.node(mem, r)
        pieces = self.bits_of(v, ty)
        if rem or nb % r.elem:
            tot = rem + nb
            k = (tot + r.elem - 1) // r.elem
            self.bounds(r, idx, k, guard, line, "store")
            old = self.chop([n.read(norm(idx + c64(j))) for j in range(k)], 8)
            new = old[:rem] + self.chop(pieces, 8) + old[rem + nb:]
            pieces = self.chop(new, r.elem * 8)
        else:
            k = nb // r.elem
            self.bounds(r, idx, k, guard, line, "store")
            pieces = self.chop(pieces, r.elem * 8)
        n0 = n
        for j, pc in enumerate(pieces):
            n = Store(n, norm(idx + c64(j)), pc)
        if cond is not None and not z3.is_true(cond):
            n = IteMem([(cond, n), (None, n0)])
        mem[r] = n

    # slot memory: objects whose fields are accessed at constant offsets only
    def slot_off(self, off):
        off = z3.simplify(off)
        if not z3.is_bv_value(off):
            raise Unsupported("symbolic offset into a field-accessed object")
        return off.as_long()

    def slot_load(self, ty, r, off, mem, guard, line):
        o = self.slot_off(off)
        m = mem.get(r)
        if m is None:
            m = r.slots_init
        nb = size_of(ty)
        if r.concrete is not None and o + nb > r.concrete:
            self.oblig("bounds", "load of %s in bounds" % r.name, guard, F, line)
            return self.fresh_val("oob", ty)
        e = m.get(o)
        if e is not None and e[0] == nb and (repr(e[2]) == repr(ty)):
            return e[1]
        # gather bytes
        if ty.k == "ptr":
            if e is not None and e[0] == nb:
                v = e[1]
                if isinstance(v, Ptr):
                    return v
                sv = z3.simplify(v) if z3.is_bv(v) else None
                if sv is not None and z3.is_bv_value(sv) and sv.as_long() == 0:
                    return Ptr.single(None, c64(0))
            bs = self.slot_bytes(m, o, nb, r)
            x = z3.simplify(z3.Concat(*reversed(bs)))
            if z3.is_bv_value(x) and x.as_long() == 0:
                return Ptr.single(None, c64(0))
            raise Unsupported("pointer read from non-pointer bytes: " + line)
        if e is not None and e[0] == nb and isinstance(e[1], Ptr):
            return self.ptr_bits(e[1])
        if e is not None and e[0] == nb:
            return self.typed(self.bits_of(e[1], e[2]), ty)
        # consecutive slots
        pieces = []
        p = o
        while p < o + nb:
            e = m.get(p)
            if e is None or p + e[0] > o + nb or isinstance(e[1], Ptr):
                pieces = None
                break
            pieces += self.bits_of(e[1], e[2])
            p += e[0]
        if pieces is None:
            pieces = self.slot_bytes(m, o, nb, r)
        return self.typed(pieces, ty)

    def slot_bytes(self, m, o, nb, r):
        out = []
        for b in range(o, o + nb):
            x = None
            for so, e in m.items():
                if so <= b < so + e[0]:
                    if isinstance(e[1], Ptr):
                        raise Unsupported("partial read of a pointer field")
                    x = self.chop(self.bits_of(e[1], e[2]), 8)[b - so]
            if x is None:
                x = self.fresh("uninit_%s_%d" % (r.name, b), z3.BitVecSort(8))
            out.append(x)
        return out

    def slot_store(self, v, ty, r, off, mem, guard, line, cond):
        o = self.slot_off(off)
        m = mem.get(r)
        if m is None:
            m = r.slots_init
        nb = size_of(ty)
        if r.concrete is not None and o + nb > r.concrete:
            self.oblig("bounds", "store of %s in bounds" % r.name, guard, F, line)
            return
        self.mark_mod(r, (o, nb))
        new = Slots()
        for so, e in m.items():
            if so + e[0] <= o or so >= o + nb:
                new[so] = e
            elif so >= o and so + e[0] <= o + nb:
                continue
            else:
                if isinstance(e[1], Ptr):
                    raise Unsupported("partial overwrite of a pointer field")
                bs = self.chop(self.bits_of(e[1], e[2]), 8)
                for j, x in enumerate(bs):
                    if not (o <= so + j < o + nb):
                        new[so + j] = (1, x, ir.I8)
        if cond is not None and o in m and m[o][0] == nb:
            v = self.merge([(cond, v), (z3.Not(cond), m[o][1])], ty)
        elif cond is not None:
            raise Unsupported("conditional store to a field")
        new[o] = (nb, v, ty)
        mem[r] = new

    def ptr_bits(self, p):
        if len(p.alts) == 1:
            g, r, off = p.alts[0]
            return off if r is None else norm(r.addr + off)
        x = None
        for g, r, off in reversed(p.alts):
            b = off if r is None else r.addr + off
            x = b if x is None else ite(g, b, x)
        return x

    # ------------------------------------------------------------ merging
    def merge(self, pairs, ty):
        """pairs [(guard, value)]"""
        if len(pairs) == 1:
            return pairs[0][1]
        v0 = pairs[0][1]
        if isinstance(v0, Ptr):
            if all(len(v.alts) == 1 and v.alts[0][1] is v0.alts[0][1] for _, v in pairs) and \
                    all(v.alts[0][2].eq(v0.alts[0][2]) for _, v in pairs):
                return v0
            return merge_ptr(pairs)
        if isinstance(v0, list):
            out = []
            for j in range(len(v0)):
                out.append(self.merge([(g, v[j]) for g, v in pairs], None))
            return out
        r = pairs[-1][1]
        for g, v in reversed(pairs[:-1]):
            r = ite(g, v, r)
        return r

    def merge_mem(self, pairs):
        if len(pairs) == 1:
            return dict(pairs[0][1])
        out = {}
        regs = []
        for _, m in pairs:
            for r in m:
                if r not in regs:
                    regs.append(r)
        for r in regs:
            if r.slots:
                ms = [(g, m.get(r, r.slots_init)) for g, m in pairs]
                if all(m is ms[0][1] for _, m in ms):
                    out[r] = ms[0][1]
                    continue
                new = Slots()
                keys = {}
                for _, m in ms:
                    for k, e in m.items():
                        keys.setdefault(k, set()).add((e[0], repr(e[2])))
                for k, sig in keys.items():
                    if len(sig) == 1 and all(k in m for _, m in ms):
                        e = ms[0][1][k]
                        vs = [(g, m[k][1]) for g, m in ms]
                        new[k] = (e[0], self.merge(vs, e[2]), e[2])
                    elif len(sig) == 1:
                        # present on some paths only: uninitialised on the others
                        have = [(g, m[k][1]) for g, m in ms if k in m]
                        e = next(m[k] for _, m in ms if k in m)
                        if isinstance(e[1], Ptr):
                            new[k] = (e[0], self.merge(have, e[2]), e[2])
                        else:
                            u = self.fresh_val("uninit", e[2])
                            new[k] = (e[0], self.merge(have + [(T, u)], e[2]), e[2])
                    else:
                        # different shapes: go to bytes
                        nb = max(s[0] for s in sig)
                        for b in range(k, k + nb):
                            new[b] = (1, self.merge([(g, self.slot_bytes(m, b, 1, r)[0]) for g, m in ms], ir.I8), ir.I8)
                out[r] = new
                continue
            ns = [(g, m.get(r, r.base)) for g, m in pairs]
            ns = [(g, n) for g, n in ns if n is not None]
            if all(n is ns[0][1] for _, n in ns):
                out[r] = ns[0][1]
            else:
                out[r] = IteMem(ns)
        return out

    # ------------------------------------------------------------ main
    def prune_ptr(self, p, g):
        """drop the objects a pointer cannot refer to on the paths given by g"""
        key = (id(p), g.get_id())
        if key in self._pruned:
            return self._pruned[key][0]
        q = self._prune(p, g)
        self._pruned[key] = (q, p, g)
        return q

    def _prune(self, p, g):
        out = []
        for c, r, o in p.alts:
            sv = z3.Solver()
            sv.set("timeout", 2000)
            sv.add(*self.requires, *getattr(self.contract, "mul_axioms", []), g, c)
            if sv.check() != z3.unsat:
                out.append((c, r, o))
        return Ptr([(None, out[0][1], out[0][2])]) if len(out) == 1 else Ptr(out) if out else Ptr([(None,) + p.alts[0][1:]])

    def run(self, args, mem0, requires):
        """args: values for the parameters; mem0: initial memory; requires: facts"""
        for (n, ty, at), v in zip(self.f.params, args):
            self.env[n] = v
        for r in requires:
            self.assume(r)
        self.requires = list(requires)
        self.rets = []
        self.edges = {}     # (pred, succ) -> (guard, mem)
        self.bguard = {}
        entry = self.f.order[0]
        for b in self.order:
            if b == entry:
                g, mem = T, dict(mem0)
                if b in self.loops:
                    raise Unsupported("entry block is a loop header")
            elif b in self.loops:
                if not any((p, b) in self.edges for p in self.f.blocks[b].pred):
                    continue        # never entered
                g, mem = self.enter_loop(b)
            else:
                ins = [(p,) + self.edges[(p, b)] for p in self.f.blocks[b].pred if (p, b) in self.edges]
                if not ins:
                    continue
                g = z3.simplify(z3.Or([x[1] for x in ins])) if len(ins) > 1 else ins[0][1]
                mem = self.merge_mem([(x[1], x[2]) for x in ins])
                for I in self.f.blocks[b].instrs:
                    if I.op != "phi":
                        break
                    inc = {bb: v for v, bb in I.x}
                    self.env[I.res] = self.merge([(x[1], self.val(inc[x[0]])) for x in ins], I.ty)
            self.bguard[b] = g
            self.exec_block(b, g, mem)
        return self

    def set_edge(self, a, b, g, mem):
        if (a, b) in self.edges:
            g0, _ = self.edges[(a, b)]
            g = z3.Or(g0, g)
        if b in self.loops and a in self.loops[b].blocks:
            # back edge
            li = self.loopinfos[b]
            ph = {}
            for I in self.f.blocks[b].instrs:
                if I.op != "phi":
                    break
                inc = {bb: v for v, bb in I.x}
                ph[I.res] = self.val(inc[a])
            for n, ty in li.phis:
                if ty.k == "ptr":
                    self.check_ptr_phi(li, n, ph[n])
            li.latches.append(LState(g, ph, dict(mem), None))
            return
        self.edges[(a, b)] = (g, mem)

    def check_ptr_phi(self, li, n, v):
        hv = li.head.phis[n]
        if len(v.alts) != 1 or v.alts[0][1] is not hv.alts[0][1]:
            if any(r is not hv.alts[0][1] for _, r, _ in v.alts):
                raise Unsupported("pointer loop variable %s changes object" % n)

    def enter_loop(self, b):
        li = LoopInfo(self.loops[b], b)
        self.loopinfos[b] = li
        l = self.loops[b]
        li.parent = l.parent.header if l.parent else None
        d, x = 0, l.parent
        while x:
            d += 1
            x = x.parent
        li.depth = d
        ins = [(p,) + self.edges[(p, b)] for p in self.f.blocks[b].pred if (p, b) in self.edges]
        g = z3.simplify(z3.Or([x[1] for x in ins])) if len(ins) > 1 else ins[0][1]
        mem = self.merge_mem([(x[1], x[2]) for x in ins])
        eph, hph = {}, {}
        for I in self.f.blocks[b].instrs:
            if I.op != "phi":
                break
            inc = {bb: v for v, bb in I.x}
            eph[I.res] = self.merge([(x[1], self.val(inc[x[0]])) for x in ins], I.ty)
            li.phis.append((I.res, I.ty))
        li.entry = LState(g, eph, dict(mem), None)
        nm = re.sub(r'\W', '_', b)
        for n, ty in li.phis:
            vn = "phi%s_%s" % (nm, re.sub(r'\W', '_', n))
            if ty.k == "ptr":
                p = eph[n]
                if len(p.alts) != 1:
                    p = eph[n] = self.prune_ptr(p, g)
                if len(p.alts) != 1:
                    raise Unsupported("pointer loop variable with several objects")
                _, r, off = p.alts[0]
                v = self.fresh(vn, z3.BitVecSort(64))
                hv = Ptr.single(r, norm(v * c64(r.elem)) if r is not None and r.elem > 1 else v)
            else:
                hv = self.fresh_val(vn, ty)
            hph[n] = hv
            self.env[n] = hv
        # havoc memory
        mods = self.hints.get("modset", {}).get(b, {})
        hmem = dict(mem)
        for r in list(hmem):
            if r.name in mods:
                if r.slots:
                    new = Slots(hmem[r])
                    for (o, nb) in mods[r.name]:
                        for so, e in list(new.items()):
                            if so + e[0] <= o or so >= o + nb:
                                continue
                            if isinstance(e[1], Ptr):
                                if len(e[1].alts) != 1 or e[1].alts[0][1] is None:
                                    raise Unsupported("havoc of a pointer field")
                                rr = e[1].alts[0][1]
                                v = self.fresh("slotptr", z3.BitVecSort(64))
                                new[so] = (e[0], Ptr.single(rr, norm(v * c64(rr.elem))), e[2])
                            else:
                                new[so] = (e[0], self.fresh_val("slot_%s_%d" % (r.name, so), e[2]), e[2])
                        if not any(so <= o < so + e[0] for so, e in new.items()):
                            pass
                    hmem[r] = new
                else:
                    w = r.elem * 8
                    self.fresh_n += 1
                    fn = z3.Function("hv_%s_%s!%d" % (r.name, nm, self.fresh_n), z3.BitVecSort(64), z3.BitVecSort(w))
                    node = Base(fn, "havoc " + r.name)
                    hmem[r] = node
                    li.havoc[r] = node
                li.mods.append(r)
        # global (base) regions written in the loop but not yet in mem dict
        gh = self.fresh("in_loop" + nm, z3.BoolSort())
        # the arbitrary iteration is reached only if the loop is entered
        self.assume(z3.Implies(gh, g))
        li.head = LState(gh, hph, dict(hmem), None)
        return gh, hmem

    def exec_block(self, b, g, mem):
        self.cur_block = b
        for I in self.f.blocks[b].instrs:
            if I.op == "phi":
                continue
            try:
                self.instr(I, b, g, mem)
            except Unsupported as e:
                raise Unsupported("%s   [%s]" % (e, I.line[:160]))
            if I.op == "call" and I.x in NORETURN:
                return

    def lanes(self, I, fn, *ops):
        """apply fn lane-wise"""
        if isinstance(ops[0], list):
            return [fn(*xs) for xs in zip(*ops)]
        return fn(*ops)

    def instr(self, I, b, g, mem):
        op = I.op
        env = self.env
        if op in ir.BINOPS:
            x, y = self.val(I.ops[0]), self.val(I.ops[1])
            scalar = not isinstance(x, list)
            et = I.ty.elem if I.ty.k == "vec" else I.ty
            env[I.res] = self.lanes(I, lambda a, c: self.binop(op, et, a, c, I.flags if scalar else [], g, I.line), x, y)
        elif op == "fneg":
            env[I.res] = self.lanes(I, self.fp.neg, self.val(I.ops[0]))
        elif op in ir.CASTS:
            self.cast(I, g)
        elif op == "icmp":
            x, y = self.val(I.ops[0]), self.val(I.ops[1])
            if isinstance(x, Ptr):
                env[I.res] = self.ptrcmp(I.x, x, y, g, I.line)
            else:
                env[I.res] = self.lanes(I, lambda a, c: icmp(I.x, a, c), x, y)
                if not isinstance(x, list) and not z3.is_bool(x):
                    for h in self.blockloops[b]:
                        if h in self.loopinfos:
                            self.loopinfos[h].cmps.append((I.x, x, y))
        elif op == "fcmp":
            x, y = self.val(I.ops[0]), self.val(I.ops[1])
            env[I.res] = self.lanes(I, lambda a, c: self.fp.cmp(I.x, a, c), x, y)
        elif op == "select":
            c, x, y = [self.val(o) for o in I.ops]
            if isinstance(c, list):
                env[I.res] = [self.merge([(cc, xx), (z3.Not(cc), yy)], None) for cc, xx, yy in zip(c, x, y)]
            else:
                env[I.res] = self.merge([(c, x), (z3.Not(c), y)], I.ty)
        elif op == "br":
            if len(I.x) == 1:
                self.set_edge(b, I.x[0], g, mem)
            else:
                c = self.val(I.ops[0])
                if z3.is_true(c):
                    self.set_edge(b, I.x[0], g, mem)
                    return
                if z3.is_false(c):
                    self.set_edge(b, I.x[1], g, mem)
                    return
                if I.x[0] == I.x[1]:
                    self.set_edge(b, I.x[0], g, mem)
                    return
                self.set_edge(b, I.x[0], z3.And(g, c), mem)
                self.set_edge(b, I.x[1], z3.And(g, z3.Not(c)), mem)
        elif op == "switch":
            v = self.val(I.ops[0])
            d, cases = I.x
            rest = g
            tgt = {}
            for cv, lb in cases:
                cond = v == BV(cv, v.size())
                tgt.setdefault(lb, []).append(z3.And(rest, cond))
                rest = z3.And(rest, z3.Not(cond))
            tgt.setdefault(d, []).append(rest)
            for lb, gs in tgt.items():
                self.set_edge(b, lb, z3.Or(gs) if len(gs) > 1 else gs[0], mem)
        elif op == "ret":
            self.rets.append((g, self.val(I.ops[0]) if I.ops else None, mem))
        elif op == "unreachable":
            self.oblig("unreach", "unreachable code is not reached", g, F, I.line)
        elif op == "alloca":
            self.alloca(I, mem)
        elif op == "load":
            env[I.res] = self.load(I.ty, self.val(I.ops[0]), mem, g, I.line)
        elif op == "store" and I.ops[1].kind == "global" and self.write_only(I.ops[1].v):
            pass
        elif op == "store":
            self.store(self.val(I.ops[0]), I.ops[0].ty, self.val(I.ops[1]), mem, g, I.line)
        elif op == "getelementptr":
            base = self.val(I.ops[0])
            idx = [(o.ty, self.val(o)) for o in I.ops[1:]]
            if isinstance(base, list):
                raise Unsupported("vector gep")
            if len(base.alts) > 1 and any(r is None for _, r, _ in base.alts):
                base = self.prune_ptr(base, g)
            env[I.res] = self.gep(I.x, base, idx)
        elif op == "extractelement":
            v, i = self.val(I.ops[0]), self.val(I.ops[1])
            i = z3.simplify(i)
            if z3.is_bv_value(i):
                env[I.res] = v[i.as_long()]
            else:
                r = v[-1]
                for j in range(len(v) - 2, -1, -1):
                    r = ite(i == BV(j, i.size()), v[j], r)
                env[I.res] = r
        elif op == "insertelement":
            v, x, i = [self.val(o) for o in I.ops]
            i = z3.simplify(i)
            if not z3.is_bv_value(i):
                raise Unsupported("variable insertelement")
            v = list(v)
            v[i.as_long()] = x
            env[I.res] = v
        elif op == "shufflevector":
            x, y = self.val(I.ops[0]), self.val(I.ops[1])
            m = I.ops[2]
            out = []
            for j in range(I.ty.n):
                if m.kind == "zero":
                    k = 0
                elif m.kind == "undef" or m.v[j].kind == "undef":
                    out.append(self.fresh_val("undef", I.ty.elem))
                    continue
                else:
                    k = m.v[j].v
                out.append(x[k] if k < len(x) else y[k - len(x)])
            env[I.res] = out
        elif op == "extractvalue":
            v = self.val(I.ops[0])
            for j in I.x:
                v = v[j]
            env[I.res] = v
        elif op == "insertvalue":
            v, x = self.val(I.ops[0]), self.val(I.ops[1])

            def ins(v, idx):
                v = list(v)
                v[idx[0]] = x if len(idx) == 1 else ins(v[idx[0]], idx[1:])
                return v
            env[I.res] = ins(v, I.x)
        elif op == "freeze":
            env[I.res] = self.val(I.ops[0])
        elif op == "call":
            from .calls import call
            r = call(self, I, b, g, mem)
            if I.res:
                env[I.res] = r
        elif op == "fence":
            pass
        else:
            raise Unsupported("instr " + op)

    def alloca(self, I, mem):
        if I.x is not None and not (I.x.kind == "int" and I.x.v == 1):
            raise Unsupported("variable sized alloca")
        name = "alloca" + re.sub(r'\W', '_', I.res)
        nb = size_of(I.ty)
        slots = self.alloca_slots(I.res)
        r = Region(name, 1, None, True, "alloca")
        r.concrete = nb
        if slots:
            r.slots = True
            r.slots_init = Slots()
            mem[r] = r.slots_init
        else:
            e = self.hints.get("elem", {}).get(name)
            if e is None:
                t = I.ty
                while t.k in ("arr", "vec") or (t.k == "struct" and len(t.elems) == 1):
                    t = t.elem if t.k in ("arr", "vec") else t.elems[0]
                e = size_of(t) if t.k in ("int", "half", "float", "double") else 1
            r.elem = e
            r.size = c64(nb // e)
            fn = z3.Function("un_%s" % name, z3.BitVecSort(64), z3.BitVecSort(e * 8))
            r.base = Base(fn, name)
            mem[r] = r.base
        self.regions.append(r)
        self.env[I.res] = Ptr.single(r, c64(0))

    def alloca_slots(self, res):
        """True iff the object is only accessed at constant offsets"""
        uses = getattr(self, "_uses", None)
        if uses is None:
            uses = {}
            for b in self.f.blocks.values():
                for I in b.instrs:
                    vs = list(I.ops)
                    if I.op == "phi":
                        vs = [v for v, _ in I.x]
                    for v in vs:
                        if v.kind == "local":
                            uses.setdefault(v.v, []).append((I, v))
            self._uses = uses
        st = [res]
        seen = {res}
        while st:
            n = st.pop()
            for I, v in uses.get(n, []):
                if I.op == "load":
                    continue
                if I.op == "store":
                    continue
                if I.op == "getelementptr":
                    if any(o.kind not in ("int",) for o in I.ops[1:]):
                        return False
                    if I.res not in seen:
                        seen.add(I.res)
                        st.append(I.res)
                    continue
                if I.op == "call":
                    if I.x.startswith("llvm.lifetime"):
                        continue
                    if I.x.startswith("llvm.mem"):
                        if len(I.ops) > 2 and I.ops[2].kind == "int":
                            continue
                        return False
                    if getattr(self.contract, "callees", None) and self.contract.callee_for(I.x):
                        continue
                    return False
                if I.op == "select":
                    if I.res not in seen:
                        seen.add(I.res)
                        st.append(I.res)
                    continue
                if I.op in ("icmp",):
                    continue
                return False
        return True

    def ptrcmp(self, pred, x, y, g, line):
        if isinstance(x, list):
            raise Unsupported("vector pointer compare")
        if len(x.alts) == 1 and len(y.alts) == 1:
            _, rx, ox = x.alts[0]
            _, ry, oy = y.alts[0]
            if rx is ry:
                for h in self.blockloops[self.cur_block]:
                    if h in self.loopinfos:
                        self.loopinfos[h].cmps.append(("ptr", ox, oy, rx))
                return icmp(pred, ox, oy)
            if rx is None or ry is None:
                z = oy if ry is None else ox
                zz = z3.simplify(z)
                if z3.is_bv_value(zz) and zz.as_long() == 0:
                    # objects do not live at address 0
                    r, o = (rx, ox) if ry is None else (ry, oy)
                    if pred == "eq":
                        return F
                    if pred == "ne":
                        return T
            if pred == "eq":
                return F
            if pred == "ne":
                return T
        a, b = self.ptr_bits(x), self.ptr_bits(y)
        if pred in ("eq", "ne"):
            # resolve alternative by alternative
            c = F
            for g1, r1, o1 in x.alts:
                for g2, r2, o2 in y.alts:
                    gg = z3.And(g1 if g1 is not None else T, g2 if g2 is not None else T)
                    if r1 is r2:
                        c = z3.Or(c, z3.And(gg, o1 == o2))
            return c if pred == "eq" else z3.Not(c)
        return icmp(pred, a, b)

    def binop(self, op, ty, a, b, flags, g, line):
        if op[0] == "f":
            return self.fp.bin(op, a, b)
        if ty.k == "int" and ty.n == 1:
            if op == "and":
                return z3.And(a, b)
            if op == "or":
                return z3.Or(a, b)
            if op in ("xor", "add", "sub"):
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        w = a.size()
        if op == "add":
            if "nsw" in flags:
                self.oblig("overflow", "signed add does not overflow", g,
                           z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), line)
            return a + b
        if op == "sub":
            if "nsw" in flags:
                self.oblig("overflow", "signed subtract does not overflow", g,
                           z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), line)
            return a - b
        if op == "mul":
            if "nsw" in flags and not self.contract.mul_is_exact(a, b):
                self.oblig("overflow", "signed multiply does not overflow", g, self.contract.mul_ok(a, b), line)
            return self.contract.mul(a, b)
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.oblig("div", "divisor is not zero", g, b != 0, line)
            if op[0] == "s":
                self.oblig("div", "no INT_MIN / -1", g, z3.Not(z3.And(a == BV(1 << (w - 1), w), b == BV(-1, w))), line)
            if self.contract.div_abstract and not self.contract.mul_exact and op in ("udiv", "urem") and not z3.is_bv_value(b):
                return self.contract.divrem(op, a, b)
            if self.contract.div_abstract and not self.contract.mul_exact and op in ("sdiv", "srem") and not z3.is_bv_value(b):
                f = z3.Function("%s%d" % (op, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                return z3.If(z3.And(a >= 0, b > 0), self.contract.divrem("u" + op[1:], a, b), f(a, b))
            return {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](a, b)
        if op in ("shl", "lshr", "ashr"):
            if not z3.is_bv_value(b):
                self.oblig("shift", "shift amount in range", g, z3.ULT(b, BV(w, w)), line)
            if op == "shl":
                if "nsw" in flags:
                    r = a << b
                    self.oblig("overflow", "signed shift does not overflow", g, (r >> b) == a, line)
                return a << b
            return z3.LShR(a, b) if op == "lshr" else a >> b
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        raise Unsupported(op)

    def cast(self, I, g):
        op = I.op
        x = self.val(I.ops[0])
        src, dst = I.ops[0].ty, I.ty
        if op == "bitcast":
            if isinstance(x, Ptr):
                self.env[I.res] = x
                return
            if src.k == "vec" and src.elem.k == "int" and src.elem.n == 1:
                if dst.k == "int":
                    bits = [z3.If(l, BV(1, 1), BV(0, 1)) for l in x]
                    self.env[I.res] = z3.Concat(*reversed(bits)) if len(bits) > 1 else bits[0]
                    return
                raise Unsupported("bitcast <n x i1>")
            self.env[I.res] = self.typed(self.bits_of(x, src), dst)
            return
        if op == "ptrtoint":
            v = self.ptr_bits(x)
            self.env[I.res] = v if dst.n == 64 else z3.Extract(dst.n - 1, 0, v)
            return
        if op == "inttoptr":
            raise Unsupported("inttoptr")
        se = src.elem if src.k == "vec" else src
        de = dst.elem if dst.k == "vec" else dst

        def one(v):
            if op == "trunc":
                if de.n == 1:
                    return z3.Extract(0, 0, v) == 1
                return z3.Extract(de.n - 1, 0, v)
            if op in ("zext", "sext"):
                if se.n == 1:
                    return z3.If(v, BV(1 if op == "zext" else -1, de.n), BV(0, de.n))
                return z3.ZeroExt(de.n - se.n, v) if op == "zext" else z3.SignExt(de.n - se.n, v)
            if op == "fpext":
                return self.fp.ext(v, de.bits())
            if op == "fptrunc":
                return self.fp.trunc(v, de.bits())
            if op in ("sitofp", "uitofp"):
                if se.n == 1:
                    v = z3.If(v, BV(1 if op == "uitofp" else -1, 8), BV(0, 8))
                return self.fp.fromint(v, de.bits(), op == "sitofp")
            if op in ("fptosi", "fptoui"):
                r, ok = self.fp.toint(v, de.n, op == "fptosi")
                if ok is not None:
                    self.oblig("conv", "float to integer conversion is in range", g, ok, I.line)
                return r
            raise Unsupported(op)
        self.env[I.res] = self.lanes(I, one, x)


def icmp(p, a, b):
    if z3.is_bv_value(a) and z3.is_bv_value(b):
        return z3.simplify(_icmp(p, a, b))
    return _icmp(p, a, b)


def _icmp(p, a, b):
    if z3.is_bool(a):
        if p == "eq":
            return a == b
        if p == "ne":
            return z3.Xor(a, b)
        a = z3.If(a, BV(1, 1), BV(0, 1))
        b = z3.If(b, BV(1, 1), BV(0, 1))
    return {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
            "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b,
            "slt": lambda: a < b, "sle": lambda: a <= b}[p]()


NORETURN = {"__assert_fail", "abort", "_ZSt9terminatev", "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv",
            "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt25__throw_bad_function_callv",
            "_ZSt16__throw_bad_castv", "llvm.trap", "llvm.ubsantrap", "_ZSt19__throw_logic_errorPKc"}
