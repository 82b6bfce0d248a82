"""Calls: LLVM/x86 intrinsics, libm, the allocator, and callees that are used through their contract."""
import re
import z3
from . import ir
from .ir import Unsupported, size_of
from .mem import Base, Fill, Region, Ptr, ite, norm, div_exact, Store, IteMem

BV = z3.BitVecVal
F = z3.BoolVal(False)

LIBM1 = {"cos", "sin", "tan", "exp", "exp2", "log", "log2", "log10", "sqrt", "floor", "ceil", "round", "trunc", "cbrt",
         "tanh", "nearbyint", "rint"}
LIBM2 = {"pow", "atan2", "hypot", "fmod"}


def sat(x, w):
    """saturate signed x to w bits"""
    n = x.size()
    lo, hi = BV(-(1 << (w - 1)), n), BV((1 << (w - 1)) - 1, n)
    return z3.Extract(w - 1, 0, z3.If(x < lo, lo, z3.If(x > hi, hi, x)))


def usat(x, w):
    n = x.size()
    lo, hi = BV(0, n), BV((1 << w) - 1, n)
    return z3.Extract(w - 1, 0, z3.If(x < lo, lo, z3.If(x > hi, hi, x)))


def satop(op, a, b):
    w = a.size()
    s = op[0] == "s"
    if s:
        x, y = z3.SignExt(2, a), z3.SignExt(2, b)
    else:
        x, y = z3.ZeroExt(2, a), z3.ZeroExt(2, b)
    r = x + y if "add" in op else x - y
    return sat(r, w) if s else usat(r, w)


def popcount(v):
    w = v.size()
    r = BV(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return r


def ctlz(v):
    w = v.size()
    r = BV(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, v) == 1, BV(w - 1 - i, w), r)
    return r


def cttz(v):
    w = v.size()
    r = BV(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, v) == 1, BV(i, w), r)
    return r


def packs(ex, a, b, w, signed, lane):
    """pack with saturation, lane-wise per 128 bit"""
    n = len(a)
    per = lane // a[0].size()
    out = []
    f = (lambda x: sat(x, w)) if signed else (lambda x: usat(x, w))
    for k in range(0, n, per):
        out += [f(x) for x in a[k:k + per]] + [f(x) for x in b[k:k + per]]
    return out


def mulhrs(ex, a, b):
    p = ex.contract.mul(z3.SignExt(16, a), z3.SignExt(16, b))
    t = (p >> 14) + BV(1, 32)
    return z3.Extract(16, 1, t)


def call(ex, I, b, g, mem):
    from .execu import NORETURN, c64
    n = I.x
    if ex.contract is not None:
        h = ex.contract.callee_for(n)
        if h is not None:
            ex.calls.append(n)
            return h(ex, I, [ex.val(o) for o in I.ops], g, mem)
    if n in NORETURN:
        kind = "assert" if n == "__assert_fail" else "unreach"
        ex.oblig(kind, "%s is not reached" % n, g, F, I.line)
        return None
    if n.startswith("llvm."):
        return intrinsic(ex, I, n, g, mem)
    # allocator
    if n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "malloc"):
        return alloc(ex, I, ex.val(I.ops[0]), mem)
    if n.startswith("_ZdlPv") or n.startswith("_ZdaPv") or n == "free":
        return None
    if n in ("cabs", "cabsf"):
        a = [ex.val(o) for o in I.ops]
        return ex.fp.libm("hypot", list(a[0]) if len(a) == 1 else a)
    if n in ("cexp", "cexpf"):
        a = [ex.val(o) for o in I.ops]
        re_, im = list(a[0]) if len(a) == 1 else a
        out = [ex.fp.libm("cos", [im]), ex.fp.libm("sin", [im])]
        if not (ex.fp.mode == "uf" and not ex.fp.poly(re_).t):      # exp(0) = 1
            e = ex.fp.libm("exp", [re_])
            out = [ex.fp.mul(e, o) for o in out]
        return out
    base = n[:-1] if n.endswith("f") and n[:-1] in LIBM1 | LIBM2 | {"fabs"} else n
    if base in LIBM1 or base in LIBM2:
        return ex.fp.libm(base, [ex.val(o) for o in I.ops])
    if n in ("lround", "lroundf", "llround", "llroundf", "lrint", "lrintf"):
        return ex.fp.lround(ex.val(I.ops[0]))
    if base == "fabs":
        return ex.fp.fabs(ex.val(I.ops[0]))
    if base in ("sincos",):
        raise Unsupported("sincos")
    if n in ("memset", "memcpy", "memmove"):
        return memop(ex, I, n, g, mem)
    raise Unsupported("call to " + n)


def alloc(ex, I, size, mem):
    from .execu import Slots, c64
    name = "heap" + re.sub(r'\W', '_', I.res)
    if ex.blockloops[ex.cur_block]:
        raise Unsupported("allocation inside a loop")
    e = ex.hints.get("elem", {}).get(name, 1)
    r = Region(name, e, None, True, "heap")
    q = div_exact(size, e)
    if q is None:
        q = z3.LShR(size, c64(e.bit_length() - 1))
    r.size = q
    fn = z3.Function("un_%s" % name, z3.BitVecSort(64), z3.BitVecSort(e * 8))
    r.base = Base(fn, name)
    mem[r] = r.base
    ex.regions.append(r)
    ex.heaps[name] = r
    return Ptr.single(r, c64(0))


def memop(ex, I, n, g, mem):
    from .execu import c64, Slots
    dst = ex.val(I.ops[0])
    ln = ex.val(I.ops[2])
    if ln.size() < 64:
        ln = z3.ZeroExt(64 - ln.size(), ln)
    ln = z3.simplify(ln)
    const = ln.as_long() if z3.is_bv_value(ln) else None
    if const == 0:
        return dst
    if len(dst.alts) != 1:
        dst = ex.prune_ptr(dst, g)
    if len(dst.alts) != 1:
        raise Unsupported("memory block operation through several objects")
    _, r, off = dst.alts[0]
    if r is None:
        ex.oblig("bounds", "block write through null", g, ln == 0, I.line)
        return dst
    if "memset" in n:
        v = ex.val(I.ops[1])
        v8 = v if v.size() == 8 else z3.Extract(7, 0, v)
        if r.slots:
            if const is None:
                raise Unsupported("memset of symbolic length on an object")
            o = ex.slot_off(off)
            m = Slots(mem.get(r, r.slots_init))
            for so in [s for s, e in m.items() if not (s + e[0] <= o or s >= o + const)]:
                e = m[so]
                if so < o or so + e[0] > o + const:
                    raise Unsupported("partial memset of a field")
                del m[so]
            sv = z3.simplify(v8)
            p = o
            while p < o + const:
                k = 8 if p % 8 == 0 and p + 8 <= o + const else (4 if p % 4 == 0 and p + 4 <= o + const else 1)
                val = z3.simplify(z3.Concat(*([sv] * k))) if k > 1 else sv
                m[p] = (k, val, ir.Ty("int", 8 * k))
                p += k
            ex.mark_mod(r, (o, const))
            mem[r] = m
            return dst
        if not r.writable:
            ex.oblig("frame", "no store to read-only %s" % r.name, g, ln == 0, I.line)
            return dst
        idx, rem = ex.elem_index(r, off, g, I.line)
        if rem:
            raise Unsupported("misaligned memset")
        cnt = div_exact(ln, r.elem)
        if cnt is None:
            sh = r.elem.bit_length() - 1
            ex.oblig("bounds", "memset length is a multiple of the element size", g, z3.Extract(sh - 1, 0, ln) == 0, I.line)
            cnt = z3.LShR(ln, c64(sh))
        ex.oblig("bounds", "memset of %s in bounds" % r.name, g,
                 z3.Or(cnt == 0, z3.And(z3.ULE(cnt, r.size), z3.ULE(idx, r.size - cnt))), I.line)
        # the byte length must not wrap
        val = z3.simplify(z3.Concat(*([v8] * r.elem))) if r.elem > 1 else v8
        ex.mark_mod(r, True)
        if const is not None and const // r.elem <= 16:
            nd = ex.node(mem, r)
            for j in range(const // r.elem):
                nd = Store(nd, norm(idx + c64(j)), val)
            mem[r] = nd
        else:
            mem[r] = Fill(ex.node(mem, r), idx, cnt, lambda i: val)
        return dst
    # memcpy / memmove
    src = ex.val(I.ops[1])
    if len(src.alts) != 1:
        src = ex.prune_ptr(src, g)
    if len(src.alts) != 1:
        raise Unsupported("memcpy through several objects")
    _, rs, offs = src.alts[0]
    if rs is None:
        ex.oblig("bounds", "block read through null", g, ln == 0, I.line)
        return dst
    if r.slots or rs.slots:
        if const is None:
            raise Unsupported("memcpy of symbolic length on an object")
        if rs.slots:
            m = mem.get(rs, rs.slots_init)
            o = ex.slot_off(offs)
            todo = [(so - o, e) for so, e in sorted(m.items()) if so >= o and so + e[0] <= o + const]
            for d, (nb, v, ty) in todo:
                ex.store1(v, ty, r, norm(off + c64(d)), mem, g, I.line, None)
        else:
            u = rs.elem
            if const % u:
                raise Unsupported("memcpy size")
            ty = ir.Ty("int", 8 * u)
            for d in range(0, const, u):
                v = ex.load1(ty, rs, norm(offs + c64(d)), mem, g, I.line)
                ex.store1(v, ty, r, norm(off + c64(d)), mem, g, I.line, None)
        return dst
    if not r.writable:
        ex.oblig("frame", "no store to read-only %s" % r.name, g, ln == 0, I.line)
        return dst
    ex.touched.add(rs)
    ex.links.append((r, rs))
    if r.elem != rs.elem:
        if not ex.dry:
            raise Unsupported("memcpy between regions of different element size")
        ex.mark_mod(r, True)
        return dst
    i1, rem1 = ex.elem_index(r, off, g, I.line)
    i2, rem2 = ex.elem_index(rs, offs, g, I.line)
    cnt = div_exact(ln, r.elem)
    if rem1 or rem2:
        raise Unsupported("misaligned memcpy")
    if cnt is None:
        sh = r.elem.bit_length() - 1
        ex.oblig("bounds", "memcpy length is a multiple of the element size", g, z3.Extract(sh - 1, 0, ln) == 0, I.line)
        cnt = z3.LShR(ln, c64(sh))
    for rr, ii, w in ((r, i1, "memcpy destination"), (rs, i2, "memcpy source")):
        if rr.size is not None:
            ex.oblig("bounds", "%s %s in bounds" % (w, rr.name), g,
                     z3.Or(cnt == 0, z3.And(z3.ULE(cnt, rr.size), z3.ULE(ii, rr.size - cnt))), I.line)
    if r is rs and "memcpy" in n:
        d = norm(i1 - i2)
        ex.oblig("bounds", "memcpy ranges do not overlap", g,
                 z3.Or(cnt == 0, i1 == i2, z3.And(z3.ULE(cnt, i1 - i2), z3.ULE(cnt, i2 - i1))), I.line)
    ex.mark_mod(r, True)
    snap = ex.node(mem, rs)
    mem[r] = Fill(ex.node(mem, r), i1, cnt, lambda i: snap.read(norm(i - i1 + i2)))
    return dst


def intrinsic(ex, I, n, g, mem):
    from .execu import c64
    if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing")):
        return None
    if n.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
        return memop(ex, I, n, g, mem)
    if n == "llvm.assume":
        c = ex.val(I.ops[0])
        ex.oblig("assert", "assumption in the code holds", g, c, I.line)
        return None
    if n.startswith("llvm.is.constant"):
        return F
    if n.startswith("llvm.expect"):
        return ex.val(I.ops[0])
    a = [ex.val(o) for o in I.ops]
    m = re.match(r"llvm\.([a-z0-9]+(?:\.sat|\.with\.overflow)?)\.", n)
    k = m.group(1) if m else n

    def L(fn, *xs):
        if isinstance(xs[0], list):
            return [fn(*t) for t in zip(*xs)]
        return fn(*xs)
    if k in ("sadd.sat", "ssub.sat", "uadd.sat", "usub.sat"):
        return L(lambda x, y: satop(k, x, y), a[0], a[1])
    if k in ("smax", "smin", "umax", "umin"):
        f = {"smax": lambda x, y: z3.If(x > y, x, y), "smin": lambda x, y: z3.If(x < y, x, y),
             "umax": lambda x, y: z3.If(z3.UGT(x, y), x, y), "umin": lambda x, y: z3.If(z3.ULT(x, y), x, y)}[k]
        return L(f, a[0], a[1])
    if k == "abs":
        def ab(x):
            w = x.size()
            if z3.is_true(a[1]):
                ex.oblig("overflow", "abs of the minimum integer", g, x != BV(1 << (w - 1), w), I.line)
            return z3.If(x < 0, -x, x)
        return L(ab, a[0])
    if k in ("ctlz", "cttz"):
        f = ctlz if k == "ctlz" else cttz
        if not isinstance(a[0], list) and z3.is_true(a[1]):
            ex.oblig("shift", "count of zero bits of zero", g, a[0] != 0, I.line)
        return L(f, a[0])
    if k == "ctpop":
        return L(popcount, a[0])
    if k in ("fshl", "fshr"):
        def fsh(x, y, s):
            w = x.size()
            s = z3.URem(s, BV(w, w))
            c = z3.Concat(x, y)
            s2 = z3.ZeroExt(w, s)
            if k == "fshl":
                return z3.Extract(2 * w - 1, w, c << s2)
            return z3.Extract(w - 1, 0, z3.LShR(c, s2))
        return L(fsh, a[0], a[1], a[2])
    if k == "bswap":
        def bs(x):
            w = x.size()
            return z3.Concat(*[z3.Extract(i + 7, i, x) for i in range(0, w, 8)])
        return L(bs, a[0])
    if k == "bitreverse":
        return L(lambda x: z3.Concat(*[z3.Extract(i, i, x) for i in range(x.size())]), a[0])
    if k.endswith(".with.overflow"):
        x, y = a[0], a[1]
        o = k.split(".")[0]
        if o == "sadd":
            return [x + y, z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))]
        if o == "uadd":
            return [x + y, z3.Not(z3.BVAddNoOverflow(x, y, False))]
        if o == "ssub":
            return [x - y, z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))]
        if o == "usub":
            return [x - y, z3.ULT(x, y)]
        if o == "umul":
            return [x * y, z3.Not(z3.BVMulNoOverflow(x, y, False))]
        if o == "smul":
            return [x * y, z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))]
    # floating point
    if k == "fabs":
        return L(ex.fp.fabs, a[0])
    if k == "fmuladd" or k == "fma":
        if ex.fp.mode == "ieee":
            raise Unsupported("fma in ieee mode")
        return L(lambda x, y, z: ex.fp.bin("fadd", ex.fp.bin("fmul", x, y), z), a[0], a[1], a[2])
    if k in ("maxnum", "maximum"):
        return L(lambda x, y: ex.fp.maxmin(True, x, y), a[0], a[1])
    if k in ("minnum", "minimum"):
        return L(lambda x, y: ex.fp.maxmin(False, x, y), a[0], a[1])
    if k == "copysign":
        w = a[0].size() if not isinstance(a[0], list) else a[0][0].size()
        if ex.fp.mode != "ieee":
            raise Unsupported("copysign")
        msk = 1 << (w - 1)
        return L(lambda x, y: (x & BV(msk - 1, w)) | (y & BV(msk, w)), a[0], a[1])
    if k in LIBM1:
        return L(lambda x: ex.fp.libm(k, [x]), a[0])
    if k in LIBM2:
        return L(lambda x, y: ex.fp.libm(k, [x, y]), a[0], a[1])
    if n.startswith("llvm.vector.reduce."):
        o = n.split(".")[3]
        if o == "fadd":
            r = a[0]
            for x in a[1]:
                r = ex.fp.bin("fadd", r, x)
            return r
        v = a[0]
        f = {"add": lambda x, y: x + y, "mul": lambda x, y: x * y, "and": (lambda x, y: z3.And(x, y) if z3.is_bool(x) else x & y),
             "or": (lambda x, y: z3.Or(x, y) if z3.is_bool(x) else x | y),
             "smax": lambda x, y: z3.If(x > y, x, y), "smin": lambda x, y: z3.If(x < y, x, y),
             "umax": lambda x, y: z3.If(z3.UGT(x, y), x, y), "umin": lambda x, y: z3.If(z3.ULT(x, y), x, y)}.get(o)
        if f is None:
            raise Unsupported(n)
        r = v[0]
        for x in v[1:]:
            r = f(r, x)
        return r
    # x86
    if n == "llvm.x86.sse2.packsswb.128":
        return packs(ex, a[0], a[1], 8, True, 128)
    if n == "llvm.x86.sse2.packssdw.128":
        return packs(ex, a[0], a[1], 16, True, 128)
    if n == "llvm.x86.avx2.packsswb":
        return packs(ex, a[0], a[1], 8, True, 128)
    if n == "llvm.x86.avx2.packssdw":
        return packs(ex, a[0], a[1], 16, True, 128)
    if n in ("llvm.x86.sse2.packuswb.128", "llvm.x86.avx2.packuswb"):
        return packs(ex, a[0], a[1], 8, False, 128)
    if n in ("llvm.x86.sse41.packusdw", "llvm.x86.avx2.packusdw"):
        return packs(ex, a[0], a[1], 16, False, 128)
    if n in ("llvm.x86.ssse3.pmul.hr.sw.128", "llvm.x86.avx2.pmul.hr.sw", "llvm.x86.avx512.pmul.hr.sw.512"):
        return [mulhrs(ex, x, y) for x, y in zip(a[0], a[1])]
    if n in ("llvm.x86.sse2.pmulh.w", "llvm.x86.avx2.pmulh.w"):
        return [z3.Extract(31, 16, ex.contract.mul(z3.SignExt(16, x), z3.SignExt(16, y))) for x, y in zip(a[0], a[1])]
    if n in ("llvm.x86.sse2.pmulhu.w", "llvm.x86.avx2.pmulhu.w"):
        return [z3.Extract(31, 16, ex.contract.mul(z3.ZeroExt(16, x), z3.ZeroExt(16, y))) for x, y in zip(a[0], a[1])]
    if n in ("llvm.x86.sse2.pmadd.wd", "llvm.x86.avx2.pmadd.wd"):
        pr = [ex.contract.mul(z3.SignExt(16, x), z3.SignExt(16, y)) for x, y in zip(a[0], a[1])]
        return [pr[i] + pr[i + 1] for i in range(0, len(pr), 2)]
    if re.match(r"llvm\.x86\.(sse2|avx2)\.ps(ra|rl|ll)i?\.[wdq]", n):
        mm = re.match(r"llvm\.x86\.(sse2|avx2)\.ps(ra|rl|ll)(i?)\.([wdq])", n)
        w = {"w": 16, "d": 32, "q": 64}[mm.group(4)]
        if mm.group(3):
            cnt = a[1]
        else:
            # low 64 bits of the vector
            cnt = ex.chop(a[1], 64)[0]
            cnt = z3.If(z3.UGT(cnt, BV(255, 64)), BV(255, 32), z3.Extract(31, 0, cnt))
        big = z3.UGE(cnt, BV(w, 32))
        s = z3.Extract(w - 1, 0, cnt) if w <= 32 else z3.ZeroExt(w - 32, cnt)
        if mm.group(2) == "ra":
            return [z3.If(big, x >> BV(w - 1, w), x >> s) for x in a[0]]
        if mm.group(2) == "rl":
            return [z3.If(big, BV(0, w), z3.LShR(x, s)) for x in a[0]]
        return [z3.If(big, BV(0, w), x << s) for x in a[0]]
    if n in ("llvm.x86.vcvtps2ph.256", "llvm.x86.vcvtps2ph.128"):
        r = [ex.fp.trunc(x, 16) for x in a[0]]
        imm = z3.simplify(a[1]).as_long()
        if imm not in (0, 4):
            if ex.fp.mode == "ieee":
                rm = {1: z3.RTN(), 2: z3.RTP(), 3: z3.RTZ()}[imm & 3]
                r = [ex.fp.bv(z3.fpFPToFP(rm, ex.fp.fpv(x), z3.FPSort(5, 11))) for x in a[0]]
            else:
                r = [ex.fp.fun("cvtps2ph_rm%d" % imm, 32, 16)(x) for x in a[0]]
        while len(r) < I.ty.n:
            r.append(BV(0, 16))
        return r
    if n in ("llvm.x86.vcvtph2ps.256", "llvm.x86.vcvtph2ps.128"):
        return [ex.fp.ext(x, 32) for x in a[0][:I.ty.n]]
    if n.startswith("llvm.x86.avx512.vpermi2var."):
        both, nl = a[0] + a[2], len(a[0])
        out = []
        for i in a[1]:
            i = z3.simplify(i)
            if not z3.is_bv_value(i):
                raise Unsupported("intrinsic %s with a variable selection" % n)
            out.append(both[i.as_long() & (2 * nl - 1)])
        return out
    raise Unsupported("intrinsic " + n)
