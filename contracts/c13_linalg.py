"""C13: elementwise vector and matrix operations: add, multiply, scale, fill, copy, conversion to and from split storage."""
from .common import *
from .registry import ASSUME_FP

FUNCTIONS = ["neo::add, neo::multiply, neo::scale, neo::fill, neo::copy over contiguous and strided vectors and over dense matrices "
             "(float, double, std::complex<float|double>, neo::scalar_complex<float>)",
             "neo::copy between interleaved and split complex vectors", "neo::detail::linalg_binary_op, linalg_unary_op"]
ASSUMPTIONS = ASSUME_FP + ["operands have equal extents (documented by the assert), extents below 2^31, matrices below 2^40 elements; the output is disjoint from "
                           "the inputs or exactly one of them",
                           "matrix index products are abstracted by the lemma x < R -> x*C + C <= R*C"]
TY = {"f32": (32, 1, np.float32), "f64": (64, 1, np.float64), "c64": (32, 2, np.complex64), "c128": (64, 2, np.complex128), "n64": (32, 2, np.complex64)}


class View:
    """element k of an array of T whose elements lie stride apart"""

    def __init__(self, c, a, parts, stride):
        self.c, self.a, self.parts, self.stride = c, a, parts, stride

    def idx(self, k):
        return [k * c64(self.parts * self.stride) + c64(j) for j in range(self.parts)]

    def pre(self, k):
        return [self.a.pre(i) for i in self.idx(k)]

    def at(self, S, k):
        return [self.a.at(S, i) for i in self.idx(k)]


def val(c, op, x, y):
    """expected parts as reals, or None for a plain copy"""
    X, Y = [c.rv(v) for v in x], [c.rv(v) for v in y]
    if op == "add":
        return [p + q for p, q in zip(X, Y)]
    if len(X) == 1:
        return [X[0] * Y[0]]
    return [X[0] * Y[0] - X[1] * Y[1], X[0] * Y[1] + X[1] * Y[0]]


def rnd(ty, rng, n):
    w, parts, dt = TY[ty]
    v = floats(np.float32 if w == 32 else np.float64, rng, n * parts)
    return v.view(dt) if n else np.zeros(0, dt)


NP = {"add": lambda x, y: x + y, "mul": lambda x, y: x * y}


def search(fn, ty, op, stride, ismat):
    w, parts, dt = TY[ty]

    def mk(L, models, rng):
        nin = 2 if op in NP else 1
        f = L.fn(fn, None, *([PTR] * (nin + 1) + [SIZE] * (2 if ismat else 1)))

        def case(r, c, alias, end):
            n = r * c
            a, b, o0 = rnd(ty, rng, n * stride), rnd(ty, rng, n * stride), rnd(ty, rng, n * stride)
            s = rnd(ty, rng, 1)

            def run():
                x, y = a[::stride], b[::stride]
                want = o0.copy()
                inplace = op in ("scale",)
                if op in NP:
                    want = (a if alias == "x" else b if alias == "y" else o0).copy()
                    want[::stride] = NP[op](x, y)
                elif op == "copy":
                    want[::stride] = x
                elif op == "scale":
                    want[::stride] = o0[::stride] * s[0]
                else:
                    want[::stride] = s[0]
                if op in NP:
                    A, B = arena(0, 64).place(a, end), arena(1, 64).place(b, end)
                    O = A if alias == "x" else B if alias == "y" else arena(2, 64).place(o0, end)
                    ptrs = [A.ptr, B.ptr, O.ptr]
                else:
                    A = arena(0, 64).place(a if op == "copy" else s, end)
                    O = arena(2, 64).place(o0, end)
                    ptrs = [A.ptr, O.ptr]
                f(*ptrs, *([r, c] if ismat else [n]))
                if not close(O.arr, want):
                    k = int(np.argmax(np.abs(O.arr - want)))
                    return "position %d holds %r, expected %r" % (k, O.arr[k], want[k])
                if not O.intact():
                    return "wrote outside the output"
            return Case({"rows": r, "columns": c, "alias": alias, "x": a, "y": b, "scalar": s}, run)
        if ismat:
            for r in range(0, 7):
                for c in range(0, 7):
                    yield case(r, c, None, bool(r & 1))
            while True:
                yield case(rng.randint(0, 9), rng.randint(0, 9), rng.choice([None, "x", "y"]) if op in NP else None, rng.random() < .5)
        for n in LENGTHS:
            yield case(1, n, None, True)
            yield case(1, n, "x" if op in NP else None, False)
        while True:
            yield case(1, rng.choice(LENGTHS), rng.choice([None, "x", "y"]) if op in NP else None, rng.random() < .5)
    return mk


def elementwise(prefix, op, ty, alias=None, tier="quick"):
    """prefix: '' vector, 's' strided vector, 'm' matrix, 'l' column-major matrix"""
    w, parts, dt = TY[ty]
    fn = "%s%s_%s" % (prefix, op, ty)
    stride = 2 if prefix == "s" else 1
    ismat = prefix in ("m", "l")

    def setup(c):
        if ismat:
            r, cc = z3.BitVec("rows", 64), z3.BitVec("columns", 64)
            n = c.grid(r, cc) if prefix == "m" else c.grid(cc, r)
        else:
            n = z3.BitVec("n", 64)
            c.requires(z3.ULT(n, 1 << 31))
        mk = lambda nm, wr=False: View(c, c.arr(nm, w, n * c64(parts * stride), wr), parts, stride)
        sc = lambda nm: View(c, c.arr(nm, w, parts), parts, 1)
        if op in NP:
            x, y = mk("x"), mk("y")
            o = View(c, c.same((x if alias == "x" else y).a), parts, stride) if alias else mk("out", True)
        elif op == "copy":
            x, o = mk("x"), mk("out", True)
        else:
            x, o = sc("scalar"), mk("out", True)
        if ismat:
            c.args += [r, cc]
            c.symbols += [("rows", r), ("columns", cc)]
        else:
            c.args.append(n)
            c.symbols.append(("n", n))
        c.cover("long", lambda P: z3.UGT(n, 1000))

        def pred(S, k):
            got = o.at(S, k)
            if op in NP:
                return z3.And([c.rv(g).eq(e) for g, e in zip(got, val(c, op, x.pre(k), y.pre(k)))])
            if op == "copy":
                return z3.And([g == e for g, e in zip(got, x.pre(k))])
            if op == "fill":
                return z3.And([g == e for g, e in zip(got, x.pre(c64(0)))])
            return z3.And([c.rv(g).eq(e) for g, e in zip(got, val(c, "mul", o.pre(k), x.pre(c64(0))))])
        pos = [lambda k, j=j: o.idx(k)[j] for j in range(parts)]
        c.forall("out[k] is %s of the operands at k" % op, lambda k: z3.ULT(k, n), pred, [o.a], pos=pos)
        if stride > 1:
            gap = [lambda k, j=j: k * c64(parts * stride) + c64(parts + j) for j in range(parts)]
            c.forall("elements between the strided ones keep their value", lambda k: z3.ULT(k, n),
                     lambda S, k: z3.And([o.a.at(S, g(k)) == o.a.pre(g(k)) for g in gap]), [o.a], pos=gap)
    return Contract("C13", fn, setup, lib="linalg", variant="in place of " + alias if alias else "", tier=tier, cost=2,
                    search=search(fn, ty, op, stride, ismat), skey=fn)


def split_search(fn, ty, to):
    w, parts, dt = TY[ty]

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, PTR, PTR, SIZE)
        while True:
            for n in LENGTHS:
                x = rnd(ty, rng, n)

                def run(x=x, n=n):
                    fl = np.float32 if w == 32 else np.float64
                    if to:
                        X, R, I = arena(0).place(x), arena(1).place(np.zeros(n, fl)), arena(2).place(np.zeros(n, fl))
                        f(X.ptr, R.ptr, I.ptr, n)
                        ok = (R.arr == x.real).all() and (I.arr == x.imag).all() and R.intact() and I.intact()
                    else:
                        X, R, I = arena(0).place(np.zeros(n, dt)), arena(1).place(x.real), arena(2).place(x.imag)
                        f(R.ptr, I.ptr, X.ptr, n)
                        ok = (X.arr == x).all() and X.intact()
                    return None if ok else "parts differ"
                yield Case({"x": x}, run)
    return mk


def split(ty, to):
    w, parts, dt = TY[ty]
    fn = ("tosplit_" if to else "fromsplit_") + ty

    def setup(c):
        n = z3.BitVec("n", 64)
        c.requires(z3.ULT(n, 1 << 40))
        if to:
            x = c.arr("x", w, n * c64(2))
            re, im = c.arr("re", w, n, True), c.arr("im", w, n, True)
            c.forall("real and imaginary parts are separated", lambda k: z3.ULT(k, n),
                     lambda S, k: z3.And(re.at(S, k) == x.pre(k * 2), im.at(S, k) == x.pre(k * 2 + 1)), [re, im])
        else:
            re, im = c.arr("re", w, n), c.arr("im", w, n)
            x = c.arr("x", w, n * c64(2), True)
            c.forall("real and imaginary parts are interleaved", lambda k: z3.ULT(k, n),
                     lambda S, k: z3.And(x.at(S, k * 2) == re.pre(k), x.at(S, k * 2 + 1) == im.pre(k)), [x], pos=[lambda k: k * 2, lambda k: k * 2 + 1])
        c.args.append(n)
        c.symbols.append(("n", n))
    return Contract("C13", fn, setup, lib="linalg", search=split_search(fn, ty, to))


CONTRACTS = []
for ty in TY:
    for op in ("add", "mul", "copy", "scale", "fill"):
        for pre in ("", "s", "m"):
            CONTRACTS.append(elementwise(pre, op, ty))
        if op in ("scale", "fill"):
            CONTRACTS.append(elementwise("l", op, ty))
        if op in NP:
            for al in ("x", "y"):
                CONTRACTS.append(elementwise("", op, ty, al))
                CONTRACTS.append(elementwise("m", op, ty, al, tier="thorough"))
for ty in ("c64", "c128", "n64"):
    CONTRACTS += [split(ty, True), split(ty, False)]
