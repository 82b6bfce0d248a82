"""C21: bit and digit reversal are the permutations they are named after."""
from .common import *
from .c20_fft import pages, dec2
from .c13_linalg import TY
from vc.mem import lin
from .revspec import z64, Rev, table_hints, swap_hints, counter_hints, MAXO

FUNCTIONS = ["neo::fft::bitrevorder_plan::{constructor, make, operator()} (complex, interleaved real and split complex)", "neo::fft::bitrevorder (complex)",
             "bounded stand-ins: neo::fft::bitrevorder (interleaved real), neo::fft::digitrevorder_plan<2|3|4|5>"]
ASSUMPTIONS = ["orders up to 31", "facts about the reversal of bits are instances of the lemmas in contracts/revspec.py, each proved by bit-blasting in the same run"]
W = {"f32": 32, "f64": 64}


def revdigits(i, radix, digits):
    r = np.zeros_like(i)
    for _ in range(digits):
        r = r * radix + i % radix
        i = i // radix
    return r


def search(fn, dt, radix, byorder, parts, split, top, deep):
    """parts: array elements per moved element"""
    def mk(L, models, rng):
        f = L.fn(fn, None, SIZE, PTR, *([PTR] if split else []))
        r = np.random.default_rng(rng.getrandbits(32))

        def case(o):
            n = radix ** o
            x = (np.arange(1, n * parts + 1) + (1j * r.permutation(n * parts) if np.dtype(dt).kind == "c" else 0)).astype(dt)
            y = r.permutation(n).astype(dt)

            def run():
                X = arena(0, pages(n * parts, dt)).place(x)
                Y = arena(1, pages(n, dt)).place(y)
                f(o if byorder else n, X.ptr, *([Y.ptr] if split else []))
                perm = revdigits(np.arange(n), radix, o)
                for B, b, k in ((X, x, parts), (Y, y, 1)):
                    want = b.reshape(n, k)[perm if split or B is X else np.arange(n)].reshape(-1)
                    if not B.intact():
                        return "wrote outside the array"
                    if not (B.arr == want).all():
                        j = int(np.argmax(B.arr != want))
                        return "element %d is %r, expected %r" % (j, B.arr[j], want[j])
            return Case({"order": o, "size": n}, run)
        for o in model_ints(models, "order", 0, 22 if radix == 2 else 0):
            yield case(o)
        for o in range(0, 21):
            if o <= top or radix ** o <= 1 << 20:
                yield case(o)
        while True:
            yield case(rng.randint(0, deep))
    return mk


def bounded(fn, dt, radix=2, byorder=True, parts=1, split=False, top=14, deep=12):
    return Contract("C21", fn, None, lib="xform", search=search(fn, dt, radix, byorder, parts, split, top, deep), bounded="orders 0 to %d" % top)


def dec(idx):
    """position in an interleaved array -> element"""
    i = dec2(idx)
    if i is not None:
        return i
    d, cst = lin(idx)
    if len(d) == 1:      # an odd loop variable, or the one in front of it
        (t, co), = d.values()
        if co == 1 and t.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
            t = t.children()[0]
        if co == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and cst in (0, (1 << 64) - 1):
            e = z3.LShR(z64(t) - 1, c64(1))
            return e
    t = idx
    if t.decl().kind() == z3.Z3_OP_ZERO_EXT:
        t = t.children()[0]
    elif t.decl().kind() == z3.Z3_OP_CONCAT and len(t.children()) == 2:
        t = t.children()[1]
    while z3.is_bv(t) and t.decl().kind() in (z3.Z3_OP_BOR, z3.Z3_OP_BADD, z3.Z3_OP_BSHL, z3.Z3_OP_BMUL) and len(t.children()) == 2:
        a, b = t.children()
        if z3.is_bv_value(a):
            a, b = b, a
        if not z3.is_bv_value(b):
            break
        t = a
    return norm(z3.ZeroExt(64 - t.size(), t)) if t.size() < 64 else norm(z3.LShR(idx, c64(1)))


def plan(fn, w, parts, split, dt, np_parts, top=MAXO):
    """the reordering plan: element k becomes the one at the reversed index"""
    def setup(c):
        c.instantiate = True
        order = c.i("order")
        c.requires(z3.ULE(order, top))
        R = Rev(c, order)
        xs = [c.arr("re", w, R.N, True), c.arr("im", w, R.N, True)] if split else [c.arr("x", w, R.N * c64(parts), True)]
        ix = (lambda i: [i]) if split else (lambda i: [norm(i * c64(parts) + c64(j)) for j in range(parts)])
        e = c.forall("element k is the one at the bit-reversed index", R.valid,
                     lambda S, i: z3.And([a.at(S, p) == a.pre(q) for a in xs for p, q in zip(ix(i), ix(R.rev(i)))]), xs, pos=[lambda i, j=j: ix(i)[j] for j in range(len(ix(c64(0))))])
        e.noauto = True
        k = e.ks[0]
        R.rev(k)
        table_hints(c, R, k)
        counter_hints(c, R)
        swap_hints(c, R, k, xs, ix, (lambda i: i) if split else dec)
        c.cover("large", lambda P: order == 20)
    return Contract("C21", fn, setup, lib="xform", search=search(fn, dt, 2, True, np_parts, split, 14, 12), cost=3)


CONTRACTS = []
for t, dt in (("c64", np.complex64), ("c128", np.complex128)):
    CONTRACTS += [plan("bitrev_plan_" + t, TY[t][0], 2, False, dt, 1), plan("bitrev_free_" + t, TY[t][0], 2, False, dt, 1)]
    CONTRACTS += [bounded("digitrev%d_%s" % (r, t), dt, r, False, 1, False, top, top) for r, top in ((2, 14), (3, 8), (4, 7), (5, 6))]
for t, dt in (("f32", np.float32), ("f64", np.float64)):
    CONTRACTS += [plan("bitrev_plan_" + t, W[t], 2, False, dt, 2), bounded("bitrev_free_" + t, dt, parts=2), plan("bitrev_split_" + t, W[t], 1, True, dt, 1)]
