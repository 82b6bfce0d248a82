"""C17: the frequency delay line index: which slot is written, and how old each segment is, after any history of calls."""
from .common import *
from .c20_fft import pages

FUNCTIONS = ["neo::convolution::fdl_index<IndexType>::fdl_index(num_segments), operator(), reset (std::size_t, std::uint32_t, std::int32_t, std::uint16_t, std::int16_t, std::uint8_t)"]
ASSUMPTIONS = ["at least one segment, at most 2^30 or the largest value of the index type; unsigned remainders are described by their elementary lemmas (a < b, b <= a < 2b) before the exact circuit is used",
               "the recursion w(0)=0, w(t+1)=w(t)+1 or 0 at the number of segments is t modulo the number of segments (lemma wrap_mod in lemmas/Wrap.lean)"]
LEMMAS = ["Wrap.lean"]
W = {"u64": 64, "u32": 32, "i32": 32, "u16": 16, "i16": 16, "u8": 8}
DT = {"u64": np.uint64, "u32": np.uint32, "i32": np.int32, "u16": np.uint16, "i16": np.int16, "u8": np.uint8}
TOP = {"u16": 65535, "i16": 32767, "u8": 255}


def put(i, x):
    return arena(i, pages(max(1, len(x)), x.dtype)).place(x)


def search(fn, ty, reset):
    def mk(L, models, rng):
        ct = {"u64": ctypes.c_uint64, "u32": ctypes.c_uint32, "i32": ctypes.c_int32, "u16": ctypes.c_uint16, "i16": ctypes.c_int16, "u8": ctypes.c_uint8}[ty]
        f = L.fn(fn, None, ct, SIZE, PTR, PTR, PTR, PTR, PTR)

        def case(n, t):
            def run():
                S, A, Z = [put(i, np.full(k, 77, DT[ty])) for i, k in ((0, 1), (1, n), (2, n))]
                C, D = put(3, np.zeros(n, np.uint64)), put(4, np.zeros(1, np.uint64))
                f(n, t, S.ptr, A.ptr, Z.ptr, C.ptr, D.ptr)
                w = 0 if reset else t % n
                if S.arr[0] != w or D.arr[0] != 1:
                    return "call %d inserts into slot %d (%d insertions), expected slot %d" % (t, S.arr[0], D.arr[0], w)
                k = np.arange(n)
                for arr, want, what in ((C.arr, 1, "visited this many times"), (A.arr, (w - k) % n, "paired with filter part"), (Z.arr, w, "visited with the last insertion at")):
                    bad = np.nonzero(arr.astype(np.int64) != want)[0]
                    if len(bad):
                        b = int(bad[0])
                        return "segment %d is %s %d, expected %d" % (b, what, arr[b], want if np.isscalar(want) else want[b])
            return Case({"segments": n, "earlier calls": t, "reset": reset}, run)
        for n in range(1, 12):
            for t in range(0, 3 * n + 2):
                yield case(n, t)
        for _ in range(300):
            yield case(rng.randint(1, min(300, TOP.get(ty, 300))), rng.randint(0, 2000))
        for k in range(4):
            yield case(min(TOP.get(ty, 70000), 70000) - k, rng.randint(1, 900))
    return mk


def make(ty, reset):
    w = W[ty]
    fn = ("fdlreset_" if reset else "fdlidx_") + ty

    def setup(c):
        c.div_abstract = True
        n = c.i("n", w)
        c.requires(n != 0, z3.ULE(n, TOP.get(ty, (1 << 30) - 1)))
        steps = c.i("steps")
        n64 = n if w == 64 else z3.ZeroExt(64 - w, n)
        slot = c.arr("slot", w, 1, True)
        age, seen = c.arr("age", w, n64, True), c.arr("seen", w, n64, True)
        calls, copies = c.arr("calls", 64, n64, True), c.arr("copies", 64, 1, True)
        f = c.fold("w", BV(0, w), lambda i, v: z3.If(v + 1 == n, BV(0, w), v + 1), real=False, bits=w)
        ws = BV(0, w) if reset else f.at(steps, unfold=False)
        c.ensures("the insertion goes to slot t mod N", lambda P: slot.at(P, c64(0)) == ws)
        c.ensures("exactly one insertion", lambda P: copies.at(P, c64(0)) == copies.pre(c64(0)) + 1)
        dom = lambda k: z3.ULT(k, n64)
        lo = (lambda k: k) if w == 64 else (lambda k: z3.Extract(w - 1, 0, k))
        c.forall("segment s is paired with the filter part of its age", dom,
                 lambda S, k: age.at(S, k) == z3.If(z3.ULE(lo(k), ws), ws - lo(k), ws + n - lo(k)), [age])
        c.forall("every segment is visited after the insertion", dom, lambda S, k: seen.at(S, k) == ws, [seen])
        c.forall("every segment is visited exactly once", dom, lambda S, k: calls.at(S, k) == calls.pre(k) + 1, [calls])
        c.cover("many", lambda P: z3.And(z3.UGT(n, 100), z3.UGT(steps, 1000)))

        def hint(ex, li, ivs):
            return [("%s below N" % nm, lambda st, nm=nm: z3.ULT(st.phis[nm], n)) for nm, t in li.phis if t.k == "int" and t.n == w]
        c.hint(hint)
        if not reset:
            c.hint(lambda ex, li, ivs: [("slot still holds the insertion", lambda st: slot.at(st, c64(0)) == ws)] if any(r is slot.r for r in li.mods) else [])
    return Contract("C17", fn, setup, lib="conv", search=search(fn, ty, reset))


CONTRACTS = [make(ty, r) for ty in W for r in (False, True)]
