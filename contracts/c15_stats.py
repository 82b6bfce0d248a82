"""C15: statistics, error measures, normalisation and comparison of vectors and matrices."""
from .common import *
from .registry import ASSUME_FP
import math

FUNCTIONS = ["neo::mean, variance, standard_deviation (vector and matrix)", "neo::mean_squared_error, root_mean_squared_error (real and complex)",
             "neo::normalize_energy_factor, normalize_energy, normalize_peak_factor, normalize_peak", "neo::allclose, neo::allmatch"]
ASSUMPTIONS = ASSUME_FP + ["extents below 2^31, matrices below 2^40 elements; mean squared error needs at least one element (division by the size)",
                           "std::sqrt is an uninterpreted function of the real argument", "integer to floating-point conversion is exact",
                           "matrix index products are abstracted by the lemma x < R -> x*C + C <= R*C"]
W = {"f32": 32, "f64": 64, "c64": 32, "c128": 64}
DT = {"f32": np.float32, "f64": np.float64, "c64": np.complex64, "c128": np.complex128}


def rabs(c, x):
    return c.rv(c.fp.rabs(c.rv(x).t()))


class In:
    """an input object of n elements (vector, or matrix passed as rows and columns)"""

    def __init__(self, c, ismat, names, ty, writable=False, extra=()):
        w = W[ty]
        self.parts = 2 if ty[0] == "c" else 1
        if ismat:
            r, cc = z3.BitVec("rows", 64), z3.BitVec("columns", 64)
            self.n = c.grid(r, cc)
        else:
            self.n = z3.BitVec("n", 64)
            c.requires(z3.ULT(self.n, 1 << 31))
        self.a = [c.arr(nm, w, self.n * c64(self.parts), writable) for nm in names]
        self.out = [c.arr(nm, w, 1, True) for nm in extra]
        if ismat:
            c.args += [r, cc]
            c.symbols += [("rows", r), ("columns", cc)]
        else:
            c.args.append(self.n)
            c.symbols.append(("n", self.n))
        self.c = c
        c.cover("long", lambda P: z3.UGT(self.n, 1000))

    def v(self, j, k):
        """element k of operand j: the real value, or (re, im)"""
        if self.parts == 1:
            return self.a[j].rpre(k)
        return self.a[j].rpre(k * c64(2)), self.a[j].rpre(k * c64(2) + c64(1))

    def mag(self, j, k):
        re, im = self.v(j, k)
        return self.c.lib("sqrt", re * re + im * im)

    def size(self):
        return self.c.i2r(self.n, False)


def data(ty, rng, n):
    dt = DT[ty]
    fl = np.float32 if W[ty] == 32 else np.float64
    m = 2 if ty[0] == "c" else 1
    if rng.random() < .1:
        v = np.zeros(n * m, fl)
    else:
        v = np.array([rng.uniform(-2, 2) for _ in range(n * m)], fl)
    return v.view(dt) if n else np.zeros(0, dt)


def shapes(ismat, rng):
    if ismat:
        for r in range(0, 7):
            for cc in range(0, 7):
                yield r, cc
        while True:
            yield rng.randint(0, 12), rng.randint(0, 12)
    while True:
        for n in LENGTHS:
            yield 1, n


def tolerance(ty, n):
    return (3e-6 if W[ty] == 32 else 1e-13) * (n + 4)


# ---- mean, variance, standard deviation
def moment(fn0, ty, ismat):
    fn = ("m" if ismat else "") + fn0 + "_" + ty
    least = 1 if fn0 == "mean" else 2

    def setup(c):
        I = In(c, ismat, ["x"], ty, extra=["result"])
        o = I.out[0]
        s = c.fold("sum", 0, lambda i, acc: acc + I.v(0, i))
        mean = s.at(I.n) / I.size()
        if fn0 == "mean":
            want = mean
        else:
            c.fp.opaque_div = True
            m = c.rv(z3.Real("mean_of_x"))
            c.spec_axioms.append(m.t() == mean.t())
            d = c.fold("squares", 0, lambda i, acc: acc + (I.v(0, i) - m) * (I.v(0, i) - m))
            want = d.at(I.n) / I.size()
            if fn0 == "std":
                want = c.lib("sqrt", want)
        c.ensures("a value is returned exactly when there are at least %d elements" % least, lambda P: P.ret == z3.UGE(I.n, least))
        c.ensures("the value is the " + fn0, lambda P: z3.Implies(z3.UGE(I.n, least), o.rat(P, c64(0)).eq(want)))

    def mk(L, models, rng):
        f = L.fn(fn, ctypes.c_bool, PTR, PTR, SIZE, *([SIZE] if ismat else []))
        for r, cc in shapes(ismat, rng):
            n = r * cc
            x = data(ty, rng, n)
            # small deviations around a large mean: the deviations must be taken from the mean before they are squared
            far = fn0 != "mean" and 2 <= n <= 64 and rng.random() < .4
            if far:
                x = (x + (1e3 if W[ty] == 32 else 1e6)).astype(DT[ty])

            def run(x=x, n=n, r=r, cc=cc, far=far):
                X, O = arena(0).place(x), arena(1).place(np.zeros(1, DT[ty]))
                got = f(X.ptr, O.ptr, *([r, cc] if ismat else [n]))
                if bool(got) != (n >= least):
                    return "value returned: %r for %d elements" % (got, n)
                if n < least:
                    return None
                z = x.astype(np.float64)
                w = {"mean": z.mean, "var": z.var, "std": z.std}[fn0]()
                e = tolerance(ty, n) * 4
                if far:
                    e = 4e-4 if W[ty] == 32 else 1e-7
                if fn0 == "std":
                    e = max(e, math.sqrt(e) if w < 1e-3 else e)
                return None if abs(O.arr[0] - w) <= e else "returned %r, expected %r" % (O.arr[0], w)
            yield Case({"shape": [r, cc], "x": x}, run)
    return Contract("C15", fn, setup, lib="linalg", search=mk)


# ---- errors
def error(fn0, ty):
    ismat = fn0 == "mmse"
    fn = fn0 + "_" + ty

    def setup(c):
        I = In(c, ismat, ["x", "y"], ty)
        c.requires(I.n != 0)

        def diff(i):
            return I.v(0, i) - I.v(1, i) if I.parts == 1 else I.mag(0, i) - I.mag(1, i)
        d = c.fold("squares", 0, lambda i, acc: acc + diff(i) * diff(i))
        want = d.at(I.n) / I.size()
        if fn0 == "rmse":
            want = c.lib("sqrt", want)
        c.ensures("result is the %s error" % ("root mean squared" if fn0 == "rmse" else "mean squared"), lambda P: c.rv(P.ret).eq(want))

    def mk(L, models, rng):
        f = L.fn(fn, CT[("f", W[ty])], PTR, PTR, SIZE, *([SIZE] if ismat else []))
        for r, cc in shapes(ismat, rng):
            n = r * cc
            if n == 0:
                continue
            x, y = data(ty, rng, n), data(ty, rng, n)

            def run(x=x, y=y, n=n, r=r, cc=cc):
                X, Y = arena(0).place(x), arena(1).place(y)
                got = f(X.ptr, Y.ptr, *([r, cc] if ismat else [n]))
                a, b = (np.abs(x), np.abs(y)) if ty[0] == "c" else (x, y)
                d = a.astype(np.float64) - b.astype(np.float64)
                w = (d * d).mean()
                if fn0 == "rmse":
                    w = math.sqrt(w)
                return None if abs(got - w) <= tolerance(ty, n) * 8 else "returned %r, expected %r" % (got, w)
            yield Case({"shape": [r, cc], "x": x, "y": y}, run)
    return Contract("C15", fn, setup, lib="linalg", search=mk)


# ---- normalisation
def energy(c, I):
    e = c.fold("energy", 0, lambda i, acc: acc + I.v(0, i) * I.v(0, i))
    E = e.at(I.n)
    return z3.If(E.t() == 0, z3.RealVal(1), (c.rv(1) / c.lib("sqrt", E)).t())


def peak(c, I):
    m = c.fold("peak", 0, lambda i, acc: c.rv(z3.If(acc.t() < rabs(c, I.v(0, i)).t(), rabs(c, I.v(0, i)).t(), acc.t())))

    def hint(ex, li, ivs):
        out = []
        for n, ty in li.phis:
            if ty.isfloat:
                out.append(("%s >= 0" % n, lambda st, n=n: c.rv(st.phis[n]).t() >= 0))
        return out
    c.hint(hint)
    M = m.at(I.n)
    # a maximum of magnitudes that starts at zero
    return z3.If(M.t() == 0, z3.RealVal(1), (c.rv(1) / M).t())


def factor(fn0, ty):
    ismat = fn0[0] == "m"
    kind = energy if "nef" in fn0 else peak
    fn = fn0 + "_" + ty

    def setup(c):
        I = In(c, ismat, ["x"], ty)
        want = kind(c, I)
        c.ensures("factor is one over the %s, or one for silence" % ("root of the energy" if kind is energy else "largest magnitude"),
                  lambda P: c.rv(P.ret).t() == want)

    def mk(L, models, rng):
        f = L.fn(fn, CT[("f", W[ty])], PTR, SIZE, *([SIZE] if ismat else []))
        for r, cc in shapes(ismat, rng):
            n = r * cc
            x = data(ty, rng, n)

            def run(x=x, n=n, r=r, cc=cc):
                X = arena(0).place(x)
                got = f(X.ptr, *([r, cc] if ismat else [n]))
                w = nfactor(kind, x)
                return None if abs(got - w) <= tolerance(ty, n) * abs(w) else "returned %r, expected %r" % (got, w)
            yield Case({"shape": [r, cc], "x": x}, run)
    return Contract("C15", fn, setup, lib="linalg", search=mk)


def nfactor(kind, x):
    z = x.astype(np.float64)
    e = math.sqrt((z * z).sum()) if kind is energy else (np.abs(z).max() if len(z) else 0)
    return 1 / e if e else 1.0


def normalize(fn0, ty):
    kind = energy if fn0 == "ne" else peak
    fn = fn0 + "_" + ty

    def setup(c):
        I = In(c, False, ["x"], ty, True)
        want = kind(c, I)
        x = I.a[0]
        c.forall("element k is scaled by the factor", lambda k: z3.ULT(k, I.n), lambda S, k: x.rat(S, k).eq(x.rpre(k) * c.rv(want)), [x])

    def mk(L, models, rng):
        f = L.fn(fn, None, PTR, SIZE)
        for r, n in shapes(False, rng):
            x = data(ty, rng, n)

            def run(x=x, n=n):
                X = arena(0).place(x)
                f(X.ptr, n)
                w = x.astype(np.float64) * nfactor(kind, x)
                if n and not np.abs(X.arr - w).max() <= tolerance(ty, n):
                    k = int(np.argmax(np.abs(X.arr - w)))
                    return "element %d is %r, expected %r" % (k, X.arr[k], w[k])
                return None if X.intact() else "wrote outside the vector"
            yield Case({"x": x}, run)
    return Contract("C15", fn, setup, lib="linalg", search=mk)


# ---- comparison
def compare(fn0, ty, direction):
    """fn0: ac (default tolerance), act/mact (given tolerance), am (a unary predicate)"""
    ismat = fn0[0] == "m"
    fn = fn0 + "_" + ty
    w = W[ty]
    dflt = {32: 1e-5, 64: 1e-9}[w]
    fl = np.float32 if w == 32 else np.float64

    def setup(c):
        I = In(c, ismat, ["x"] if fn0 == "am" else ["x", "y"], ty)
        if "act" in fn0:
            tol = c.rv(c.f("tolerance", w))
        else:
            tol = c.rv(float(fl(dflt)))

        def ok(k):
            if fn0 == "am":
                return I.v(0, k).t() > c.rv(0.5).t()
            if I.parts == 1:
                return rabs(c, I.v(0, k) - I.v(1, k)).t() <= tol.t()
            (a, b), (d, e) = I.v(0, k), I.v(1, k)
            return c.lib("sqrt", (a - d) * (a - d) + (b - e) * (b - e)).t() <= tol.t()
        if direction == "sound":
            k = z3.BitVec("k", 64)
            from vc.contract import Forall
            c.aux_foralls.append(Forall("elements seen so far match", [k], lambda k: z3.ULT(k, I.n), lambda S, k: ok(k), [], None))
            c.ensures("true is returned only if every element matches", lambda P: z3.Implies(z3.And(P.ret, z3.ULT(k, I.n)), ok(k)))
        else:
            a = I.a[0]
            at = (lambda i: i) if I.parts == 1 else (lambda i: z3.LShR(i, 1))
            from vc.mem import div_exact
            c.requires_each(a, lambda i: z3.Implies(z3.ULT(i, I.n * c64(I.parts)), each(i)))

            def each(i):
                if I.parts == 1:
                    return ok(i)
                h = div_exact(i, 2)
                return ok(h) if h is not None else z3.BoolVal(True)
            c.ensures("true is returned if every element matches", lambda P: P.ret)

    def mk(L, models, rng):
        ct = CT[("f", w)]
        f = L.fn(fn, ctypes.c_bool, *([PTR] * (1 if fn0 == "am" else 2) + [SIZE] * (2 if ismat else 1) + ([ct] if "act" in fn0 else [])))
        for r, cc in shapes(ismat, rng):
            n = r * cc
            tol = rng.choice([0.0, 1e-3, 0.5, 0.25]) if "act" in fn0 else dflt
            x = data(ty, rng, n)
            y = x.copy()
            if fn0 == "am":
                x = np.abs(x) + fl(0.6)
            for _ in range(rng.randint(0, 2)):
                if n:
                    k = rng.choice([0, n - 1, rng.randrange(n)])
                    if fn0 == "am":
                        x[k] = rng.choice([0.5, 0.25, 0.75, -1])
                    else:
                        u = rng.choice([0, 2, .5, -2, -.5, 1e6]) * (tol or 1e-2)
                        if ty[0] == "c" and rng.random() < .5:
                            u *= 1j
                        y[k] = x[k] + u

            def run(x=x, y=y, n=n, r=r, cc=cc, tol=tol):
                X, Y = arena(0).place(x), arena(1).place(y)
                dims = [r, cc] if ismat else [n]
                if fn0 == "am":
                    got, e = f(X.ptr, *dims), bool((x > 0.5).all())
                else:
                    got = f(X.ptr, Y.ptr, *dims, *([tol] if "act" in fn0 else []))
                    d = np.abs(x - y)
                    e = bool((d <= fl(tol)).all())
                    if n and (np.abs(d - tol) < 1e-3 * tol).any():
                        return None
                return None if bool(got) == e else "returned %r, expected %r" % (got, e)
            yield Case({"shape": [r, cc], "x": x, "y": y, "tolerance": tol}, run)
    return Contract("C15", fn, setup, lib="linalg", variant=direction, search=mk, skey=fn)


CONTRACTS = []
for ty in ("f32", "f64"):
    for f0 in ("mean", "var", "std"):
        CONTRACTS.append(moment(f0, ty, False))
    CONTRACTS += [moment("mean", ty, True), moment("var", ty, True)]
    CONTRACTS += [error(f0, ty) for f0 in ("mse", "rmse", "mmse")]
    CONTRACTS += [factor(f0, ty) for f0 in ("nef", "mnef", "npf", "mnpf")]
    CONTRACTS += [normalize("ne", ty), normalize("np", ty)]
    for f0 in ("ac", "act", "mact", "am"):
        for d in ("sound", "complete"):
            CONTRACTS.append(compare(f0, ty, d))
for ty in ("c64", "c128"):
    CONTRACTS.append(error("mse", ty))
    for d in ("sound", "complete"):
        CONTRACTS.append(compare("act", ty, d))
