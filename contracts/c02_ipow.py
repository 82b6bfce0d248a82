"""C02: integer power, ceiling division and parity."""
from .common import *

FUNCTIONS = ["neo::ipow(base, exponent)<all 8 standard integer types>", "neo::ipow<Base>(exponent) for Base 0..8,10,16,32,64,-2,-3",
             "neo::idiv<all 8>", "neo::is_even<all 8>", "neo::is_odd<all 8>"]
ASSUMPTIONS = ["preconditions: the mathematical result (and for the division x + y) is representable, exponent >= 0, divisor > 0"]


def rng_of(k, w):
    return (-(1 << w - 1), (1 << w - 1) - 1) if k == "i" else (0, (1 << w) - 1)


def tmpl_contract(base, k, w):
    lo, hi = rng_of(k, w)
    fn = "ipow%s%d_%s%d" % ("m" if base < 0 else "", abs(base), k, w)
    tab = []
    p = 1
    while lo <= p <= hi and len(tab) <= hi and len(tab) < 70:
        tab.append(p)
        p *= base
    emax = hi if base in (0, 1) else len(tab) - 1

    def setup(c):
        e = c.i("exponent", w)
        c.requires(z3.ULE(e, emax))
        if base in (0, 1):
            fo = c.fold("pow", BV(1, w), lambda i, acc: BV(base, w), real=False, bits=w)
            e64 = z3.ZeroExt(64 - w, e) if w < 64 else e
            fo.at(e64)
            fo.at(e64 - c64(1))
            spec = BV(1, w) if base == 1 else z3.If(e == 0, BV(1, w), BV(0, w))
        else:
            spec = BV(tab[-1], w)
            for i in range(len(tab) - 2, -1, -1):
                spec = z3.If(e == i, BV(tab[i], w), spec)
        c.ensures("result is Base to the power exponent", lambda P: P.ret == spec)
    want = lambda e: (1 if base == 1 or e == 0 else 0) if base in (0, 1) else tab[e]
    return Contract("C02", fn, setup, lib="bits", unroll=(w + 1 if abs(base) > 1 else 0), search=scalar_search(
        fn, (k, w), [(k, w)], lambda rng, ms: ((v,) for v in range(min(emax, 300) + 1)),
        lambda r, e: None if r == want(e) else "returned %d, expected %d" % (r, want(e))))


def fits(b, e, lo, hi):
    p = 1
    if b in (-1, 0, 1):
        return True
    for _ in range(min(e, 70)):
        p *= b
        if not lo <= p <= hi:
            return False
    return e < 70


def rt_contract(k, w):
    lo, hi = rng_of(k, w)
    fn = "ipow_%s%d" % (k, w)

    def setup(c):
        b = c.i("base", w)
        e = c.i("exponent", w)
        c.requires(e >= 0 if k == "i" else z3.BoolVal(True))

        def step(i, acc):
            if w <= 16:
                ext = z3.SignExt if k == "i" else z3.ZeroExt
                p = c.mul(ext(32 - w, acc), ext(32 - w, b))
                ok = z3.And(p >= BV(lo, 32), p <= BV(hi, 32)) if k == "i" else z3.ULE(p, BV(hi, 32))
                c.spec_axioms.append(z3.Implies(z3.ULT(i, z3.ZeroExt(64 - w, e)), ok))
                n = c.mul(acc, b)
                c.spec_axioms.append(n == z3.Extract(w - 1, 0, p))
                return n
            if k == "i":
                ok = c.mul_ok(acc, b)
                c.spec_axioms.append(z3.Implies(z3.ULT(i, z3.ZeroExt(64 - w, e) if w < 64 else e), ok))
            return c.mul(acc, b)
        fo = c.fold("pow", BV(1, w), step, real=False, bits=w)
        c.ensures("result is base to the power exponent", lambda P: P.ret == fo.at(z3.ZeroExt(64 - w, e) if w < 64 else e))

    def gen(rng, ms):
        for b, e in model_tuples(ms, ["base", "exponent"], [(k, w)] * 2):
            if 0 <= e < 100000 and fits(b, e, lo, hi):
                yield b, e
        for b in list(range(max(lo, -12), 13)) + [hi, lo, 16, 17, 31, 32, 33, 64, 100, 255, 256]:
            if not lo <= b <= hi:
                continue
            for e in range(0, min(70, hi + 1)):
                if fits(b, e, lo, hi):
                    yield b, e
    want = lambda b, e: b ** e
    return Contract("C02", fn, setup, lib="bits", search=scalar_search(
        fn, (k, w), [(k, w)] * 2, gen, lambda r, b, e: None if r == want(b, e) else "returned %d, expected %d" % (r, want(b, e))))


def idiv_contract(k, w):
    lo, hi = rng_of(k, w)
    fn = "idiv_%s%d" % (k, w)
    p = max(32, w)

    def setup(c):
        x = c.i("x", w)
        y = c.i("y", w)
        W = w + 2
        if k == "i":
            X, Y = z3.SignExt(2, x), z3.SignExt(2, y)
            c.requires(x >= 0, y > 0)
        else:
            X, Y = z3.ZeroExt(2, x), z3.ZeroExt(2, y)
            c.requires(y != 0)
        if w >= 32:
            c.requires(z3.ULE(X + Y, BV(hi, W)))
        # exact quotient: r = floor((x+y-1)/y)
        if w < 32:
            ext = z3.SignExt if k == "i" else z3.ZeroExt      # the arithmetic is done in int
            spec = z3.Extract(w - 1, 0, (ext(32 - w, x) + ext(32 - w, y) - 1) / ext(32 - w, y))
        else:
            spec = z3.UDiv(x + y - 1, y) if k == "u" else (x + y - 1) / y
        c.ensures("result is the quotient rounded up", lambda P: P.ret == spec)
    def gen(rng, ms):
        yield from model_tuples(ms, ["x", "y"], [(k, w)] * 2)
        vs = list(scalar_values(k, w, rng, 40))
        for _ in range(20000):
            x, y = rng.choice(vs), rng.choice(vs)
            if rng.random() < .3:
                x = min(hi, max(lo, y * rng.randint(0, 9) + rng.randint(-1, 1)))
            if x >= 0 and y > 0 and (w < 32 or x + y <= hi):
                yield x, y
    return Contract("C02", fn, setup, lib="bits", search=scalar_search(
        fn, (k, w), [(k, w)] * 2, gen, lambda r, x, y: None if r == -(-x // y) else "returned %d, expected %d" % (r, -(-x // y))))


def parity(fn, k, w, odd):
    def setup(c):
        x = c.i("x", w)
        c.ensures("result is the parity of x", lambda P: P.ret == ((x & 1) == (1 if odd else 0)))
    return Contract("C02", fn, setup, lib="bits", search=scalar_search(
        fn, ("b", 8), [(k, w)], lambda rng, ms: ((v,) for v in scalar_values(k, w, rng, 500)),
        lambda r, x: None if bool(r) == (x % 2 == odd) else "returned %r" % r))


CONTRACTS = []
for k, w in INTS:
    CONTRACTS += [rt_contract(k, w), idiv_contract(k, w), parity("is_even_%s%d" % (k, w), k, w, 0), parity("is_odd_%s%d" % (k, w), k, w, 1)]
    for base in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 32, 64):
        CONTRACTS.append(tmpl_contract(base, k, w))
for base in (-2, -3):
    CONTRACTS += [tmpl_contract(base, "i", 32), tmpl_contract(base, "i", 64)]
