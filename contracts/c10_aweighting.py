"""C10: A-weighting curve."""
from .common import *
from .registry import ASSUME_FP
import math
from fractions import Fraction

FUNCTIONS = ["neo::a_weighting<float|double>"]
ASSUMPTIONS = ASSUME_FP + ["frequency > 0 (documented precondition)", "std::log10 is an uninterpreted function of the real argument"]
K = (12194.217, 20.598997, 107.65265, 737.86223)


def aw(fw):
    fn = "aw_f%d" % fw
    dt = {32: np.float32, 64: np.float64}[fw]

    def setup(c):
        f = c.rv(c.f("frequency", fw))
        c.requires(f.t() > 0)
        k = [Fraction(float(dt(dt(x) * dt(x)))) for x in K]
        sq = f * f
        lg = lambda x: c.lib("log10", x)
        l0 = Fraction(float(np.log10(dt(float(k[0])))))
        P0 = lambda P: c.rv(P.ret)
        spec = (lg(c.rv(k[0])) + 2 * lg(sq) - lg(sq + k[0]) - lg(sq + k[1]) - Fraction(1, 2) * lg(sq + k[2]) - Fraction(1, 2) * lg(sq + k[3])) * 20 + 2
        # the compiler may fold log10 of the constant
        c.spec_axioms.append(lg(c.rv(k[0])).t() == z3.RealVal(l0))
        c.ensures("result is the A-weighting curve in dB", lambda P: c.rv(P.ret).eq(spec))

    def want(f):
        q = f * f
        return 2 + 20 * (math.log10(K[0] ** 2) + 2 * math.log10(q) - math.log10(q + K[0] ** 2) - math.log10(q + K[1] ** 2)
                         - .5 * math.log10(q + K[2] ** 2) - .5 * math.log10(q + K[3] ** 2))
    return Contract("C10", fn, setup, lib="unit", search=scalar_search(
        fn, ("f", fw), [("f", fw)], lambda rng, ms: ((10 ** rng.uniform(-1, 5),) for _ in range(20000)),
        lambda r, x: None if abs(r - want(x)) < (2e-3 if fw == 32 else 1e-8) else "returned %r, expected %r" % (r, want(x))))


CONTRACTS = [aw(32), aw(64)]
