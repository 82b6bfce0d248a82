"""C03: scalar fixed-point arithmetic saturates to the exact result; comparisons order like the represented numbers."""
from .common import *

FORMATS = [("q7_7", 8, 7), ("q7_6", 8, 6), ("q7_5", 8, 5), ("q7_4", 8, 4), ("q15_15", 16, 15), ("q15_14", 16, 14), ("q15_13", 16, 13),
           ("q15_12", 16, 12), ("q15_11", 16, 11), ("q15_8", 16, 8)]
FUNCTIONS = ["neo::fixed_point<int8_t,{7,6,5,4}> and <int16_t,{15,14,13,12,11,8}>: value, unary +, unary -, +, -, *, ==, !=, <, <=, >, >=",
             "neo::detail::saturate<int8_t|int16_t>"]


def pysat(x, w):
    return max(-(1 << w - 1), min((1 << w - 1) - 1, x))


def pairs(w, names=("a", "b")):
    def gen(rng, ms):
        yield from model_tuples(ms, names, [("i", w)] * len(names))
        if w == 8:
            for a in range(-128, 128):
                if len(names) == 1:
                    yield (a,)
                    continue
                for b in range(-128, 128):
                    yield a, b
            return
        vs = list(scalar_values("i", w, rng, 100))
        if len(names) == 1:
            yield from ((v,) for v in range(-32768, 32768))
            return
        for a in vs[:250]:
            for b in vs[:250]:
                yield a, b
        for _ in range(20000):
            yield rng.randint(-32768, 32767), rng.randint(-32768, 32767)
    return gen


def binary(name, w, fb, op):
    fn = "%s_%s" % (name, op)

    def setup(c):
        a, b = c.i("a", w), c.i("b", w)
        x, y = z3.SignExt(w, a), z3.SignExt(w, b)
        r = {"add": x + y, "sub": x - y, "mul": c.mul(x, y) >> fb}[op]
        c.ensures("result is the saturated exact " + op, lambda P: P.ret == sat(r, w))
    py = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: (a * b) >> fb}[op]
    return Contract("C03", fn, setup, lib="fixed", search=scalar_search(
        fn, ("i", w), [("i", w)] * 2, pairs(w),
        lambda r, a, b: None if r == pysat(py(a, b), w) else "returned %d, expected %d" % (r, pysat(py(a, b), w))))


def unary(name, w, op):
    fn = "%s_%s" % (name, op)

    def setup(c):
        a = c.i("a", w)
        r = sat(-z3.SignExt(w, a), w) if op == "neg" else a
        c.ensures("result is %s" % ("the saturated negation" if op == "neg" else "the value itself"), lambda P: P.ret == r)
    py = (lambda a: pysat(-a, w)) if op == "neg" else (lambda a: a)
    return Contract("C03", fn, setup, lib="fixed", search=scalar_search(
        fn, ("i", w), [("i", w)], pairs(w, ("a",)), lambda r, a: None if r == py(a) else "returned %d, expected %d" % (r, py(a))))


def compare(name, w, op):
    fn = "%s_%s" % (name, op)

    def setup(c):
        a, b = c.i("a", w), c.i("b", w)
        r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        c.ensures("result is the order of the represented numbers", lambda P: P.ret == r)
    py = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
          "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}[op]
    return Contract("C03", fn, setup, lib="fixed", search=scalar_search(
        fn, ("b", 8), [("i", w)] * 2, pairs(w), lambda r, a, b: None if bool(r) == py(a, b) else "returned %r" % r))


CONTRACTS = []
for name, w, fb in FORMATS:
    CONTRACTS += [binary(name, w, fb, op) for op in ("add", "sub", "mul")]
    CONTRACTS += [unary(name, w, op) for op in ("neg", "pos", "value")]
    CONTRACTS += [compare(name, w, op) for op in ("eq", "ne", "lt", "le", "gt", "ge")]
