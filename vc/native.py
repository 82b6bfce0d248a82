"""Execution of the real code (the natively compiled harness) on concrete inputs.

A search is a generator of Cases.  It runs in a forked child; a crash of the child is itself a finding (buffers end or
start exactly at an inaccessible page)."""
import ctypes, json, mmap, multiprocessing, os, random, signal, struct, sys, time, traceback
import numpy as np

libc = ctypes.CDLL(None, use_errno=True)
PAGE = 4096


class Case:
    __slots__ = ("inputs", "run")

    def __init__(self, inputs, run):
        self.inputs, self.run = inputs, run


class Arena:
    """memory between two inaccessible pages"""

    def __init__(self, npages=8):
        self.n = npages
        self.m = mmap.mmap(-1, (npages + 2) * PAGE)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        for a in (self.addr, self.addr + (npages + 1) * PAGE):
            if libc.mprotect(ctypes.c_void_p(a), ctypes.c_size_t(PAGE), 0) != 0:
                raise OSError("mprotect")
        self.base = self.addr + PAGE
        self.view = np.frombuffer(self.m, dtype=np.uint8, count=npages * PAGE, offset=PAGE)

    def place(self, data, end=True):
        """copy data in; returns a Buf"""
        data = np.ascontiguousarray(data)
        nb = data.nbytes
        if nb > self.n * PAGE:
            raise ValueError("arena too small")
        self.view[:] = 0xA5
        off = self.n * PAGE - nb if end else 0
        arr = self.view[off:off + nb].view(data.dtype)
        arr[...] = data.reshape(-1)
        return Buf(self, arr, off, nb)


class Buf:
    def __init__(self, arena, arr, off, nb):
        self.arena, self.arr, self.off, self.nb = arena, arr, off, nb

    @property
    def ptr(self):
        return ctypes.c_void_p(self.arena.base + self.off)

    def intact(self):
        v = self.arena.view
        return bool((v[:self.off] == 0xA5).all() and (v[self.off + self.nb:] == 0xA5).all())


_pool = {}


def arena(i, npages=8):
    k = (i, npages)
    if k not in _pool:
        _pool[k] = Arena(npages)
    return _pool[k]


class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)

    def fn(self, name, ret, *args):
        f = getattr(self.l, name)
        f.restype = ret
        f.argtypes = list(args)
        return f


def jsonable(x):
    if isinstance(x, np.ndarray):
        if x.dtype == np.float16:
            x = x.astype(np.float32)
        if x.dtype.kind == "c":
            return [[float(v.real), float(v.imag)] for v in x.reshape(-1)]
        return x.tolist()
    if isinstance(x, np.generic):
        v = x.item()
        return [v.real, v.imag] if isinstance(v, complex) else v
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x


def _child(mk, path, models, seed, limit, only, progress, conn):
    try:
        libc.prctl(1, 9)  # die with the parent
        os.environ["NEO_SEED"] = str(seed)
        L = Lib(path)
        t0 = time.time()
        n = 0
        with np.errstate(all="ignore"):
            for case in mk(L, models, random.Random(seed)):
                progress[0] = n
                if only is not None and n < only:
                    n += 1
                    continue
                if only is not None:
                    conn.send(("case", jsonable(case.inputs)))
                    if only is not None and only >= 0:
                        pass
                    return
                err = case.run()
                n += 1
                if err:
                    conn.send(("fail", jsonable(case.inputs), str(err), n))
                    return
                if time.time() - t0 > limit:
                    break
        conn.send(("ok", n))
    except BaseException:
        conn.send(("error", traceback.format_exc()[-2500:]))


def run_search(mk, path, models=(), seed=1, limit=30, hard=None):
    """returns dict(status= ok|fail|crash|error, cases, inputs, why)"""
    ctx = multiprocessing.get_context("fork")
    progress = ctx.Array("q", [-1], lock=False)
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_child, args=(mk, path, models, seed, limit, None, progress, b))
    p.start()
    b.close()
    msg = None
    if a.poll(hard or (limit * 2 + 60)):
        try:
            msg = a.recv()
        except EOFError:
            msg = None
        p.join()
    else:
        # hang: the case in progress does not terminate
        p.kill()
        p.join()
        msg = None
        return _describe(mk, path, models, seed, progress[0], "the call does not return", "crash")
    if msg is None:
        sig = -p.exitcode if p.exitcode is not None and p.exitcode < 0 else p.exitcode
        try:
            signame = signal.Signals(sig).name
        except Exception:
            signame = str(sig)
        return _describe(mk, path, models, seed, progress[0], "the call crashes (%s)" % signame, "crash")
    if msg[0] == "ok":
        return {"status": "ok", "cases": msg[1]}
    if msg[0] == "fail":
        return {"status": "fail", "inputs": msg[1], "why": msg[2], "cases": msg[3], "case": msg[3] - 1}
    return {"status": "error", "why": msg[1], "cases": 0}


def _describe(mk, path, models, seed, idx, why, status):
    ctx = multiprocessing.get_context("fork")
    progress = ctx.Array("q", [-1], lock=False)
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_child, args=(mk, path, models, seed, 60, max(idx, 0), progress, b))
    p.start()
    b.close()
    inputs = None
    try:
        if a.poll(60):
            m = a.recv()
            if m[0] == "case":
                inputs = m[1]
    except EOFError:
        pass
    p.join(5)
    if p.is_alive():
        p.kill()
    return {"status": "fail", "inputs": inputs, "why": why, "cases": idx + 1, "case": idx}


# ---------------------------------------------------------------- value pools
def ints(bits, rng, n, signed=True):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    ext = [lo, lo + 1, -1, 0, 1, hi - 1, hi, lo // 2, hi // 2 + 1] if signed else [0, 1, 2, hi - 1, hi, hi // 2, hi // 2 + 1]
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            out.append(rng.choice(ext))
        elif r < 0.5:
            out.append(max(lo, min(hi, rng.randint(-9, 9))) if signed else rng.randint(0, 9))
        else:
            out.append(rng.randint(lo, hi))
    return np.array(out, dtype=np.dtype("%s%d" % ("int" if signed else "uint", bits)))


def floats(dt, rng, n, scale=4.0):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            out.append(rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0]))
        else:
            out.append(rng.uniform(-scale, scale))
    return np.array(out, dtype=dt)


def close(a, b, rel=1e-4, absol=1e-5):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    d = np.abs(a.astype(np.complex128) - b.astype(np.complex128))
    return bool((d <= absol + rel * np.maximum(np.abs(a), np.abs(b))).all())


LENGTHS = list(range(0, 20)) + [23, 24, 25, 31, 32, 33, 34, 40, 47, 48, 49, 63, 64, 65, 66, 79, 96, 127, 128, 129, 130, 255, 256, 257, 511, 513]
