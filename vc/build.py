"""Compile the harness (which instantiates the real templates of /repo) to LLVM IR, and to a native library for replay."""
import hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEO_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
CXX = "clang++-18"
MARCH = {"": "x86-64-v3", "sse41": "x86-64-v2", "sse2": "x86-64", "avx512": "x86-64-v4"}
COMMON = ["-std=c++20", "-I" + REPO + "/src", "-I" + VERIF + "/shim", "-I" + VERIF + "/harness",
          "-DNEO_HAS_XSIMD=1", "-ffp-contract=off", "-w", "-D_GLIBCXX_ASSERTIONS=0",
          "-U_GLIBCXX_ASSERTIONS"]
PIPE = ("cgscc(inline),"
        "function(lower-constant-intrinsics,sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
        "sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sroa<modify-cfg>,"
        "loop-simplify,lcssa,loop(loop-unroll-full),simplifycfg,instcombine<no-verify-fixpoint>,sroa<modify-cfg>,"
        "early-cse<memssa>,gvn<no-pre;no-load-pre;no-split-backedge-load-pre>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,adce,"
        "loop-simplify,lcssa),globaldce")


class BuildError(Exception):
    pass


def builddir():
    d = os.environ.get("NEO_VC_BUILD")
    if not d:
        d = os.path.join(VERIF, ".build", "run-%d" % os.getpid())
        os.environ["NEO_VC_BUILD"] = d
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def split_lib(lib):
    """'core@sse41' -> ('core', 'sse41')"""
    if "@" in lib:
        return lib.split("@")
    return lib, ""


def raw_ir(lib):
    base, arch = split_lib(lib)
    d = builddir()
    src = os.path.join(VERIF, "harness", base + ".cpp")
    raw = os.path.join(d, lib + ".raw.ll")
    if not os.path.exists(raw):
        run([CXX] + COMMON + ["-march=" + MARCH[arch], "-fignore-exceptions", "-fno-rtti", "-O2", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize",
                              "-S", "-emit-llvm", src, "-o", raw + ".tmp%d" % os.getpid()])
        os.rename(raw + ".tmp%d" % os.getpid(), raw)
    return raw


def ir_text(lib, keep=()):
    """optimised IR text of harness/<lib>.cpp with every function inlined except those matching keep"""
    d = builddir()
    key = lib + ("-" + hashlib.sha1(repr(keep).encode()).hexdigest()[:8] if keep else "")
    raw = raw_ir(lib)
    out = os.path.join(d, key + ".ll")
    if not os.path.exists(out):
        txt = open(raw).read()
        txt = re.sub(r'^(attributes #\d+ = \{.*)$', lambda m: re.sub(r'\b(noinline|optnone)\b', '', m.group(1)), txt, flags=re.M)
        def fix(m):
            l = m.group(0)
            sym = re.search(r'@("[^"]*"|[-\w$.]+)\(', l).group(1)
            if any(re.search(k, sym) for k in keep):
                return re.sub(r'(#\d+)', r'noinline \1', l, count=1)
            if re.match(r'define (linkonce_odr|linkonce|internal|weak_odr|private)\b', l):
                return re.sub(r'(#\d+)', r'alwaysinline \1', l, count=1)
            return l
        txt = re.sub(r'^define .*$', fix, txt, flags=re.M)
        mid = os.path.join(d, key + ".mid.ll")
        open(mid, "w").write(txt)
        run([LLVM + "/opt", "-S", "-passes=" + PIPE, "-inline-threshold=100000000", "-inlinehint-threshold=100000000", mid, "-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
    return open(out).read()


def unrolled(lib, keep, fn, count):
    """IR of one function with its loops unrolled count times; LLVM ends the copies in `unreachable` (an obligation) where
    it knows a trip bound, and otherwise leaves a residual loop, which is verified like any other loop"""
    d = builddir()
    key = lib + ("-" + hashlib.sha1(repr(keep).encode()).hexdigest()[:8] if keep else "")
    ir_text(lib, keep)
    tmp = os.path.join(d, "%s.%s.%d.ll" % (key, fn, os.getpid()))
    run([LLVM + "/llvm-extract", "-S", "--func=" + fn, os.path.join(d, key + ".ll"), "-o", tmp])
    run([LLVM + "/opt", "-S", "-passes=function(loop-unroll<O3>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa)",
         "-unroll-count=%d" % count, "-unroll-threshold=100000000", tmp, "-o", tmp + ".u"])
    return open(tmp + ".u").read()


def native(lib):
    """path of a native shared library of the same harness"""
    base, arch = split_lib(lib)
    d = builddir()
    out = os.path.join(d, lib + ".so")
    if not os.path.exists(out):
        src = os.path.join(VERIF, "harness", base + ".cpp")
        run([CXX] + COMMON + ["-march=" + MARCH[arch], "-O1", "-g0", "-DNDEBUG", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-include", os.path.join(VERIF, "harness", "guard_new.hpp"), src, "-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
    return out


def cleanup():
    d = os.environ.get("NEO_VC_BUILD")
    if d and os.path.isdir(d) and not os.environ.get("NEO_VC_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
