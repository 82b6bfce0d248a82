"""Which contracts decide which property."""
import importlib, os, subprocess

MODS = {"C01": "c01_sizes", "C02": "c02_ipow", "C03": "c03_fixed_scalar", "C04": "c04_fixed_float", "C05": "c05_fixed_bulk",
        "C06": "c06_fixed_simd", "C07": "c07_float_simd", "C08": "c08_complex", "C09": "c09_decibel", "C10": "c10_aweighting",
        "C11": "c11_windows", "C12": "c12_mel", "C13": "c13_linalg", "C14": "c14_fma", "C15": "c15_stats", "C17": "c17_fdl_index", "C18": "c18_direct", "C16": "c16_csr", "C19": "c19_fdl", "C20": "c20_fft", "C21": "c21_reorder", "C23": "c23_real", "C24": "c24_convolver", "C22": "c22_twiddle"}

TRUSTED = [
    "clang 18 front end (C++ to LLVM IR) and the LLVM 18 passes inline, sroa, early-cse, instcombine, simplifycfg, gvn, adce, "
    "loop-simplify, lcssa, lower-constant-intrinsics (the native code is produced by the same front end)",
    "libstdc++ 13 headers (compiled and verified together with the caller, not trusted by contract)",
    "the VC generator in /verif/vc and the meaning it gives to LLVM IR and to the x86 intrinsics in vc/calls.py",
    "z3 and cvc5",
]
ASSUME = ["partial correctness: termination is not proved (the native cross-check would report a call that does not return)"]
ASSUME_FP = ["in contracts marked uf floating-point operations are treated as exact real arithmetic: rounding, overflow, NaN, infinities and "
             "signed zero are idealised; rounding to a narrower type stays visible as an uninterpreted rounding function"]


def mod(prop):
    return importlib.import_module("contracts." + MODS[prop])


def contracts(prop):
    return mod(prop).CONTRACTS


def level(prop):
    return getattr(mod(prop), "LEVEL", "proof")


def meta(prop):
    m = mod(prop)
    return {"trusted": TRUSTED + getattr(m, "TRUSTED", []),
            "assumptions": ASSUME + getattr(m, "ASSUMPTIONS", []),
            "functions": m.FUNCTIONS, "lemma": getattr(m, "LEMMAS", None)}


def run_lemmas(files):
    out = []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in files:
        p = subprocess.run(["lean", os.path.join(here, "lemmas", f)], capture_output=True, text=True, timeout=600)
        txt = p.stdout + p.stderr
        out.append({"file": f, "ok": p.returncode == 0 and "sorry" not in txt, "output": txt[-2000:]})
    return out
