#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]    decide one property of /repo
   check.py --replay <file>                        run a recorded failing input against the current /repo"""
import argparse, importlib, json, multiprocessing, os, signal, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vc import build, ir, native          # noqa: E402
from contracts import registry            # noqa: E402

MODULES = {}


def load_module(key):
    lib, keep = key
    try:
        return key, build.ir_text(lib, keep), None
    except build.BuildError as e:
        return key, None, str(e)


def worker(i, contracts, conn, deadline):
    """verify one contract in its own process"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
        from vc.prove import verify
        c = contracts[i]
        r = verify(c, MODULES[(c.lib, c.keep)])
        if r.status != "proved" and c.unroll:
            r2 = verify(c, ir.Module(build.unrolled(c.lib, c.keep, c.fn, c.unroll)))
            if r2.status == "proved":
                r2.unrolled = c.unroll
                r = r2
        conn.send(r.to_dict())
    except BaseException:
        conn.send({"name": contracts[i].name, "fn": contracts[i].fn, "status": "unsupported", "error": traceback.format_exc()[-2500:],
                   "obligations": [], "time": 0, "invariants": [], "model": None})


def run_pool(contracts, nproc, wall, factor=1):
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    results = [None] * len(contracts)
    todo = sorted(range(len(contracts)), key=lambda i: -contracts[i].cost)
    todo.reverse()
    for i in list(todo):
        if contracts[i].bounded:
            todo.remove(i)
            results[i] = {"name": contracts[i].name, "fn": contracts[i].fn, "status": "bounded", "obligations": [], "time": 0, "invariants": [],
                          "model": None, "error": None}
    running = {}
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(i, contracts, b, None))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        from multiprocessing.connection import wait
        wait([v[1] for v in running.values()], timeout=1)
        for i in list(running):
            p, a, ts = running[i]
            out = None
            if a.poll():
                try:
                    out = a.recv()
                except EOFError:
                    out = {"status": "unknown", "error": "verifier process ended (memory?)"}
            elif time.time() - ts > factor * contracts[i].wall or time.time() - t0 > wall:
                out = {"status": "unknown", "error": "no answer within %d s" % (time.time() - ts)}
            if out is not None:
                p.kill() if p.is_alive() and out.get("status") == "unknown" else None
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                base = {"name": contracts[i].name, "fn": contracts[i].fn, "obligations": [], "time": time.time() - ts,
                        "invariants": [], "model": None, "error": None}
                base.update(out)
                results[i] = base
                del running[i]
    return results


def search_job(args):
    c, path, models, seed, limit = args
    try:
        return native.run_search(c.search, path, models, seed, limit)
    except BaseException:
        return {"status": "error", "why": traceback.format_exc()[-2500:], "cases": 0}


def write_replay(prop, n, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="regex over contract names (development)")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("NEO_JOBS", "8")))
    a = ap.parse_args()
    rc = 2
    try:
        if a.replay:
            rc = replay(a.replay)
        else:
            rc = check(a)
    finally:
        build.cleanup()
    sys.exit(rc)


def check(a):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    contracts = registry.contracts(prop)
    if a.tier == "quick":
        contracts = [c for c in contracts if c.tier == "quick"]
    if a.only:
        import re
        contracts = [c for c in contracts if re.search(a.only, c.name)]
    if not contracts:
        print("no contracts for", prop)
        return 2
    build.builddir()
    keys = sorted({(c.lib, c.keep) for c in contracts if not c.bounded})
    nlibs = sorted({c.nlib for c in contracts if c.search and c.nlib})
    # raw bitcode first (shared by several keeps), native libraries at the same time
    with multiprocessing.get_context("fork").Pool(a.jobs) as pool:
        nat = pool.map_async(build_native, nlibs)
        raws = pool.map(build_raw, sorted({k[0] for k in keys}))
        irs = pool.map(load_module, keys)
        nat = dict(nat.get())
    errs = [e for _, e in raws if e] + [e for _, _, e in irs if e]
    if errs:
        print("harness does not build against /repo:\n" + errs[0])
        return 2
    for key, txt, _ in irs:
        MODULES[key] = ir.Module(txt)
    tb = time.time() - t0
    results = run_pool(contracts, a.jobs, wall=int(os.environ.get("NEO_WALL", "540" if a.tier == "quick" else "3000")), factor=1 if a.tier == "quick" else 4)
    if a.verbose:
        for r in results:
            print("  %-44s %-11s %5.1fs  %3d obligations %s" % (r["name"], r["status"], r["time"], len(r["obligations"]), (r.get("error") or "").strip().split("\n")[-1][:160]))
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("      %s [%s] %s %s" % (o["name"], o["status"], o.get("reason", ""), json.dumps(o.get("model"))[:300]))
    tp = time.time() - t0
    # ---- native executions: replay of counterexamples, bounded stand-in for undecided functions, cross-check of the rest
    jobs = {}
    for c, r in zip(contracts, results):
        if not c.search or nat.get(c.nlib) is None:
            continue
        k = (c.nlib, c.skey or c.name)
        models = [o["model"] for o in r["obligations"] if o.get("model")]
        j = jobs.setdefault(k, {"c": c, "models": [], "hot": False, "bounded": False})
        j["models"] += models
        if r["status"] == "bounded":
            j["bounded"] = True
        elif r["status"] != "proved":
            j["hot"] = True
    base_limit = 3 if a.tier == "quick" else 60
    hot_limit = 45 if a.tier == "quick" else 240
    nhot = sum(1 for j in jobs.values() if j["hot"])
    hot_limit = max(2 * base_limit, min(hot_limit, (150 if a.tier == "quick" else 900) * a.jobs // max(1, nhot)))
    bounded_limit = 8 if a.tier == "quick" else 120
    jl = list(jobs.items())
    found = run_searches([(j["c"], nat[j["c"].nlib], j["models"], seed, hot_limit if j["hot"] else bounded_limit if j["bounded"] else base_limit) for _, j in jl], a.jobs)
    sres = {k: f for (k, _), f in zip(jl, found)}
    kf = known_findings()
    violations, undecided, notes, standins, missing = [], [], [], [], []
    nrep = 0
    known_lines, out_lines = [], []
    reported = set()
    for c, r in zip(contracts, results):
        k = (c.nlib, c.skey or c.name)
        sr = sres.get(k)
        r["native"] = sr
        if sr and sr["status"] == "error":
            notes.append("native search for %s failed: %s" % (c.name, sr["why"]))
        failed = [o for o in r["obligations"] if o["status"] == "failed"]
        hit = sr if sr and sr["status"] == "fail" else None
        if hit and k in reported and r["status"] != "failed":
            continue
        if r["status"] == "failed" or hit:
            known = [x for x in kf["known"] if x["property"] == prop and x["contract"] == c.name
                     and (not failed or all(o["name"] in x["obligations"] for o in failed))]
            if known and failed:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[0]["what"]))
                r["known"] = True
                continue
            nrep += 1
            p = write_replay(prop, nrep, {
                "property": prop, "contract": c.name, "function": c.fn, "lib": c.lib, "nlib": c.nlib,
                "failed_obligations": failed, "verifier_status": r["status"], "verifier_error": r.get("error"),
                "input": hit and hit["inputs"], "observed": hit and hit["why"], "seed": seed, "case": hit and hit.get("case"),
                "replay_cmd": "python3-vt check.py --replay <this file>"})
            reported.add(k)
            names = "; ".join(o["name"] for o in failed)[:300] or ("native execution: " + (hit["why"] if hit else ""))[:300]
            lines = ["%s: %s" % (c.name, names)]
            if hit:
                lines.append("   failing input: %s  -> %s" % (json.dumps(hit["inputs"])[:600], hit["why"]))
            violations.append({"contract": c.name, "obligations": [o["name"] for o in failed], "replay": p,
                               "input": hit and hit["inputs"], "observed": hit and hit["why"]})
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, p, "" if hit else " no-failing-input-found"))
            out_lines.append((0 if hit else 1, lines))
        elif r["status"] == "bounded":
            if not sr or sr["status"] != "ok":
                print("the bounded check of %s did not run" % c.name)
                missing.append(c.name)
            standins.append({"contract": c.name, "function": c.what or c.fn, "bound": c.bounded, "cases": (sr or {}).get("cases", 0)})
        elif r["status"] != "proved":
            undecided.append({"contract": c.name, "status": r["status"], "error": (r.get("error") or "")[-600:],
                              "undischarged": [o["name"] for o in r["obligations"] if o["status"] not in ("proved",)],
                              "bounded_stand_in": (sr or {}).get("cases", 0)})
    for _, ls in sorted(out_lines, key=lambda x: x[0]):      # those with a failing input first
        print("\n".join(ls))
    for l in sorted(set(known_lines)):
        print(l)
    total = sum(len(r["obligations"]) + (0 if r["obligations"] else 1) for r in results if r["status"] != "bounded")
    disc = sum(1 for r in results for o in r["obligations"] if o["status"] == "proved")
    level = registry.level(prop)
    for u in undecided[:12] if not a.verbose else undecided:
        print("BOUNDED (not proved) %s: %s %s; bounded stand-in ran %d native cases" %
              (u["contract"], u["status"], u["error"].strip().split("\n")[-1][:200], u["bounded_stand_in"]))
    meta = registry.meta(prop)
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o["status"] == "proved":
                b = o.get("backend", "z3")
                backends[b] = backends.get(b, 0) + 1
    extra = {}
    rc_extra = 0
    if meta.get("lemma"):
        lr = registry.run_lemmas(meta["lemma"])
        extra["lemmas"] = lr
        total += len(lr)
        disc += sum(1 for x in lr if x["ok"])
        backends["lean"] = sum(1 for x in lr if x["ok"])
        for x in lr:
            if not x["ok"]:
                print("lemma file %s rejected: %s" % (x["file"], x["output"][-500:]))
                rc_extra = 2
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": total, "discharged": disc,
            "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, a.tier),
            "trusted_base": meta["trusted"],
            "functions_under_contract": meta["functions"],
            "contracts": [{"contract": c.name, "lib": c.lib, "status": r["status"], "obligations": len(r["obligations"]),
                           "discharged": sum(1 for o in r["obligations"] if o["status"] == "proved"),
                           "by_kind": kinds(r["obligations"]), "loop_invariants": len(r["invariants"]),
                           "solver_s": round(r["time"], 2), "callee_contracts": sorted(set(r.get("callees") or []))}
                          for c, r in zip(contracts, results) if not c.bounded],
            "discharged_by_backend": backends,
            "solver_s": round(sum(r["time"] for r in results), 1),
            "native_cross_check_cases": sum(s.get("cases", 0) for s in sres.values()),
            "violations_found": violations, "undecided": undecided, "bounded_stand_ins_not_proved": standins, "known_findings": sorted(set(known_lines)), "notes": notes, **extra},
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if level == "other":
        ev["coverage"]["explanation"] = getattr(registry.mod(prop), "EXPLANATION", "")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if standins:
        print("BOUNDED stand-ins, not proved: %d functions, %d native cases (bounds in the evidence file)" % (len(standins), sum(u["cases"] for u in standins)))
    print("%s: %d contracts, %d/%d obligations discharged, %d undecided, %d violations; build %.0fs prove %.0fs total %.0fs" %
          (prop, len(contracts) - len(standins), disc, total, len(undecided), len(violations), tb, tp - tb, time.time() - t0))
    for n in notes:
        print("note:", n[-600:])
    if violations:
        return 1
    return 2 if missing else rc_extra


def kinds(obls):
    d = {}
    for o in obls:
        d[o["kind"]] = d.get(o["kind"], 0) + 1
    return d


def build_raw(lib):
    try:
        build.raw_ir(lib)
        return lib, None
    except build.BuildError as e:
        return lib, str(e)


def build_native(lib):
    try:
        return lib, build.native(lib)
    except build.BuildError as e:
        return lib, None


def run_searches(jobs, nproc):
    """each search forks its own child; drive them from threads"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(nproc) as ex:
        return list(ex.map(search_job, jobs))


def replay(path):
    d = json.load(open(path))
    cs = [c for c in registry.contracts(d["property"]) if c.name == d["contract"]]
    if not cs or not cs[0].search:
        print("no native search for", d["contract"], "; failed obligations:", [o["name"] for o in d["failed_obligations"]])
        return 2
    c = cs[0]
    models = [o["model"] for o in d["failed_obligations"] if o.get("model")]
    r = native.run_search(c.search, build.native(c.nlib), models, d["seed"], 240)
    print(json.dumps(r, indent=1)[:4000])
    return 1 if r["status"] == "fail" else 0


if __name__ == "__main__":
    main()
