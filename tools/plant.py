"""plant.py ID PROPERTY FILE... : turn the edited scratch copy /tmp/plant/repo into /verif/seeded/ID.

Usage: plant.py SPEC.py   where SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, needs, breaks, flags?, mdspan?)]
Each bug is applied in a scratch copy of /repo, built, tested and its demo is run with and without it; only confirmed bugs are kept."""
import json, os, shutil, subprocess, sys, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
clang++-18 -std=c++20 -O1 -march=x86-64-v3 %s -I"$PWD/src" -I"$here" "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 200 "$tmp/demo"
'''


def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def fresh():
    repo = SCR + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(SCR, exist_ok=True)
        sh("git clone -q /repo %s" % repo)
    sh("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (repo, repo))
    return repo


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    # the tests are the repository's own, built by the driver from /repo; apply there and undo, one bug at a time
    for b in bugs:
        if only and b["id"] not in only:
            continue
        repo = fresh()
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "EDIT", bad)
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        open(d + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if b.get("mdspan"):
            shutil.copytree(VERIF + "/shim/mdspan", d + "/mdspan")
        bad_r = sh("bash %s/demo.sh" % d, repo)
        good_r = sh("bash %s/demo.sh" % d, "/repo")
        print(b["id"], "clean rc", good_r.returncode, (good_r.stdout + good_r.stderr)[-300:].strip(), "| patched rc", bad_r.returncode, (bad_r.stdout + bad_r.stderr)[-200:].strip())
        if good_r.returncode != 0 or bad_r.returncode in (0, 3):
            print("   NOT KEPT")
            shutil.rmtree(d)
            continue
        if not b.get("untested"):
            # compile the test driver against the scratch copy
            drv = SCR + "/driver"
            shutil.rmtree(drv, ignore_errors=True)
            shutil.copytree("/opt/vp/driver", drv)
            sh("grep -rl /repo %s | xargs -r sed -i 's#/repo#%s#g'" % (drv, repo))
            r = sh("CC=clang-18 CXX=clang++-18 cmake -S %s -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-march=x86-64-v3 && ninja -C %s/_b" % (drv, SCR, SCR))
            if r.returncode:
                print("   BUILD FAILED", r.stdout[-1500:])
                shutil.rmtree(d)
                continue
            exe = [x for x in sh("find %s/_b -maxdepth 2 -type f -perm -u+x -not -name '*.so' -not -path '*CMakeFiles*'" % SCR).stdout.split()]
            for e in exe:
                t = sh(e + " -r compact")
                print("   tests", os.path.basename(e), t.returncode, t.stdout.strip().split("\n")[-1])
                if t.returncode:
                    print("   TESTS FAIL, NOT KEPT")
                    shutil.rmtree(d)
    shutil.rmtree(SCR, ignore_errors=True)


main()
