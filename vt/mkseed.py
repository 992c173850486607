"""Developer helper (not used by the checks): makes and confirms planted bugs.

mkseed.py make FILE.py...   each file calls seed(id, property, needs, breaks, edits=[(file, old, new)...], demo="C++ body")
mkseed.py test [ID...]      confirms the planted bugs of /verif/seeded (builds, tests, demo, check), prints a table
"""
import json, os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = os.environ.get("VT_REPO", "/repo")
BUILD = ["bash", "/opt/vp/build.sh"] if R == "/repo" else ["ninja", "-C", R + "/_build"]
DEMO = r"""#!/bin/bash
# run in the root of the repository after its build; exit 0 iff the behaviour is the expected one
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -w @FLAGS@ -I"$R/_build" -I"$R/_build/include" -I"$R/include" -I"$R/src" -I"$R/3rd-party" -I"$D" -isystem /usr/include/eigen3 \
  "$D/demo.cpp" -o "$T/demo" "$R/_build/src/libTVM_d.so" -Wl,-rpath,"$R/_build/src" -lpthread || exit 1
timeout 120 "$T/demo"
"""


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


def seed(id, property, needs, breaks, edits, demo, flags="", files=()):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in edits:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "edit does not match once:", f, t.count(old))
            shutil.rmtree(d)
            return
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", R, "diff").stdout)
    clean()
    if demo:
        open(os.path.join(d, "demo.cpp"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FLAGS@", flags))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for f in files:
        shutil.copy(f, d)
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    MADE.append(id)


def test(ids):
    clean()
    bad = {}
    r = sh(*BUILD)
    assert r.returncode == 0
    ok0 = {}
    for i in ids:
        r = sh("bash", os.path.join(S, i, "demo.sh"), cwd=R)
        ok0[i] = r.returncode
        if r.returncode:
            print(i, "demo fails on clean tree:", r.stdout[-600:])
    for i in ids:
        m = json.load(open(os.path.join(S, i, "meta.json")))
        r = sh("git", "-C", R, "apply", os.path.join(S, i, "patch.diff"))
        if r.returncode:
            print(i, "patch does not apply", r.stdout[-300:])
            continue
        try:
            b = sh(*BUILD)
            if b.returncode:
                print(i, "does not build", b.stdout[-1500:])
                continue
            with tempfile.TemporaryDirectory() as t:
                o = sh(sys.executable, "/opt/vp/run_tests.py", R + "/_build", t).stdout.splitlines()
            passed, failed = [[l for l in o if l.startswith(w)] for w in ("PASS", "FAIL")]
            d = sh("bash", os.path.join(S, i, "demo.sh"), cwd=R)
            props = [m["property"]] + [a for a in EXTRA if a != m["property"]]
            res = []
            for p in props:
                c = sh(sys.executable, os.path.join(V, "vt", "check.py"), p, "quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                got = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append("%s:%s" % (p, "CAUGHT" if c.returncode == 1 and got else "missed" if c.returncode == 0 else "ERR%d %s" % (c.returncode, c.stdout[-300:])))
            print("%-28s tests %d+%d demo clean %d patched %d  %s" % (i, len(passed), len(failed), ok0[i], d.returncode, " ".join(res)), flush=True)
            if failed:
                print("   FAILED TESTS", failed[:5])
        finally:
            clean()
    sh(*BUILD)


MADE = []
EXTRA = []
if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if "--also" in args:
        k = args.index("--also")
        EXTRA = args[k + 1].split(",")
        args = args[:k] + args[k + 2:]
    if cmd == "make":
        for f in args:
            exec(open(f).read())
        test(MADE)
    else:
        test(args or sorted(os.listdir(S)))
