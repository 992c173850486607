#!/usr/bin/env python3
"""Run the check of one property: check.py <ID> [quick|thorough].  Exit 0 held / 1 violation / 2 harness failure."""
import hashlib, json, os, re, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props as P

VERIF = B.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=70:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=1:"
                    "handle_segv=1:symbolize=1:allocator_may_return_null=1:max_allocation_size_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=71",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=72:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigbus=0:handle_sigfpe=0:second_deadlock_stack=1",
}


def load_known(pid):
    known = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known


def crash_key(text):
    """a stable signature of a crash: kind and the first frame inside the code under test"""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: (.*)", text)
    if m2:
        kind = "ub"
    if "Assertion" in text and "failed" in text:
        kind = "assertion"
    if "ThreadSanitizer" in text:
        kind = "race"
    frame = ""
    for f in re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+)", text):
        if B.REPO + "/" in f[1]:
            frame = os.path.relpath(f[1].split(":")[0], B.REPO)
            fn = re.sub(r"\(.*", "", f[0])
            frame += ":" + re.sub(r"[^\w:~]", "", fn)
            break
    return "crash:%s:%s" % (kind, frame)


class Unit:
    """one harness binary of a property"""

    def __init__(self, prop, spec, tier, seed):
        self.prop, self.spec, self.tier, self.seed = prop, spec, tier, seed
        self.n = spec["cases"][1 if tier == "thorough" else 0]

    def build(self):
        s = self.spec
        src = [os.path.join(VERIF, "harness", x) for x in s["src"]] + [os.path.join(VERIF, "harness", "vt_main.cpp")]
        self.exe = B.build(s.get("cfg", "asan"), src, s.get("name", os.path.splitext(s["src"][0])[0]),
                           extra_flags=s.get("flags", []))

    def cmd(self, extra):
        pre = self.spec.get("wrap", [])
        return pre + [self.exe, "--seed", str(self.seed)] + extra

    def env(self):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.pop("LD_PRELOAD", None)
        return e

    def run(self, stats_dir):
        shards = min(8, max(1, self.n))
        res = dict(evals=0, counters={}, hashes=set(), samples=[], violations=[], errors=[])
        procs = []
        for k in range(shards):
            procs.append(dict(k=k, start=k, seg=0, p=None, crashes=0))

        def launch(pr):
            st = os.path.join(stats_dir, "%s.%d.%d" % (os.path.basename(self.exe), pr["k"], pr["seg"]))
            pr["st"] = st
            pr["outf"] = open(st + ".out", "w+b")
            pr["p"] = subprocess.Popen(
                self.cmd(["--from", str(pr["start"]), "--to", str(self.n), "--step", str(shards), "--stats", st,
                          "--cpu", str(self.spec.get("cpu", 60))]),
                stdout=pr["outf"], stderr=subprocess.STDOUT, env=self.env(), stdin=subprocess.DEVNULL)

        for pr in procs:
            launch(pr)
        active = list(procs)
        while active:
            for pr in list(active):
                rc = pr["p"].poll()
                if rc is None:
                    # the harness stops its own endless cases, unless the process as a whole is stuck (deadlock)
                    try:
                        age = time.time() - os.stat(pr["st"] + ".cur").st_mtime
                    except OSError:
                        continue
                    if age > 10 * self.spec.get("cpu", 60):
                        pr["p"].kill()
                    continue
                pr["outf"].seek(0)
                text = pr["outf"].read().decode("utf8", "replace")
                pr["outf"].close()
                self.collect(pr["st"], text, res)
                races = re.findall(r"VT-RACE case=(\d+)\s.*?(WARNING: ThreadSanitizer: .*?\n=+\n)", text, re.S)
                for c, r in races[:50]:
                    res["violations"].append(dict(case=int(c), key=crash_key(r), msg=r.split("\n")[0], detail=r[:6000]))
                if rc != 0 and not (rc == 72 and races):
                    try:
                        cur = int(open(pr["st"] + ".cur").read().strip())
                    except Exception:
                        cur = None
                    if cur is None:
                        res["errors"].append("harness died before its first case (rc %s):\n%s" % (rc, text[-4000:]))
                    else:
                        self.on_crash(cur, rc, text, res)
                        pr["crashes"] += 1
                        nxt = cur + shards
                        if nxt < self.n and pr["crashes"] < self.spec.get("max_crashes", 6):
                            pr["start"], pr["seg"] = nxt, pr["seg"] + 1
                            launch(pr)
                            continue
                active.remove(pr)
            time.sleep(0.02)
        return res

    def on_crash(self, cur, rc, text, res):
        # confirm in isolation: only a reproducible death is reported
        try:
            r = subprocess.run(self.cmd(["--case", str(cur), "-v", "--cpu", str(2 * self.spec.get("cpu", 60))]),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env(),
                               stdin=subprocess.DEVNULL, timeout=240)
        except subprocess.TimeoutExpired:
            res["violations"].append(dict(case=cur, key="hang", msg="no end within 240 s", detail=text[-8000:]))
            return
        out = r.stdout.decode("utf8", "replace")
        if r.returncode == 0:
            # not reproducible alone: state left by previous cases may matter; the original report still stands if it
            # is a sanitizer or assertion report, otherwise the run is inconclusive
            if re.search(r"Sanitizer|runtime error|Assertion", text):
                res["violations"].append(dict(case=cur, key=crash_key(text), msg="abnormal termination (rc %d)" % rc,
                                              detail=text[-8000:], seq=True))
            else:
                res["errors"].append("case %d died with rc %d without a report and does not reproduce:\n%s" %
                                     (cur, rc, text[-3000:]))
            return
        key = "hang" if "VT-HANG" in out else crash_key(out)
        m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*|.*Assertion.*failed.*|.*terminate called.*)", out)
        res["violations"].append(dict(case=cur, key=key, msg=(m.group(0).strip() if m else "abnormal termination rc %d"
                                                              % r.returncode), detail=out[-12000:]))

    def collect(self, st, text, res):
        try:
            for line in open(st):
                p = line.rstrip("\n").split(" ", 2)
                if p[0] == "evals":
                    res["evals"] += int(p[1])
                elif p[0] == "counter":
                    res["counters"][p[1]] = res["counters"].get(p[1], 0) + int(p[2])
                elif p[0] == "h":
                    res["hashes"].add(p[1])
                elif p[0] == "sample":
                    res["samples"].append(line.rstrip("\n")[7:])
        except OSError:
            pass
        for m in re.finditer(r"^VT-VIOLATION case=(\d+) key=(.*?) msg=(.*)$", text, re.M):
            res["violations"].append(dict(case=int(m.group(1)), key=m.group(2), msg=m.group(3)[:1500],
                                          detail=m.group(3)))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = P.PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    sdir = os.path.join(B.BUILD, "stats", "%s-%d" % (pid, os.getpid()))
    os.makedirs(sdir, exist_ok=True)
    known = load_known(pid)
    total = dict(evals=0, counters={}, hashes=set(), samples=[], violations=[], errors=[])
    units = [Unit(prop, s, tier, seed) for s in prop["units"]]
    try:
        tb = time.time()
        for u in units:
            u.build()
        tb = time.time() - tb
    except B.BuildError as e:
        print(str(e)[-6000:])
        print("harness build failed: no verdict")
        sys.exit(2)
    for i, u in enumerate(units):
        r = u.run(sdir)
        total["evals"] += r["evals"]
        for k, v in r["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        total["hashes"] |= {"%d:%s" % (i, h) for h in r["hashes"]}
        total["samples"] += r["samples"][:3]
        total["errors"] += r["errors"]
        for v in r["violations"]:
            v["unit"] = i
        total["violations"] += r["violations"]
    shutil.rmtree(sdir, ignore_errors=True)
    fresh, seen_known, seen = [], {}, set()
    for v in sorted(total["violations"], key=lambda v: (v["unit"], v["case"])):
        k = next((d for (kk, d) in known if kk == v["key"]), None)
        if k is not None:
            seen_known[v["key"]] = k
            continue
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        fresh.append(v)
    for key, d in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, key, d))
    for v in fresh[:10]:
        u = units[v["unit"]]
        path = os.path.join(rdir, "%s-%s.txt" % (pid, hashlib.sha1(v["key"].encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property %s\nkey %s\nseed %d case %d\nbuild and replay with:\n  cd /verif && python3 vt/replay.py %s "
                    "%d %d %d\n\n%s\n\n%s\n" % (pid, v["key"], seed, v["case"], pid, v["unit"], seed, v["case"], v["msg"],
                                                v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key=%s %s" % (v["key"], v["msg"][:600]))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evals"], distinct_nontrivial=len(total["hashes"]), rule=prop["rule"],
                            samples=total["samples"][:4], observed_events=total["counters"],
                            known_findings=sorted(seen_known), instrumentation=sorted(
                                {u.spec.get("cfg", "asan") + ("+" + u.spec["wrap"][0] if u.spec.get("wrap") else "")
                                 for u in units}),
                            build_s=round(tb, 1)),
              wall_s=round(wall, 2), violations=len(fresh))
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1fs (build %.1fs)" %
          (pid, tier, total["evals"], len(total["hashes"]), len(fresh), wall, tb))
    if fresh:
        sys.exit(1)
    if total["errors"]:
        for e in total["errors"][:3]:
            print("HARNESS ERROR:", e)
        sys.exit(2)
    # the run is only evidence if it really observed something
    if total["evals"] < sum(u.n for u in units) or len(total["hashes"]) < prop.get("min_distinct", 2):
        if not seen_known:
            print("inconclusive: fewer observations than planned")
            sys.exit(2)
    for c in prop.get("must_observe", []):
        if total["counters"].get(c, 0) <= 0:
            print("inconclusive: event never observed:", c)
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
