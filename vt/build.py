"""Content-addressed incremental builder: compiles the working tree of /repo (the same translation units the
project's own CMake configuration selects here) plus one harness, under a given instrumentation."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

EXCLUDE = ("src/robot/", "src/Robot.cpp", "src/utils/sch.cpp")
SOLVER_WRAPPERS = ("LSSOL", "QLD", "Quadprog", "LexLS", "defaultLeastSquareSolver")

COMMON = ["-std=c++17", "-w", "-fPIC", "-DTVM_EXPORTS", "-DEIGEN_RUNTIME_NO_MALLOC",
          "-I" + os.path.join(VERIF, "gen"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
          "-I" + os.path.join(REPO, "3rd-party"), "-isystem", "/usr/include/eigen3"]
SAN = ["-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
CONFIGS = {
    # address + undefined behaviour, debug assertions, libstdc++ assertions, uninitialised Eigen memory poisoned by NaN
    "asan": dict(cxx="clang++", flags=["-O0", "-g1", "-fsanitize=address,undefined",
                                        "-fsanitize-ignorelist=" + os.path.join(VERIF, "vt", "ubsan.ignore"),
                                        "-D_GLIBCXX_ASSERTIONS",
                                        "-DEIGEN_INITIALIZE_MATRICES_BY_NAN"] + SAN),
    "tsan": dict(cxx="clang++", flags=["-UEIGEN_RUNTIME_NO_MALLOC", "-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"] + SAN),
    "plain": dict(cxx="clang++", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
}


def repo_sources(with_wrappers=False):
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, REPO)
        if rel.startswith(EXCLUDE):
            continue
        base = os.path.basename(rel)
        if rel.startswith("src/solver/") and base.startswith(SOLVER_WRAPPERS):
            continue
        out.append(p)
    return out


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]


def parse_dep(path):
    try:
        txt = open(path).read().replace("\\\n", " ")
    except OSError:
        return []
    txt = txt.split(":", 1)[1] if ":" in txt else ""
    return [os.path.normpath(t) for t in txt.split()]


def load_weights():
    try:
        return json.load(open(os.path.join(VERIF, "vt", "weights.json")))
    except Exception:
        return {}


class Job:
    def __init__(self, src, obj, cmd):
        self.src, self.obj, self.cmd = src, obj, cmd
        self.meta = obj + ".json"

    def fresh(self):
        try:
            m = json.load(open(self.meta))
        except Exception:
            return False
        if m["cmd"] != self.cmd or not os.path.exists(self.obj):
            return False
        return all(sha(p) == h for p, h in m["deps"].items())

    def run(self):
        t = time.time()
        dep = self.obj + ".d"
        r = subprocess.run(self.cmd + ["-MMD", "-MF", dep, "-c", self.src, "-o", self.obj], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return self.src, r.stdout, time.time() - t
        deps = {p: sha(p) for p in parse_dep(dep)}
        deps[self.src] = sha(self.src)
        json.dump({"cmd": self.cmd, "deps": deps}, open(self.meta, "w"))
        return self.src, None, time.time() - t


class BuildError(Exception):
    pass


def build(cfg, harness_srcs, name, extra_flags=(), extra_lib_srcs=(), jobs=8, record_weights=False):
    """returns the path of the executable"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock." + cfg), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(cfg, harness_srcs, name, list(extra_flags), list(extra_lib_srcs), jobs, record_weights)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(cfg, harness_srcs, name, extra_flags, extra_lib_srcs, jobs, record_weights):
    c = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    base = [c["cxx"]] + COMMON + c["flags"]
    # precompiled system headers
    pch_src = os.path.join(VERIF, "harness", "pch.h")
    pch = os.path.join(d, "pch.pch")
    key = json.dumps([base, sha(pch_src)])
    kf = pch + ".key"
    if not (os.path.exists(pch) and os.path.exists(kf) and open(kf).read() == key):
        r = subprocess.run(base + ["-fpch-instantiate-templates", "-x", "c++-header", pch_src, "-o", pch],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout)
        open(kf, "w").write(key)
    cc = base + ["-include-pch", pch]
    todo, objs = [], []
    for s in repo_sources():
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        todo.append(Job(s, o, cc))
    for s in list(harness_srcs) + extra_lib_srcs:
        tag = hashlib.sha1(" ".join(extra_flags).encode()).hexdigest()[:6] if extra_flags else "h"
        o = os.path.join(d, tag + "_" + s.replace("/", "_") + ".o")
        objs.append(o)
        todo.append(Job(s, o, cc + extra_flags))
    w = load_weights()
    stale = [j for j in todo if not j.fresh()]
    stale.sort(key=lambda j: -w.get(os.path.basename(j.src), 5.0 if "/harness/" in j.src else 1.0))
    errs, times = [], {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for src, err, t in ex.map(lambda j: j.run(), stale):
            times[os.path.basename(src)] = round(t, 2)
            if err:
                errs.append("%s:\n%s" % (src, err))
    if errs:
        raise BuildError("\n".join(errs))
    if record_weights:
        w.update(times)
        json.dump(w, open(os.path.join(VERIF, "vt", "weights.json"), "w"), indent=0, sort_keys=True)
    exe = os.path.join(d, name)
    lk = json.dumps([objs, [sha(o) for o in objs], extra_flags])
    if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == lk):
        link = [c["cxx"]] + [f for f in c["flags"] if f.startswith("-fsanitize=") or f.startswith("-g")]
        r = subprocess.run(link + objs + ["-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout)
        open(exe + ".key", "w").write(lk)
    return exe
