"""Shared machinery: building the analysers, compiling drivers against /repo,
reporting, evidence and known findings."""
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CXX = "clang++-18"
BUILD = os.path.join(ROOT, "build")


class CheckError(Exception):
    """The check could not be carried out (neither a pass nor a violation)."""


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


_lock = threading.Lock()


def tools():
    """Directory holding the built analysers (built when missing or stale)."""
    with _lock:
        src = [os.path.join(ROOT, "build.sh")] + [
            os.path.join(ROOT, "tools", f) for f in os.listdir(os.path.join(ROOT, "tools"))
        ]
        d = os.path.join(BUILD, "bin-" + _digest(src))
        if not (os.path.exists(os.path.join(d, "own")) and os.path.exists(os.path.join(d, "irdump"))):
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["bash", os.path.join(ROOT, "build.sh"), d], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("cannot build the analysers:\n" + r.stderr[-2000:])
        return d


BASE = ["-I" + REPO, "-I" + os.path.join(ROOT, "drivers", "stubs"), "-DIMMER_TAGGED_NODE=0",
        "-g", "-Wno-everything", "-ferror-limit=0"]


def _std(flags):
    return [] if any(f.startswith("-std=") for f in flags) else ["-std=c++17"]


def driver_path(name):
    return os.path.join(ROOT, "drivers", name + ".cpp")


_pp_cache = {}


def preprocess(name, flags):
    k = (name, tuple(flags))
    if k not in _pp_cache:
        r = subprocess.run([CXX, *_std(flags), *BASE, *flags, "-E", driver_path(name)],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("driver %s does not preprocess against the current tree:\n%s" % (name, r.stderr[:1500]))
        _pp_cache[k] = r.stdout
    return _pp_cache[k]


OWN_OPT = ["-O1", "-Xclang", "-disable-llvm-passes"]


def bitcode(name, flags, opt, out):
    cmd = [CXX, *_std(flags), *BASE, *flags, *opt, "-emit-llvm", "-c", driver_path(name), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("driver %s %s does not compile against the current tree:\n%s"
                         % (name, " ".join(flags), r.stderr[:1500]))


def _cached(kind, name, flags, opt, extra, produce):
    t = tools()
    key = hashlib.sha256(json.dumps([kind, name, flags, opt, extra, os.path.basename(t)]).encode())
    key.update(preprocess(name, flags).encode())
    key = key.hexdigest()[:24]
    d = os.path.join(BUILD, "cache")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, key + ".json")
    if os.path.exists(p):
        try:
            with open(p) as f:
                return json.load(f)
        except ValueError:
            pass
    with tempfile.TemporaryDirectory(prefix="vf-") as tmp:
        data = produce(tmp)
    q = p + ".%d.%d" % (os.getpid(), threading.get_ident())
    with open(q, "w") as f:
        f.write(data)
    os.replace(q, p)
    return json.loads(data)


def own(name, flags=(), opts=(), timeout=600):
    """Run the ownership analysis on a driver; returns its report."""
    flags, opts = list(flags), list(opts)

    def produce(tmp):
        bc, js = os.path.join(tmp, "a.bc"), os.path.join(tmp, "a.json")
        bitcode(name, flags, OWN_OPT, bc)
        r = subprocess.run([os.path.join(tools(), "own"), bc, "-o", js, *opts],
                           capture_output=True, text=True, timeout=timeout)
        if r.returncode or not os.path.exists(js):
            raise CheckError("ownership analysis failed on %s: %s" % (name, r.stderr[-800:]))
        with open(js) as f:
            return f.read()

    try:
        return _cached("own", name, flags, OWN_OPT, opts, produce)
    except subprocess.TimeoutExpired:
        raise CheckError("ownership analysis of %s did not finish" % name)


def irdump(name, flags=(), opt=("-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops")):
    """Compile a driver and return its IR as JSON."""
    flags, opt = list(flags), list(opt)

    def produce(tmp):
        bc = os.path.join(tmp, "a.bc")
        bitcode(name, flags, opt, bc)
        r = subprocess.run([os.path.join(tools(), "irdump"), bc], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("irdump failed on %s: %s" % (name, r.stderr[-800:]))
        return r.stdout

    return _cached("ird", name, flags, opt, [], produce)


def pmap(f, xs):
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(f, xs))


# ----------------------------------------------------------------- reporting
def rel(p):
    p = re.sub(r"^.*?/repo/", "", p) if "/repo/" in p else p
    return p.replace(REPO + "/", "").replace(ROOT + "/", "")


def known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    r.append(json.loads(line))
    return r


def match(k, v):
    """A known finding matches a violation when every pattern it gives does."""
    return all(re.search(pat, str(v.get(field, ""))) for field, pat in k["match"].items())


class Result:
    def __init__(self):
        self.violations = []   # dicts: rule, where, function, message, path
        self.coverage = {}
        self.assumptions = []
        self.floors = []       # (what, measured, minimum)

    def add(self, rule, where, message, function="", path="", key=""):
        v = dict(rule=rule, where=where, message=message, function=function, path=path, key=key)
        if v not in self.violations:
            self.violations.append(v)

    def floor(self, what, measured, minimum):
        self.floors.append((what, measured, minimum))


def main(pid, tier, fn, level="other"):
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    try:
        res = fn(tier)
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    for what, m, lo in res.floors:
        if m < lo and not res.violations:
            print("ERROR property=%s analysed too little: %s = %s, expected at least %s" % (pid, what, m, lo))
            return 2
    ks = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    fresh, old = [], []
    for v in res.violations:
        k = next((k for k in ks if match(k, v)), None)
        (old if k else fresh).append((v, k))
    seen = set()
    for v, k in old:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = dict(res.coverage)
    cov["known_findings_seen"] = len(seen)
    for what, m, lo in res.floors:
        cov.setdefault("floors", {})[what] = [m, lo]
    rep = os.path.join(ROOT, "evidence", "replay-%s.json" % pid)
    with open(ev, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                       level=level, coverage=cov, assumptions=res.assumptions,
                       wall_s=round(time.time() - t0, 2), violations=len(fresh)), f, indent=1)
    if fresh:
        with open(rep, "w") as f:
            json.dump([v for v, _ in fresh], f, indent=1)
        for v, _ in fresh[:25]:
            print("  %s: [%s] %s%s" % (v["where"], v["rule"], v["message"][:600],
                                       " (in %s)" % v["function"] if v["function"] else ""))
            if v["path"]:
                print("\n".join("      " + l.strip() for l in v["path"].strip().splitlines()[-14:]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
    return 0
