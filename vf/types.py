"""Rules decided by the type checker: what must build, and what must not."""
import os, re, subprocess
from . import core

INC = ["-I" + os.path.join(core.ROOT, "drivers"), "-I" + core.REPO]
OPS = ["array", "box", "champ_map", "champ_set", "champ_table", "cheap", "concat", "flex", "reads", "vector", "lookup", "sequence", "results",
       "heaps", "algos"]
POLICIES = ["default", "unsafe", "collected", "plain", "counted", "gc"]


def build(job):
    """(what, compiler, flags, source, is it a file) -> the errors."""
    what, cc, flags, src, isfile = job
    r = subprocess.run([cc, "-fsyntax-only", "-w", "-Wno-error", "-fno-color-diagnostics" if "clang" in cc else "-fdiagnostics-color=never",
                        *flags, *INC, "-x", "c++", src if isfile else "-"],
                       input=None if isfile else src, capture_output=True, text=True, timeout=300)
    if not r.returncode:
        return what, []
    errs = re.findall(r"^(\S+?):(\d+)(?::\d+)?: (?:fatal )?error: (.*)$", r.stderr, re.M)
    # the place in the library: the error itself or the instantiation that led there
    where = next(("%s:%s" % (core.rel(f), l) for f, l, _ in errs if "/immer/" in f), None) or next(
        ("%s:%s" % (core.rel(f), l) for f, l in re.findall(r"^\s*(?:In file included from )?(\S*/immer/\S+?):(\d+)", r.stderr, re.M)), None)
    return what, [(where or "%s:%s" % (core.rel(errs[0][0]), errs[0][1]) if errs else "?", errs[0][2] if errs else r.stderr[-300:])]


def gcflags(p):
    return ["-DIMMER_HAS_LIBGC=1"] if p == "gc" else []


def headers():
    r = []
    for d, _, fs in os.walk(os.path.join(core.REPO, "immer")):
        if "/detail" in d or "/experimental" in d:
            continue
        r += [os.path.relpath(os.path.join(d, f), core.REPO) for f in fs if f.endswith(".hpp")]
    return sorted(r)


def g01(tier):
    res = core.Result()
    jobs = []
    stds = ["-std=c++14", "-std=c++17", "-std=c++20"]
    thorough = tier == "thorough"
    for d in OPS:
        src = os.path.join(core.ROOT, "drivers", d + ".cpp")
        if not os.path.exists(src):
            raise core.CheckError("no driver " + d)
        pol = POLICIES if d != "heaps" else ["default"]
        for p in pol:
            for s in stds if thorough else ["-std=c++14"] if p != "default" else ["-std=c++14", "-std=c++20"]:
                for cc in ("clang++-18", "g++") if thorough or p in ("default", "collected") and s == "-std=c++14" else ("clang++-18",):
                    fl = [s, '-DPOLICY="policies/%s.hpp"' % p, *gcflags(p)] if d != "heaps" else [s, "-DIMMER_HAS_LIBGC=1"]
                    jobs.append(("the operations in %s with policy %s, %s, %s" % (d, p, s[5:], cc), cc, fl, src, True))
    hs = headers()
    for h in hs:
        for s in stds if thorough else ["-std=c++14"]:
            jobs.append(("header %s on its own, %s" % (h, s[5:]), "clang++-18", [s, "-DIMMER_HAS_LIBGC=1"],
                         "#include <%s>\n#include <%s>\n" % (h, h), False))
    # two translation units' worth of headers in either order
    for order in (hs, hs[::-1]):
        jobs.append(("all headers together", "clang++-18", ["-std=c++17", "-DIMMER_HAS_LIBGC=1"], "".join("#include <%s>\n" % h for h in order), False))
    for f in [["-fno-exceptions"], ["-fno-rtti"], ["-DNDEBUG"], ["-DIMMER_DEBUG_DEEP_CHECK=1"]]:
        jobs.append(("all headers together with " + f[0], "clang++-18", ["-std=c++17", "-DIMMER_HAS_LIBGC=1", *f],
                     "".join("#include <%s>\n" % h for h in hs), False))
    bad = 0
    for what, errs in core.pmap(build, jobs):
        for where, msg in errs:
            bad += 1
            res.add("build", where, "does not build: %s: %s" % (what, msg[:200]), function=what.split(",")[0], key="build")
    res.coverage = dict(builds=len(jobs), headers=len(hs), operations_files=len(OPS), policies=len(POLICIES),
                        explanation="The compilers' type checkers decide: every operation of every container is instantiated under each memory "
                        "policy, each public header is included on its own (twice) and all of them together in both orders.")
    res.floor("public headers", len(hs), 30)
    return res


FILES = dict(Vec="vector", Flex="flex_vector", Arr="array", Set="set", Map="map", Table="table", Box="box", box="box", boxes="box", atom="atom", atoms="atom")


def construct(fact, inst):
    """The member the fact is about."""
    m = re.match(r"(?:transient of )?(?:const transient of )?(\w+)(?:::|: | has (?:no )?)?(\w+)?", fact)
    cls, mem = (m.group(1), m.group(2)) if m else (None, None)
    if inst:
        cls = inst
        mem = next((w for w in re.findall(r"\w+", fact) if w in ("begin", "iterator", "impl", "transient", "persistent", "reference", "value_type")), None)
    f = FILES.get(cls)
    if not f:
        return "immer", fact
    mem = {"index": "operator[]", "deref": "operator*", "arrow": "operator->", "insertat": "insert", "erase2": "erase", "update_if": "update_if_exists",
           "implementation": "impl"}.get(mem, mem)
    path = "immer/%s%s.hpp" % (f, "_transient" if "transient of" in fact else "")
    try:
        for n, l in enumerate(open(os.path.join(core.REPO, path)), 1):
            if mem and re.search(r"(?<!\w)%s(?!\w)" % re.escape(mem), l) and "*" not in l[:6]:
                return "%s:%d" % (path, n), "%s::%s" % (cls, mem)
    except OSError:
        pass
    return path, "%s::%s" % (cls, mem or "")


def facts(job):
    what, cc, flags, src = job
    r = subprocess.run([cc, "-fsyntax-only", "-w", "-ferror-limit=0" if "clang" in cc else "-fmax-errors=0", *flags, *INC, src],
                       capture_output=True, text=True, timeout=300)
    if not r.returncode:
        return what, []
    bad = []
    for blk in re.split(r"(?m)^(?=\S+?:\d+(?::\d+)?: (?:fatal )?error: )", r.stderr):
        m = re.match(r"(\S+?):(\d+)(?::\d+)?: (?:fatal )?error: (.*)", blk)
        if not m:
            continue
        f = re.search(r"FACT ([^\"\n’']*)", m.group(3) + "\n" + (blk if "static assert" in m.group(3) else ""))
        inst = re.search(r"(?:container|traversal_gives_const)<(?:immer::)?(\w+)<?", blk)
        inst = {"vector": "Vec", "flex_vector": "Flex", "array": "Arr", "set": "Set", "map": "Map", "table": "Table"}.get(inst.group(1), inst.group(1)) if inst else None
        if f:
            bad.append((f.group(1).strip(), inst, None))
        else:
            w = "%s:%s" % (core.rel(m.group(1)), m.group(2))
            bad.append(("does not type check: " + m.group(3)[:160], inst, w))
    return what, bad or [("does not type check: " + r.stderr[-200:], None, None)]


def i01(tier):
    res = core.Result()
    src = os.path.join(core.ROOT, "drivers", "types.cpp")
    n = len(re.findall(r"static_assert\(|FACT\(|SAME\(", open(src).read()))
    jobs = []
    for p in POLICIES:
        for s in ("14", "17", "20"):
            for cc in ("clang++-18", "g++"):
                if tier == "thorough" or cc == "clang++-18" or s == "14":
                    jobs.append(("policy %s, c++%s, %s" % (p, s, cc), cc, ["-std=c++" + s, '-DPOLICY="policies/%s.hpp"' % p, *gcflags(p)], src))
    seen = {}
    for what, bad in core.pmap(facts, jobs):
        for fact, inst, where in bad:
            seen.setdefault((fact, inst), (where, []))[1].append(what)
    for (fact, inst), (where, whats) in sorted(seen.items(), key=str):
        w, fn = construct(fact, inst)
        res.add("type", where or w, "%s%s: not so with %s" % (fact, " (%s)" % inst if inst else "", whats[0]), function=fn, key="type")
    res.coverage = dict(facts=n, configurations=len(jobs),
                        explanation="Every fact about the types of the interface is a static_assert that both compilers decide under each memory policy "
                        "and language standard; facts in templates count once but are decided for each container.")
    res.floor("facts", n, 300)
    return res
