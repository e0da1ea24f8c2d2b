"""Properties decided by the ownership analysis (tools/own.cc)."""
import re
from . import core, tokens

OPTS = {"champ_map": ["-stride-T=64", "-stride-U=64"],
        "vector": ["-max-states=40000", "-releasers"],
        "flex": ["-max-states=40000", "-releasers"]}
# operations whose bookkeeping is out of reach (see DESIGN.md)
LEFT_OUT = {"vector": ["-DNOSLICE"], "flex": ["-DNOSLICE"]}
PARTS = {
    "hash": ["champ_set", "champ_map", "champ_table"],
    "array": ["array", "box"],
    "vector": ["vector", "flex"],
}
GC = "-DGCCFG"
TOKENS = {"hash": "set|map|tab", "array": "arr", "vector": "vec|flex"}
CONFIGS = {
    "quick": [[], ["-DPROBE_THROWING_MOVE"], ["-DFEWER=false"], [GC]],
    "thorough": [[], ["-DPROBE_THROWING_MOVE"], [GC], ["-DFEWER=false"],
                 ["-DFEWER=false", "-DPROBE_THROWING_MOVE"], ["-std=c++14"], ["-std=c++20"],
                 ["-std=c++14", GC], ["-DFEWER=false", GC]],
}
# rules whose reading needs reference counts to be real events
COUNTED = {"leak", "overrelease", "doublefree"}

EXPLAIN = (
    "Path-sensitive ownership analysis over the compiler's IR of the templates, instantiated "
    "through the public API with opaque policies (heap, reference count, transience tokens, "
    "element and callback operations are undefined functions, so each remains a visible event). "
    "Every path of every driver and every recursive function is followed, with each opaque call "
    "that may throw also taken as throwing; loops are summed, recursion is resolved by function "
    "summaries to a fixpoint. ")


def runs(part, tier, only=None):
    names = PARTS[part] if isinstance(part, str) else [n for p in part for n in PARTS[p]]
    # without reference counts, what makes a tree node writable is its token alone (T01)
    jobs = [(n, c) for n in names for c in CONFIGS[tier] if not (GC in c and n in LEFT_OUT)]
    if only:
        jobs = [j for j in jobs if only(j[1])]
    core.tools()
    return jobs, core.pmap(lambda j: core.own(j[0], j[1] + LEFT_OUT.get(j[0], []), OPTS.get(j[0], [])), jobs)


def noline(s):
    return re.sub(r":\d+", "", s)


def collect(part, tier, rules, when=None, only=None):
    res = core.Result()
    jobs, reps = runs(part, tier, only)
    tot = dict(drivers=0, recursive_functions=0, states=0, paths_normal=0, paths_unwinding=0,
               ownership_events=0, stores_judged=0, stores_to_existing_nodes_guarded=0,
               functions_not_resolved=0, paths_discarded=0, loops_summed=0)
    for (n, cfg), d in zip(jobs, reps):
        for f in d["functions"]:
            tot["drivers" if f["driver"] else "recursive_functions"] += 1
            tot["states"] += f["states"]
            tot["paths_normal"] += f["exits"] - f["unwinds"]
            tot["paths_unwinding"] += f["unwinds"]
            tot["ownership_events"] += f["events"]
            tot["stores_judged"] += f["stores"]
            tot["stores_to_existing_nodes_guarded"] += f["guarded"]
            tot["functions_not_resolved"] += bool(f["unresolved"])
            tot["paths_discarded"] += f["tainted"]
            tot["loops_summed"] += f["loops"]
        for v in d["violations"]:
            if v["rule"] not in rules:
                continue
            if GC in cfg and v["rule"] in COUNTED:
                continue
            thrown = "exception raised at" in v["msg"]
            if when is not None and not when(thrown):
                continue
            where = core.rel(v["loc"])
            res.add(v["rule"], where, v["msg"], function=v["fn"] + " [" + n + " " + " ".join(cfg) + "]",
                    path=v["trace"], key=noline(v["msg"].split("exception raised at")[-1]) if thrown else "")
    res.coverage = dict(tot, translation_units=len(jobs),
                        explanation=EXPLAIN + "Rules applied here: " + ", ".join(sorted(rules)) + ".")
    res.assumptions = [
        "reference counts behave as counters (decided separately on the real policy)",
        "element destructors, hash/equality objects' destructors and deallocation do not throw",
        "assertions in the source hold (they are used as path facts)",
        "paths listed as discarded met arithmetic the analysis does not model and are not judged",
    ]
    # one report per construct, whatever the configurations
    seen, out = set(), []
    for v in res.violations:
        k = (v["rule"], v["where"].split(" <- ")[0], v["key"])
        if k not in seen:
            seen.add(k)
            out.append(v)
    res.violations = out
    return res, tot


def persistence(part, floor):
    def run(tier):
        res, t = collect(part, tier, {"write"})
        # with ownership tokens, a handle that keeps a token others know would write into shared nodes
        tk = tokens.t01(tier)
        for v in tk.violations:
            if v["rule"] == "policy" or re.search(r"(^|_)(%s)_" % TOKENS[part], v["function"]):
                res.violations.append(v)
        res.coverage["operations_judged_for_tokens"] = tk.coverage["operations"]
        res.floor("stores judged", t["stores_judged"], floor)
        res.floor("guarded stores to existing nodes", t["stores_to_existing_nodes_guarded"], floor // 20)
        return res
    return run


def conservation(part, floor):
    def run(tier):
        res, t = collect(part, tier, {"leak", "overrelease", "doublefree", "uaf", "null"}, lambda th: not th)
        res.floor("normal paths", t["paths_normal"], floor)
        return res
    return run


def exceptions(part, floor):
    def run(tier):
        res, t = collect(part, tier, {"leak", "overrelease", "doublefree", "uaf", "null"}, lambda th: th)
        res.floor("unwinding paths", t["paths_unwinding"], floor)
        return res
    return run


def sizes(parts, floor):
    def run(tier):
        res, t = collect(parts, tier, {"size"})
        res.floor("ownership events", t["ownership_events"], floor)
        return res
    return run


def propagate(parts, floor):
    def run(tier):
        res, t = collect(parts, tier, {"swallow", "terminate"})
        res.floor("unwinding paths", t["paths_unwinding"], floor)
        return res
    return run
