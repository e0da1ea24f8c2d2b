"""Effect rules: what a read-only operation can reach, what a constant-time one does."""
from . import core
from .paths import fnmap, where

RAW = ("-O1", "-Xclang", "-disable-llvm-passes")
IMPURE = ("__p_alloc", "__p_free", "__p_inc", "__p_dec", "__p_set_owner", "__p_owner_init", "__p_rcinit", "__p_cctor", "__p_mctor",
          "__p_vctor", "__p_cassign", "__p_massign", "__p_dtor", "_Znw", "_Zna", "_Zdl", "_Zda", "malloc", "calloc", "free",
          "realloc")


def guarded_blocks(f):
    """Blocks that run only inside a function-local static's one-time initialisation."""
    acq = {}
    for b in f["blocks"]:
        for i in b["insts"]:
            if i.get("callee") == "__cxa_guard_acquire":
                acq[i["id"]] = b["id"]
    if not acq:
        return set()
    # the edge taken when the guard says "initialise now"
    cond = {}
    inst = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
    edges = set()
    for b in f["blocks"]:
        for i in b["insts"]:
            if i["op"] == "br" and "cond" in i and "v" in i["cond"]:
                c = inst.get(i["cond"]["v"])
                flip = False
                while c and c["op"] in ("icmp", "xor", "trunc", "zext", "freeze"):
                    if c["op"] == "icmp" and c["pred"] == "eq" or c["op"] == "xor":
                        flip = not flip
                    c = inst.get(c["ops"][0].get("v"))
                if c and c["id"] in acq:
                    edges.add((b["id"], i["to"][1 if flip else 0]))
    # blocks not reachable without one of those edges
    return unreachable_without(f, edges)


def unreachable_without(f, edges):
    succ = {b["id"]: b["succs"] for b in f["blocks"]}
    seen, todo = set(), [f["blocks"][0]["id"]]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo += [s for s in succ[b] if (b, s) not in edges]
    return set(succ) - seen


def reach(fns, root, skip):
    """call edges reachable from root: {function: (caller, instruction)}"""
    via, todo = {root: None}, [root]
    while todo:
        n = todo.pop()
        f = fns.get(n)
        if not f or f["decl"]:
            continue
        dead = skip(f)
        for b in f["blocks"]:
            if b["id"] in dead:
                continue
            for i in b["insts"]:
                if i["op"] in ("call", "invoke"):
                    c = i.get("callee")
                    if c is None:
                        via.setdefault("<indirect>", (n, i))
                    elif c not in via and not i.get("intr"):
                        via[c] = (n, i)
                        todo.append(c)
    return via


def chain(via, n, fns):
    r = []
    while via.get(n):
        c, i = via[n]
        r.append("%s at %s" % (fns[n]["dem"].split("(")[0][-60:] if n in fns else n, where(i)))
        n = c
    return " <- ".join(r)


def k01(tier):
    res = core.Result()
    cfgs = [[], ["-DGCCFG"]] + ([["-std=c++20"], ["-DFEWER=false"], ["-DNDEBUG"]] if tier == "thorough" else [])
    n = edges = 0
    for cfg in cfgs:
        m = core.irdump("reads", cfg, RAW)
        fns = fnmap(m)
        cache = {}

        def skip(f):
            if f["name"] not in cache:
                cache[f["name"]] = guarded_blocks(f)
            return cache[f["name"]]
        for name in fns:
            if not name.startswith("k_"):
                continue
            n += 1
            via = reach(fns, name, skip)
            edges += len(via)
            for c in via:
                if c.startswith(IMPURE) or c == "<indirect>":
                    what = ("allocates or frees memory" if c.startswith(("__p_alloc", "__p_free", "_Z", "malloc", "calloc", "free", "realloc"))
                            else "touches a reference count" if c.startswith(("__p_inc", "__p_dec", "__p_rcinit"))
                            else "changes ownership" if "owner" in c
                            else "calls through a pointer" if c == "<indirect>"
                            else "copies, assigns or destroys an element")
                    if via[c][1] and "exception" in str(via[c][1]["loc"]) or c.startswith(("_Zdl", "_Znw")) and "std::" in chain(via, c, fns):
                        continue
                    res.add("read", where(via[c][1]), "a read-only operation %s (%s)" % (what, c), function=name[2:],
                            path=chain(via, c, fns).replace(" <- ", "\n"), key=c)
            # writes through the const argument
    res.coverage = dict(operations=n, reachable_functions=edges, configurations=len(cfgs),
                        explanation="For every read-only operation of every container, transient, box and iterator, the call "
                        "graph reachable from it (function-local static initialisation excepted) contains no allocation, "
                        "release, reference count, ownership or element construction/assignment/destruction.")
    res.floor("operations", n, 100)
    return res


# ------------------------------------------------- constant-time operations
def last_edges(f, name="__p_dec"):
    """Edges taken only when a release answered that it was the last one."""
    inst = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
    r = set()
    for b in f["blocks"]:
        for i in b["insts"]:
            if i["op"] == "br" and "cond" in i and "v" in i["cond"]:
                c, flip = inst.get(i["cond"]["v"]), False
                while c and c["op"] in ("icmp", "xor", "trunc", "zext", "freeze"):
                    if c["op"] == "icmp" and c["pred"] == "eq" or c["op"] == "xor":
                        flip = not flip
                    c = inst.get(c["ops"][0].get("v"))
                if c and c.get("callee") == name:
                    r.add((b["id"], i["to"][1 if flip else 0]))
    return r


def cyclic(f, dead):
    """A block on a cycle among the live ones, if any."""
    succ = {b["id"]: [s for s in b["succs"] if s not in dead] for b in f["blocks"] if b["id"] not in dead}
    color = {}

    for r in succ:
        if color.get(r):
            continue
        st = [(r, iter(succ[r]))]
        color[r] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    return s
                if not color.get(s):
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                st.pop()
    return None


def k02(tier):
    res = core.Result()
    cfgs = [[], ["-DGCCFG"]] + ([["-std=c++20"], ["-DFEWER=false"], ["-DNDEBUG"]] if tier == "thorough" else [])
    n = tot = 0
    for cfg in cfgs:
        m = core.irdump("cheap", cfg, ("-O1", "-fno-unroll-loops"))
        fns = fnmap(m)
        for name in fns:
            if not name.startswith("q_"):
                continue
            n += 1
            alloc_ok = name.startswith("q_new_")

            def skip(f):
                return unreachable_without(f, last_edges(f)) | guarded_blocks(f)
            via = reach(fns, name, skip)
            tot += len(via)
            for c in via:
                f = fns.get(c)
                if f and not f["decl"]:
                    k = cyclic(f, skip(f))
                    if k is not None:
                        b = next(b for b in f["blocks"] if b["id"] == k)
                        loc = next((where(i) for i in b["insts"] if i.get("loc")), "?")
                        res.add("constant", loc, "a constant-time operation loops", function=name[2:],
                                path=chain(via, c, fns).replace(" <- ", "\n"), key=c)
                elif c.startswith(("__p_alloc", "_Znw", "malloc")):
                    res.add("constant", where(via[c][1]), "a constant-time operation allocates", function=name[2:],
                            path=chain(via, c, fns).replace(" <- ", "\n"), key=c)
                elif c.startswith(("__p_cctor", "__p_vctor", "__p_cassign")):
                    res.add("constant", where(via[c][1]), "a constant-time operation copies elements", function=name[2:],
                            path=chain(via, c, fns).replace(" <- ", "\n"), key=c)
            # recursion
            cyc = recursion(fns, name, skip)
            if cyc:
                res.add("constant", fns[cyc].get("file", "?"), "a constant-time operation recurses through %s" % fns[cyc]["dem"][:120],
                        function=name[2:], key=cyc)
    res.coverage = dict(operations=n, reachable_functions=tot, configurations=len(cfgs),
                        explanation="For every copy, move, assignment, swap, transient(), persistent() and size of every container, "
                        "the code reachable without a release answering \"last holder\" has no loop, no recursion, no allocation "
                        "and no element copy.")
    res.floor("operations", n, 60)
    return res


def recursion(fns, root, skip):
    succ = {}

    def out(n):
        if n not in succ:
            f = fns.get(n)
            succ[n] = [] if not f or f["decl"] else sorted({
                i["callee"] for b in f["blocks"] if b["id"] not in skip(f) for i in b["insts"]
                if i["op"] in ("call", "invoke") and i.get("callee") and not i.get("intr")})
        return succ[n]
    color, st = {root: 1}, [(root, iter(out(root)))]
    while st:
        n, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                return s
            if not color.get(s):
                color[s] = 1
                st.append((s, iter(out(s))))
                break
        else:
            color[n] = 2
            st.pop()
    return None


# ----------------------------------------------- what a function may write to
class Mod:
    """For each function, the places it may write, as paths from its arguments and globals."""

    def __init__(self, m):
        self.fns = fnmap(m)
        self.f = {}
        self.opaque = 0
        for n, f in self.fns.items():
            if not f["decl"]:
                self.f[n] = FnInfo(f)
        self.mod = {n: {} for n in self.f}     # root -> location
        self.ret = {n: set() for n in self.f}
        todo = True
        rounds = 0
        while todo and rounds < 40:
            todo = False
            rounds += 1
            for n in self.f:
                if self.update(n):
                    todo = True

    def roots(self, n, o, seen=None):
        """Where a pointer may come from: ('arg', i, off), ('g', name, off), ('alloca', id, off),
        ('ld', place, off) for a pointer loaded from a place, ('opaque',)."""
        fi = self.f[n]
        if "g" in o:
            return {("g", o["g"], o["off"])}
        if "v" not in o:
            return set()
        v = o["v"]
        if v in fi.args:
            return {("arg", fi.args[v], 0)}
        seen = seen or frozenset()
        if v in seen:
            return set()
        seen = seen | {v}
        i = fi.inst.get(v)
        if i is None:
            return set()
        op = i["op"]
        if op == "alloca":
            return {("alloca", v, 0)}
        if op == "getelementptr":
            return {shift(r, i.get("off")) for r in self.roots(n, i["ops"][0], seen)}
        if op in ("bitcast", "freeze", "addrspacecast", "extractvalue"):
            return self.roots(n, i["ops"][0], seen)
        if op == "phi":
            return set().union(*[self.roots(n, x, seen) for x, _ in i["in"]]) if i["in"] else set()
        if op == "select":
            return self.roots(n, i["ops"][1], seen) | self.roots(n, i["ops"][2], seen)
        if op == "load":
            return self.contents(n, self.roots(n, i["ops"][0], seen), seen)
        if op in ("call", "invoke"):
            c = i.get("callee")
            if c in self.f:
                r = set()
                for x in self.ret[c]:
                    r |= self.subst(n, x, i, seen)
                return r
            return {("opaque",)}
        if op in ("inttoptr", "add", "sub", "and", "or", "insertvalue"):
            r = set()
            for x in i["ops"]:
                r |= self.roots(n, x, seen)
            return r
        return set()

    def contents(self, n, rs, seen):
        out = set()
        for s in rs:
            if s[0] == "alloca":
                st = [o for off, o in self.f[n].stored.get(s[1], []) if off is None or s[2] is None or off == s[2]]
                if not st:
                    out.add(("opaque",))
                for o in st:
                    if o.get("v") not in seen:
                        out |= self.roots(n, o, seen)
            elif s[0] in ("arg", "g"):
                out.add(("ld", s, 0))
            elif s[0] == "ld":
                out.add(("ld", s, 0) if nest(s) < 3 else shift(s, None))
            else:
                out.add(("opaque",))
        return out

    def subst(self, n, root, i, seen=None):
        seen = seen or frozenset()
        if root[0] == "arg":
            if root[1] >= len(i["ops"]):
                return set()
            return {shift(r, root[2]) for r in self.roots(n, i["ops"][root[1]], seen)}
        if root[0] == "ld":
            return {shift(r, root[2]) for r in self.contents(n, self.subst(n, root[1], i, seen), seen)}
        return {root}

    def update(self, n):
        fi, changed = self.f[n], False

        def put(r, loc):
            nonlocal changed
            if r[0] in ("arg", "ld", "g") and r not in self.mod[n]:
                self.mod[n][r] = loc
                changed = True
        for i in fi.all:
            op = i["op"]
            if getattr(self, "skip", False) and self.atomic(i):
                continue
            if op == "store":
                for r in self.roots(n, i["ops"][1]):
                    put(r, where(i))
            elif op in ("atomicrmw", "cmpxchg"):
                for r in self.roots(n, i["ops"][0]):
                    put(r, where(i))
            elif op in ("call", "invoke"):
                c = i.get("callee") or ""
                if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    for r in self.roots(n, i["ops"][0]):
                        put(r, where(i))
                elif c in self.f:
                    for x, loc in list(self.mod[c].items()):
                        for r in self.subst(n, x, i):
                            put(r, loc)
            elif op == "ret" and i["ops"]:
                for r in self.roots(n, i["ops"][0]):
                    if r[0] in ("arg", "ld", "g", "opaque") and r not in self.ret[n]:
                        self.ret[n].add(r)
                        changed = True
        return changed


def shift(r, off):
    if r[0] == "opaque" or off == 0:
        return r
    if off is None or r[2] is None or abs(r[2] + off) > 4096:
        return r[:2] + (None,)
    return r[:2] + (r[2] + off,)


def nest(r):
    return 1 + nest(r[1]) if r[0] == "ld" else 0


def owner(r):
    while r[0] == "ld":
        r = r[1]
    return r


class FnInfo:
    def __init__(self, f):
        dead = guarded_blocks(f)
        self.inst = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
        self.all = [i for b in f["blocks"] if b["id"] not in dead for i in b["insts"]]
        self.args = {a["id"]: k for k, a in enumerate(f["args"])}
        self.stored = {}
        for i in self.inst.values():
            if i["op"] == "store":
                v, off = i["ops"][1].get("v"), 0
                while v in self.inst and self.inst[v]["op"] in ("getelementptr", "bitcast"):
                    if self.inst[v]["op"] == "getelementptr":
                        o = self.inst[v].get("off")
                        off = None if o is None or off is None else off + o
                    v = self.inst[v]["ops"][0].get("v")
                if v in self.inst and self.inst[v]["op"] == "alloca":
                    self.stored.setdefault(v, []).append((off, i["ops"][0]))


WRITES = {"deref": {0}, "begin": {1}, "end": {1}, "next": {0}, "prev": {0}, "plus": {0}}


def k03(tier):
    res = core.Result()
    cfgs = [[], ["-DGCCFG"]] + ([["-std=c++20"], ["-DFEWER=false"], ["-DNDEBUG"]] if tier == "thorough" else [])
    n = fs = 0
    for cfg in cfgs:
        m = core.irdump("reads", cfg, ("-O1", "-fno-inline"))
        mod = Mod(m)
        fs += len(mod.f)
        for name in mod.f:
            if not name.startswith("k_"):
                continue
            n += 1
            ok = WRITES.get(name.rsplit("_", 1)[1], set())
            for r, loc in mod.mod[name].items():
                if r[0] == "arg" and r[1] in ok:
                    continue
                what = ("a global variable (%s)" % r[1] if r[0] == "g" else
                        "the value it was called on" if r[0] == "arg" else "storage reached through the value it was called on")
                res.add("const-write", loc, "a read-only operation writes to " + what, function=name[2:], key=repr(r))
    res.coverage = dict(operations=n, functions_summarised=fs, configurations=len(cfgs),
                        explanation="For every read-only operation, an interprocedural summary of the memory it may write, as "
                        "paths from its arguments and globals: nothing but local variables, the iterator it advances, or the "
                        "iterator it returns. Function-local static initialisation (which the language synchronises) is excepted.")
    res.assumptions = ["pointers returned by opaque callbacks or read from temporaries built by non-inlined constructors are not tracked"]
    res.floor("operations", n, 100)
    return res


# ------------------------------------------------------- hidden shared state
class Plains(Mod):
    """Like Mod, for stores that are not atomic only."""

    def atomic(self, i):
        return i["op"] in ("atomicrmw", "cmpxchg") or i["op"] == "store" and i.get("ord")

    def __init__(self, m):
        self.skip = True
        Mod.__init__(self, m)


def running(mod):
    """Functions that run outside the one-time initialisation of static objects."""
    once = ("__cxx_global_var_init", "_GLOBAL__sub_I")
    called, edges = set(), {}
    for n, fi in mod.f.items():
        for i in fi.inst.values():
            if i["op"] in ("call", "invoke") and i.get("callee") in mod.f:
                if i["callee"] != n:
                    called.add(i["callee"])
        edges[n] = {i["callee"] for i in fi.all if i["op"] in ("call", "invoke") and i.get("callee") in mod.f}
    live = set()
    todo = [n for n in mod.f if n not in called and not n.startswith(once)]
    while todo:
        n = todo.pop()
        if n not in live:
            live.add(n)
            todo += edges[n]
    return live


def a04(tier):
    res = core.Result()
    cfgs = [("defaults", ["-DIMMER_HAS_LIBGC=1"]), ("heaps", ["-DIMMER_HAS_LIBGC=1"]), ("reads", []), ("reads", ["-DGCCFG"]), ("atom", [])]
    if tier == "thorough":
        cfgs += [("defaults", ["-DIMMER_HAS_LIBGC=1", f]) for f in ("-DNDEBUG", "-std=c++14", "-std=c++20", "-DIMMER_NO_FREE_LIST=1")]
        cfgs += [(d, [g] if g else []) for d in ("vector", "flex", "champ_set", "champ_map", "champ_table", "array", "box")
                 for g in (None, "-DGCCFG")]
    fs = gs = ws = 0
    for d, cfg in cfgs:
        m = core.irdump(d, cfg, ("-O1", "-fno-inline"))
        glob = {g["name"]: g for g in m["globals"] if not g["decl"] and not g["const"] and not g["name"].startswith(("_ZGV", ".str", "llvm.", "_ZTI", "_ZTS", "_ZTV"))}
        gs += len(glob)
        mod = Plains(m)
        fs += len(mod.f)
        atom = {}
        live = running(mod)
        for n in mod.f:
            for i in mod.f[n].all:
                if i["op"] in ("atomicrmw", "cmpxchg"):
                    for r in mod.roots(n, i["ops"][0]):
                        if r[0] == "g":
                            atom.setdefault((r[1], r[2]), where(i))
        for n in mod.f:
            dem = mod.fns[n]["dem"]
            if n not in live:
                continue
            for r, loc in mod.mod[n].items():
                if r[0] != "g" or r[1] not in glob:
                    continue
                ws += 1
                g = glob[r[1]]
                if g["tls"] or "unsafe_free_list_storage" in g["dem"]:
                    continue
                res.add("shared", loc, "an operation writes, without an atomic operation, to %s, which all values share" % g["dem"][:100],
                        function=dem[:100], key=g["dem"])
            for i in mod.f[n].all:
                if i["op"] == "load" and not i.get("ord"):
                    for r in mod.roots(n, i["ops"][0]):
                        if r[0] == "g" and (r[1], r[2]) in atom and not glob.get(r[1], {}).get("tls"):
                            res.add("shared", where(i), "static storage that is changed atomically elsewhere is read without an atomic operation",
                                    function=dem[:100], key=r[1])
    res.coverage = dict(functions=fs, mutable_static_objects=gs, writes_to_static_storage=ws, configurations=len(cfgs),
                        explanation="Every store reachable in any operation whose address is an object with static storage duration, by an "
                        "interprocedural summary: only thread-local objects, atomic accesses, and initialisation that the language "
                        "synchronises are accepted (the heaps named unsafe are documented as such and excepted).")
    res.floor("functions", fs, 500)
    res.floor("objects with static storage", gs, 10)
    return res
