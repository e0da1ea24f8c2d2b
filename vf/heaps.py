"""Heap adaptors: what they ask of the heap below, and their free lists."""
from . import core
from .paths import Walker, base, fnmap, cmp, padd, ACQ, REL

INF = 1 << 62
ALIGN = 16
LIMIT = 4   # the drivers' lists


class W(Walker):
    def step(self, p, f, b, i, n):
        if (i.get("callee") or "").startswith("llvm.threadlocal.address"):
            p.regs[i["id"]] = self.val(p, i["ops"][0])
            return None
        if i["op"] == "load" and i["ops"][0].get("g", "").startswith("_ZGV"):
            p.regs[i["id"]] = ("c", 1)
            return None
        if i.get("callee") == "__cxa_guard_acquire":
            p.regs[i["id"]] = ("c", 0)
            if i["op"] == "invoke":
                e = self.enter(p, f, i["normal"], b)
                return [e] if e else []
            return None
        return Walker.step(self, p, f, b, i, n)


def affine(e):
    """(coefficient of the requested size, constant), or None"""
    if e[0] == "c":
        return 0, e[1]
    if e == ("arg", 0):
        return 1, 0
    if e[0] == "op" and e[1] in ("add", "sub"):
        a, b = affine(e[2]), affine(e[3])
        if a and b:
            s = 1 if e[1] == "add" else -1
            return a[0] + s * b[0], a[1] + s * b[1]
    if e[0] == "op" and e[1] == "or" and e[3][0] == "c":
        return None
    return None


def interval(p, what):
    """The values `what` can have on a path, from its comparisons with constants."""
    lo, hi = 0, INF
    for f, t in p.facts.items():
        if f[0] != "cmp" or f[3][0] != "c" or f[3][1] < 0:
            continue
        k = 0
        if f[2] != what:
            if what == ("arg", 0):
                a = affine(f[2])
                if not a or a[0] != 1:
                    continue
                k = a[1]
            else:
                continue
        c = f[3][1] - k
        op = f[1]
        if not t:
            op = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}.get(op)
        if k < 0 and op in ("ult", "ule"):      # n - k < c wraps below k
            lo = max(lo, -k)
        if k > 0 and op in ("ugt", "uge"):
            pass
        if op == "eq":
            lo, hi = max(lo, c), min(hi, c)
        elif op == "ult":
            hi = min(hi, c - 1)
        elif op == "ule":
            hi = min(hi, c)
        elif op == "ugt":
            lo = max(lo, c + 1)
        elif op == "uge":
            lo = max(lo, c)
    return lo, hi


def glob(e):
    r, off = base(e)
    return r[1] if r[0] == "g" else None


def won(p, e):
    return p.truth(("xv", e.a[3], (1,))) is True or p.truth(cmp("eq", ("xv", e.a[3], (0,)), e.a[1])) is True


def heads(p):
    """Pointer-valued global locations the path reads."""
    r = {}
    for e in p.ev:
        if e.k == "load" and glob(e.a[0]) and (e.i.get("ty") == "ptr" or e.a[2]):
            r.setdefault(e.a[1], e.a[0])
        if e.k == "rmw" and e.a[0] == "xchg" and glob(e.a[1]):
            r.setdefault(e.a[3], e.a[1])
        if e.k == "cas" and glob(e.a[0]):
            r.setdefault(("xv", e.a[3], (0,)), e.a[0])
    return r


class Alloc:
    """How one path of an allocation obtains its block."""

    def __init__(self, p, acq):
        self.p, self.n = p, interval(p, ("arg", 0))
        self.root, self.off = base(p.out[1])
        self.ev = next((e for e in p.ev if e.k == "call" and e.a[2] == self.root), None)
        self.kind = "base" if self.ev and self.ev.a[0] in acq else None
        self.list = None
        if not self.kind:
            L = heads(p).get(self.root)
            if L is not None:
                self.kind, self.list = "pop", L


def judge(res, m, w, tag, name, acq, rel, size_of, stat):
    """Pair the allocation paths of one adaptor with its release paths."""
    fns = w.fns
    D = "immer/heap"

    def bad(msg, e=None, fn=name, key=""):
        res.add("heap", e.loc if e is not None else D, msg, function=fn, key=key)
    an, fn = "a%s_%s" % (tag, name), "f%s_%s" % (tag, name)
    A = []
    for p in w.run(an):
        if p.out[0] != "ret":
            continue
        stat["paths"] += 1
        last = p.ev[-1] if p.ev else None
        x = Alloc(p, acq)
        if x.kind is None or x.off is None:
            bad("an allocation returns something other than a block taken from the heap below or from its list", last)
            continue
        if p.truth(cmp("eq", x.root, ("c", 0))) is not False and (x.kind == "pop" or x.ev.a[0] in ("malloc", "GC_malloc", "GC_malloc_atomic")):
            bad("an allocation may return null", last)
        if x.off % ALIGN:
            bad("an allocation returns a block %d bytes after the one it obtained: no longer aligned for every type" % x.off, last)
        if x.kind == "base":
            got = [e for e in p.ev if e.k == "call" and e.a[0] in acq]
            if len(got) != 1:
                bad("one allocation takes %d blocks from the heap below" % len(got), got[-1])
            sz = affine(size_of(x.ev))
            x.size = sz
            if sz is None:
                bad("the size requested is not the size asked for plus a constant", x.ev)
            elif name == "opnew":
                pass
            elif sz[0] == 1 and sz[1] < x.off or sz[0] not in (0, 1):
                bad("the block requested is smaller than what is handed out of it", x.ev)
            elif sz[0] == 0 and x.n[1] < INF and x.off + x.n[1] > sz[1]:
                bad("for %d bytes, a block of only %d is requested and %d of it are handed out" % (x.n[1], sz[1], sz[1] - x.off), x.ev)
        else:
            pop(bad, m, w, p, x)
        A.append(x)
    F = []
    for p in w.run(fn):
        if p.out[0] != "ret":
            continue
        stat["paths"] += 1
        ptr = ("arg", 0) if name == "opnew" else ("arg", 1)
        last = p.ev[-1] if p.ev else None
        frees = [e for e in p.ev if e.k == "call" and e.a[0] in rel]
        pushes = push(bad, m, w, p, ptr)
        n = interval(p, ("arg", 0)) if name != "opnew" else (0, INF)
        if len(frees) + len(pushes) != 1:
            bad("a release returns its block %d times" % (len(frees) + len(pushes)), last, fn)
            continue
        for e in frees:
            args = rel[e.a[0]](e.a[1])
            r, off = base(args["ptr"])
            if r != ptr or off is None:
                bad("a release passes on a pointer that is not its block's", e)
                continue
            F.append((n, "base", off, args, e))
            stat["blocks"] += 1
        for L, off, e in pushes:
            F.append((n, "list", off, L, e))
            stat["blocks"] += 1
    if not A or not F:
        bad("no path allocates or releases")
    for x in A:
        stat["pairs"] += 1
        hit = False
        for n, kind, off, args, e in F:
            lo, hi = max(n[0], x.n[0]), min(n[1], x.n[1])
            if lo > hi:
                continue
            hit = True
            if x.kind == "base" and kind == "base":
                a = x.ev.a[1]
                ours = dict(acq[x.ev.a[0]](a))
                for k in ours:
                    u, v = ours[k], args.get(k)
                    if v is None:
                        continue
                    if k == "size":
                        u, v = affine(u), affine(v)
                    if u != v:
                        bad("for %d bytes, a block is obtained with %s and returned with %s" % (lo, show(k, u), show(k, v)), e)
                if off != -x.off:
                    bad("a block is handed out %d bytes after its start and returned %d bytes before what is given back" % (x.off, -off), e)
            elif x.kind == "pop" and kind == "list" and glob(x.list) == glob(args) and off != -x.off:
                bad("a block from the list is handed out %+d and put back %+d" % (x.off, off), e)
            elif x.kind == "pop" and kind == "base" and off > 0:
                bad("a block is returned from within", e)
        if not hit:
            bad("blocks allocated on some path (%d..%d bytes) are never released" % x.n, x.ev)
    return A, F


def show(k, v):
    if k == "size":
        return "unknown size" if v is None else "size %s%d" % ("n + " if v[0] else "", v[1])
    if k == "heap":
        return "heap " + str(v[1] if v[0] == "c" else v)
    return "%s %s" % (k, v)


def tls(m, g):
    return next((x["tls"] for x in m["globals"] if x["name"] == g), False)


def counts(p, g, L):
    """Net change of the list's count on the path (None: unknown)."""
    d = 0
    for e in p.ev:
        if e.k == "rmw" and glob(e.a[1]) == g and e.a[1] != L:
            if e.a[0] not in ("add", "sub") or e.a[2][0] != "c":
                return None
            d += e.a[2][1] if e.a[0] == "add" else -e.a[2][1]
    for a, v in p.mem.items():
        if glob(a) == g and a != L and not g.startswith("_ZGV"):
            if v == ("ld", a, v[2] if len(v) > 2 else 0):
                continue
            if v[0] == "op" and v[1] in ("add", "sub") and v[2][0] == "ld" and v[2][1] == a and v[3][0] == "c":
                d += v[3][1] if v[1] == "add" else -v[3][1]
            elif v[0] != "ald":
                return None
    return d


def races(bad, m, p, g, name):
    if name.startswith("u") or tls(m, g):
        return
    for e in p.ev:
        if e.k in ("load", "store") and glob(e.a[0]) == g and not e.a[2]:
            bad("the list shared between threads is accessed without an atomic operation", e)


def pop(bad, m, w, p, x):
    L, r = x.list, x.root
    g = glob(L)
    cas = [e for e in p.ev if e.k == "cas" and e.a[0] == L and won(p, e)]
    last = p.ev[-1]
    whole = [e for e in p.ev if e.k == "rmw" and e.a[0] == "xchg" and e.a[1] == L and e.a[3] == r]
    if whole:
        # the whole list was taken: whatever follows the first block must be put back
        e = whole[0]
        if e.a[2] != ("c", 0) and e.a[2] != ("k", "null"):
            bad("taking the list does not leave it empty", e)
        if e.a[4] not in ACQ:
            bad("a block is taken from the list without acquiring what its last owner wrote", e)
        rest = {v.a[1]: base(v.a[0])[1] for v in p.ev if v.k == "load" and base(v.a[0])[0] == r}
        if any(p.truth(cmp("eq", v, ("c", 0))) is True for v in rest):
            pass
        else:
            back = [c for c in cas if c.a[2] in rest]
            if len(back) != 1:
                bad("the rest of the list is put back %s" % ("twice" if back else "nowhere"), last)
            else:
                c, exp = back[0], back[0].a[1]
                i = p.ev.index(c)
                link = [s for s in p.ev[:i] if s.k == "store" and s.a[1] == exp and derives(s.a[0], c.a[2])]
                if exp not in (("c", 0), ("k", "null")) and not link:
                    bad("what was put on the list meanwhile is lost when the rest is put back", c)
                if link and p.truth(cmp("eq", before(p, link[-1]), ("c", 0))) is not True and p.truth(
                        cmp("eq", ("ld", link[-1].a[0], 0), ("c", 0))) is not True:
                    bad("putting the rest back overwrites the link of a block that is not the last", link[-1])
                if c.a[4] not in REL:
                    bad("the rest of the list is put back without releasing it", c)
    elif r[0] == "ald" or cas:
        if len(cas) != 1:
            bad("a block is taken from the list %s a successful exchange of its head" % ("by more than" if cas else "without"), last)
            return
        c = cas[0]
        if c.a[1] != r:
            bad("the block handed out is not the one removed from the list", c)
        new = c.a[2]
        x.next = None
        if new[0] == "ld" and base(new[1])[0] == r:
            x.next = base(new[1])[1]
            bad("removing a block from the shared list installs the successor that was read before the exchange: when the block was "
                "taken, used and put back meanwhile, the list gets a stale successor", c, key="aba")
        else:
            bad("removing a block does not make its successor the head of the list", c)
        if c.a[4] not in ACQ:
            bad("a block is taken from the list without acquiring what its last owner wrote", c)
    else:
        new = p.mem.get(L)
        if not (new and new[0] == "ld" and base(new[1])[0] == r):
            bad("removing a block does not make its successor the head of the list", last)
        else:
            x.next = base(new[1])[1]
    if counts(p, g, L) not in (-1,):
        bad("taking a block from the list does not lower its count by one", last)
    races(bad, m, p, g, w.current)


def derives(a, v):
    """`a` is in the block `v` points to, or in one that follows it."""
    while True:
        b = base(a)[0]
        if b == v:
            return True
        if b[0] != "ld":
            return False
        a = b[1]


def before(p, st):
    """What the place that a store writes to held before."""
    v = ("c", 1)
    for e in p.ev:
        if e is st:
            return v
        if e.k in ("load", "store") and e.a[0] == st.a[0]:
            v = e.a[1]
    return v


def push(bad, m, w, p, ptr):
    """Blocks put on a list: (head, offset, event)"""
    r = []
    for e in p.ev:
        if e.k == "cas" and glob(e.a[0]) and won(p, e) and base(e.a[2])[0] == ptr:
            r.append((e.a[0], base(e.a[2])[1], e))
            nxt = [s for s in p.ev[:p.ev.index(e)] if s.k == "store" and base(s.a[0])[0] == ptr]
            exp = {e.a[1]}
            if not nxt or nxt[-1].a[1] not in exp and p.truth(cmp("eq", nxt[-1].a[1], e.a[1])) is not True:
                bad("a block is put on the list without linking it to the head that it replaces", e)
            if e.a[4] not in REL:
                bad("a block is put on the list without releasing what its last owner wrote", e)
        elif e.k == "store" and glob(e.a[0]) and base(e.a[1])[0] == ptr:
            L = e.a[0]
            if e.a[2]:
                bad("the head of the shared list is overwritten instead of exchanged: a concurrent change is lost", e)
            r.append((L, base(e.a[1])[1], e))
            old = next((s.a[1] for s in p.ev if s.k == "load" and s.a[0] == L), None)
            nxt = [s for s in p.ev if s.k == "store" and base(s.a[0])[0] == ptr]
            if old is None or not nxt or nxt[-1].a[1] != old:
                bad("a block is put on the list without linking it to the head that it replaces", e)
    for L, off, e in r:
        g = glob(L)
        if counts(p, g, L) != 1:
            bad("putting a block on the list does not raise its count by one", e)
        lim = [interval(p, x.a[1])[1] for x in p.ev if x.k == "load" and glob(x.a[0]) == g and x.a[0] != L]
        if not lim or min(lim) > LIMIT - 1:
            bad("blocks are kept beyond the list's limit", e)
        races(bad, m, p, g, w.current)
    return r


def m01(tier):
    res = core.Result()
    cfgs = [[], ["-DNDEBUG"]] + ([["-std=c++14"], ["-std=c++20"]] if tier == "thorough" else [])
    stat = dict(adaptors=0, paths=0, pairs=0, blocks=0)
    acq = {"__p_balloc": lambda a: dict(heap=a[0], size=a[1], references=a[2])}
    rel = {"__p_bfree": lambda a: dict(heap=a[0], size=a[1], ptr=a[2], references=a[3])}
    for cfg in cfgs:
        m = core.irdump("heaps", ["-DIMMER_HAS_LIBGC=1"] + cfg)
        w = W(m, visits=2)
        for f in sorted(w.fns):
            if not f.startswith(("a_", "at_")) or w.fns[f]["decl"]:
                continue
            tag, name = f.split("_", 1)
            tag = tag[1:]
            w.current = name
            stat["adaptors"] += 1
            if name in ("malloc", "cpp", "gc"):
                A = {"malloc": {"malloc": 1}, "cpp": {"_Znwm": 1},
                     "gc": {"GC_malloc": 1} if not tag else {"GC_malloc_atomic": 1}}[name]
                F = {"malloc": ("free",), "cpp": ("_ZdlPv", "_ZdlPvm"), "gc": ("GC_free",)}[name]
                a2 = {k: (lambda a: dict(size=a[0])) for k in A}
                f2 = {k: (lambda a: dict(ptr=a[0], **({"size": a[1]} if len(a) > 1 else {}))) for k in F}
                judge(res, m, w, tag, name, a2, f2, lambda e: e.a[1][0], stat)
            else:
                judge(res, m, w, tag, name, acq, rel, lambda e: e.a[1][1], stat)
        clear(res, m)
    res.coverage = dict(stat, configurations=len(cfgs),
                        explanation="Every path of every heap adaptor's allocate is paired with every path of its deallocate that serves an "
                        "overlapping range of sizes: same heap below, same size, same offset, kind of contents preserved, block large enough "
                        "and aligned; free lists link, unlink, count and limit correctly, shared ones with atomic exchanges in the right order.")
    res.assumptions = ["heaps below return blocks aligned for max_align_t"]
    res.floor("adaptors", stat["adaptors"], 20)
    res.floor("pairs", stat["pairs"], 20)
    return res


def clear(res, m):
    for f in ("c_ufl", "c_tfl"):
        w = W(m, visits=4)
        for p in w.run(f):
            if p.out[0] != "ret":
                continue
            gone = {}
            for e in p.ev:
                if e.k == "call" and e.a[0] == "__p_bfree":
                    if e.a[1][2] in gone:
                        res.add("heap", e.loc, "emptying the list releases a block twice", function=f)
                    gone[e.a[1][2]] = e
                    if e.a[1][1] != ("c", 64 + ALIGN) and affine(e.a[1][1]) is not None:
                        want = {x for x in sizes(m)}
                        if e.a[1][1] not in want:
                            res.add("heap", e.loc, "emptying the list returns blocks with another size than they were requested with", function=f)
                if e.k == "load" and base(e.a[0])[0] in gone:
                    res.add("heap", e.loc, "emptying the list reads a block after releasing it", function=f)
            L = next((e.a[0] for e in p.ev if e.k == "load" and glob(e.a[0]) and e.i.get("ty") == "ptr"), None)
            if L is None or p.truth(cmp("eq", p.mem.get(L, ("ld", L, 0)), ("c", 0))) is not True:
                res.add("heap", "immer/heap/unsafe_free_list_heap.hpp", "emptying the list leaves blocks on it", function=f)
            n = len(gone)
            if L is not None:
                vals = {e.a[1] for e in p.ev if e.k == "load" and e.a[0] == L}
                if gone and not all(v in vals or v == ("ld", L, 0) or v[0] == "ld" for v in gone):
                    res.add("heap", "immer/heap/unsafe_free_list_heap.hpp", "emptying the list releases something that was not on it", function=f)


def sizes(m):
    w = W(m, visits=2)
    return {e.a[1][1] for f in ("a_ufl_list", "a_tfl_list") for p in w.run(f) for e in p.ev if e.k == "call" and e.a[0] == "__p_balloc"}
