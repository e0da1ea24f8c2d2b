"""Rules on what operations answer: which comparisons and callbacks decide it."""
import itertools
import re
from . import core
from .paths import Walker, Path, Ev, base, boolean, cmp, fnmap, fold, neg, padd, where, width, Budget


def mask(e, m):
    """e & m, for values put together from flags"""
    if m == 0:
        return ("c", 0)
    if e[0] == "c":
        return ("c", e[1] & m)
    if e[0] == "cmp":
        return e if m & 1 else ("c", 0)
    if e[0] == "op" and e[1] in ("or", "xor"):
        return either(e[1], mask(e[2], m), mask(e[3], m))
    if e[0] == "op" and e[1] == "and" and e[3][0] == "c":
        return mask(e[2], m & e[3][1])
    if e[0] == "op" and e[1] == "shl" and e[3][0] == "c":
        return shl(mask(e[2], m >> e[3][1]), e[3][1])
    return ("op", "and", e, ("c", m))


def either(op, a, b):
    if a == ("c", 0):
        return b
    if b == ("c", 0):
        return a
    return fold(op, a, b)


def shl(e, k):
    if e[0] == "c":
        return ("c", e[1] << k)
    if e[0] == "op" and e[1] == "or":
        return either("or", shl(e[2], k), shl(e[3], k))
    return ("op", "shl", e, ("c", k)) if k else e


def shr(e, k):
    if k == 0:
        return e
    if e[0] == "c":
        return ("c", e[1] >> k)
    if e[0] == "cmp":
        return ("c", 0)
    if e[0] == "op" and e[1] == "or":
        return either("or", shr(e[2], k), shr(e[3], k))
    if e[0] == "op" and e[1] == "shl" and e[3][0] == "c" and e[3][1] >= k:
        return shl(e[2], e[3][1] - k)
    if e[0] == "op" and e[1] == "and" and e[3][0] == "c" and e[2][0] == "op":
        return mask(shr(e[2], k), e[3][1] >> k)
    return ("op", "lshr", e, ("c", k))


class Wide(Walker):
    """Loops and recursion are entered once as they are and then widened: an integer that differs from one round to the next
    becomes unknown, so a second round stands for any later one."""

    zero = ("__p_dec", "__cxa_guard_acquire")
    noise = ("__p_inc", "__p_dec", "__p_rcinit", "__p_alloc", "__p_free", "__p_unique", "__p_can_mutate", "__p_set_owner",
             "__p_owner", "llvm.", "__cxa_begin", "__cxa_end", "__cxa_rethrow", "__cxa_guard", "__clang_call_terminate", "__gxx",
             "mem", "__assert", "_ZSt9terminate", "_ZSt7abort")

    def heavy(self, name):
        """Functions that build or release storage (loops, allocation, recursion) without asking anything of the user."""
        h = self.hv.get(name)
        if h is None:
            self.hv[name] = False
            succ = lambda n: [i.get("callee") or "<indirect>" for b in self.fns[n]["blocks"] for i in b["insts"]
                              if i["op"] in ("call", "invoke")]
            seen, todo, busy, asks = set(), [name], False, False
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                if n not in self.fns or self.fns[n]["decl"]:
                    if n.startswith(("__p_alloc", "__p_free")):
                        busy = True
                    if not n.startswith(self.noise):
                        asks = True
                    continue
                f = self.fns[n]
                busy = busy or any(self.back(f, b["id"], s) for b in f["blocks"] for s in b["succs"])
                todo += succ(n)
            h = self.hv[name] = busy and not asks and not any(a["sret"] for a in self.fns[name]["args"]) and \
                self.rty.get(name, "void") in ("void", "ptr")
        return h

    def writes(self, name, k):
        return True

    def bits(self, f, o):
        if "w" in o:
            return o["w"]
        t = self.tys.get(f["name"])
        if t is None:
            t = self.tys[f["name"]] = {i["id"]: i["ty"] for b in f["blocks"] for i in b["insts"]}
            t.update({a["id"]: a["ty"] for a in f["args"]})
        return width(t.get(o.get("v"), "i64"))

    def step(self, p, f, b, i, n):
        op = i["op"]
        if op == "load" and i["ops"][0].get("g", "").startswith("_ZGV"):
            p.regs[i["id"]] = ("c", 1)
            return None
        if op == "getelementptr" and "vs" in i:
            q = padd(self.val(p, i["ops"][0]), i["vo"])
            for o, k in i["vs"]:
                v = self.val(p, o)
                q = padd(q, v[1] * k) if v[0] == "c" else ("pi", q, (v,), k)
            p.regs[i["id"]] = q
            return None
        if op in ("and", "or", "xor", "shl", "lshr", "trunc", "zext"):
            w = width(i["ty"])
            a = self.val(p, i["ops"][0])
            b2 = self.val(p, i["ops"][1]) if len(i["ops"]) > 1 else None
            r = None
            if op == "zext" and a[0] == "c" and a[1] < 0:
                r = ("c", a[1] & ((1 << self.bits(f, i["ops"][0])) - 1))
            elif op == "trunc" and a[0] == "op" and a[1] in ("and", "or", "shl", "lshr"):
                r = mask(a, (1 << w) - 1)
                if w == 1 and r[0] not in ("c", "cmp"):
                    r = cmp("ne", r, ("c", 0))
            elif op == "and" and w > 1 and b2[0] == "c":
                r = mask(a, b2[1] & ((1 << w) - 1))
            elif op == "or" and w > 1:
                r = either(op, a, b2)
            elif op == "shl" and b2[0] == "c" and a[0] in ("cmp", "op"):
                r = mask(shl(a, b2[1]), (1 << w) - 1)
            elif op == "lshr" and b2[0] == "c" and a[0] in ("cmp", "op"):
                r = shr(a, b2[1])
            if r is not None:
                p.regs[i["id"]] = r
                return None
        if op == "icmp":
            a, b2 = self.val(p, i["ops"][0]), self.val(p, i["ops"][1])
            if b2 == ("c", 0) and i["pred"] in ("eq", "ne"):
                while a[0] == "op" and a[1] == "shl" and a[2][0] == "cmp":
                    a = a[2]
                p.regs[i["id"]] = cmp(i["pred"], a, b2)
                return None
            if b2[0] == "c" and i["pred"] in ("eq", "ne") and a[0] == "op" and a[1] == "add" and a[3][0] == "c":
                p.regs[i["id"]] = cmp(i["pred"], a[2], ("c", b2[1] - a[3][1]))
                return None
        if op == "insertvalue":
            p.regs[i["id"]] = ("iv", self.val(p, i["ops"][0]), self.val(p, i["ops"][1]), tuple(i["idx"]))
            return None
        if op == "extractvalue":
            v, k = self.val(p, i["ops"][0]), tuple(i["idx"])
            while v[0] == "iv" and v[3] != k:
                v = v[1]
            p.regs[i["id"]] = v[2] if v[0] == "iv" else ("xv", v, k)
            return None
        return Walker.step(self, p, f, b, i, n)

    def enter(self, p, f, b, frm):
        r = Walker.enter(self, p, f, b, frm)
        if r and frm is not None and p.visits[(len(p.stack), f["name"], b)] > 1 and self.back(f, frm, b):
            blk = self.blk(f, b)
            for i in blk["insts"]:
                if i["op"] != "phi":
                    break
                for v, fb in i["in"]:
                    if fb == frm:
                        new, old = self.val(p, v), p.regs.get(i["id"])
                        if new[0] == "c" and old is not None and new != old and i["ty"] not in ("i1", "ptr"):
                            p.n += 1
                            p.regs[("w", i["id"])] = ("w", p.n)
        return r

    def follow(self, p, name, i):
        """Look into a call that would be opaque?"""
        return False

    def back(self, f, frm, b):
        """Does the edge close a loop (its target dominates its source)?"""
        d = self.dom.get(f["name"])
        if d is None:
            ids = [x["id"] for x in f["blocks"]]
            succ = {x["id"]: x["succs"] for x in f["blocks"]}
            d = {}
            for h in ids:   # blocks not reachable when h is removed are dominated by h
                seen, todo = {h}, [ids[0]] if h != ids[0] else []
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += succ[x]
                d[h] = set(ids) - seen | {h}
            self.dom[f["name"]] = d
        return frm in d[b]

    def blk(self, f, b):
        m = self.bm.get(f["name"])
        if m is None:
            m = self.bm[f["name"]] = {x["id"]: x for x in f["blocks"]}
        return m[b]

    def __init__(self, *a, **k):
        self.bm, self.dom, self.hv, self.tys = {}, {}, {}, {}
        Walker.__init__(self, *a, **k)
        self.rty = {}
        for f in self.fns.values():
            for b in f.get("blocks") or []:
                for i in b["insts"]:
                    if i["op"] in ("call", "invoke") and i.get("callee"):
                        self.rty[i["callee"]] = i["ty"]

    def block(self, p, f, b, prev, at):
        blk = self.blk(f, b)
        ins = blk["insts"]
        if at == 0:
            new = {}
            for i in ins:
                if i["op"] != "phi":
                    break
                for v, fb in i["in"]:
                    if fb == prev:
                        w = p.regs.pop(("w", i["id"]), None)
                        new[i["id"]] = w or self.val(p, v)
            p.regs.update(new)
        for n in range(at, len(ins)):
            r = self.step(p, f, b, ins[n], n)
            if r is not None:
                return r
        return []

    def call(self, p, f, b, i, n, loc):
        name = i.get("callee") or ""
        if name.startswith(("llvm.umin", "llvm.umax")):
            p.regs[i["id"]] = (name[5:9], self.val(p, i["ops"][0]), self.val(p, i["ops"][1]))
            return None
        if name.startswith("__p_") and i["ops"]:
            a = [self.val(p, o) for o in i["ops"]]
            p.ev.append(Ev("at", (name, tuple(self.mload(p, x, "i64") if x[0] not in ("c", "k") else None for x in a)), loc, i))
        if name in self.zero:
            p.regs[i["id"]] = ("c", 0)
            if i["op"] == "invoke":
                e = self.enter(p, f, i["normal"], b)
                return [e] if e else []
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, k = [self.val(p, o) for o in i["ops"][:3]]
            root, off = base(d)
            if k[0] == "c" and 0 <= k[1] <= 256 and off is not None:
                got = [(o, self.mload(p, padd(s, o), "i64")) for o in range(0, k[1], 8)]
                for a in list(p.mem):
                    r2, o2 = base(a)
                    if r2 == root and (o2 is None or off <= o2 < off + k[1]):
                        del p.mem[a]
                for o, v in got:
                    p.mem[padd(d, o)] = v
            else:
                for a in list(p.mem):
                    if base(a)[0] == root:
                        del p.mem[a]
            return None
        if name in self.fns and not self.fns[name]["decl"] and self.heavy(name) and not self.follow(p, name, i):
            p.n += 1
            p.regs[i["id"]] = ("call", name, p.n)
            p.epoch += 1
            for o in i["ops"]:
                root = base(self.val(p, o))[0]
                if root[0] == "alloca" and self.writes(name, i["ops"].index(o)):
                    for a in [a for a in p.mem if base(a)[0] == root]:
                        del p.mem[a]
            for a in list(p.mem):
                if base(a)[0][0] not in ("alloca", "arg") or base(a)[1] is None:
                    del p.mem[a]
            if i["op"] == "invoke":
                e = self.enter(p, f, i["normal"], b)
                return [e] if e else []
            return None
        if name in self.fns and not self.fns[name]["decl"] and self.inline(name):
            frames = [s for s in p.stack if s[1]["name"] == name]
            mine = next((r for r in [self.frame_args(p, name)] if r), None)
            if len(frames) + (f["name"] == name) >= 1 and mine:
                i = dict(i)
                ops = []
                for o, old in zip(i["ops"], mine):
                    v = self.val(p, o)
                    if v[0] == "c" and old is not None and old[0] == "c" and old != v and not o.get("null"):
                        p.n += 1
                        k = ("wa", p.n)
                        p.regs[k] = ("w", p.n)
                        o = {"v": k}
                    ops.append(o)
                i["ops"] = ops + i["ops"][len(ops):]
        return Walker.call(self, p, f, b, i, n, loc)

    def frame_args(self, p, name):
        """The arguments of the innermost activation of a function."""
        g = self.fns[name]
        for regs, f in [(p.regs, None)] + [(s[0], s[1]) for s in reversed(p.stack)]:
            v = [regs.get(a["id"]) for a in g["args"]]
            if v and all(x is not None for x in v) and (f is None or f["name"] == name):
                return v
        return None


class Sizes(Wide):
    """Follows only what is given the handle of a container; what works on nodes alone is opaque."""

    def heavy(self, name):
        return self.passive(name) or self.rty.get(name, "void") in ("void", "ptr") and not name.startswith("_ZSt")

    def handle(self, v):
        root, off = base(v)
        if root[0] == "arg":
            return True
        if root[0] != "alloca":
            return False
        return bool(self.types & set(self.aty.get(root[1:3], ())))

    def follow(self, p, name, i):
        return not self.passive(name) and any(self.handle(self.val(p, o)) for o in i["ops"])

    def writes(self, name, k, busy=()):
        """May the function write to what its k-th argument points to?"""
        if self.passive(name):
            return False
        if (name, k) in busy:
            return False
        if name not in self.fns or self.fns[name]["decl"]:
            return not name.startswith("__p_")
        if (name, k) in self.wr:
            return self.wr[name, k]
        f = self.fns[name]
        if k >= len(f["args"]):
            return True
        mine = {f["args"][k]["id"]}
        r, more = False, True
        while more and not r:
            more = False
            for i in (i for b in f["blocks"] for i in b["insts"]):
                ops = [o.get("v") for o in i["ops"]] if i["op"] != "phi" else [o.get("v") for o, _ in i["in"]]
                hit = [n for n, o in enumerate(ops) if o in mine]
                if not hit:
                    continue
                if i["op"] in ("getelementptr", "phi", "select", "bitcast"):
                    if i["id"] not in mine:
                        mine.add(i["id"])
                        more = True
                elif i["op"] in ("call", "invoke"):
                    c = i.get("callee") or "<indirect>"
                    if c.startswith(("llvm.memcpy", "llvm.memmove")):
                        r = r or 0 in hit
                    elif any(self.writes(c, n, busy + ((name, k),)) for n in hit):
                        r = True
                    if self.rty.get(c) == "ptr" and i["id"] not in mine:
                        mine.add(i["id"])
                        more = True
                elif i["op"] not in ("load", "icmp"):
                    r = True
        if not busy or r:
            self.wr[name, k] = r
        return r

    def passive(self, name):
        """Releases storage only, or only looks and decides."""
        r = self.pv.get(name)
        if r is None:
            seen, todo, out, stores, forks = set(), [name], set(), False, False
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                if n not in self.fns or self.fns[n]["decl"]:
                    out.add(n)
                    continue
                blocks = self.fns[n]["blocks"]
                forks = forks or any(len(b["succs"]) > 1 for b in blocks)
                for i in (i for b in blocks for i in b["insts"]):
                    stores = stores or i["op"] in ("store", "cmpxchg", "atomicrmw")
                    if i["op"] in ("call", "invoke"):
                        todo.append(i.get("callee") or "<indirect>")
            asks = any(n.startswith("__cxa_throw") or not n.startswith(self.noise) for n in out)
            dtor = re.search(r"D[012]Ev$", name)
            r = self.pv[name] = bool(not asks and (dtor or (forks and not stores and not any(n.startswith("mem") for n in out)
                                                               and self.rty.get(name) not in ("void", "ptr"))))
        return r

    def __init__(self, m, *a, **k):
        self.pv, self.wr = {}, {}
        Wide.__init__(self, m, *a, **k)
        self.aty = {(f["name"], i["id"]): i["aty"] for f in self.fns.values() for b in f.get("blocks") or []
                    for i in b["insts"] if i["op"] == "alloca"}
        self.types = {t for k, v in self.aty.items() if k[0].startswith("q_") for t in v}


def cut(w, p):
    """Was this path abandoned inside a call that is followed only so deep?"""
    return any(e.k == "call" and e.a[0] in w.fns and not w.fns[e.a[0]]["decl"] for e in p.ev)


def difference(p, a, b):
    """b - a when it is a constant on this path."""
    def lin(e):
        if e[0] == "c":
            return {}, e[1]
        if e[0] == "op" and e[1] in ("add", "sub"):
            (x, c), (y, d) = lin(e[2]), lin(e[3])
            s = 1 if e[1] == "add" else -1
            r = dict(x)
            for k, v in y.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}, c + s * d
        if e[0] == "cmp":
            t = p.truth(e)
            if t is not None:
                return {}, int(t)
        if e[0] in ("call", "ld"):
            e = p.canon(e)
            if e[0] == "c":
                return {}, e[1]
        return {e: 1}, 0
    (x, c), (y, d) = lin(a), lin(b)
    if x == y:
        return d - c
    return None


def leaves(e, out):
    """The loaded values an expression depends on (not those inside addresses of loads)."""
    if e[0] in ("ld", "call", "arg", "alloca", "g", "ald", "w", "k", "xv", "fresh"):
        out.add(e)
    else:
        for x in e[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    for y in x:
                        leaves(y, out)
                elif x:
                    leaves(x, out)
    return out


def evaluate(e, env):
    k = e[0]
    if e in env:
        return env[e]
    if k == "c":
        return e[1]
    if k == "p":
        b = evaluate(e[1], env)
        return None if b is None else b + e[2]
    if k == "pi":
        b = evaluate(e[1], env)
        if b is None or len(e) < 4:
            return None
        v = evaluate(e[2][0], env)
        return None if v is None else b + v * e[3]
    if k == "op":
        a, b = evaluate(e[2], env), evaluate(e[3], env)
        if a is None or b is None:
            return None
        try:
            return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b,
                    "shl": a << b if 0 <= b < 64 else None, "lshr": a >> b if 0 <= b < 64 else None,
                    "ashr": a >> b if 0 <= b < 64 else None, "sdiv": a // b if b else None, "udiv": a // b if b else None,
                    "urem": a % b if b else None}.get(e[1])
        except ValueError:
            return None
    if k == "cmp":
        a, b = evaluate(e[2], env), evaluate(e[3], env)
        if a is None or b is None:
            return None
        m = (1 << 64) - 1
        if e[1][0] == "u":
            a, b = a & m, b & m
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
            e[1] if e[1] in ("eq", "ne") else e[1][1:]])
    return None


def bounded(p, n):
    """Does the path know that some count it has read is at most n (and may be n)?"""
    out = set()
    for f in p.facts:
        leaves(f, out)
    counts = [x for x in out if x[0] == "ld"]
    for s in counts:
        rel = [(f, t) for f, t in p.facts.items() if s in leaves(f, set())]

        def holds(v):
            env = {x: (1 << 20) + (k << 40) for k, x in enumerate(sorted(out - {s}, key=repr))}
            # a count and an address are told apart by what they are compared with
            env[s] = v
            r = [evaluate(f, env) for f, t in rel]
            return all(x is None or bool(x) == t for x, (f, t) in zip(r, rel)) and any(x is not None for x in r)
        if holds(n) and not any(holds(v) for v in range(n + 1, n + 6)):
            return True
    return False


def opaque(n):
    return not n.startswith("__p_")


def strip(a):
    while a[0] == "p":
        a = a[1]
    return a


def asked(p):
    """The equality questions of a path: (answer, one side, other side, their values)."""
    at, r = None, []
    for e in p.ev:
        if e.k == "at" and e.a[0] == "__p_eq":
            at = e.a[1]
        elif e.k == "call" and e.a[0] == "__p_eq":
            r.append((p.truth(e.a[2]), e.a[1], at, near(p, e)))
    return r


def near(p, e):
    """A place in the library's own code for an event."""
    if not e.loc.startswith("drivers/"):
        return e.loc
    i = p.ev.index(e)
    for x in p.ev[i:] + p.ev[i::-1]:
        if x.k == "branch" and x.loc.startswith("immer/"):
            return x.loc
    return e.loc


def decided(p):
    """The path, once for each combination of answers it has not looked at."""
    ps = [p]
    for e in p.ev:
        if e.k == "call" and e.a[0] == "__p_eq" and p.truth(e.a[2]) is None:
            nxt = []
            for q in ps:
                a, b = q.copy(), q.copy()
                a.out = b.out = p.out
                a.facts[boolean(e.a[2])], b.facts[boolean(e.a[2])] = True, False
                nxt += [a, b]
            ps = nxt
    return ps


def excluded(p, n):
    """How many bit sets the path knows not to have the bit it looked for."""
    out, hit = set(), 0
    for f in p.facts:
        leaves(f, out)
    for s in out:
        if s[0] != "ld":
            continue
        env = {x: (3 if x[0] in ("call", "arg", "w") else 0) for x in out}
        env[s] = (1 << 64) - 1
        for f, t in p.facts.items():
            if s in leaves(f, set()) and any(x[0] == "op" and x[1] == "shl" for x in subterms(f)):
                v = evaluate(f, env)
                if v is not None and bool(v) != t:
                    hit += 1
                    break
    return hit >= n


def subterms(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], tuple):
                for y in x:
                    yield from subterms(y)
            elif isinstance(x[0], str):
                yield from subterms(x)


DELTA = {"insert": (1, 0), "update": (1, 0), "updatex": (0, 0), "erase": (0, -1)}


def h01(tier):
    res = core.Result()
    cfgs = [[], ["-DGCCFG"]] + ([["-DFEWER=false"], ["-DGCCFG", "-DFEWER=false"], ["-DNDEBUG"], ["-std=c++20"]] if tier == "thorough" else [])
    n = paths = questions = 0
    for cfg in cfgs:
        m = core.irdump("lookup", cfg, ("-O1", "-fno-inline"))
        for name in [f["name"] for f in m["functions"] if f["name"].startswith("h_") and not f["decl"]]:
            n += 1
            w = Wide(m, visits=4 if tier == "thorough" else 3, inline=opaque)
            op = name.split("_")[1]
            full = 0
            for p0 in w.run(name):
                if cut(w, p0):
                    continue
                for p in decided(p0):
                    threw = any(e.k == "call" and e.a[0] == "__cxa_throw" for e in p.ev)
                    if p.out[0] == "stop" and not threw:
                        continue
                    full += 1
                    questions += answers(res, p, op, name[2:], threw)
            paths += full
            res.floor("paths of " + name, full, 3)
    res.coverage = dict(operations=n, paths=paths, questions=questions, configurations=len(cfgs),
                        explanation="Every path of every lookup and update (loops and recursion entered as they are, then widened): what is "
                        "reported found, replaced or removed is what the equality confirmed, absence follows from a failed comparison "
                        "with every candidate or from the bit sets, and the size changes accordingly.")
    res.assumptions = ["hash, equality and callbacks do not modify the container", "collision nodes are followed up to four elements"]
    res.floor("operations", n, 90)
    return res


def answers(res, p, op, name, threw):
    eqs = asked(p)
    yes = [e for e in eqs if e[0]]
    last = eqs[-1][3] if eqs else next((e.loc for e in reversed(p.ev) if e.k == "branch" and "immer/" in e.loc), "immer/detail/hamts/champ.hpp")

    def bad(rule, msg, loc=None):
        res.add(rule, loc or last, msg, function=name, key=rule)
    calls = [e for e in p.ev if e.k == "call"]
    at = {id(e): None for e in calls}
    for a, b in zip(p.ev, p.ev[1:]):
        if a.k == "at" and b.k == "call":
            at[id(b)] = a.a[1]
    key = ("arg", 1)

    def is_key(ptr, val):
        return strip(ptr) == key or val == key
    hashed = [e for e in calls if e.a[0] == "__p_hash"]
    if not any(is_key(e.a[1][0], at[id(e)][0]) for e in hashed):
        bad("hash", "the operation does not hash the key it was given")
    for ans, ptrs, vals, loc in eqs:
        k = [is_key(x, v) for x, v in zip(ptrs, vals)]
        if sum(k) != 1:
            bad("compare", "an element is compared with something other than the key the operation was given", loc)
    elem = []
    for ans, ptrs, vals, loc in yes:
        elem += [x for x, v in zip(ptrs, vals) if not is_key(x, v)]

    def same(x):
        return any(strip(x) == strip(e) for e in elem)
    if len(yes) > 1:
        bad("compare", "comparing goes on after the equality answered")
    if not yes:
        # absence: every candidate was compared
        col = {x for ans, ptrs, vals, loc in eqs for x, v in zip(ptrs, vals)
               if not is_key(x, v) and not any(l[0] == "call" and "ctpop" in l[1] for l in leaves(x, set()))}
        if col and not bounded(p, len(col)):
            bad("absent", "the key is taken to be absent without comparing it with every element of a collision node")
        if not eqs and not bounded(p, 0) and not excluded(p, 2):
            bad("absent", "the key is taken to be absent although no comparison or bit set says so")
    for e in calls:
        c, a = e.a[0], e.a[1]
        if c == "__p_found":
            null = p.truth(cmp("eq", a[0], ("c", 0)))
            if yes and (null or not same(a[0])):
                bad("found", "find() does not return the element that compared equal")
            if not yes and a[0] != ("c", 0) and null is not True:
                bad("found", "find() returns an element that did not compare equal")
        if c == "__p_count":
            v = a[0] if a[0][0] == "c" else ("c", int(p.truth(a[0]))) if p.truth(a[0]) is not None else a[0]
            if v != ("c", 1 if yes else 0):
                bad("found", "count() does not follow the equality's answer")
        if c == "__p_ref":
            if yes and not same(a[0]):
                bad("found", "the element returned is not the one that compared equal")
            if not yes and op == "at":
                bad("found", "at() returns although no element compared equal")
            if not yes and op == "index" and base(a[0])[0][0] != "g":
                bad("found", "operator[] returns an element although none compared equal")
        if c == "__p_sizes":
            d, want = difference(p, a[0], a[1]), DELTA[op][1 if yes else 0]
            if d != want:
                bad("size", "the size changes by %s where %s was %s" % (
                    "an unknown amount" if d is None else d, "the key", "present" if yes else "absent"))
    if op in ("update", "updatex"):
        fs = [e for e in calls if e.a[0] == "__p_f"]
        want = 1 if op == "update" or yes else 0
        if len(fs) != want:
            bad("callback", "the update function is called %d times where the key is %s" % (len(fs), "present" if yes else "absent"),
                fs[-1].loc if fs else None)
        for e in fs:
            v = e.a[1][0]
            from_elem = v[0] == "ld" and any(strip(v[1]) == strip(x) or strip(v[1])[0] == strip(x)[0] == "pi" and
                                             strip(v[1])[2:] == strip(x)[2:] for x in elem)
            if yes and v[0] == "ld" and not from_elem and base(v[1])[0][0] != "alloca":
                bad("callback", "the update function is not called with the value the key has", e.loc)
            if not yes and v[0] == "ld" and base(v[1])[0][0] != "g":
                bad("callback", "the update function is called with some element's value although the key is absent", e.loc)
    if threw:
        t = [e for e in calls if e.a[0] == "__cxa_throw"][-1]
        if op != "at":
            bad("throw", "this operation throws by itself", t.loc)
        elif yes:
            bad("throw", "at() throws although an element compared equal", t.loc)
        elif "out_of_range" not in repr(t.a[1]):
            bad("throw", "at() does not throw out_of_range", t.loc)
    return len(eqs)


# ---- sizes and bounds of sequences
def linear(p, e):
    """An expression as a sum of atoms (with coefficients) and a constant."""
    if e[0] == "c":
        return {}, e[1]
    if e[0] == "op" and e[1] in ("add", "sub"):
        (x, c), (y, d) = linear(p, e[2]), linear(p, e[3])
        s = 1 if e[1] == "add" else -1
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, c + s * d
    if e[0] == "cmp" and p.truth(e) is not None:
        return {}, int(p.truth(e))
    return {e: 1}, 0


class Bounds:
    """Differences between unsigned quantities, as far as the facts of a path bound them (None: no bound)."""
    Z = ("c", 0)

    def __init__(self, p, more=()):
        self.p, self.d = p, {}
        self.atoms = {self.Z}
        for c, t in facts(p) + [(c, True) for c in more]:
            self.fact(c[1] if t else neg(c)[1], c[2], c[3])
        for a in list(self.atoms):
            self.edge(self.Z, a, 0)
        for k in self.atoms:
            for i in self.atoms:
                for j in self.atoms:
                    x, y = self.d.get((i, k)), self.d.get((k, j))
                    if x is not None and y is not None:
                        self.edge(i, j, x + y)
        self.absurd = any(i == j and v < 0 for (i, j), v in self.d.items())

    def term(self, e):
        t, c = linear(self.p, e)
        if len(t) > 1 or any(v != 1 for v in t.values()) or t and c < 0:
            return None
        a = next(iter(t), self.Z)
        self.atoms.add(a)
        return a, c

    def edge(self, a, b, k):
        """a - b <= k"""
        if self.d.get((a, b), k + 1) > k:
            self.d[a, b] = k

    def fact(self, pred, x, y):
        if self.p.canon(x)[0] in ("cmp",) or x[0] == "p":
            return
        if pred == "eq":   # holds modulo the word, hence for quantities that fit
            t, c = self.minus(x, y)
            up, dn = [k for k, v in t.items() if v == 1], [k for k, v in t.items() if v == -1]
            if len(up) + len(dn) == len(t) and len(up) == len(dn) == 1:
                self.atoms |= set(t)
                self.edge(up[0], dn[0], -c)
                self.edge(dn[0], up[0], c)
                return
            for (t, c), k in ((linear(self.p, x), y), (linear(self.p, y), x)):
                if k == ("c", c) and all(v > 0 for v in t.values()):   # a sum that is zero
                    for a in t:
                        self.atoms.add(a)
                        self.edge(a, self.Z, 0)
        x, y = self.term(x), self.term(y)
        if x is None or y is None:
            return
        (a, c), (b, d) = x, y
        if pred in ("ugt", "uge"):
            a, c, b, d, pred = b, d, a, c, {"ugt": "ult", "uge": "ule"}[pred]
        if pred in ("ult", "ule", "eq"):
            self.edge(a, b, d - c - (pred == "ult"))
        if pred == "eq":
            self.edge(b, a, c - d)
        if pred == "ne" and (b == self.Z and c == d or a == self.Z and c == d):
            self.edge(self.Z, a if b == self.Z else b, -1)

    def upper(self, e):
        """The greatest value a sum of atoms can have: (bound or None)."""
        t, c = e
        up = [k for k, v in t.items() for _ in range(v)]
        dn = [k for k, v in t.items() for _ in range(-v)]
        n = max(len(up), len(dn))
        if n > 3:
            return None
        up += [self.Z] * (n - len(up))
        dn += [self.Z] * (n - len(dn))
        best = None
        for q in itertools.permutations(dn):
            v = [0 if a == b else self.d.get((a, b)) for a, b in zip(up, q)]
            if None not in v and (best is None or sum(v) < best):
                best = sum(v)
        return None if best is None else best + c

    def minus(self, x, y):
        (a, c), (b, d) = linear(self.p, x), linear(self.p, y)
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) - v
        return {k: v for k, v in r.items() if v}, c - d

    def equal(self, x, y):
        t, c = self.minus(x, y)
        if not t:
            return c == 0
        return self.upper((t, c)) == 0 and self.upper(({k: -v for k, v in t.items()}, -c)) == 0

    def less(self, x, y, k=0):
        """Do the facts say x + k <= y?"""
        t, c = self.minus(x, y)
        u = self.upper((t, c + k)) if t else c + k
        return u is not None and u <= 0


def facts(p):
    """The facts of a path about sizes and arguments."""
    r = []
    for c, t in p.facts.items():
        if c[0] == "cmp" and c[1] in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            l = leaves(c, set())
            if all(x[0] in ("arg", "c") or x[0] == "ld" and base(x[1])[0][0] == "arg" for x in l) and any(x[0] != "c" for x in l):
                r.append((c, t))
    return r


def cases(e):
    """An expression without minima and maxima: [(conditions, expression)]."""
    if e[0] in ("umin", "umax"):
        le, ge = cmp("ule", e[1], e[2]), cmp("uge", e[1], e[2])
        return [(c + [d], x) for d, y in ((le, e[1 if e[0] == "umin" else 2]), (ge, e[2 if e[0] == "umin" else 1]))
                for c, x in cases(y)]
    if e[0] == "op" and len(e) == 4:
        return [(c + d, e[:2] + (x, y)) for c, x in cases(e[2]) for d, y in cases(e[3])]
    return [([], e)]


def plus(a, b):
    return ("op", "add", a, b)


def take_off(a, b):
    return ("op", "sub", a, b)


def expected(op, n, i, j, m):
    """(precondition, [(condition, size)]) of the operations of sequences."""
    one, no = ("c", 1), ()
    within, upto = [cmp("ult", i, n)], [cmp("ule", i, n)]
    return {
        "push": (no, [(no, plus(n, one))]),
        "set": (within, [(no, n)]),
        "update": (within, [(no, n)]),
        "take": (no, [([cmp("ule", i, n)], i), ([cmp("uge", i, n)], n)]),
        "drop": (no, [([cmp("ule", i, n)], take_off(n, i)), ([cmp("uge", i, n)], ("c", 0))]),
        "insert": (upto, [(no, plus(n, one))]),
        "insertv": (upto, [(no, plus(n, m))]),
        "erase": (within, [(no, take_off(n, one))]),
        "erase2": ([cmp("ule", j, n)], [([cmp("ule", j, i)], n), ([cmp("ule", i, j)], take_off(n, take_off(j, i)))]),
        "concat": (no, [(no, plus(n, m))]),
        "copy": (no, [(no, n)]),
        "empty": (no, [(no, ("c", 0))]),
    }[op]


def b01(tier):
    res = core.Result()
    n = paths = 0
    cfgs = [[], ["-DGCCFG"]] + ([["-DBITS=5"], ["-DBITS=1"], ["-DNDEBUG"], ["-std=c++20"]] if tier == "thorough" else [])
    for cfg in cfgs:
        m = core.irdump("sequence", cfg, ("-O1", "-fno-inline"))
        for name in [f["name"] for f in m["functions"] if f["name"].startswith("q_") and not f["decl"]]:
            n += 1
            w = Sizes(m, visits=3, inline=opaque, limit=60000)
            op, full, seen = name.split("_")[1], 0, set()
            for p in w.run(name):
                if cut(w, p):
                    continue
                threw = [e for e in p.ev if e.k == "call" and e.a[0] == "__cxa_throw"]
                if p.out[0] == "stop" and not threw or p.out[0] not in ("stop", "ret"):
                    continue
                full += sizes(res, p, op, name, threw, seen)
            paths += full
            res.floor("paths of " + name, full, 1)
    res.coverage = dict(operations=n, paths=paths, configurations=len(cfgs),
                        explanation="The size every operation leaves, as a linear expression of the sizes and arguments it was given, on every "
                        "path through what works on the handles; at() throws exactly where the facts of the path exclude the index.")
    res.assumptions = ["indices and sizes do not wrap around", "documented preconditions hold (insert and erase within the sequence)"]
    res.floor("operations", n, 110)
    return res


def sizes(res, p, op, name, threw, seen):
    calls = [e for e in p.ev if e.k == "call"]
    mine = {c for c, t in facts(p)}
    last = next((e.loc for e in reversed(p.ev) if e.loc.startswith("immer/") and e.k == "branch" and (
        e.a[0] in mine or e.a[0][0] == "cmp" and neg(e.a[0]) in mine)), None) or next((e.loc for e in reversed(p.ev) if e.loc.startswith("immer/")), "?")

    def bad(rule, msg, loc=None):
        res.add(rule, loc or last, msg, function=name, key=rule)
    if op == "at":
        n, i = next(e.a[1][0] for e in calls if e.a[0] == "__p_size"), ("arg", 1)
        b = Bounds(p)
        if b.absurd:
            return 0
        ref = any(e.a[0] == "__p_ref" for e in calls)
        if threw:
            if threw[0].a[1][1][:2] != ("g", "_ZTISt12out_of_range"):
                bad("bounds", "at() throws something other than out_of_range", threw[0].loc)
            if not b.less(n, i):
                bad("bounds", "at() may throw for an index that is within the sequence", threw[0].loc)
        elif ref and not b.less(i, n, 1):
            bad("bounds", "at() may answer for an index that is not within the sequence")
        return 1
    if threw:
        if op not in ("at",) and threw[0].a[1][1][:2] == ("g", "_ZTISt12out_of_range"):
            bad("bounds", "an operation other than at() throws out_of_range", threw[0].loc)
        return 1
    got = [e.a[1] for e in calls if e.a[0] == "__p_sizes"]
    if len(got) != 1:
        return 0
    n, r = got[0]
    key = (op, n, r, tuple(sorted(facts(p), key=str)))
    if key in seen:
        return 1
    seen.add(key)
    second = next((e.a[1][0] for e in calls if e.a[0] == "__p_size"), ("c", 0))
    pre, alts = expected(op, n, ("arg", 1), ("arg", 2), second)
    if Bounds(p, pre).absurd:
        return 0
    for cond, want in alts:
        wrong = False
        for also, r2 in cases(r):
            b = Bounds(p, list(pre) + list(cond) + also)
            wrong = wrong or not b.absurd and not b.equal(r2, want)
        if wrong:
            bad("size", "the size left by this operation is not what the operation says (%s)" % op)
            break
    return 1


# ---- what is returned by reference
class Results(Sizes):
    """Does not follow recursive functions: what they return is opaque."""

    def heavy(self, name):
        return Sizes.heavy(self, name) or self.recursive(name)

    def follow(self, p, name, i):
        return not self.recursive(name) and Sizes.follow(self, p, name, i)

    def recursive(self, name):
        if name not in self.rc:
            seen, todo = set(), [name]
            while todo:
                n = todo.pop()
                if n in self.fns and not self.fns[n]["decl"]:
                    for c in (i.get("callee") or "" for b in self.fns[n]["blocks"] for i in b["insts"] if i["op"] in ("call", "invoke")):
                        if c not in seen:
                            seen.add(c)
                            todo.append(c)
            self.rc[name] = name in seen
        return self.rc[name]

    def __init__(self, *a, **k):
        self.rc = {}
        Sizes.__init__(self, *a, **k)


def l01(tier):
    res = core.Result()
    n = refs = known = 0
    cfgs = [[], ["-DGCCFG"]] + ([["-DFEWER=false"], ["-DNDEBUG"], ["-std=c++20"]] if tier == "thorough" else [])
    for cfg in cfgs:
        m = core.irdump("results", cfg, ("-O1", "-fno-inline"))
        for name in [f["name"] for f in m["functions"] if f["name"].startswith("q_") and not f["decl"]]:
            n += 1
            w = (Wide if "_get_" in name else Results)(m, visits=3, inline=opaque)
            mine = 0
            for p in w.run(name):
                if p.out[0] != "ret":
                    continue
                for e in (e for e in p.ev if e.k == "call" and e.a[0] == "__p_ref"):
                    root = base(e.a[1][0])[0]
                    while root[0] == "pi":
                        root = base(root[1])[0]
                    mine += 1
                    known += root[0] in ("arg", "alloca", "g", "ld")
                    if root[0] == "alloca" and root[1] != name:
                        res.add("dangling", near(p, e), "the operation returns a reference to a local variable of a function that has "
                                "returned", function=name, key="dangling")
            refs += mine
            res.floor("references of " + name, mine, 1)
    res.coverage = dict(operations=n, references=refs, traced=known, configurations=len(cfgs),
                        explanation="Every reference returned by an operation is traced to the object it refers to on every path: the container "
                        "itself, its storage or a static object, never a local variable of the operation.")
    res.floor("operations", n, 150)
    res.floor("references traced", known, 300)
    return res
