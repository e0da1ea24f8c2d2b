"""Path-wise reading of small functions in the compiler's IR: every path is
followed (each block at most `visits` times), values are kept as expressions,
and each path yields the sequence of its memory, atomic and call events."""
import itertools
from . import core


class Budget(core.CheckError):
    pass


def fold(op, a, b, w=64):
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        m = (1 << w) - 1
        r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}.get(op)
        if op == "shl" and 0 <= y < w:
            r = x << y
        if op == "lshr" and 0 <= y < w:
            r = (x & m) >> y
        if r is not None:
            r &= m
            return ("c", r - (1 << w) if w > 1 and r >> (w - 1) else r)
    if op in ("add", "sub", "or", "xor", "shl", "lshr") and b == ("c", 0):
        return a
    if op == "xor" and b[0] == "c" and b[1] in (1, -1) and a[0] == "cmp" and w == 1:
        return neg(a)
    if op == "and" and w == 1:
        if a[0] == "c":
            return b if a[1] & 1 else ("c", 0)
        if b[0] == "c":
            return a if b[1] & 1 else ("c", 0)
    return ("op", op, a, b)


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}


def neg(c):
    return ("cmp", NEG[c[1]], c[2], c[3])


def width(ty):
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else 64


def cmp(pred, a, b, w=64):
    if a[0] == "c" and b[0] != "c":
        sw = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
              "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
        return cmp(sw[pred], b, a, w)
    if a[0] == "c" and b[0] == "c":
        m = (1 << w) - 1
        x, y = (a[1], b[1]) if pred[0] == "s" or pred in ("eq", "ne") else (a[1] & m, b[1] & m)
        return ("c", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}
                         [pred if pred in ("eq", "ne") else pred[1:]]))
    if a == b and pred in ("eq", "ule", "uge", "sle", "sge"):
        return ("c", 1)
    if a == b:
        return ("c", 0)
    if b == ("c", 0) and pred in ("eq", "ne") and a[0] == "cmp":
        return a if pred == "ne" else neg(a)
    if a[0] == "cmp" and b[0] == "c" and pred in ("eq", "ne"):
        t = bool(b[1]) == (pred == "eq")
        return a if t else neg(a)
    if pred in ("ne", "uge", "sge", "ugt", "sgt") and pred != "ne":
        return ("cmp", pred, a, b)
    return ("cmp", pred, a, b)


def padd(p, off):
    if off == 0:
        return p
    if p[0] == "p":
        return padd(p[1], p[2] + off)
    if p[0] == "c":
        return ("c", p[1] + off)
    if p[0] == "g":
        return ("g", p[1], p[2] + off)
    return ("p", p, off)


def base(p):
    """(root value, constant offset or None)"""
    off = 0
    while p[0] in ("p", "pi"):
        if p[0] == "p":
            if off is not None:
                off += p[2]
        else:
            off = None
        p = p[1]
    if p[0] == "g":
        return ("g", p[1], 0), (None if off is None else off + p[2])
    return p, off


class Ev:
    __slots__ = ("k", "a", "loc", "i", "blk")

    def __init__(self, k, a, loc, i=None):
        self.k, self.a, self.loc, self.i = k, a, loc, i

    def __repr__(self):
        return "%s%s" % (self.k, self.a)


def boolean(c):
    """A condition in the form of a comparison."""
    return c if c[0] in ("c", "cmp") else ("cmp", "ne", c, ("c", 0))


class Path:
    """events, facts (expr -> bool), result: ('ret', value) or ('unwind',) or ('stop',)"""

    def __init__(self):
        self.ev, self.facts, self.mem, self.regs = [], {}, {}, {}
        self.visits, self.epoch, self.n, self.out = {}, 0, 0, None
        self.stack = []

    def copy(self):
        q = Path()
        q.ev, q.facts, q.mem, q.regs = list(self.ev), dict(self.facts), dict(self.mem), dict(self.regs)
        q.visits, q.epoch, q.n = dict(self.visits), self.epoch, self.n
        q.stack = list(self.stack)
        return q

    def canon(self, v):
        """A representative of the values this path knows to equal `v`."""
        return min(self.same(v), key=lambda x: (x[0] != "c", repr(x)))

    def same(self, v):
        seen, todo = {v}, [v]
        while todo:
            x = todo.pop()
            for f, t in self.facts.items():
                if f[0] == "cmp" and (f[1] == "eq") == t and f[1] in ("eq", "ne"):
                    for a, b in ((f[2], f[3]), (f[3], f[2])):
                        if a == x and b not in seen:
                            seen.add(b)
                            todo.append(b)
        return seen

    def range(self, x):
        """The unsigned values `x` can have, from comparisons with constants."""
        lo, hi = 0, 1 << 64
        for f, t in self.facts.items():
            if f[0] == "cmp" and f[2] == x and f[3][0] == "c" and f[3][1] >= 0:
                k, op = f[3][1], f[1] if t else NEG[f[1]]
                if op == "ult":
                    hi = min(hi, k - 1)
                elif op == "ule":
                    hi = min(hi, k)
                elif op == "ugt":
                    lo = max(lo, k + 1)
                elif op == "uge":
                    lo = max(lo, k)
                elif op == "ne" and (k == 0 or x[0] == "w"):
                    # a counter that was below k is still below it
                    lo, hi = (max(lo, 1), hi) if k == 0 else (lo, min(hi, k - 1))
                elif op == "eq":
                    lo, hi = max(lo, k), min(hi, k)
        return lo, hi

    def truth(self, c):
        """What the facts of this path say about a condition (None: nothing)."""
        if c[0] == "c":
            return bool(c[1] & 1)
        c = boolean(c)
        if c in self.facts:
            return self.facts[c]
        if c[0] == "cmp":
            if neg(c) in self.facts:
                return not self.facts[neg(c)]
            # equalities with a constant decide others on the same value
            for f, t in self.facts.items():
                if f[0] == "cmp" and f[2] == c[2] and f[3][0] == "c" and c[3][0] == "c" and f[1] in ("eq", "ne"):
                    if (f[1] == "eq") == t:
                        r = cmp(c[1], f[3], c[3])
                        return bool(r[1])
            if c[3][0] == "c" and c[3][1] >= 0 and c[1] in ("eq", "ne", "ult", "ule", "ugt", "uge"):
                lo, hi = self.range(c[2])
                k = c[3][1]
                if hi < k or lo > k:
                    return {"eq": False, "ne": True}.get(c[1], (hi < k) == (c[1][1] == "l"))
                if lo == hi == k:
                    return c[1] in ("eq", "ule", "uge")
                if c[1] == "ule" and hi <= k or c[1] == "uge" and lo >= k:
                    return True
                if c[1] == "ugt" and hi <= k or c[1] == "ult" and lo >= k:
                    return False
            if c[1] in ("eq", "ne"):
                a, b = self.same(c[2]), self.same(c[3])
                if a & b:
                    return c[1] == "eq"
                ca, cb = [x for x in a if x[0] == "c"], [x for x in b if x[0] == "c"]
                if ca and cb:
                    return c[1] == "ne"
                if len(a) + len(b) > 2:
                    for f, t in self.facts.items():
                        if f[0] == "cmp" and f[1] in ("eq", "ne") and (f[1] == "ne") == t and (
                                f[2] in a and f[3] in b or f[2] in b and f[3] in a):
                            return c[1] == "ne"
        return None


def where(i):
    for f, l, fn in i.get("loc", []):
        if "immer" in f and "/drivers/" not in f:
            return "%s:%d" % (core.rel(f), l)
    for f, l, fn in i.get("loc", []):
        return "%s:%d" % (core.rel(f), l)
    return "?"


def fnmap(m):
    return {f["name"]: f for f in m["functions"]}


class Walker:
    def __init__(self, module, visits=3, inline=None, throws=None, clobber=None, limit=20000, shared=None):
        self.m, self.fns = module, fnmap(module)
        self.visits = visits
        self.inline = inline or (lambda n: n in self.fns and not self.fns[n]["decl"])
        self.throws = throws or (lambda n: False)
        self.clobber = clobber or (lambda n: False)
        self.shared = shared or (lambda root: root[0] != "alloca")
        self.limit = limit

    def val(self, p, o):
        if "v" in o:
            return p.regs[o["v"]]
        if "c" in o:
            return ("c", o["c"])
        if "g" in o:
            return ("g", o["g"], o["off"])
        return ("k", o.get("k", "?"))

    def run(self, name, args=None):
        f = self.fns.get(name)
        if not f or f["decl"]:
            raise core.CheckError("function %s not found in the driver's IR" % name)
        p = Path()
        self.f = None
        out = []
        for a, i in zip(f["args"], itertools.count()):
            p.regs[a["id"]] = args[i] if args else ("arg", i)
        work = [(p, f, f["blocks"][0]["id"], None, 0)]
        self.count = 0
        while work:
            p, f, b, prev, at = work.pop()
            for q in self.block(p, f, b, prev, at):
                if q[0].out is not None:
                    self.count += 1
                    if self.count > self.limit:
                        raise Budget("too many paths in " + name)
                    out.append(q[0])
                else:
                    work.append(q)
        return out

    def enter(self, p, f, b, frm):
        k = (len(p.stack), f["name"], b)
        n = p.visits.get(k, 0) + 1
        if n > self.visits:
            return None
        p.visits[k] = n
        return (p, f, b, frm, 0)

    def decide(self, p, c):
        t = p.truth(c)
        if t is not None:
            return [(p, t)]
        c = boolean(c)
        q = p.copy()
        p.facts[c], q.facts[c] = True, False
        return [(p, True), (q, False)]

    def leave(self, p, res):
        if not p.stack:
            p.out = res
            return [(p, None, None, None, 0)]
        regs, f, i, b, at = p.stack.pop()
        # frames share Path: restore the caller's registers
        for k in [k for k in p.visits if k[0] > len(p.stack)]:
            del p.visits[k]
        p.regs = dict(regs)
        if res[0] == "ret":
            p.regs[i["id"]] = res[1] if res[1] is not None else ("c", 0)
            if i["op"] == "invoke":
                r = self.enter(p, f, i["normal"], b)
                return [r] if r else []
            return [(p, f, b, None, at + 1)]
        if i["op"] == "invoke":
            r = self.enter(p, f, i["unwind"], b)
            return [r] if r else []
        return self.leave(p, res)

    def block(self, p, f, b, prev, at):
        blk = next(x for x in f["blocks"] if x["id"] == b)
        ins = blk["insts"]
        if at == 0:
            new = {}
            for i in ins:
                if i["op"] != "phi":
                    break
                for v, fb in i["in"]:
                    if fb == prev:
                        new[i["id"]] = self.val(p, v)
            p.regs.update(new)
        for n in range(at, len(ins)):
            i = ins[n]
            r = self.step(p, f, b, i, n)
            if r is not None:
                return r
        return []

    def mload(self, p, a, ty):
        if a in p.mem:
            return p.mem[a]
        v = ("ld", a, p.epoch)
        p.mem[a] = v
        return v

    def mstore(self, p, a, v):
        root, off = base(a)
        for k in list(p.mem):
            r2, o2 = base(k)
            if k == a:
                continue
            if r2 == root and off is not None and o2 is not None and off != o2:
                continue
            local = r2[0] in ("alloca",) or root[0] in ("alloca",)
            if r2 != root and local:
                continue
            if r2 != root and (r2[0], root[0]) in (("arg", "arg"),):
                continue
            if r2 != root and ("fresh" in (r2[0], root[0])):
                continue
            if r2 != root:
                continue  # distinct roots are taken as distinct objects
            del p.mem[k]
        p.mem[a] = v

    def step(self, p, f, b, i, n):
        op = i["op"]
        V = lambda k: self.val(p, i["ops"][k])
        loc = where(i)
        R = p.regs

        def fresh(tag):
            p.n += 1
            return (tag, i["id"], p.n)
        if op == "phi":
            return None
        if op == "alloca":
            p.n += 1
            R[i["id"]] = ("alloca", f["name"], i["id"], p.n)
        elif op == "getelementptr":
            q = V(0)
            if "off" in i:
                R[i["id"]] = padd(q, i["off"])
            else:
                R[i["id"]] = ("pi", q, tuple(self.val(p, o) for o in i["ops"][1:]))
        elif op == "load":
            a = V(0)
            if i.get("ord"):
                v = fresh("ald")
                R[i["id"]] = v
            else:
                v = self.mload(p, a, i["ty"])
                R[i["id"]] = v
            p.ev.append(Ev("load", (a, v, i.get("ord")), loc, i))
        elif op == "store":
            v, a = V(0), V(1)
            self.mstore(p, a, v)
            p.ev.append(Ev("store", (a, v, i.get("ord")), loc, i))
        elif op == "atomicrmw":
            v = fresh("rmw")
            R[i["id"]] = v
            p.ev.append(Ev("rmw", (i["rmw"], V(0), V(1), v, i["ord"]), loc, i))
        elif op == "cmpxchg":
            v = fresh("cas")
            R[i["id"]] = v
            p.ev.append(Ev("cas", (V(0), V(1), V(2), v, i["ord"], i["ford"]), loc, i))
        elif op == "fence":
            p.ev.append(Ev("fence", (i["ord"],), loc, i))
        elif op == "extractvalue":
            R[i["id"]] = ("xv", V(0), tuple(i["idx"]))
        elif op == "insertvalue":
            R[i["id"]] = ("iv", V(0), V(1))
        elif op == "icmp":
            R[i["id"]] = cmp(i["pred"], V(0), V(1))
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            v = V(0)
            if op == "trunc" and width(i["ty"]) == 1 and v[0] != "c" and v[0] != "cmp":
                v = cmp("ne", v, ("c", 0)) if v[0] in ("rmw", "ald", "call", "ld") else ("cmp", "ne", ("op", "and", v, ("c", 1)), ("c", 0))
            elif op == "zext" and v[0] == "c" and v[1] < 0:
                v = fresh("zx")
            elif op == "trunc" and v[0] == "c":
                w = width(i["ty"])
                x = v[1] & ((1 << w) - 1)
                v = ("c", x - (1 << w) if w > 1 and x >> (w - 1) else x)
            R[i["id"]] = v
        elif op == "select":
            c = V(0)
            r = []
            for q, t in self.decide(p, c):
                q.regs[i["id"]] = self.val(q, i["ops"][1 if t else 2])
                r.append((q, f, b, None, n + 1) if n + 1 else None)
            return [(q, f, b, "resume", a) for (q, f, b, _, a) in r]
        elif op == "br":
            if "cond" not in i:
                r = self.enter(p, f, i["to"][0], b)
                return [r] if r else []
            c = self.val(p, i["cond"])
            r = []
            for q, t in self.decide(p, c):
                q.ev.append(Ev("branch", (c, t), loc, i))
                e = self.enter(q, f, i["to"][0 if t else 1], b)
                if e:
                    r.append(e)
            return r
        elif op == "switch":
            c = V(0)
            r = []
            if c[0] == "c":
                to = next((s for k, s in i["cases"] if k == c[1]), i["default"])
                e = self.enter(p, f, to, b)
                return [e] if e else []
            for k, s in i["cases"]:
                q = p.copy()
                q.facts[cmp("eq", c, ("c", k))] = True
                e = self.enter(q, f, s, b)
                if e:
                    r.append(e)
            for k, s in i["cases"]:
                p.facts[cmp("eq", c, ("c", k))] = False
            e = self.enter(p, f, i["default"], b)
            if e:
                r.append(e)
            return r
        elif op in ("call", "invoke"):
            return self.call(p, f, b, i, n, loc)
        elif op == "ret":
            v = V(0) if i["ops"] else None
            return self.leave(p, ("ret", v))
        elif op == "resume":
            return self.leave(p, ("unwind",))
        elif op == "unreachable":
            p.out = ("stop",)
            return [(p, None, None, None, 0)] if p.stack == [] or True else []
        elif op == "landingpad":
            R[i["id"]] = fresh("lp")
        elif op == "fneg" or "ops" in i and len(i["ops"]) == 2:
            R[i["id"]] = fold(op, V(0), V(1), width(i["ty"]))
        else:
            R[i["id"]] = fresh(op)
        return None

    def call(self, p, f, b, i, n, loc):
        name = i.get("callee")
        args = tuple(self.val(p, o) for o in i["ops"])
        if i.get("intr") and name.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias",
                                              "llvm.invariant", "llvm.donothing")):
            return None
        if name and self.inline(name) and name in self.fns and not self.fns[name]["decl"]:
            g = self.fns[name]
            if sum(1 for s in p.stack if s[1]["name"] == name) < 2 and len(p.stack) < 60:
                p.stack.append((dict(p.regs), f, i, b, n))
                p.regs = {}
                for a, v in zip(g["args"], args):
                    p.regs[a["id"]] = v
                e = self.enter(p, g, g["blocks"][0]["id"], None)
                if not e:
                    return []
                return [e]
        p.n += 1
        v = ("call", name or "indirect", p.n)
        p.ev.append(Ev("call", (name or "indirect", args, v), loc, i))
        if name is None or self.clobber(name):
            p.epoch += 1
            for k in list(p.mem):
                if self.shared(base(k)[0]):
                    del p.mem[k]
            # locals whose address was passed may have been written
            for a in args:
                ra = base(a)[0]
                for k in list(p.mem):
                    if base(k)[0] == ra:
                        del p.mem[k]
        r = []
        if not i.get("nounwind") and self.throws(name):
            q = p.copy()
            q.ev.append(Ev("throw", (name,), loc, i))
            if i["op"] == "invoke":
                e = self.enter(q, f, i["unwind"], b)
                if e:
                    r.append(e)
            else:
                r += self.leave(q, ("unwind",))
        p.regs[i["id"]] = v
        if i["op"] == "invoke":
            e = self.enter(p, f, i["normal"], b)
            if e:
                r.append(e)
            return r
        if r:
            r.append((p, f, b, "resume", n + 1))
            return r
        return None


ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")
