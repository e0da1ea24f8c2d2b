"""T01: ownership tokens of transients."""
import re
from . import core
from .paths import Walker, base, fnmap, cmp, padd
from .effects import cyclic, guarded_blocks


class Plain(Walker):
    """Atomic accesses read and write like ordinary ones: the values matter here, not the orders."""

    def step(self, p, f, b, i, n):
        if i["op"] in ("load", "store") and i.get("ord"):
            i = dict(i)
            i.pop("ord")
        if i["op"] == "atomicrmw" and i["rmw"] == "xchg":
            a = self.val(p, i["ops"][0])
            p.regs[i["id"]] = self.mload(p, a, i["ty"])
            self.mstore(p, a, self.val(p, i["ops"][1]))
            return None
        if i["op"] == "load" and i["ops"][0].get("g", "").startswith("_ZGV"):
            p.regs[i["id"]] = ("c", 1)
            return None
        if i.get("callee") == "__cxa_guard_acquire":  # function-local statics: somebody has initialised them
            p.regs[i["id"]] = ("c", 0)
            if i["op"] == "invoke":
                e = self.enter(p, f, i["normal"], b)
                return [e] if e else []
            return None
        return Walker.step(self, p, f, b, i, n)


def simple(fns):
    """Functions without loops."""
    return {n: not f["decl"] and cyclic(f, set()) is None for n, f in fns.items()}


def straight(fns, ok):
    """Functions that reach no loop, and the transients' own members."""
    r = {}

    def go(n, st):
        if n in r:
            return r[n]
        f = fns.get(n)
        if not f or f["decl"]:
            return True
        if n in st or not ok[n]:
            return False
        r[n] = all(go(i["callee"], st | {n}) for b in f["blocks"] for i in b["insts"]
                   if i["op"] in ("call", "invoke") and i.get("callee") and not i.get("intr"))
        return r[n]
    return {n: ok[n] and (go(n, frozenset()) or bool(re.match(r"(?:[\w:<>&* ]* )?immer::\w+_transient<", fns[n]["dem"]))) for n in fns}


SIZE = 8


def t01(tier):
    res = core.Result()
    cfgs = [[]] + ([["-std=c++20"], ["-std=c++14"], ["-DFEWER=false"], ["-DNDEBUG"]] if tier == "thorough" else [])
    n = np = shared = 0
    for cfg in cfgs:
        m = core.irdump("tokens", cfg)
        fns = fnmap(m)
        ok = simple(fns)
        few = straight(fns, ok)
        clob = lambda c: not c.startswith("__p_")
        w = Plain(m, visits=2, inline=lambda c: ok.get(c, False), clobber=clob)
        w2 = Plain(m, visits=2, inline=lambda c: few.get(c, False), clobber=clob)
        for name in sorted(fns):
            if not name.startswith("t_"):
                continue
            sig = name.rsplit("__", 1)[1]
            n += 1
            for p in (w2 if "S" in sig else w).run(name):
                if p.out[0] != "ret":
                    continue
                np += 1
                shared += judge(res, p, name, sig)
        policy(res, m)
    res.coverage = dict(operations=n, paths=np, pairs_of_handles_sharing_storage=shared, configurations=len(cfgs),
                        explanation="For every operation that makes storage reachable from two handles (copying or assigning a transient, "
                        "persistent(), transient(), append and prepend of a transient that stays usable), on every path the token of "
                        "each transient involved is a newly made one, distinct from the other's; the token policy itself grants "
                        "mutation exactly when the node's token is the transient's.")
    res.assumptions = ["the heap never returns a token that is still in use"]
    res.floor("operations", n, 60)
    res.floor("pairs of handles sharing storage", shared, 20)
    return res


def words(p, k):
    """What the words of handle k hold at the end of the path (None: unknown)."""
    r = {}
    a = ("arg", k)
    for off in range(0, 48, 8):
        q = padd(a, off)
        r[off] = p.mem.get(q, ("ld", q, 0) if p.epoch == 0 else None)
    return r


def made(v):
    return v is not None and v[0] == "call" and v[1] == "__p_alloc"


def judge(res, p, name, sig):
    count = 0
    W = [words(p, k) for k in range(len(sig))]
    T = lambda k: sig[k] in "ToS"
    loc = next((e.loc for e in reversed(p.ev) if e.loc.startswith("immer/") and "transience" not in e.loc), "immer")
    op = name[2:].rsplit("__", 1)[0]
    for k in range(len(sig)):
        if sig[k] == "S":
            count += 1
            last = [e.a[1] for e in p.ev if e.k == "store" and e.a[0] == ("arg", k)]
            if not last or not made(last[-1]):
                res.add("token", loc, "a transient whose contents were handed to another one keeps its ownership token", function=op)
        if sig[k] == "o" and not (made(W[k][0]) or W[k][0] is not None and W[k][0][0] == "ld" and W[k][0][1][0] == "arg"):
            res.add("token", loc, "a new transient starts without an ownership token", function=op, key=repr(W[k][0]))
    init = lambda k: {("ld", padd(("arg", k), off), 0) for off in range(8, 48, 8)}
    ptr = {e.a[1] for e in p.ev if e.k == "load" and e.i.get("ty") == "ptr"}
    for a in range(len(sig)):
        for b in range(len(sig)):
            if a == b or not T(a):
                continue
            if sig[b] in "TSo" and W[a][0] == W[b][0] and W[a][0] is not None and W[a][0][0] != "c":
                same_tok = True
            else:
                same_tok = False
            A = {v for o, v in W[a].items() if v in ptr and (o or not T(a))}
            B = {v for o, v in W[b].items() if v in ptr and (o or not T(b))}
            # an output holds the word in memory only if it was written
            if not (A & B):
                continue
            count += 1
            if not made(W[a][0]):
                res.add("token", loc, "after this, two handles share storage and a transient among them keeps a token it had before",
                        function=op)
            elif same_tok:
                res.add("token", loc, "after this, two transients share storage and the same token", function=op)
    return count


def policy(res, m):
    w = Plain(m, visits=2)
    D = "immer/transience/gc_transience_policy.hpp"

    def truth(p, c):
        v = p.out[1]
        if v[0] == "c":
            return bool(v[1] & 1), p.truth(c)
        return True, None if v == c else False

    def iff(fn, cond, msg):
        for p in w.run(fn):
            if p.out[0] != "ret":
                continue
            v = p.out[1]
            if v[0] == "c":
                t = p.truth(cond)
                if t is None or t != bool(v[1] & 1):
                    res.add("policy", D, msg, function=fn[2:])
            elif v != cond:
                res.add("policy", D, msg, function=fn[2:])
    tok = ("ld", ("arg", 0), 0)
    iff("e_can", cmp("eq", tok, ("arg", 1)), "a node may be mutated although its token is not the transient's, or not although it is")
    iff("e_owned", cmp("ne", tok, ("c", 0)), "owned() is not whether a token was recorded")
    for p in w.run("e_set"):
        if p.out[0] == "ret" and p.mem.get(("arg", 0)) != ("arg", 1):
            res.add("policy", D, "assigning a token to a node does not record it", function="set")
    for p in w.run("e_init"):
        if p.out[0] == "ret" and p.mem.get(("arg", 0)) not in (("c", 0), ("k", "null")):
            res.add("policy", D, "a new node starts with an owner", function="init")
    for p in w.run("e_edit"):
        if p.out[0] == "ret" and p.out[1] != tok:
            res.add("policy", D, "the edit of an owner is not its token", function="edit")
    for p in w.run("n_can"):
        if p.out[0] == "ret" and p.out[1] != ("c", 0):
            res.add("policy", "immer/transience/no_transience_policy.hpp", "mutation is granted without tracking of ownership", function="can")
