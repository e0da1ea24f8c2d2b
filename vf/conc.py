"""Synchronisation protocols: reference counts, the spin lock, the atom."""
from . import core
from .paths import Walker, base, cmp, fold, ACQ, REL, neg, padd


def subst(e, m):
    """Value of an expression under an assignment of its atoms (None: unknown)."""
    if e in m:
        return m[e]
    if e[0] == "c":
        return e[1]
    if e[0] == "op":
        a, b = subst(e[2], m), subst(e[3], m)
        if a is None or b is None:
            return None
        r = fold(e[1], ("c", a), ("c", b), 32)
        return r[1] if r[0] == "c" else None
    if e[0] == "cmp":
        a, b = subst(e[2], m), subst(e[3], m)
        if a is None or b is None:
            return None
        return cmp(e[1], ("c", a), ("c", b), 32)[1]
    return None


def feasible(p, m):
    for f, t in p.facts.items():
        v = subst(f, m)
        if v is not None and bool(v) != t:
            return False
    return True


COUNTS = (1, 2, 3, 4, 17, 1 << 20, (1 << 30) + 1)


def updates(p, prefix_ok=lambda a: True):
    """Effective atomic updates on a path: (kind, amount, old, order, event)."""
    r = []
    for e in p.ev:
        if e.k == "rmw":
            o, addr, v, old, ordr = e.a
            if o == "add":
                r.append(("add", v, old, ordr, e))
            elif o == "sub":
                r.append(("add", ("c", -v[1]) if v[0] == "c" else ("op", "neg", v, v), old, ordr, e))
            else:
                r.append((o, v, old, ordr, e))
        elif e.k == "cas":
            addr, exp, new, res, ordr, _ = e.a
            ok = ("xv", res, (1,))
            if p.truth(ok) or p.truth(cmp("eq", ("xv", res, (0,)), exp)):
                d = None
                for k in (1, -1):
                    if new == fold("add", exp, ("c", k), 32) or new == fold("sub", exp, ("c", -k), 32):
                        d = k
                r.append(("add" if d else "cas", ("c", d) if d else new, exp, ordr, e))
    return r


def sole(p):
    """The count was read (acquire) as one and the answer is "last": nobody else can touch it any more."""
    ls = [e for e in p.ev if e.k == "load" and e.a[2] and base(e.a[0])[0][0] == "arg"]
    if not ls or p.out[1] != ("c", 1):
        return False
    fence = any(e.k == "fence" and e.a[0] in ACQ for e in p.ev)
    return any(p.truth(cmp("eq", e.a[1], ("c", 1))) and (e.a[2] in ACQ or fence) for e in ls)


def a01(tier):
    res = core.Result()
    n = paths = 0
    stds = [[], ["-DNDEBUG"]] + ([["-std=c++14"], ["-std=c++20"]] if tier == "thorough" else [])
    for flags in stds:
        m = core.irdump("refcount", flags)
        w = Walker(m, visits=3)

        def bad(op, msg, e=None):
            res.add("refcount", e.loc if e else "immer/refcount", msg, function=op)

        for pol in ("dflt", "atom"):
            for op, k in (("inc", 1), ("dec", -1)):
                fn = pol + "_" + op
                n += 1
                ps = [p for p in w.run(fn) if p.out[0] == "ret"]
                if not ps:
                    bad(fn, "no path returns")
                for p in ps:
                    paths += 1
                    for e in p.ev:
                        if e.k == "store" and base(e.a[0])[0][0] == "arg" and not e.a[2]:
                            bad(fn, "the count is written by a plain store: concurrent updates are lost and race", e)
                        if e.k == "load" and base(e.a[0])[0][0] == "arg" and not e.a[2]:
                            bad(fn, "the count is read by a plain load: a data race with concurrent updates", e)
                        if e.k == "store" and base(e.a[0])[0][0] == "arg" and e.a[2]:
                            bad(fn, "the count is overwritten instead of updated atomically: concurrent updates are lost", e)
                    us = updates(p)
                    if op == "dec" and not us and sole(p):
                        continue
                    if len(us) != 1 or us[0][0] != "add" or us[0][1] != ("c", k):
                        bad(fn, "a path performs %s instead of exactly one atomic %+d" % (
                            ["%s %s" % (u[0], u[1][1]) for u in us] or "no atomic update", k), us[0][4] if us else None)
                        continue
                    kind, amt, old, ordr, ev = us[0]
                    if op == "dec":
                        acq_after = False
                        after = False
                        for e in p.ev:
                            if e is ev:
                                after = True
                            elif after and e.k == "fence" and e.a[0] in ACQ:
                                acq_after = True
                            elif after and e.k == "load" and e.a[2] in ACQ and base(e.a[0])[0][0] == "arg":
                                acq_after = True
                        rel_before = False
                        for e in p.ev:
                            if e is ev:
                                break
                            if e.k == "fence" and e.a[0] in REL:
                                rel_before = True
                        for c in COUNTS:
                            if not feasible(p, {old: c}):
                                continue
                            v = subst(p.out[1], {old: c})
                            if v is None:
                                bad(fn, "the result is not a function of the count before the decrement", ev)
                                break
                            if bool(v) != (c == 1):
                                bad(fn, "with %d reference(s) held, the release reports %s" % (
                                    c, "that it was the last" if v else "that others remain"), ev)
                                break
                            if v and ordr not in ACQ and not acq_after:
                                bad(fn, "the last release is not an acquire: the destruction that follows is not ordered "
                                        "after other threads' uses", ev)
                                break
                        if ordr not in REL and not rel_before:
                            bad(fn, "the decrement is not a release: this thread's uses are not ordered before another "
                                    "thread's destruction", ev)
            fn = pol + "_unique"
            n += 1
            for p in [p for p in w.run(fn) if p.out[0] == "ret"]:
                paths += 1
                reads = [e for e in p.ev if e.k == "load" and base(e.a[0])[0][0] == "arg"]
                for e in p.ev:
                    if e.k in ("rmw", "cas") or e.k == "store" and base(e.a[0])[0][0] == "arg":
                        if e.k == "rmw" and e.a[2] == ("c", 0):
                            reads.append(e)
                            continue
                        bad(fn, "asking for uniqueness changes the count", e)
                fence = any(e.k == "fence" and e.a[0] in ACQ for e in p.ev)
                if not reads:
                    v = p.out[1]
                    if v != ("c", 0):
                        bad(fn, "uniqueness is reported without reading the count")
                    continue
                e = reads[-1]
                old, ordr = (e.a[1], e.a[2]) if e.k == "load" else (e.a[3], e.a[4])
                if not ordr:
                    bad(fn, "the count is read by a plain load: a data race with concurrent updates", e)
                    continue
                for c in COUNTS:
                    if not feasible(p, {old: c}):
                        continue
                    v = subst(p.out[1], {old: c})
                    if v is None or (v and c != 1):
                        bad(fn, "with %d references held, uniqueness is reported" % c, e)
                        break
                    if not v and c == 1:
                        bad(fn, "the only holder is not recognised as unique", e)
                        break
                    if v and ordr not in ACQ and not fence:
                        bad(fn, "a positive answer is not an acquire: the in-place mutation that follows is not ordered "
                                "after other threads' releases", e)
                        break
        # initial values, and the policies without atomics
        for pol, vals in (("dflt", (1, 0)), ("atom", (1, 0)), ("plain", (1, 0))):
            for op, v in zip(("ctor", "disowned"), vals):
                fn = pol + "_" + op
                n += 1
                for p in w.run(fn):
                    paths += 1
                    st = [e for e in p.ev if e.k == "store" and base(e.a[0])[0][0] == "arg"]
                    if not st or st[-1].a[1] != ("c", v):
                        bad(fn, "a fresh count starts at %s instead of %d" % (
                            st[-1].a[1][1] if st else "nothing", v), st[-1] if st else None)
        for op, k in (("inc", 1), ("dec", -1), ("unique", 0)):
            fn = "plain_" + op
            n += 1
            for p in w.run(fn):
                paths += 1
                if p.out[0] != "ret":
                    continue
                old = ("ld", ("arg", 0), 0)
                now = p.mem.get(("arg", 0), old)
                for c in COUNTS:
                    if not feasible(p, {old: c}):
                        continue
                    if subst(now, {old: c}) != c + k:
                        bad(fn, "the count goes from %d to %s" % (c, subst(now, {old: c})))
                        break
                    if op != "inc":
                        v = subst(p.out[1], {old: c})
                        if v is None or bool(v) != (c == 1):
                            bad(fn, "with %d reference(s) held, the answer is %s" % (c, v))
                            break
        for op in ("dec", "unique"):
            fn = "none_" + op
            n += 1
            for p in w.run(fn):
                paths += 1
                if p.out[0] == "ret" and p.out[1] != ("c", 0):
                    bad(fn, "without reference counts the answer must be no: the node would be freed or mutated while shared")
    res.coverage = dict(functions=n, paths=paths, configurations=len(stds),
                        explanation="Every path of each operation of each reference counting policy (and of whatever "
                        "policy the default memory policy selects) is read from the compiled IR: one atomic update of "
                        "the right sign, memory orders, result as a function of the previous count, initial values.")
    res.assumptions = ["counts stay below INT_MAX", "C++ memory model as compiled by clang"]
    res.floor("functions", n, 20)
    res.floor("paths", paths, 20)
    return res


# ------------------------------------------------------------------ spin lock
def a03(tier):
    res = core.Result()
    n = paths = 0
    stds = [[]] + ([["-std=c++14"], ["-std=c++20"], ["-DNDEBUG"]] if tier == "thorough" else [])
    for flags in stds:
        m = core.irdump("spin", flags)
        w = Walker(m, visits=3, throws=lambda x: x == "__p_user", clobber=lambda x: True)

        def bad(fn, msg, e=None):
            res.add("lock", e.loc if e else "immer/lock", msg, function=fn)

        def took(p, e):
            """Whether this event takes the lock on this path (None: undecided here)."""
            if e.k == "rmw":
                o, addr, v, old, ordr = e.a
                if o in ("xchg", "or") and v[0] == "c" and v[1] != 0:
                    return p.truth(cmp("eq", old, ("c", 0)))
            if e.k == "cas":
                if e.a[1] == ("c", 0) and e.a[2][0] == "c" and e.a[2][1] != 0:
                    return p.truth(("xv", e.a[3], (1,)))
            return False

        def frees(e):
            return (e.k == "store" and e.a[1] == ("c", 0) and base(e.a[0])[0][0] == "arg") or (
                e.k == "rmw" and (e.a[0] == "xchg" or e.a[0] == "and") and e.a[2] == ("c", 0))

        def order(e):
            return e.a[2] if e.k == "store" else e.a[4]

        for pol in ("dflt", "spin"):
            def walk(fn):
                nonlocal paths
                out = [p for p in w.run(pol + "_" + fn) if p.out[0] != "stop"]
                paths += len(out)
                for p in out:
                    for e in p.ev:
                        if e.k in ("load", "store") and base(e.a[0])[0][0] == "arg" and not e.a[2]:
                            bad(pol + "_" + fn, "the flag is accessed without atomics", e)
                return out
            n += 4
            ps = walk("lock")
            if not ps:
                bad(pol + "_lock", "no path returns")
            for p in ps:
                held = 0
                for e in p.ev:
                    if took(p, e):
                        held += 1
                        if e.a[4] not in ACQ:
                            bad(pol + "_lock", "taking the lock is not an acquire", e)
                    elif frees(e):
                        held -= 1
                        bad(pol + "_lock", "lock() frees the flag, whoever holds it", e)
                if held != 1:
                    bad(pol + "_lock", "lock() returns on a path where the flag was not seen free and taken once (%d)" % held,
                        next((e for e in p.ev if e.k in ("rmw", "cas")), None))
            for p in walk("try"):
                rm = [e for e in p.ev if e.k in ("rmw", "cas")]
                r = p.out[1]
                if not rm:
                    if r != ("c", 0):
                        bad(pol + "_try", "try_lock() reports success without taking the flag")
                    continue
                e = rm[-1]
                for was in (0, 1):
                    if e.k == "rmw":
                        mm = {e.a[3]: was}
                    else:
                        mm = {("xv", e.a[3], (0,)): was, ("xv", e.a[3], (1,)): int(was == 0)}
                    if not feasible(p, mm):
                        continue
                    v = subst(r, mm)
                    if v is None or bool(v & 1) != (was == 0):
                        bad(pol + "_try", "try_lock() reports %s when the flag was %s" % (v, "taken" if was else "free"), e)
                        break
                if e.a[4] not in ACQ:
                    bad(pol + "_try", "taking the lock is not an acquire", e)
                if e.k == "rmw" and not (e.a[0] in ("xchg", "or") and e.a[2][0] == "c" and e.a[2][1] != 0):
                    bad(pol + "_try", "the flag is not set", e)
            for p in walk("unlock"):
                fr = [e for e in p.ev if frees(e)]
                if len(fr) != 1:
                    bad(pol + "_unlock", "unlock() frees the flag %d times" % len(fr))
                for e in fr:
                    if order(e) not in REL:
                        bad(pol + "_unlock", "freeing the flag is not a release", e)
            for p in walk("scoped"):
                held = 0
                for e in p.ev:
                    if took(p, e):
                        held += 1
                    elif frees(e):
                        held -= 1
                        if order(e) not in REL:
                            bad(pol + "_scoped", "freeing the flag is not a release", e)
                    elif e.k == "call" and e.a[0] == "__p_user" and held != 1:
                        bad(pol + "_scoped", "the guarded code runs with the lock held %d times" % held, e)
                if held != 0:
                    bad(pol + "_scoped", "the guard's scope is left %s with the lock held" % (
                        "by an exception" if p.out[0] == "unwind" else "normally"))
            n += 1
            for p in walk("ctor") if False else w.run(pol + "_ctor"):
                v = p.mem.get(("arg", 0))
                if v is not None and v != ("c", 0):
                    bad(pol + "_ctor", "a fresh lock starts as taken")
    res.coverage = dict(functions=n, paths=paths, configurations=len(stds),
                        explanation="Every path (loops up to three rounds, which covers every state the lock word can "
                        "be in) of lock, try_lock, unlock and the scoped guard, for the spin lock and for the default "
                        "policy's lock: mutual exclusion, acquire/release orders, release on every exit.")
    res.floor("paths", paths, 12)
    return res


# ----------------------------------------------------------------------- atom
USER = ("__p_cctor", "__p_mctor_throwing", "__p_massign_throwing", "__p_cassign", "__p_vctor", "__p_alloc", "FnT", "__p_dtor", "__p_free", "__p_eq",
        "__p_hash")


def a02(tier):
    res = core.Result()
    n = paths = sects = 0
    stds = [[], ["-DPROBE_THROWING_MOVE"]] + ([["-std=c++14"], ["-std=c++20"], ["-DNDEBUG"]] if tier == "thorough" else [])
    for flags in stds:
        for gc in (False, True):
            m = core.irdump("atom", flags + (["-DGCCFG"] if gc else []))
            fns = {f["name"]: f for f in m["functions"]}
            nounw = {f["name"] for f in m["functions"] if f.get("nounwind")}
            w = Walker(m, visits=3, throws=lambda x: x not in nounw and x in fns,
                       clobber=lambda x: x in ("__p_lock", "__p_unlock", "__p_try_lock") or "FnT" in x,
                       shared=lambda r: r == ("arg", 0))
            for op in ("load", "conv", "value", "store", "storec", "assign", "exchange", "update"):
                n += 1
                for p in w.run("a_" + op):
                    if p.out[0] == "stop" or impossible(p):
                        continue
                    paths += 1
                    sects += (gc_path if gc else lock_path)(res, "a_" + op + (" [gc]" if gc else ""), op, p)
    res.coverage = dict(functions=n, paths=paths, critical_sections_or_atomic_steps=sects, configurations=len(stds) * 2,
                        explanation="Every path of every atom operation, with an opaque lock and with the garbage "
                        "collected variant: which accesses to the shared slot happen inside which critical section, "
                        "which reference is taken where, and how update's comparison, snapshot and store relate.")
    res.assumptions = ["update's retry loop is followed for up to three rounds; the rules relate events of one round",
                       "the callback does not touch the atom's storage"]
    res.floor("paths", paths, 20)
    res.floor("sections", sects, 30)
    return res


def impossible(p):
    """A count this path itself raised cannot be the last one dropped."""
    net = {}
    for e in p.ev:
        if e.k != "call":
            continue
        if e.a[0] == "__p_inc":
            x = p.canon(e.a[1][0])
            net[x] = net.get(x, 0) + 1
        elif e.a[0] == "__p_dec":
            x = p.canon(e.a[1][0])
            c = net.get(x, 0)
            if c >= 1 and p.truth(cmp("ne", e.a[2], ("c", 0))) is True or c >= 1 and p.truth(e.a[2]) is True:
                return True
            net[x] = c - 1
    return False


def slot(a):
    r, off = base(a)
    return r == ("arg", 0)


def is_slotload(v, loads):
    return v in loads


def lock_path(res, fn, op, p):
    def bad(msg, e):
        res.add("atom", e.loc if e else "immer/atom.hpp", msg, function=fn)

    held, sec, lock = False, 0, None
    loads = {}       # loaded value -> section
    lastfn = None    # (snapshot the callback ran on, index)
    copied = None
    allocs = []
    stored = []
    for idx, e in enumerate(p.ev):
        if e.k == "call":
            nm, args, v = e.a
            if nm == "__p_lock" or nm == "__p_try_lock" and p.truth(v):
                if held:
                    bad("the lock is taken again while held", e)
                held, sec, lock = True, sec + 1, args[0]
                continue
            if nm == "__p_unlock":
                if not held:
                    bad("the lock is released while not held", e)
                elif args[0] != lock:
                    bad("another lock is released than was taken", e)
                held = False
                continue
            if nm == "__p_inc":
                r = base(args[0])[0]
                if r in loads and not (held and loads[r] == sec):
                    bad("a reference to the value read from the atom is taken after the lock that protected the read "
                        "was released: another thread may have freed it", e)
            if held and nm.startswith(USER) or held and "FnT" in nm:
                bad("user code or allocation (%s) runs while the atom's lock is held" % nm, e)
            if nm.startswith("__p_cctor"):
                copied = base(args[1])[0]
            if "FnT" in nm:
                lastfn = (copied, idx)
            if nm == "__p_alloc":
                allocs.append((v, idx))
            continue
        if e.k in ("load", "store") and slot(e.a[0]):
            if not held:
                bad("the atom's slot is %s without the lock" % ("read" if e.k == "load" else "written"), e)
            elif lock != ("arg", 0) and base(lock)[0] != ("arg", 0):
                bad("the atom's slot is accessed under a lock that is not the atom's own", e)
            if e.k == "load":
                loads[e.a[1]] = sec
            else:
                stored.append((e.a[1], sec, idx))
                if not any(s == sec for s in loads.values()):
                    bad("a new value is stored without taking the old one out in the same critical section: "
                        "a concurrent change in between is lost", e)
                if op == "update":
                    check_update(p, bad, e, loads, sec, lastfn, allocs, idx)
    if held:
        bad("the operation ends %s with the lock held" % ("by an exception" if p.out[0] == "unwind" else ""),
            p.ev[-1] if p.ev else None)
    if p.out[0] == "ret":
        final = [s for s in stored]
        if op in ("store", "storec", "assign", "exchange", "update") and len(final) != 1:
            bad("the operation returns after storing %d values instead of one" % len(final),
                next((e for e in p.ev if e.k == "store"), None))
        outv = p.mem.get(("arg", 1))
        if op in ("load", "conv", "exchange"):
            if outv not in loads:
                bad("the value returned is not one read from the atom", None)
            elif op == "exchange" and final and loads[outv] != final[-1][1]:
                bad("the value returned was not the one current when the new one was stored", None)
        if op == "update" and final and outv != final[-1][0]:
            bad("the value returned is not the one stored", None)
        if op in ("store", "storec", "assign", "exchange") and final:
            b = ("arg", 2) if op == "exchange" else ("arg", 1)
            v = final[-1][0]
            if not (v[0] == "ld" and base(v[1])[0] == b):
                bad("the value stored is not the argument", None)
    return sec


def check_update(p, bad, e, loads, sec, lastfn, allocs, idx):
    here = [v for v, s in loads.items() if s == sec]
    snap = [v for v, s in loads.items() if s < sec]
    ok = None
    for a in here:
        for b in snap:
            if p.truth(cmp("eq", a, b)) is True or p.truth(cmp("eq", b, a)) is True:
                ok = b
    if ok is None:
        bad("update stores its result without having found, under the same lock, that the value it was computed from "
            "is still current", e)
        return
    if not lastfn or lastfn[0] != ok and lastfn[0] not in here:
        bad("the function was not applied to the value that was compared", e)
    new = base(e.a[1])[0]
    if not any(v == new and lastfn and i > lastfn[1] for v, i in allocs):
        bad("what is stored is not the freshly computed result", e)
    # the snapshot must stay referenced until the comparison (or its address may be reused)
    net = 0
    if p.canon(ok) == ("c", 0):
        return
    for q in p.ev[:idx]:
        if q.k == "call" and q.a[1] and p.canon(base(q.a[1][0])[0]) == p.canon(ok):
            net += {"__p_inc": 1, "__p_dec": -1}.get(q.a[0], 0)
    if net < 1:
        bad("the snapshot is not kept referenced until it is compared: its address may have been reused for another value", e)


def gc_path(res, fn, op, p):
    def bad(msg, e):
        res.add("atom", e.loc if e else "immer/atom.hpp", msg, function=fn)

    steps = 0
    loads, writes = [], []
    lastfn = copied = None
    allocs = []
    for idx, e in enumerate(p.ev):
        if e.k == "call":
            nm, args, v = e.a
            if nm.startswith("__p_cctor"):
                copied = base(args[1])[0]
            if "FnT" in nm:
                lastfn = (copied, idx)
            if nm == "__p_alloc":
                allocs.append((v, idx))
        if e.k in ("load", "store") and slot(e.a[0]):
            steps += 1
            if not e.a[2]:
                bad("the slot is accessed without atomics", e)
                continue
            if e.k == "load":
                loads.append(e.a[1])
                if e.a[2] not in ACQ:
                    bad("the value is read without acquire: its contents may not be visible yet", e)
            else:
                writes.append((e.a[1], None, idx))
                if e.a[2] not in REL:
                    bad("the value is published without release: its contents may not be visible to readers", e)
                if op == "update":
                    bad("update publishes its result with a plain store: a concurrent change is lost", e)
        if e.k in ("rmw", "cas") and slot(e.a[1] if e.k == "rmw" else e.a[0]):
            steps += 1
            if e.a[4] not in REL:
                bad("the value is published without release: its contents may not be visible to readers", e)
            if e.a[4] not in ACQ:
                bad("the old value is read without acquire", e)
            if e.k == "rmw":
                loads.append(e.a[3])
                writes.append((e.a[2], e.a[3], idx))
                if e.a[0] != "xchg" or op == "update":
                    bad("unexpected read-modify-write %s" % e.a[0], e)
            elif p.truth(("xv", e.a[3], (1,))) is True:
                writes.append((e.a[2], e.a[1], idx))
                loads.append(e.a[1])
                if op == "update":
                    if not lastfn or lastfn[0] != e.a[1]:
                        bad("the function was not applied to the value compared against", e)
                    if not any(v == base(e.a[2])[0] and lastfn and i > lastfn[1] for v, i in allocs):
                        bad("what is stored is not the freshly computed result", e)
            else:
                loads.append(("xv", e.a[3], (0,)))
    if p.out[0] == "ret":
        if op in ("store", "storec", "assign", "exchange", "update") and len(writes) != 1:
            bad("the operation returns after storing %d values instead of one" % len(writes), None)
        outv = p.mem.get(("arg", 1))
        if op in ("load", "conv", "exchange") and outv not in loads:
            bad("the value returned is not one read from the atom", None)
        if op == "exchange" and writes and outv != writes[-1][1]:
            bad("the value returned was not the one current when the new one was stored", None)
        if op == "update" and writes and outv != writes[-1][0]:
            bad("the value returned is not the one stored", None)
    return steps
