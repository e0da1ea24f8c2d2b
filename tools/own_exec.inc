    // ---------------------------------------------------------- execution
    struct Region
    {
        Loop* L;
        Region* parent;
        AtomId k; // iteration counter of L
        std::map<BasicBlock*, std::vector<State>> pending;
        std::vector<State> back;
        std::vector<std::pair<BasicBlock*, State>> outs;
    };
    struct Exit
    {
        State s;
        const Instruction* at;
        EId ret;
        bool hasRet;
    };
    std::vector<Exit>* exits = nullptr;

    EId constVal(const Constant* c)
    {
        if (auto* ci = dyn_cast<ConstantInt>(c))
            return S.cst(ci->getBitWidth() == 1 ? (int64_t) ci->getZExtValue()
                         : ci->getBitWidth() <= 64 ? ci->getSExtValue()
                                                   : 0);
        if (isa<ConstantPointerNull>(c))
            return S.cst(0);
        if (auto* g = dyn_cast<GlobalValue>(c)) {
            auto a          = S.mkAtom(AK::Global, 0, (int64_t)(intptr_t) g, {}, true);
            S.atoms[a].name = g->getName().str();
            return S.atomE(a);
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(*DL, off))
                    return S.addc(constVal(cast<Constant>(
                                      gep->getPointerOperand())),
                                  off.getSExtValue());
            }
            if (ce->isCast())
                return constVal(ce->getOperand(0));
        }
        if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
            std::vector<EId> v;
            unsigned n = c->getType()->isStructTy()
                             ? c->getType()->getStructNumElements()
                             : c->getType()->getArrayNumElements();
            if (n <= 16) {
                for (unsigned i = 0; i < n; ++i)
                    v.push_back(c->getAggregateElement(i)
                                    ? constVal(c->getAggregateElement(i))
                                    : S.cst(0));
                return S.atomE(S.mkAtom(AK::Op, OP_TUPLE, 0, v, false));
            }
        }
        if (isa<UndefValue>(c))
            return S.atomE(S.mkAtom(AK::Uninit, 0, 1, {},
                                    c->getType()->isPointerTy()));
        return opaque(c->getType()->isPointerTy(), "const");
    }
    EId val(State& s, const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v))
            return constVal(c);
        if (auto* p = s.env.lookup(v))
            return norm(s, *p);
        if (auto* a = dyn_cast<Argument>(v))
            return S.atomE(argAtom(a->getArgNo(), a->getType()->isPointerTy()));
        // not available (should not happen)
        return opaque(v->getType()->isPointerTy(), "undef");
    }
    AtomId argAtom(unsigned n, bool ptr)
    {
        auto a          = S.mkAtom(AK::Arg, n, 0, {}, ptr);
        S.atoms[a].name = "arg" + std::to_string(n);
        return a;
    }
    void set(State& s, const Value* v, EId e)
    {
        s.env = EF->add(s.env, v, e);
    }
    EId freshVal(State& s, const Instruction* i, AK k, bool ptr, bool boolean,
                 const char* nm, int sub = 0)
    {
        int n  = ++s.cnt[i];
        auto a = S.mkAtom(k, boolean ? -7 : sub,
                          (int64_t)(intptr_t) i * 64 + n, {}, ptr);
        if (boolean)
            S.atoms[a].tag = S.atoms[a].tag; // key stays unique
        S.atoms[a].name = nm;
        return S.atomE(a);
    }

    // liveness of SSA values
    void computeLiveness()
    {
        liveIn.clear();
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto it = rpo.rbegin(); it != rpo.rend(); ++it) {
                auto* b = *it;
                std::set<const Value*> live;
                for (auto* sc : successors(b)) {
                    for (auto* v : liveIn[sc])
                        live.insert(v);
                    for (auto& ph : sc->phis()) {
                        live.erase(&ph);
                    }
                }
                for (auto* sc : successors(b))
                    for (auto& ph : sc->phis()) {
                        auto* v = ph.getIncomingValueForBlock(b);
                        if (!isa<Constant>(v))
                            live.insert(v);
                    }
                for (auto i = b->rbegin(); i != b->rend(); ++i) {
                    if (isa<PHINode>(*i))
                        continue;
                    live.erase(&*i);
                    for (auto& o : i->operands())
                        if (isa<Instruction>(o) || isa<Argument>(o))
                            live.insert(o);
                }
                if (live != liveIn[b]) {
                    liveIn[b] = std::move(live);
                    ch        = true;
                }
            }
        }
    }

    void edge(State s, BasicBlock* from, BasicBlock* to, Region& r)
    {
        std::vector<std::pair<const Value*, EId>> vals;
        for (auto& ph : to->phis())
            vals.push_back({&ph, val(s, ph.getIncomingValueForBlock(from))});
        Env e = EF->getEmptyMap();
        for (auto* v : liveIn[to])
            if (auto* p = s.env.lookup(v))
                e = EF->add(e, v, *p);
        for (auto& p : vals)
            e = EF->add(e, p.first, p.second);
        s.env = e;
        if (r.L && to == r.L->getHeader()) {
            r.back.push_back(std::move(s));
            return;
        }
        if (r.L && !r.L->contains(to)) {
            r.outs.push_back({to, std::move(s)});
            return;
        }
        r.pending[to].push_back(std::move(s));
    }
    void route(State s, BasicBlock* to, Region& r)
    {
        // phis already evaluated
        if (r.L && to == r.L->getHeader())
            r.back.push_back(std::move(s));
        else if (r.L && !r.L->contains(to))
            r.outs.push_back({to, std::move(s)});
        else
            r.pending[to].push_back(std::move(s));
    }

    std::string fingerprint(State& s)
    {
        std::string k;
        auto app = [&](uint64_t v) {
            k.append(reinterpret_cast<const char*>(&v), sizeof v);
        };
        for (auto& p : s.env) {
            app((uint64_t) p.first);
            app(norm(s, p.second));
        }
        app(0xfffffff1);
        app(s.mem ? s.mem->id : 0);
        for (auto& p : normLedger(s, s.led)) {
            app(p.first.k);
            app(p.first.tag);
            app(p.first.e);
            app(p.first.ver);
            app(p.second);
        }
        app(0xfffffff2);
        for (auto& p : s.blocks) {
            app(p.first);
            app(p.second.st);
            app(p.second.rc);
            app(norm(s, p.second.size));
        }
        for (auto p : s.pend)
            app(p);
        app(0xfffffff3);
        for (auto p : s.freed)
            app(p);
        app(s.caught * 4 + s.rethrowing * 2 + s.unwinding);
        app(s.taint.size());
        return k;
    }
    Ledger normLedger(State& s, const Ledger& l)
    {
        Ledger r;
        for (auto& p : l) {
            Key k = p.first;
            k.e   = norm(s, k.e);
            if (k.k == Key::Ref) {
                AtomId b;
                int64_t c;
                if (S.isC(k.e, c))
                    continue; // null
                if (S.baseOf(k.e, b) && S.atoms[b].k == AK::Load) {
                    // became a slot content after substitution
                    EId ad = S.atoms[b].args[0];
                    for (int d = 0; d < 2; ++d) {
                        Key q{Key::Slot, k.tag, S.addc(ad, d * optPtr),
                              S.atoms[b].tag};
                        auto it = r.emplace(q, 0).first;
                        if ((it->second += d ? -p.second : p.second) == 0)
                            r.erase(it);
                    }
                    continue;
                }
                if (S.baseOf(k.e, b))
                    k.e = S.atomE(b);
            }
            auto it = r.emplace(k, 0).first;
            if ((it->second += p.second) == 0)
                r.erase(it);
        }
        // slots known to hold null, or another value
        bool again = true;
        while (again) {
            again = false;
            for (auto& p : r) {
                if (p.first.k != Key::Slot || p.second == 0)
                    continue;
                auto at = S.mkAtom(AK::Load, 0, p.first.ver, {p.first.e}, true);
                auto si = s.subst.find(at);
                if (si == s.subst.end())
                    continue;
                // [e, e+ptr) is a single slot only if the partner is there
                Key q = p.first;
                q.e   = S.addc(q.e, optPtr);
                auto n = p.second;
                Key me = p.first;
                EId v  = norm(s, si->second);
                // remove this slot from the half-lines
                auto add = [&](Key kk, int64_t d) {
                    auto it = r.emplace(kk, 0).first;
                    if ((it->second += d) == 0)
                        r.erase(it);
                };
                add(me, -n);
                add(q, n);
                int64_t c;
                AtomId b;
                if (!S.isC(v, c) && S.baseOf(v, b)) {
                    if (S.atoms[b].k == AK::Load) {
                        Key w{Key::Slot, me.tag, S.atoms[b].args[0],
                              S.atoms[b].tag};
                        add(w, n);
                        w.e = S.addc(w.e, optPtr);
                        add(w, -n);
                    } else
                        add({Key::Ref, me.tag, S.atomE(b), 0}, n);
                }
                again = true;
                break;
            }
        }
        return r;
    }

    void mergeStates(std::vector<State>& v)
    {
        if (v.size() < 2)
            return;
        std::unordered_map<std::string, size_t> seen;
        std::vector<State> out;
        for (auto& s : v) {
            auto k  = fingerprint(s);
            auto it = seen.find(k);
            if (it == seen.end()) {
                seen.emplace(k, out.size());
                out.push_back(std::move(s));
                continue;
            }
            auto& t = out[it->second];
            // keep only common facts; expressions are normalised first
            std::map<EId, Interval> c;
            if (t.iv != s.iv || t.subst != s.subst)
                for (int side = 0; side < 2; ++side) {
                    auto& x = side ? s : t;
                    auto& y = side ? t : s;
                    for (auto& p : x.iv) {
                        if (side && c.count(p.first))
                            continue;
                        auto q = y.iv.find(p.first);
                        Interval i;
                        if (q != y.iv.end()) {
                            i.lo = std::min(p.second.lo, q->second.lo);
                            i.hi = std::max(p.second.hi, q->second.hi);
                            for (auto n : p.second.ne)
                                if (std::find(q->second.ne.begin(), q->second.ne.end(), n) !=
                                    q->second.ne.end())
                                    i.ne.push_back(n);
                        } else {
                            // known there in another way?
                            EId e = norm(y, p.first);
                            int64_t v;
                            if (S.isC(e, v)) {
                                i.lo = std::min(p.second.lo, v);
                                i.hi = std::max(p.second.hi, v);
                                for (auto n : p.second.ne)
                                    if (n != v)
                                        i.ne.push_back(n);
                            }
                        }
                        if (i.lo != INT64_MIN || i.hi != INT64_MAX || !i.ne.empty())
                            c[p.first] = i;
                    }
                }
            else
                c = t.iv;
            if (t.subst != s.subst) {
                normaliseAll(t);
                std::map<AtomId, EId> cs;
                for (auto& p : t.subst) {
                    auto q = s.subst.find(p.first);
                    if (q != s.subst.end() && q->second == p.second)
                        cs.insert(p);
                }
                t.subst = std::move(cs);
                t.memo.clear();
            }
            t.iv = std::move(c);
            for (auto& p : s.cnt)
                t.cnt[p.first] = std::max(t.cnt[p.first], p.second);
        }
        v = std::move(out);
    }
    void normaliseAll(State& s)
    {
        Env e = EF->getEmptyMap();
        for (auto& p : s.env)
            e = EF->add(e, p.first, norm(s, p.second));
        s.env = e;
        s.led = normLedger(s, s.led);
        for (auto& p : s.blocks)
            p.second.size = norm(s, p.second.size);
        // memory
        std::vector<MemP> ch;
        for (auto m = s.mem; m; m = m->prev)
            ch.push_back(m);
        MemP m;
        for (auto it = ch.rbegin(); it != ch.rend(); ++it) {
            MemNode n = **it;
            n.addr    = norm(s, n.addr);
            n.val     = norm(s, n.val);
            n.len     = norm(s, n.len);
            n.prev    = m;
            m         = std::make_shared<const MemNode>(std::move(n));
        }
        s.mem = m;
    }

    void runRegion(Region& r, BasicBlock* entry, std::vector<State> init)
    {
        r.pending[entry] = std::move(init);
        for (auto* b : rpo) {
            if (r.L && !r.L->contains(b))
                continue;
            auto it = r.pending.find(b);
            if (it == r.pending.end())
                continue;
            auto states = std::move(it->second);
            r.pending.erase(it);
            Loop* bl = LI->getLoopFor(b);
            if (bl != r.L && bl && bl->getHeader() == b) {
                // child loop
                mergeStates(states);
                for (auto& s : states)
                    execLoop(bl, std::move(s), r);
                continue;
            }
            mergeStates(states);
            for (auto& s : states) {
                if (++nstates > (size_t) optStates)
                    throw TooMany{};
                step(std::move(s), b, b->begin(), r);
            }
        }
    }

    // ------------------------------------------------------------- loops
    std::vector<MemP> since(const MemP& now, const MemP& old)
    {
        std::vector<MemP> v;
        for (auto m = now; m && m != old; m = m->prev)
            v.push_back(m);
        std::reverse(v.begin(), v.end());
        return v;
    }
    void execLoop(Loop* L, State s0, Region& parent)
    {
        auto* H = L->getHeader();
        stats[F].loops++;
        struct Ph
        {
            const PHINode* p;
            EId init;
            AtomId sym;
            bool ind = true;
            int64_t c = 0;
            bool first = true;
        };
        std::vector<Ph> phs;
        for (auto& p : H->phis()) {
                phs.push_back({&p, val(s0, &p), S.fresh(AK::Opaque, p.getType()->isPointerTy(), "phi")});
                phiInit[phs.back().sym] = phs.back().init;
        }
        // pass 1: which phis are inductions, which cells are written
        State s1 = s0;
        for (auto& p : phs)
            set(s1, p.p, S.atomE(p.sym));
        Region r1{L, &parent, S.fresh(AK::Iter, false, "k")};
        ++quiet;
        auto* savedExits = exits;
        std::vector<Exit> dummy;
        exits = &dummy;
        runRegion(r1, H, {s1});
        exits = savedExits;
        --quiet;
        std::vector<std::pair<EId, unsigned>> cells; // invariant cells written
        std::vector<EId> cellAddrs;
        std::set<AtomId> havocBases;
        for (auto& b : r1.back) {
            for (auto& p : phs) {
                EId d = S.sub(val(b, p.p), norm(b, S.atomE(p.sym)));
                int64_t c;
                if (!S.isC(d, c)) {
                    p.ind = false;
                    continue;
                }
                if (p.first) {
                    p.c     = c;
                    p.first = false;
                } else if (p.c != c)
                    p.ind = false;
            }
            for (auto& m : since(b.mem, s1.mem)) {
                if (m->k == MemNode::Havoc) {
                    havocBases.insert(m->base);
                    continue;
                }
                if (m->k != MemNode::Store)
                    continue;
                EId a    = norm(b, m->addr);
                bool var = false;
                for (auto& p : phs)
                    if (S.occurs(a, p.sym))
                        var = true;
                for (auto& t : S.lins[a].t)
                    if (S.atoms[t.first].k == AK::Opaque && !S.atoms[t.first].ptr)
                        var = true;
                if (!var)
                    cells.push_back({a, m->size});
            }
        }
        // pass 2
        State s2 = s0;
        AtomId k = S.fresh(AK::Iter, false, "k");
        EId kE   = S.atomE(k);
        {
            Interval in;
            in.lo = 0;
            addIv(s2, kE, in);
        }
        std::sort(cells.begin(), cells.end());
        cells.erase(std::unique(cells.begin(), cells.end()), cells.end());
        for (auto& c : cells) {
            MemNode n{MemNode::Store};
            n.addr = c.first;
            n.size = c.second;
            n.val  = opaque(c.second == 8 && cellIsPtr(s0, c.first), "cell");
            push(s2, n);
        }
        for (auto b : havocBases) {
            MemNode n{MemNode::Havoc};
            n.base = b;
            push(s2, n);
        }
        for (auto& p : phs) {
            if (p.ind && !p.first)
                set(s2, p.p, S.add(p.init, S.scale(kE, p.c)));
            else if (p.first && r1.back.empty())
                set(s2, p.p, p.init); // loop never iterates
            else {
                EId x = opaque(p.p->getType()->isPointerTy(), "phi");
                AtomId xa;
                if (S.baseOf(x, xa))
                    phiInit[xa] = p.init;
                set(s2, p.p, x);
            }
        }
        bool never = r1.back.empty();
        if (never)
            setSubst(s2, k, S.cst(0));
        Region r2{L, &parent, k};
        // function exits reached from inside the loop
        std::vector<Exit> inner;
        exits = &inner;
        runRegion(r2, H, {s2});
        exits = savedExits;
        // per-iteration ledger effect
        bool haveE = false, regular = true;
        Ledger E;
        std::string why;
        for (auto& b : r2.back) {
            Ledger d = normLedger(b, b.led);
            for (auto& p : normLedger(b, s2.led)) {
                auto it = d.emplace(p.first, 0).first;
                if ((it->second -= p.second) == 0)
                    d.erase(it);
            }
            if (!haveE) {
                E     = d;
                haveE = true;
            } else if (!(E == d)) {
                regular = false;
                why     = "iterations of a loop differ in their effects";
                if (optTrace) {
                    errs() << "loop differs at "
                           << locStr(H->getTerminator()) << "\n";
                    dumpLedger(E);
                    dumpLedger(d);
                }
            }
            if (b.pend != s2.pend || b.freed.size() != s2.freed.size()) {
                // releases inside iterations: blocks are iteration-local
                for (auto p : b.pend)
                    if (!s2.pend.count(p)) {
                        regular = false;
                        why     = "a block is left pending across iterations";
                    }
            }
        }
        Ledger sum;
        if (haveE && regular) {
            // telescoping: H(e(k)) - H(e(k+1)) sums to H(e(0)) - H(e(k))
            Ledger rest = E;
            while (!rest.empty()) {
                // choose an entry and its partner
                bool done = false;
                for (auto& p : rest) {
                    auto co = S.coef(p.first.e, k);
                    if (co == 0 || p.first.k == Key::Ref)
                        continue;
                    // deep occurrences make it irregular
                    EId lin0 = S.sub(p.first.e, S.scale(kE, co));
                    if (S.occurs(lin0, k))
                        continue;
                    Key q = p.first;
                    q.e   = S.addc(q.e, co); // e(k+1)
                    auto qi = rest.find(q);
                    if (qi == rest.end() ||
                        (qi->second > 0) == (p.second > 0))
                        continue;
                    auto n = std::min(std::llabs(p.second),
                                      std::llabs(qi->second));
                    n      = p.second > 0 ? n : -n;
                    Key a0 = p.first;
                    a0.e   = lin0; // e(0)
                    Key ak = p.first;
                    auto upd = [&](Ledger& l, Key kk, int64_t d) {
                        auto it = l.emplace(kk, 0).first;
                        if ((it->second += d) == 0)
                            l.erase(it);
                    };
                    upd(sum, a0, n);
                    upd(sum, ak, -n);
                    Key pk = p.first;
                    upd(rest, pk, -n);
                    upd(rest, q, n);
                    done = true;
                    break;
                }
                if (!done)
                    break;
            }
            if (!rest.empty()) {
                // iteration-local net effects that cannot be summed
                regular = false;
                why     = "a loop's effects could not be summed";
                if (optTrace) {
                    errs() << "loop rest at " << locStr(H->getTerminator())
                           << "\n";
                    dumpLedger(rest);
                }
            }
        }
        // memory written by varying stores
        std::vector<MemNode> memSum;
        if (haveE) {
            auto& b = r2.back.front();
            for (auto& m : since(b.mem, s2.mem)) {
                if (m->k == MemNode::Store) {
                    EId a   = norm(b, m->addr);
                    auto co = S.coef(a, k);
                    if (co == 0 && !S.occurs(a, k))
                        continue;
                    EId a0 = S.sub(a, S.scale(kE, co));
                    MemNode n{MemNode::HavocRange};
                    n.addr = a0;
                    n.len  = S.scale(kE, co);
                    EId v  = norm(b, m->val);
                    AtomId vb;
                    auto& vl = S.lins[v];
                    if (co > 0 && vl.t.size() == 1 && vl.c == 0 &&
                        vl.t[0].second == 1) {
                        vb     = vl.t[0].first;
                        auto A = S.atoms[vb];
                        if (A.k == AK::Load && A.tag == 0 &&
                            S.coef(A.args[0], k) == co) {
                            n.k    = MemNode::Copy;
                            n.val  = S.sub(A.args[0], S.scale(kE, co));
                            n.ptrs = A.ptr;
                        }
                    }
                    if (co <= 0 || S.occurs(a0, k)) {
                        AtomId bb;
                        if (!S.baseOf(a, bb))
                            continue;
                        n.k    = MemNode::Havoc;
                        n.base = bb;
                    }
                    memSum.push_back(n);
                } else if (m->k != MemNode::Havoc) {
                    MemNode n = *m;
                    AtomId bb;
                    if (S.baseOf(norm(b, m->addr), bb)) {
                        n.k    = MemNode::Havoc;
                        n.base = bb;
                        n.addr = n.val = n.len = 0;
                        memSum.push_back(n);
                    }
                }
            }
        }
        auto finish = [&](State& x) {
            if (haveE) {
                if (!regular)
                    taint(x, why + " (" + locStr(H->getTerminator(), 2) + ")");
                else
                    for (auto& p : sum)
                        bump(x, p.first, p.second);
            }
            if (!memSum.empty()) {
                auto part = since(x.mem, s2.mem);
                x.mem     = s2.mem;
                for (auto& n : memSum)
                    push(x, n);
                for (auto& m : part) {
                    MemNode n = *m;
                    push(x, n);
                }
            }
            for (auto& q : r2.back)
                x.released |= q.released;
            x.memo.clear();
        };
        for (auto& e : inner) {
            finish(e.s);
            exits->push_back(std::move(e));
        }
        for (auto& o : r2.outs) {
            finish(o.second);
            // a counter solved by the exit condition may be infeasible
            route(std::move(o.second), o.first, parent);
        }
    }
    bool cellIsPtr(State& s, EId addr)
    {
        // a pointer cell if its current content is a pointer
        auto v = loadAt(s, addr, 8, true, s.mem);
        AtomId b;
        if (S.baseOf(v, b))
            return S.atoms[b].k != AK::Uninit && S.atoms[b].k != AK::Load;
        return false;
    }
    void dumpLedger(const Ledger& l)
    {
        for (auto& p : l)
            errs() << "   " << (int) p.first.k << " tag "
                   << (p.first.tag ? S.astr(p.first.tag) : "-") << " "
                   << S.str(p.first.e) << " v" << p.first.ver % 1000 << " : "
                   << p.second << "\n";
    }

    // ------------------------------------------------------------- steps
    void branch(State s, EId cond, BasicBlock* from, BasicBlock* t,
                BasicBlock* f, Region& r)
    {
        int d = decide(s, cond);
        auto go = [&](State x, BasicBlock* to, bool v) {
            bool ex = r.L && !r.L->contains(to);
            if (!assume(x, cond, v, ex, r.k))
                return;
            edge(std::move(x), from, to, r);
        };
        if (t == f) {
            edge(std::move(s), from, t, r);
            return;
        }
        if (d != 0)
            go(s, t, true);
        if (d != 1)
            go(std::move(s), f, false);
    }
    void exitFn(State s, const Instruction* at, EId ret, bool has)
    {
        exits->push_back({std::move(s), at, ret, has});
    }
    // continue unwinding from a call that throws
    void unwindFrom(State s, const CallBase* cb, Region& r)
    {
        if (!s.unwinding || !s.thrower)
            s.thrower = cb;
        if (s.unwinding && s.caught)
            s.rethrowing = true;
        s.unwinding = true;
        if (auto* inv = dyn_cast<InvokeInst>(cb)) {
            edge(std::move(s), const_cast<BasicBlock*>(inv->getParent()),
                 inv->getUnwindDest(), r);
        } else {
            exitFn(std::move(s), cb, 0, false);
        }
    }
    void step(State s, BasicBlock* b, BasicBlock::iterator it, Region& r)
    {
        for (; it != b->end(); ++it) {
            Instruction* i = &*it;
            if (isa<PHINode>(i))
                continue;
            if (auto* cb = dyn_cast<CallBase>(i)) {
                if (!call(s, cb, b, it, r))
                    return; // forked or ended
                continue;
            }
            switch (i->getOpcode()) {
            case Instruction::Alloca: {
                auto a = S.mkAtom(AK::Alloca, 0, (int64_t)(intptr_t) i, {}, true);
                S.atoms[a].name = i->getName().empty() ? "local" : i->getName().str();
                set(s, i, S.atomE(a));
                break;
            }
            case Instruction::Load: {
                auto* l = cast<LoadInst>(i);
                EId p   = val(s, l->getPointerOperand());
                readAt(s, p, i);
                auto* ty = l->getType();
                if (ty->isPointerTy())
                    noteSlot(s, p);
                set(s, i,
                    loadAt(s, p, DL->getTypeStoreSize(ty), ty->isPointerTy(),
                           s.mem));
                break;
            }
            case Instruction::Store: {
                auto* st = cast<StoreInst>(i);
                doStore(s, val(s, st->getPointerOperand()),
                        val(s, st->getValueOperand()),
                        DL->getTypeStoreSize(st->getValueOperand()->getType()),
                        st->getValueOperand()->getType()->isPointerTy(), i);
                break;
            }
            case Instruction::GetElementPtr: {
                auto* g = cast<GEPOperator>(i);
                MapVector<Value*, APInt> vars;
                APInt c(64, 0);
                EId e = val(s, g->getPointerOperand());
                if (g->collectOffset(*DL, 64, vars, c)) {
                    for (auto& v : vars)
                        e = S.add(e, S.scale(val(s, v.first),
                                             v.second.getSExtValue()));
                    e = S.addc(e, c.getSExtValue());
                } else
                    e = opaque(true, "gep");
                set(s, i, norm(s, e));
                break;
            }
            case Instruction::Add:
                set(s, i,
                    S.add(val(s, i->getOperand(0)), val(s, i->getOperand(1))));
                break;
            case Instruction::Sub:
                set(s, i,
                    S.sub(val(s, i->getOperand(0)), val(s, i->getOperand(1))));
                break;
            case Instruction::ZExt:
            case Instruction::Trunc:
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::Freeze:
                set(s, i, val(s, i->getOperand(0)));
                break;
            case Instruction::SExt:
                if (i->getOperand(0)->getType()->isIntegerTy(1))
                    set(s, i, S.scale(val(s, i->getOperand(0)), -1));
                else
                    set(s, i, val(s, i->getOperand(0)));
                break;
            case Instruction::ICmp: {
                auto* c = cast<ICmpInst>(i);
                EId x = val(s, c->getOperand(0)), y = val(s, c->getOperand(1));
                EId e;
                switch (c->getPredicate()) {
                case CmpInst::ICMP_EQ:
                case CmpInst::ICMP_NE: {
                    EId d = S.sub(x, y);
                    // comparing booleans with 0
                    if (isBool(d) && !S.isC(d))
                        e = S.addc(S.scale(d, -1), 1);
                    else
                        e = mkOp(OP_EQ0, {d});
                    e = norm(s, e);
                    if (c->getPredicate() == CmpInst::ICMP_NE)
                        e = S.addc(S.scale(e, -1), 1);
                    break;
                }
                case CmpInst::ICMP_ULT:
                case CmpInst::ICMP_SLT:
                    e = mkOp(OP_NEG, {S.sub(x, y)});
                    break;
                case CmpInst::ICMP_UGT:
                case CmpInst::ICMP_SGT:
                    e = mkOp(OP_NEG, {S.sub(y, x)});
                    break;
                case CmpInst::ICMP_ULE:
                case CmpInst::ICMP_SLE:
                    e = S.addc(S.scale(mkOp(OP_NEG, {S.sub(y, x)}), -1), 1);
                    break;
                default:
                    e = S.addc(S.scale(mkOp(OP_NEG, {S.sub(x, y)}), -1), 1);
                    break;
                }
                set(s, i, e);
                break;
            }
            case Instruction::Select: {
                EId c = val(s, i->getOperand(0));
                int d = decide(s, c);
                if (d >= 0) {
                    set(s, i, val(s, i->getOperand(d ? 1 : 2)));
                    break;
                }
                if (i->getType()->isPointerTy() ||
                    i->getType()->isIntegerTy(1)) {
                    State o = s;
                    if (assume(o, c, true, false, 0)) {
                        set(o, i, val(o, i->getOperand(1)));
                        step(std::move(o), b, std::next(it), r);
                    }
                    if (!assume(s, c, false, false, 0))
                        return;
                    set(s, i, val(s, i->getOperand(2)));
                    break;
                }
                set(s, i,
                    mkOp(OP_SELECT, {c, val(s, i->getOperand(1)),
                                     val(s, i->getOperand(2))}));
                break;
            }
            case Instruction::ExtractValue: {
                auto* e = cast<ExtractValueInst>(i);
                EId a   = val(s, e->getAggregateOperand());
                auto& l = S.lins[a];
                EId res = 0;
                bool ok = false;
                if (e->getNumIndices() == 1 && l.t.size() == 1 && l.c == 0) {
                    Atom at = S.atoms[l.t[0].first];
                    if (at.k == AK::Op && at.op == OP_TUPLE &&
                        e->getIndices()[0] < at.args.size()) {
                        res = at.args[e->getIndices()[0]];
                        ok  = true;
                    }
                }
                if (!ok)
                    res = freshVal(s, i, AK::Opaque, i->getType()->isPointerTy(), false, "field");
                set(s, i, res);
                break;
            }
            case Instruction::InsertValue: {
                auto* e = cast<InsertValueInst>(i);
                EId a   = val(s, e->getAggregateOperand());
                std::vector<EId> args;
                auto l = S.lins[a];
                if (l.t.size() == 1 && l.c == 0) {
                    auto& at = S.atoms[l.t[0].first];
                    if (at.k == AK::Op && at.op == OP_TUPLE)
                        args = at.args;
                }
                unsigned n = e->getType()->isStructTy()
                                 ? e->getType()->getStructNumElements()
                                 : e->getType()->getArrayNumElements();
                while (args.size() < n)
                    args.push_back(
                        S.atomE(S.mkAtom(AK::Uninit, 0, 1, {}, false)));
                args[e->getIndices()[0]] =
                    e->getNumIndices() == 1
                        ? val(s, e->getInsertedValueOperand())
                        : opaque(false);
                set(s, i, S.atomE(S.mkAtom(AK::Op, OP_TUPLE, 0, args, false)));
                break;
            }
            case Instruction::LandingPad:
                set(s, i, opaque(false, "lpad"));
                break;
            case Instruction::Br: {
                auto* br = cast<BranchInst>(i);
                if (br->isUnconditional())
                    edge(std::move(s), b, br->getSuccessor(0), r);
                else {
                    EId c = val(s, br->getCondition());
                    branch(std::move(s), c, b, br->getSuccessor(0),
                           br->getSuccessor(1), r);
                }
                return;
            }
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(i);
                EId c    = val(s, sw->getCondition());
                State rest = s;
                bool alive = true;
                for (auto& cs : sw->cases()) {
                    EId eq = mkOp(
                        OP_EQ0,
                        {S.addc(c, -(int64_t) cs.getCaseValue()->getSExtValue())});
                    State x = rest;
                    int d   = decide(x, eq);
                    if (d != 0 && assume(x, eq, true, false, 0))
                        edge(std::move(x), b, cs.getCaseSuccessor(), r);
                    if (d == 1 || !assume(rest, eq, false, false, 0)) {
                        alive = false;
                        break;
                    }
                }
                if (alive)
                    edge(std::move(rest), b, sw->getDefaultDest(), r);
                return;
            }
            case Instruction::Ret: {
                auto* rt = cast<ReturnInst>(i);
                bool has = rt->getReturnValue();
                exitFn(s, i, has ? val(s, rt->getReturnValue()) : 0, has);
                return;
            }
            case Instruction::Resume:
                exitFn(s, i, 0, false);
                return;
            case Instruction::Unreachable:
                return;
            default:
                if (auto* bo = dyn_cast<BinaryOperator>(i)) {
                    EId x = val(s, bo->getOperand(0)),
                        y = val(s, bo->getOperand(1));
                    if (bo->getOpcode() == Instruction::Xor &&
                        i->getType()->isIntegerTy(1)) {
                        int64_t c;
                        if (S.isC(y, c) && c == 1) {
                            set(s, i, S.addc(S.scale(x, -1), 1));
                            break;
                        }
                    }
                    if (i->getType()->isFloatingPointTy()) {
                        set(s, i, opaque(false));
                        break;
                    }
                    set(s, i, norm(s, mkOp(OP_LLVM + bo->getOpcode(), {x, y})));
                    break;
                }
                set(s, i,
                    freshVal(s, i, AK::Opaque, i->getType()->isPointerTy(), false, "val"));
                break;
            }
        }
    }

    void readAt(State& s, EId addr, const Instruction* at)
    {
        AtomId b;
        if (S.baseOf(norm(s, addr), b))
            uaf(s, b, at, "read");
        else {
            int64_t c;
            if (S.isC(norm(s, addr), c) && c >= 0 && c < 4096)
                violate(s, "null", "null dereference", at);
        }
    }
    // slots of existing nodes that are read somewhere in the function (or in
    // what it calls)
    std::set<EId> slotReads;
    void noteSlot(State& s, EId addr)
    {
        addr = norm(s, addr);
        AtomId b;
        if (!S.baseOf(addr, b) || (S.atoms[b].k != AK::Load && S.atoms[b].k != AK::Arg))
            return;
        slotReads.insert(addr);
        if (cur && cur->reads.size() < 16 && throughArgs(addr, 3))
            cur->reads.insert(addr);
    }
    // a slot of an existing node that the operation never looks at is one that
    // was not filled: what is there is nobody's
    bool beyondFilled(State& s, EId addr, AtomId b, EId old)
    {
        AtomId ob;
        if (S.atoms[b].k != AK::Load) {
            if (!nodeArg(b))
                return false;
        }
        if (addr == S.atomE(b))
            return false; // a place that was handed over, not a slot
        if (!S.baseOf(old, ob) || S.atoms[ob].k != AK::Load ||
            norm(s, S.atoms[ob].args[0]) != addr)
            return false;
        for (auto& p : s.led)
            if (p.first.k == Key::Slot && norm(s, p.first.e) == addr)
                return false;
        for (auto r : slotReads)
            if (norm(s, r) == addr)
                return false;
        return true;
    }
    void doStore(State& s, EId addr, EId v, unsigned size, bool ptr,
                 const Instruction* at)
    {
        addr = norm(s, addr);
        AtomId b;
        if (!S.baseOf(addr, b)) {
            taint(s, "store to an unresolved address (" + locStr(at, 2) + ")");
            return;
        }
        if (S.atoms[b].k != AK::Alloca)
            writeTo(s, addr, at, "write");
        AtomId vb;
        if (ptr && S.baseOf(norm(s, v), vb) && vb == b)
            ptr = false; // into the block itself
        if (ptr && ownedMem(s, b)) {
            EId old = loadAt(s, addr, size, true, s.mem);
            if (!beyondFilled(s, addr, b, old))
                refs(s, 0, old, +1);
            if (S.atoms[b].k == AK::Alloc) {
                // slots of a fresh block are accounted to it; what an
                // overwritten slot held goes back to the pool
                moveTag(s, b, old, v);
            } else
                refs(s, 0, v, -1);
        } else if (ptr && S.atoms[b].k == AK::Global)
            refs(s, 0, v, -1); // a static handle keeps its reference for good
        MemNode n{MemNode::Store};
        n.addr = addr;
        n.val  = v;
        n.size = size;
        n.ptrs = ptr;
        push(s, n);
    }
    void moveTag(State& s, AtomId b, EId old, EId v)
    {
        AtomId ob;
        // undo the pool credit for a slot of the same fresh block: the entry
        // under the block's tag is cancelled instead
        if (S.baseOf(old, ob) && S.atoms[ob].k != AK::Uninit) {
            refs(s, 0, old, -1);
            refs(s, b, old, +1);
        }
        refs(s, b, v, -1);
    }
