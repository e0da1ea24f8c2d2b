    // ---------------------------------------------------------- calls
    bool next(State& s, const CallBase* cb, BasicBlock* b, Region& r)
    {
        if (auto* inv = dyn_cast<InvokeInst>(cb)) {
            edge(std::move(s), b, inv->getNormalDest(), r);
            return false;
        }
        return true;
    }
    void cont(State s, const CallBase* cb, BasicBlock* b,
              BasicBlock::iterator it, Region& r)
    {
        if (next(s, cb, b, r))
            step(std::move(s), b, std::next(it), r);
    }
    // go on with both answers of an undecided question
    bool forkOn(State& s, const CallBase* cb, BasicBlock* b,
                BasicBlock::iterator it, Region& r, AtomId q)
    {
        int64_t c;
        EId e = norm(s, S.atomE(q));
        if (!S.isC(e, c)) {
            State f = s;
            if (assume(f, e, false, false, 0)) {
                set(f, cb, S.cst(0));
                cont(std::move(f), cb, b, it, r);
            }
            if (!assume(s, e, true, false, 0))
                return false;
            e = S.cst(1);
        }
        set(s, cb, e);
        return next(s, cb, b, r);
    }
    // fork the path on which the call throws
    void mayThrow(State& s, const CallBase* cb, Region& r, const char* what)
    {
        if (cb->doesNotThrow())
            return;
        State u = s;
        trace(u, cb, std::string(what) + " throws");
        u.thrower = nullptr;
        unwindFrom(std::move(u), cb, r);
    }
    static bool copyOfPointers(const CallBase* cb)
    {
        for (const DILocation* l = cb->getDebugLoc(); l; l = l->getInlinedAt())
            if (auto* sp = l->getScope()->getSubprogram()) {
                auto n = sp->getName();
                if (n.contains("__copy_m") || n.contains("__copy_move") ||
                    n.contains("copy") || n.contains("move")) {
                    auto p = n.find('<');
                    if (p != StringRef::npos) {
                        auto a = n.substr(p);
                        if (a.contains("**") || a.contains("* *") ||
                            a.contains("*>") || a.contains("*,"))
                            if (a.contains("node"))
                                return true;
                    }
                }
            }
        return false;
    }
    void freeBlock(State& s, EId p, EId size, bool haveSize, const CallBase* cb)
    {
        p = norm(s, p);
        int64_t c;
        if (S.isC(p, c))
            return;
        AtomId b;
        if (!S.baseOf(p, b)) {
            taint(s, "release of an unresolved pointer");
            return;
        }
        if (S.sub(p, S.atomE(b)) != S.cst(0)) {
            int64_t off;
            if (S.isC(S.sub(p, S.atomE(b)), off))
                violate(s, "size",
                        "release of an address inside a block (offset " +
                            std::to_string(off) + ")",
                        cb);
        }
        auto it = s.blocks.find(b);
        if (it != s.blocks.end()) {
            if (it->second.st == 1) {
                violate(s, "doublefree", "block released twice", cb);
                return;
            }
            if (haveSize) {
                EId d = S.sub(settle(s, size), settle(s, it->second.size));
                int64_t dc;
                if (!S.isC(d, dc) || dc != 0)
                    violate(s, "size",
                            "block allocated with size " +
                                S.str(norm(s, it->second.size)) + " at " +
                                locStr(it->second.at, 2) +
                                " released with size " +
                                S.str(norm(s, size)),
                            cb);
            }
            s.pend.erase(b);
            // elements must have been destroyed
            Ledger nl = normLedger(s, s.led);
            int64_t own = 0;
            Ledger keep;
            bool live = false, dead = false;
            for (auto& e : nl) {
                AtomId eb;
                bool hb = S.baseOf(e.first.e, eb);
                if (hb && eb == b) {
                    if (e.first.k == Key::Ref) {
                        auto in = s.blocks.find((AtomId) e.first.tag);
                        if (e.first.tag && (AtomId) e.first.tag != b && in != s.blocks.end() &&
                            in->second.st == 0)
                            keep.insert(e); // for as long as that block is there
                        else
                            own += e.second;
                        continue;
                    }
                    if (e.first.k == Key::ElemT || e.first.k == Key::ElemU) {
                        // positive start first: live elements
                        if (!live && !dead) {
                            bool pos = firstPositive(nl, e.first.k, b);
                            live     = pos;
                            dead     = !pos;
                        }
                        continue;
                    }
                    continue; // slots of the released block
                }
                if (e.first.tag == b)
                    continue;
                keep.insert(e);
            }
            if (live)
                violate(s, "leak",
                        "block released while it still holds constructed "
                        "elements",
                        cb);
            if (dead)
                violate(s, "overrelease",
                        "more elements destroyed than constructed in a block "
                        "being released",
                        cb);
            if (own != 1 && own != 0)
                violate(s, own > 1 ? "leak" : "overrelease",
                        "block released while references to it are still "
                        "accounted (" +
                            std::to_string(own) + ")",
                        cb);
            s.led        = std::move(keep);
            it           = s.blocks.find(b);
            it->second.st = 1;
            return;
        }
        if (s.freed.count(b)) {
            violate(s, "doublefree", "block released twice", cb);
            return;
        }
        if (s.pend.count(b)) {
            s.pend.erase(b);
        } else if (exclusive(s, b)) {
            // held alone: the release stands for the last reference
            refs(s, 0, S.atomE(b), -1);
            s.freedGuarded.insert(b);
        } else {
            auto& a = S.atoms[b];
            if (a.k == AK::Arg && sig.empty()) {
                // caller must hold the last reference
            } else
                violate(s, "overrelease",
                        "block released without its last reference having "
                        "been dropped",
                        cb);
        }
        s.freed.insert(b);
        if (haveSize)
            s.freedHere[b] = size;
        if (haveSize)
            freeShapes.insert(shape(norm(s, size)));
    }
    std::set<std::string> freeShapes, allocShapes;
    std::string shape(EId e)
    {
        std::vector<int64_t> co;
        for (auto& p : S.lins[e].t)
            co.push_back(p.second);
        std::sort(co.begin(), co.end());
        std::string r = std::to_string(S.lins[e].c);
        for (auto c : co)
            r += "+" + std::to_string(c) + "n";
        return r;
    }
    // is the lowest entry of kind k in block b positive?
    bool firstPositive(Ledger& l, Key::K k, AtomId b)
    {
        int64_t best = INT64_MAX;
        bool pos     = false, found = false;
        for (auto& e : l) {
            AtomId eb;
            if (e.first.k != k || !S.baseOf(e.first.e, eb) || eb != b)
                continue;
            EId off = S.sub(e.first.e, S.atomE(b));
            int64_t c;
            if (S.isC(off, c)) {
                if (c < best) {
                    best  = c;
                    pos   = e.second > 0;
                    found = true;
                }
            }
        }
        if (found)
            return pos;
        // symbolic positions only: destroyed elements at symbolic positions
        for (auto& e : l) {
            AtomId eb;
            if (e.first.k != k || !S.baseOf(e.first.e, eb) || eb != b)
                continue;
            return e.second > 0;
        }
        return true;
    }
    int elemKind(StringRef n) // suffix
    {
        return n.ends_with("_U") ? (int) Key::ElemU : (int) Key::ElemT;
    }

    bool call(State& s, CallBase* cb, BasicBlock* b, BasicBlock::iterator it,
              Region& r)
    {
        auto* f = cb->getCalledFunction();
        if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
            switch (ii->getIntrinsicID()) {
            case Intrinsic::ctpop:
                set(s, cb, norm(s, mkOp(OP_POPC, {val(s, cb->getArgOperand(0))})));
                return true;
            case Intrinsic::memcpy:
            case Intrinsic::memmove:
                doCopy(s, cb);
                return true;
            case Intrinsic::memset: {
                EId d = val(s, cb->getArgOperand(0));
                MemNode n{MemNode::Zero};
                n.addr = d;
                n.len  = val(s, cb->getArgOperand(2));
                AtomId db;
                if (S.baseOf(norm(s, d), db) && S.atoms[db].k != AK::Alloca)
                    writeTo(s, d, cb, "write");
                push(s, n);
                return true;
            }
            case Intrinsic::expect:
                set(s, cb, val(s, cb->getArgOperand(0)));
                return true;
            case Intrinsic::assume: {
                if (!assume(s, val(s, cb->getArgOperand(0)), true, false, 0))
                    return false;
                return true;
            }
            case Intrinsic::trap:
                return false;
            case Intrinsic::eh_typeid_for:
                set(s, cb, opaque(false, "typeid"));
                return true;
            case Intrinsic::umin:
            case Intrinsic::umax:
            case Intrinsic::smin:
            case Intrinsic::smax: {
                set(s, cb,
                    S.atomE(S.mkAtom(AK::Op, 60 + ii->getIntrinsicID(), 0,
                                     {val(s, cb->getArgOperand(0)),
                                      val(s, cb->getArgOperand(1))},
                                     false)));
                return true;
            }
            default:
                if (!cb->getType()->isVoidTy())
                    set(s, cb, opaque(cb->getType()->isPointerTy(), "intr"));
                return true;
            }
        }
        if (!f) {
            taint(s, "indirect call (" + locStr(cb, 2) + ")");
            mayThrow(s, cb, r, "indirect call");
            if (!cb->getType()->isVoidTy())
                set(s, cb, freshVal(s, cb, AK::Opaque, cb->getType()->isPointerTy(), false, "icall"));
            return next(s, cb, b, r);
        }
        auto n = f->getName();
        if (n.starts_with("__p_"))
            return event(s, cb, n.substr(4), b, it, r);
        if (n == "__cxa_begin_catch") {
            s.caught++;
            set(s, cb, opaque(true, "exc"));
            return next(s, cb, b, r);
        }
        if (n == "__cxa_end_catch") {
            if (s.caught > 0)
                s.caught--;
            if (s.rethrowing) {
                // the exception continues
            } else {
                violate(s, "swallow",
                        "an exception is caught and not passed on", cb);
                s.unwinding = false;
                s.thrower   = nullptr;
            }
            if (s.caught == 0)
                s.rethrowing = false;
            return next(s, cb, b, r);
        }
        if (n == "__cxa_rethrow") {
            s.rethrowing = true;
            unwindFrom(std::move(s), cb, r);
            return false;
        }
        if (n == "__cxa_throw") {
            State u     = s;
            u.thrower   = nullptr;
            if (u.caught)
                u.rethrowing = true;
            unwindFrom(std::move(u), cb, r);
            return false;
        }
        if (n == "_ZSt9terminatev" || n == "__clang_call_terminate") {
            if (s.unwinding)
                violate(s, "terminate",
                        "an exception ends in std::terminate", cb);
            return false;
        }
        if (n == "abort" || n == "__assert_fail" || n == "__assert_rtn" || n == "exit")
            return false;
        // user callbacks
        auto dn = demangle(n.str());
        if (f->isDeclaration()) {
            bool fnT = dn.rfind("FnT::operator()", 0) == 0,
                 fnU = dn.rfind("FnU::operator()", 0) == 0;
            stats[F].events++;
            if (fnT || fnU) {
                mayThrow(s, cb, r, "callback");
                EId d = val(s, cb->getArgOperand(0));
                trace(s, cb, "callback constructs a value");
                elems(s, fnU ? Key::ElemU : Key::ElemT, d, +1);
                writeTo(s, d, cb, "construction");
                return next(s, cb, b, r);
            }
            mayThrow(s, cb, r, shortName(n.str()).c_str());
            if (cb->doesNotReturn())
                return false;
            if (!cb->getType()->isVoidTy())
                set(s, cb,
                    freshVal(s, cb, AK::Opaque, cb->getType()->isPointerTy(),
                             cb->getType()->isIntegerTy(1), "ext"));
            return next(s, cb, b, r);
        }
        return summaryCall(s, cb, f, b, it, r);
    }
    void doCopy(State& s, CallBase* cb)
    {
        EId d = val(s, cb->getArgOperand(0)), src = val(s, cb->getArgOperand(1)),
            len = val(s, cb->getArgOperand(2));
        int64_t lc;
        if (S.isC(len, lc) && lc == 0)
            return;
        readAt(s, src, cb);
        AtomId db, sb;
        bool hd = S.baseOf(norm(s, d), db), hs = S.baseOf(norm(s, src), sb);
        if (!hd || !hs) {
            taint(s, "block copy with unresolved addresses (" + locStr(cb, 2) + ")");
            return;
        }
        if (S.atoms[db].k != AK::Alloca)
            writeTo(s, d, cb, "block write");
        bool ptrs = copyOfPointers(cb);
        if (ptrs && ownedMem(s, db)) {
            auto range = [&](AtomId tag, EId from, int64_t n) -> bool {
                // version of the content
                EId v = loadAt(s, from, optPtr, true, s.mem);
                AtomId vb;
                int64_t ver = 0;
                if (S.baseOf(v, vb) && S.atoms[vb].k == AK::Load &&
                    S.atoms[vb].args[0] == norm(s, from)) {
                    ver = S.atoms[vb].tag;
                } else {
                    // content known individually: only short constant ranges
                    int64_t c;
                    if (S.isC(norm(s, len), c) && c <= 64 && c % optPtr == 0) {
                        for (int64_t o = 0; o < c; o += optPtr)
                            refs(s, tag,
                                 loadAt(s, S.addc(norm(s, from), o), optPtr,
                                        true, s.mem),
                                 n);
                        return true;
                    }
                    // translated copy of another range
                    if (S.baseOf(v, vb) && S.atoms[vb].k == AK::Load) {
                        from = S.atoms[vb].args[0];
                        ver  = S.atoms[vb].tag;
                    } else
                        return false;
                }
                bump(s, {Key::Slot, tag, norm(s, from), ver}, n);
                bump(s, {Key::Slot, tag, norm(s, S.add(from, len)), ver}, -n);
                return true;
            };
            bool ok = true;
            if (S.atoms[db].k != AK::Alloc)
                ok = range(0, d, +1);
            ok = range(S.atoms[db].k == AK::Alloc ? db : 0, src, -1) && ok;
            if (!ok)
                taint(s, "block copy of pointers could not be resolved (" +
                             locStr(cb, 2) + ")");
            trace(s, cb, "copies child pointers");
        }
        MemNode n{MemNode::Copy};
        n.addr = norm(s, d);
        n.val  = norm(s, src);
        n.len  = len;
        n.ptrs = ptrs;
        push(s, n);
    }

    bool event(State& s, CallBase* cb, StringRef n, BasicBlock* b,
               BasicBlock::iterator it, Region& r)
    {
        auto& st = stats[F];
        st.events++;
        auto A = [&](unsigned i) { return val(s, cb->getArgOperand(i)); };
        if (n == "alloc") {
            st.allocs++;
            mayThrow(s, cb, r, "allocation");
            int c  = ++s.cnt[cb];
            auto a = S.mkAtom(AK::Alloc, 0, (int64_t)(intptr_t) cb * 64 + c, {}, true);
            S.atoms[a].name = "new";
            s.blocks[a]     = Block{A(0), 0, cb};
            allocShapes.insert(shape(norm(s, A(0))));
            bump(s, {Key::Ref, 0, S.atomE(a), 0}, 1);
            trace(s, cb, "allocates " + S.astr(a));
            set(s, cb, S.atomE(a));
            return next(s, cb, b, r);
        }
        if (n == "free") {
            st.frees++;
            trace(s, cb, "releases block " + S.str(A(1)));
            freeBlock(s, A(1), A(0), true, cb);
            return next(s, cb, b, r);
        }
        if (n == "rcinit") {
            AtomId p;
            if (S.baseOf(A(0), p) && s.blocks.count(p))
                s.blocks[p].rc = 1;
            return next(s, cb, b, r);
        }
        if (n == "inc") {
            st.incs++;
            EId p = A(0);
            readAt(s, p, cb);
            refs(s, 0, p, +1);
            AtomId pb;
            if (S.baseOf(p, pb) && s.blocks.count(pb) && s.blocks[pb].rc > 0)
                s.blocks[pb].rc++;
            trace(s, cb, "inc " + S.str(p));
            return next(s, cb, b, r);
        }
        if (n == "dec_unsafe") {
            st.decs++;
            EId p = A(0);
            readAt(s, p, cb);
            refs(s, 0, p, -1);
            AtomId pb;
            if (S.baseOf(p, pb) && s.blocks.count(pb) && s.blocks[pb].rc > 0)
                s.blocks[pb].rc--;
            trace(s, cb, "dec " + S.str(p));
            return next(s, cb, b, r);
        }
        if (n == "dec") {
            st.decs++;
            EId p = A(0);
            readAt(s, p, cb);
            refs(s, 0, p, -1);
            AtomId pb;
            if (!S.baseOf(p, pb)) {
                taint(s, "dec of an unresolved pointer");
                set(s, cb, S.cst(0));
                return next(s, cb, b, r);
            }
            bool canT = true, canF = true;
            auto bi = s.blocks.find(pb);
            if (bi != s.blocks.end() && bi->second.rc > 0) {
                bi->second.rc--;
                canT = bi->second.rc == 0;
                canF = !canT;
            }
            // the object was proved unreferenced by anybody else
            if (canT && canF) {
                State f = s;
                trace(f, cb, "dec " + S.str(p) + " (others remain)");
                set(f, cb, S.cst(0));
                cont(std::move(f), cb, b, it, r);
            }
            if (canT) {
                trace(s, cb, "dec " + S.str(p) + " (last)");
                s.pend.insert(pb);
                set(s, cb, S.cst(1));
            } else {
                trace(s, cb, "dec " + S.str(p) + " (others remain)");
                set(s, cb, S.cst(0));
            }
            return next(s, cb, b, r);
        }
        if (n == "unique") {
            EId p = A(0);
            readAt(s, p, cb);
            AtomId pb;
            if (S.baseOf(p, pb)) {
                auto bi = s.blocks.find(pb);
                if (bi != s.blocks.end() && bi->second.rc > 0)
                    set(s, cb, S.cst(bi->second.rc == 1));
                else if (S.atoms[pb].k == AK::Call && S.atoms[pb].op == 1)
                    set(s, cb, S.cst(1));
                else
                    return forkOn(s, cb, b, it, r, S.mkAtom(AK::Op, OP_UNIQUE, 0, {S.atomE(pb)}, false));
            } else
                set(s, cb, freshVal(s, cb, AK::Opaque, false, true, "unique"));
            return next(s, cb, b, r);
        }
        if (n == "owner_edit") {
            set(s, cb, S.atomE(S.mkAtom(AK::Op, 50, 0, {A(0)}, false)));
            return next(s, cb, b, r);
        }
        if (n == "owner_init")
            return next(s, cb, b, r);
        if (n == "can_mutate") {
            EId p = A(0);
            AtomId pb;
            if (S.baseOf(p, pb)) {
                auto at = S.mkAtom(AK::Op, OP_CANMUT, 0, {S.atomE(pb), A(1)}, false);
                return forkOn(s, cb, b, it, r, at);
            } else
                set(s, cb, freshVal(s, cb, AK::Opaque, false, true, "canmut"));
            return next(s, cb, b, r);
        }
        if (n == "set_owner") {
            EId p = A(0);
            AtomId pb;
            writeTo(s, p, cb, "ownership mark");
            if (S.baseOf(p, pb)) {
                auto at = S.mkAtom(AK::Op, OP_CANMUT, 0, {S.atomE(pb), A(1)}, false);
                setSubst(s, at, S.cst(1));
            }
            return next(s, cb, b, r);
        }
        // elements
        Key::K k = (Key::K) elemKind(n);
        if (n.starts_with("cctor") || n.starts_with("mctor") ||
            n.starts_with("vctor")) {
            st.ctors++;
            EId d = A(0);
            if (!n.starts_with("vctor"))
                readAt(s, A(1), cb);
            mayThrow(s, cb, r, "element construction");
            writeTo(s, d, cb, "construction");
            if (n.starts_with("mctor"))
                writeTo(s, A(1), cb, "move from an element");
            elems(s, k, d, +1);
            trace(s, cb, "constructs element at " + S.str(d));
            return next(s, cb, b, r);
        }
        if (n.starts_with("cassign") || n.starts_with("massign")) {
            EId d = A(0);
            readAt(s, A(1), cb);
            writeTo(s, d, cb, "assignment to an element");
            if (n.starts_with("massign"))
                writeTo(s, A(1), cb, "move from an element");
            mayThrow(s, cb, r, "element assignment");
            return next(s, cb, b, r);
        }
        if (n.starts_with("dtor")) {
            st.dtors++;
            EId d = A(0);
            writeTo(s, d, cb, "destruction");
            elems(s, k, d, -1);
            trace(s, cb, "destroys element at " + S.str(d));
            return next(s, cb, b, r);
        }
        // hash, eq, pred, call
        for (unsigned i = 0; i < cb->arg_size(); ++i)
            if (cb->getArgOperand(i)->getType()->isPointerTy())
                readAt(s, A(i), cb);
        mayThrow(s, cb, r, n.str().c_str());
        if (!cb->getType()->isVoidTy())
            set(s, cb,
                freshVal(s, cb, AK::Opaque, cb->getType()->isPointerTy(),
                         cb->getType()->isIntegerTy(1), "user"));
        return next(s, cb, b, r);
    }

    // ---------------------------------------------------------- summaries
    // expression over the callee's arguments -> caller's values
    EId inst(State& s, EId e, const std::vector<EId>& actual, MemP pre)
    {
        EId out   = S.cst(S.lins[e].c);
        auto terms = S.lins[e].t;
        for (auto& p : terms) {
            Atom a = S.atoms[p.first];
            EId v;
            if (a.k == AK::Arg)
                v = (size_t) a.op < actual.size() ? actual[a.op] : opaque(a.ptr);
            else if (a.k == AK::Load && a.tag == 0)
                v = loadAt(s, inst(s, a.args[0], actual, pre), a.ptr ? optPtr : 8,
                           a.ptr, pre);
            else if (a.args.empty())
                v = S.atomE(p.first);
            else {
                auto args = a.args;
                for (auto& x : args)
                    x = inst(s, x, actual, pre);
                v = rebuild(a, args);
            }
            out = S.add(out, S.scale(v, p.second));
        }
        return norm(s, out);
    }
    // arguments by which the function recurses, step by step, until they equal
    // some value: everywhere else they are that many steps away
    struct Descent
    {
        unsigned arg;
        int64_t end, step;
    };
    std::vector<Descent> descents;
    std::pair<Value*, int64_t> place(Value* p)
    {
        APInt off(64, 0);
        auto* b = p->stripAndAccumulateConstantOffsets(*DL, off, true);
        return {b, off.getSExtValue()};
    }
    void findDescents(Function* f)
    {
        descents.clear();
        for (auto& a : f->args()) {
            int64_t end = 0, step = 0;
            int ends = 0;
            bool bad = false;
            if (!a.getType()->isIntegerTy())
                continue;
            // the argument, and what is read back from where it was kept
            std::vector<Value*> same{&a};
            for (auto* u : a.users())
                if (auto* st = dyn_cast<StoreInst>(u); st && st->getValueOperand() == &a) {
                    auto at = place(st->getPointerOperand());
                    if (!isa<AllocaInst>(at.first))
                        continue;
                    bool only = true;
                    std::vector<Value*> back;
                    for (auto& i : instructions(*f)) {
                        if (auto* q = dyn_cast<StoreInst>(&i); q && q != st)
                            only &= place(q->getPointerOperand()) != at || q->getValueOperand() == &a;
                        if (auto* q = dyn_cast<LoadInst>(&i))
                            if (place(q->getPointerOperand()) == at)
                                back.push_back(q);
                    }
                    if (only)
                        same.insert(same.end(), back.begin(), back.end());
                }
            for (auto* v : same)
            for (auto* u : v->users()) {
                if (auto* c = dyn_cast<ICmpInst>(u)) {
                    auto* ci = dyn_cast<ConstantInt>(c->getOperand(1));
                    if (ci && c->isEquality() && (!ends || end != ci->getSExtValue())) {
                        end = ci->getSExtValue();
                        ++ends;
                    }
                }
                int64_t st = 0;
                if (auto* bo = dyn_cast<BinaryOperator>(u))
                    if (auto* ci = dyn_cast<ConstantInt>(bo->getOperand(1)); ci && bo->getOperand(0) == v)
                        st = bo->getOpcode() == Instruction::Sub ? ci->getSExtValue()
                             : bo->getOpcode() == Instruction::Add ? -ci->getSExtValue() : 0;
                for (auto* w : u->users())
                    if (auto* cb = dyn_cast<CallBase>(w); cb && cb->getCalledFunction() == f)
                        if (a.getArgNo() < cb->arg_size() && cb->getArgOperand(a.getArgNo()) == u) {
                            if (st <= 0 || (step && step != st))
                                bad = true;
                            step = st;
                        }
                if (auto* cb = dyn_cast<CallBase>(u); cb && cb->getCalledFunction() == f &&
                    cb->getArgOperand(a.getArgNo()) == v)
                    bad = true;
            }
            if (ends == 1 && step > 0 && !bad)
                descents.push_back({a.getArgNo(), end, step});
        }
    }
    // wraps below zero at the end of a descent
    bool goesNegative(Argument* a)
    {
        for (auto* u : a->users())
            if (auto* c = dyn_cast<ICmpInst>(u))
                for (auto& o : c->operands())
                    if (auto* ci = dyn_cast<ConstantInt>(&*o); ci && ci->isNegative())
                        return true;
        return false;
    }
    bool summaryCall(State& s, CallBase* cb, Function* f, BasicBlock* b,
                     BasicBlock::iterator it, Region& r)
    {
        if (releasers.count(F) && releasers.count(f)) {
            // what a released block held goes with it
            if (s.pend.empty())
                violate(s, "overrelease", "a child is released while its parent is still held", cb);
            s.released = true;
            return next(s, cb, b, r);
        }
        auto si = sums.find(f);
        if (si == sums.end() || si->second.unresolved) {
            taint(s, "calls " + shortName(f->getName().str()) +
                         ", which was not resolved");
            mayThrow(s, cb, r, "unresolved call");
            if (!cb->getType()->isVoidTy())
                set(s, cb, freshVal(s, cb, AK::Opaque, cb->getType()->isPointerTy(), false, "unres"));
            return next(s, cb, b, r);
        }
        Summary& sm = si->second;
        std::vector<EId> actual;
        for (auto& a : cb->args())
            actual.push_back(val(s, a));
        // obligations of the call site
        for (auto n : sm.needExcl)
            writeTo(s, actual[n], cb, "write (in the callee)");
        for (auto e : std::set<EId>(sm.reads))
            noteSlot(s, inst(s, e, actual, s.mem));
        for (auto e : std::set<EId>(sm.needExclE)) {
            EId v = inst(s, e, actual, s.mem);
            AtomId pb;
            if (!S.baseOf(norm(s, v), pb))
                taint(s, "an unresolved node may be modified in the callee");
            else
                writeTo(s, v, cb, "write (in the callee)");
        }
        for (auto e : std::set<EId>(sm.needPathE)) {
            EId v = inst(s, e, actual, s.mem);
            AtomId pb;
            if (!S.baseOf(norm(s, v), pb))
                taint(s, "an unresolved node may be modified in the callee");
            else if (!pathOk(s, pb))
                violate(s, "write",
                        "a node reached through a possibly shared parent (" +
                            S.astr(pb) +
                            ") is handed to code that may modify it on the "
                            "strength of its own reference count",
                        cb);
        }
        for (auto n : sm.needPathExcl) {
            AtomId pb;
            if (S.baseOf(norm(s, actual[n]), pb) && !pathOk(s, pb)) {
                auto& a = S.atoms[pb];
                if (!(a.k == AK::Arg && sig.empty()))
                    violate(s, "write",
                            "a node reached through a possibly shared parent (" +
                                S.astr(pb) +
                                ") is handed to code that may modify it on the "
                                "strength of its own reference count",
                            cb);
            }
        }
        std::vector<const Outcome*> outs;
        for (auto& o : sm.out)
            outs.push_back(&o.second);
        for (auto* o : outs) {
            State x = s;
            bool feasible = true;
            for (auto& q : o->eqs) {
                EId eq = mkOp(OP_EQ0, {S.addc(norm(x, actual[q.first]), -q.second)});
                if (decide(x, eq) == 0 || !assume(x, eq, true, false, 0)) {
                    feasible = false;
                    break;
                }
            }
            for (auto& q : o->ges) {
                Interval in;
                in.lo = q.second;
                EId v = norm(x, actual[q.first]);
                int64_t c;
                if (S.isC(v, c) ? c < q.second : upB(x, v) < q.second || !addIv(x, v, in))
                    feasible = false;
            }
            if (!feasible)
                continue;
            MemP pre = s.mem;
            int call = ++x.cnt[cb];
            std::map<int, EId> named;
            int nexcl = 0;
            auto comp = [&](const Comp& c) -> EId {
                switch (c.k) {
                case Comp::Const:
                    return S.cst(c.c);
                case Comp::Expr: {
                    EId v = inst(x, c.e, actual, pre);
                    if (c.some)
                        feasible &= assume(x, mkOp(OP_EQ0, {v}), false, false, 0);
                    return v;
                }
                case Comp::Named: {
                    auto ni = named.find(c.id);
                    if (ni == named.end()) {
                        auto a = S.mkAtom(AK::Call, c.fresh ? 1 : 0,
                                          ((int64_t)(intptr_t) cb * 64 + call) * 16 + c.id,
                                          {}, true);
                        S.atoms[a].name = "result";
                        ni = named.emplace(c.id, S.atomE(a)).first;
                        bool there = c.fresh;
                        for (auto& e : o->eff)
                            there |= e.named && e.id == c.id && e.n > 0;
                        if (there)
                            assume(x, mkOp(OP_EQ0, {ni->second}), false, false, 0);
                    }
                    return S.addc(ni->second, c.c);
                }
                default:
                    if (c.fresh) {
                        auto a = S.mkAtom(AK::Call, 1,
                                          ((int64_t)(intptr_t) cb * 64 + call) * 16 + 8 + nexcl++ % 8,
                                          {}, true);
                        S.atoms[a].name = "exclusive result";
                        return S.atomE(a);
                    }
                    return opaque(c.ptr, "res");
                }
            };
            std::vector<EId> ret;
            for (auto& c : o->ret)
                ret.push_back(comp(c));
            if (!feasible)
                continue;
            std::vector<std::tuple<EId, unsigned, EId, bool>> sts;
            for (auto& t : o->stores)
                sts.push_back({inst(x, std::get<0>(t), actual, pre),
                               std::get<1>(t), comp(std::get<2>(t)),
                               std::get<2>(t).ptr});
            trace(x, cb, (o->unwind ? "call throws: " : "call: ") +
                             shortName(f->getName().str()) + " " + o->key());
            for (auto h : o->havoc) {
                AtomId hb;
                if (S.baseOf(norm(x, actual[h]), hb)) {
                    MemNode n{MemNode::Havoc};
                    n.base = hb;
                    push(x, n);
                }
            }
            for (auto& t : sts) {
                MemNode n{MemNode::Store};
                n.addr = std::get<0>(t);
                n.size = std::get<1>(t);
                n.val  = std::get<2>(t);
                n.ptrs = std::get<3>(t);
                push(x, n);
            }
            std::map<EId, int64_t> slots;
            for (auto& e : o->eff)
                if (!e.named && e.k == Key::Slot)
                    slots[inst(x, e.e, actual, pre)] += e.n;
            // single slots: what they held, which in a block of this function's
            // may be known
            for (bool more = true; more;) {
                more = false;
                for (auto& q : slots) {
                    AtomId b;
                    if (!q.second || !S.baseOf(q.first, b) || S.atoms[b].k != AK::Alloc)
                        continue;
                    auto nx = slots.find(S.addc(q.first, optPtr));
                    if (nx == slots.end() || nx->second != -q.second)
                        continue;
                    refsOf(x, loadAt(x, q.first, optPtr, true, pre), q.second);
                    nx->second = 0;
                    q.second   = 0;
                    more       = true;
                    break;
                }
            }
            for (auto& q : slots)
                if (q.second)
                    bump(x, {Key::Slot, 0, q.first, 0}, q.second);
            for (auto& e : o->eff) {
                if (e.k == Key::Slot && !e.named)
                    continue;
                if (e.named)
                    refs(x, 0, named[e.id], e.n);
                else if (e.k == Key::Ref)
                    refsOf(x, inst(x, e.e, actual, pre), e.n);
                else
                    bump(x, {e.k, 0, inst(x, e.e, actual, pre), 0}, e.n);
            }
            for (auto a : o->freedArgs)
                freeBlock(x, actual[a], 0, false, cb);
            for (auto a : o->freedOwned) {
                AtomId fb;
                if (!S.baseOf(norm(x, actual[a]), fb))
                    continue;
                auto bi = x.blocks.find(fb);
                if (bi != x.blocks.end()) {
                    bi->second.st = 1;
                } else {
                    if (x.freed.count(fb))
                        violate(x, "doublefree", "block released twice", cb);
                    x.freed.insert(fb);
                    x.freedGuarded.insert(fb);
                }
            }
            if (o->taint)
                taint(x, "tainted callee " + shortName(f->getName().str()));
            if (o->unwind) {
                x.thrower = nullptr;
                if (x.caught)
                    x.rethrowing = true;
                unwindFrom(std::move(x), cb, r);
                continue;
            }
            if (!cb->getType()->isVoidTy()) {
                if (cb->getType()->isStructTy())
                    set(x, cb, S.atomE(S.mkAtom(AK::Op, OP_TUPLE, 0, ret, false)));
                else
                    set(x, cb, ret.empty() ? opaque(cb->getType()->isPointerTy()) : ret[0]);
            }
            cont(std::move(x), cb, b, it, r);
        }
        return false;
    }
    bool pathOk(State& s, AtomId b)
    {
        if (exclusive(s, b))
            return true;
        return pathExclusive(s, b);
    }

    // expression only over arguments (and first-level content)
    bool overArgs(EId e, int depth = 0)
    {
        if (depth > 3)
            return false;
        for (auto& p : S.lins[e].t) {
            auto& a = S.atoms[p.first];
            if (a.k == AK::Arg)
                continue;
            if (a.k == AK::Global)
                continue;
            if (a.k == AK::Load && a.tag == 0) {
                if (!overArgs(a.args[0], depth + 1))
                    return false;
                continue;
            }
            return false;
        }
        return true;
    }

    // ---------------------------------------------------------- functions
    Ledger flat(State& s)
    {
        Ledger l = normLedger(s, s.led), r;
        for (auto& p : l) {
            Key k = p.first;
            k.tag = 0;
            auto it = r.emplace(k, 0).first;
            if ((it->second += p.second) == 0)
                r.erase(it);
        }
        return r;
    }
    // entries of freed existing blocks are absorbed
    void absorb(State& s, Ledger& l, const Instruction* at)
    {
        for (auto b : s.freed) {
            std::map<std::pair<int, int64_t>, std::vector<std::pair<EId, int64_t>>> g;
            for (auto it = l.begin(); it != l.end();) {
                AtomId eb;
                if (it->first.k != Key::Ref && S.baseOf(it->first.e, eb) && eb == b) {
                    g[{(int) it->first.k, it->first.ver}].push_back({it->first.e, it->second});
                    it = l.erase(it);
                } else
                    ++it;
            }
            auto fh = s.freedHere.find(b);
            int64_t fsz;
            if (g.empty() && fh != s.freedHere.end() &&
                !S.isC(settle(s, fh->second), fsz))
                violate(s, "leak",
                        "an existing block is released while what it holds is "
                        "neither released nor moved elsewhere",
                        at);
            for (auto& q : g) {
                bool okStart = false;
                int64_t pos = 0, neg = 0;
                for (auto& e : q.second) {
                    int64_t c;
                    if (e.second < 0) {
                        neg -= e.second;
                        if (S.isC(S.sub(e.first, S.atomE(b)), c))
                            okStart = true;
                    } else
                        pos += e.second;
                }
                bool elem = q.first.first == Key::ElemT || q.first.first == Key::ElemU;
                if (!okStart || pos != neg || neg > 1)
                    violate(s, "leak",
                            std::string("a released block's ") +
                                (elem ? "elements" : "child references") +
                                " are not all released exactly once",
                            at);
            }
        }
    }
    std::string entryStr(const std::pair<const Key, int64_t>& p)
    {
        static const char* kn[] = {"slots from ", "", "elements from ", "elements from "};
        return std::string(kn[p.first.k]) + S.str(p.first.e) + ": " +
               (p.second > 0 ? "+" : "") + std::to_string(p.second);
    }
    bool heldByStatic(State& s, AtomId b)
    {
        for (auto m = s.mem; m; m = m->prev) {
            AtomId g, v;
            if (m->k == MemNode::Store && m->ptrs && S.baseOf(m->addr, g) &&
                S.atoms[g].k == AK::Global && S.baseOf(m->val, v) && v == b)
                return true;
        }
        return false;
    }
    void checkRest(State& s, Ledger& l, const Instruction* at)
    {
        // group by base, report once per base
        std::map<AtomId, std::vector<std::pair<Key, int64_t>>> g;
        for (auto& p : l) {
            AtomId b = 0;
            S.baseOf(p.first.e, b);
            g[b].push_back(p);
        }
        for (auto& q : g) {
            auto& v0 = q.second;
            bool el  = v0[0].first.k == Key::ElemT || v0[0].first.k == Key::ElemU;
            std::string d;
            for (auto& p : v0)
                d += " [" + entryStr({p.first, p.second}) + "]";
            int64_t first = 0;
            int64_t best  = INT64_MAX;
            for (auto& p : v0) {
                int64_t c;
                if (S.isC(S.sub(p.first.e, S.atomE(q.first)), c)) {
                    if (c < best) {
                        best  = c;
                        first = p.second;
                    }
                } else if (best == INT64_MAX && first == 0)
                    first = p.second;
            }
            if (el) {
                auto k = S.atoms[q.first].k;
                if (k == AK::Alloc) {
                    auto bi = s.blocks.find(q.first);
                    if (bi != s.blocks.end() && bi->second.st == 0 && first > 0)
                        continue; // elements of a block that stays alive
                    violate(s, "overrelease",
                            "elements destroyed that were not constructed:" + d, at);
                }
                continue; // elements of existing blocks: see DESIGN.md
            }
            if (first > 0 && S.atoms[q.first].k == AK::Global)
                continue; // a static object is never released
            if (first > 0 && S.atoms[q.first].k == AK::Alloc && heldByStatic(s, q.first))
                continue; // nor is what it holds
            violate(s, first > 0 ? "leak" : "overrelease",
                    std::string(first > 0
                                    ? "a reference or block is acquired and "
                                      "neither stored nor released:"
                                    : "a reference is released or stored "
                                      "without being held:") +
                        d,
                    at);
        }
    }
    void finishDriver(Exit& e)
    {
        State& s = e.s;
        auto& st = stats[F];
        st.exits++;
        if (s.unwinding)
            st.unwinds++;
        if (!s.taint.empty()) {
            st.tainted++;
            for (auto& t : s.taint)
                st.taints.insert(t);
        }
        if (s.unwinding) {
            // storage under construction never became an object
            std::set<EId> seen;
            for (auto m = s.mem; m; m = m->prev) {
                if (m->k != MemNode::Store || !m->ptrs)
                    continue;
                EId a = norm(s, m->addr);
                AtomId b;
                if (!S.baseOf(a, b) || handleKind(b) != 'o')
                    continue;
                if (!seen.insert(a).second)
                    continue;
                refs(s, 0, loadAt(s, a, optPtr, true, s.mem), +1);
            }
        }
        Ledger l = flat(s);
        // handles that are consumed release what their slots held
        for (auto it = l.begin(); it != l.end();) {
            AtomId b;
            if (S.baseOf(it->first.e, b) && handleKind(b) == 'x' && it->first.k == Key::Slot) {
                it = l.erase(it);
            } else
                ++it;
        }
        absorb(s, l, e.at);
        checkRest(s, l, e.at);
        for (auto p : s.pend)
            violate(s, "leak",
                    "the last reference to a block is dropped but the block is "
                    "not released (" + S.astr(p) + ")",
                    e.at);
    }
    void finishRec(Exit& e)
    {
        State& s = e.s;
        auto& st = stats[F];
        st.exits++;
        if (s.unwinding)
            st.unwinds++;
        if (!s.taint.empty()) {
            st.tainted++;
            for (auto& t : s.taint)
                st.taints.insert(t);
        }
        Outcome o;
        o.unwind = s.unwinding;
        o.taint  = !s.taint.empty();
        Ledger l = flat(s);
        std::map<AtomId, int> names;
        auto mk = [&](EId v, bool ptr) {
            Comp c;
            c.ptr = ptr;
            v     = norm(s, v);
            int64_t k;
            AtomId b;
            if (S.isC(v, k)) {
                c.k = Comp::Const;
                c.c = k;
            } else if (ptr && S.baseOf(v, b) && S.atoms[b].k != AK::Alloc &&
                       S.atoms[b].k != AK::Alloca && S.atoms[b].k != AK::Call && S.sub(v, S.atomE(b)) != S.cst(0) &&
                       exclusive(s, b)) {
                // into a node established as exclusively owned
                c.k     = Comp::Opaque;
                c.fresh = true;
            } else if (ptr && S.baseOf(v, b) && S.isC(S.sub(v, S.atomE(b)), k)) {
                auto& a = S.atoms[b];
                // an owned reference?
                int64_t own = ownOf(l, b);
                if (a.k == AK::Alloc || (a.k == AK::Call) || (own > 0 && a.k != AK::Arg)) {
                    c.k  = Comp::Named;
                    c.c  = k;
                    auto ni = names.find(b);
                    if (ni == names.end())
                        ni = names.emplace(b, (int) names.size()).first;
                    c.id    = ni->second;
                    c.fresh = a.k == AK::Alloc || (a.k == AK::Call && a.op == 1);
                } else if (overArgs(v)) {
                    c.k = Comp::Expr;
                    c.e = v;
                } else
                    c.k = Comp::Opaque;
            } else if (ptr && overArgs(v)) {
                c.k = Comp::Expr;
                c.e = v;
            } else if (!ptr && overArgs(v) && S.lins[v].t.size() == 1 && S.lins[v].c == 0 &&
                       S.atoms[S.lins[v].t[0].first].k == AK::Arg) {
                c.k = Comp::Expr;
                c.e = v;
            }
            if (c.k == Comp::Opaque && ptr && S.baseOf(v, b) && exclusive(s, b))
                c.fresh = true;
            if (c.k == Comp::Expr && ptr && decide(s, mkOp(OP_EQ0, {v})) == 0)
                c.some = true;
            return c;
        };
        if (e.hasRet && !s.unwinding) {
            auto* ty = F->getReturnType();
            if (ty->isStructTy()) {
                std::vector<EId> parts;
                auto l2 = S.lins[e.ret];
                if (l2.t.size() == 1 && l2.c == 0) {
                    auto& at = S.atoms[l2.t[0].first];
                    if (at.k == AK::Op && at.op == OP_TUPLE)
                        parts = at.args;
                }
                for (unsigned i = 0; i < ty->getStructNumElements(); ++i) {
                    bool p = ty->getStructElementType(i)->isPointerTy();
                    EId v  = i < parts.size() ? parts[i] : opaque(p);
                    o.ret.push_back(mk(v, p));
                }
            } else
                o.ret.push_back(mk(e.ret, ty->isPointerTy()));
        }
        // memory of the arguments
        std::set<EId> seen;
        for (auto m = s.mem; m; m = m->prev) {
            AtomId b;
            if (m->k == MemNode::Havoc) {
                b = m->base;
                if (S.atoms[b].k == AK::Arg)
                    o.havoc.insert(S.atoms[b].op);
                continue;
            }
            EId a = norm(s, m->addr);
            if (!S.baseOf(a, b) || S.atoms[b].k != AK::Arg)
                continue;
            int64_t k;
            bool local = !argOwned(S.atoms[b].op);
            if (m->k == MemNode::Store && local && S.isC(S.sub(a, S.atomE(b)), k)) {
                if (!seen.insert(a).second || s.unwinding)
                    continue;
                o.stores.push_back({a, m->size, mk(loadAt(s, a, m->size, m->ptrs, s.mem), m->ptrs)});
            } else
                o.havoc.insert(S.atoms[b].op);
        }
        std::sort(o.stores.begin(), o.stores.end(), [](auto& x, auto& y) {
            return std::get<0>(x) < std::get<0>(y);
        });
        for (auto b : s.freed) {
            if (releasers.count(F))
                break; // to the caller, a reference is dropped and that is all
            auto& a = S.atoms[b];
            if (a.k == AK::Arg) {
                if (s.freedGuarded.count(b))
                    o.freedOwned.push_back(a.op);
                else
                    o.freedArgs.push_back(a.op);
            }
        }
        for (auto& q : s.subst) {
            auto& a = S.atoms[q.first];
            int64_t c;
            bool within = false; // of a descent: each round would add another
            for (auto& d : descents)
                within |= a.k == AK::Arg && (unsigned) a.op == d.arg &&
                          S.isC(norm(s, q.second), c) && c != d.end;
            if (!within && a.k == AK::Arg && !a.ptr && S.isC(norm(s, q.second), c) && std::llabs(c) <= 64)
                o.eqs.push_back({(unsigned) a.op, c});
        }
        bool deeper = false;
        for (auto& q : s.cnt)
            if (auto* cb = dyn_cast<CallBase>(q.first))
                deeper |= q.second && cb->getCalledFunction() == F;
        for (auto& d : descents) {
            bool base = !deeper;
            for (auto& q : o.eqs)
                base |= q.first == d.arg && q.second == d.end;
            if (!base)
                o.ges.push_back({d.arg, d.end + d.step});
        }
        for (auto& n : names) {
            int64_t own = ownOf(l, n.first);
            if (own) {
                o.eff.push_back({Key::Ref, true, n.second, 0, own});
                takeOwn(l, n.first, own);
            }
        }
        if (!s.freed.empty() && releasers.count(F)) {
            bool el = s.released;
            for (auto& p : l)
                el |= p.first.k == Key::ElemT || p.first.k == Key::ElemU;
            relFree[F] = relFree[F] | (el ? 2 : 1);
        }
        absorb(s, l, e.at);
        // single references over the arguments
        for (bool again = true; again;) {
            again = false;
            for (auto& p : l) {
                if (p.first.k == Key::Ref) {
                    if (overArgs(p.first.e)) {
                        o.eff.push_back({Key::Ref, false, 0, p.first.e, p.second});
                        l.erase(p.first);
                        again = true;
                        break;
                    }
                    continue;
                }
                if (p.first.k != Key::Slot || p.first.ver || !overArgs(p.first.e))
                    continue;
                Key q = p.first;
                q.e   = S.addc(q.e, optPtr);
                auto qi = l.find(q);
                if (qi == l.end() || (qi->second > 0) == (p.second > 0))
                    continue;
                auto n = std::min(std::llabs(p.second), std::llabs(qi->second));
                n      = p.second > 0 ? n : -n;
                auto at = S.mkAtom(AK::Load, 0, 0, {p.first.e}, true);
                o.eff.push_back({Key::Ref, false, 0, S.atomE(at), n});
                takeOwn(l, at, n);
                again = true;
                break;
            }
        }
        if (s.unwinding && !o.eff.empty()) {
            // on failure a callee must leave every count as it found it
            Ledger bad;
            for (auto& f : o.eff)
                if (!f.named)
                    bad[{Key::Ref, 0, f.e, 0}] += f.n;
            checkRest(s, bad, e.at);
            o.eff.clear();
        }
        checkRest(s, l, e.at);
        for (auto p : s.pend)
            if (S.atoms[p].k != AK::Arg)
                violate(s, "leak",
                        "the last reference to a block is dropped but the block "
                        "is not released (" + S.astr(p) + ")",
                        e.at);
        std::sort(o.eff.begin(), o.eff.end(), [](const Effect& x, const Effect& y) {
            return std::tie(x.named, x.id, x.e, x.n) < std::tie(y.named, y.id, y.e, y.n);
        });
        newOut.emplace(o.key(), o);
    }
    int64_t ownOf(Ledger& l, AtomId b)
    {
        auto& a = S.atoms[b];
        if (a.k == AK::Load) {
            auto it = l.find({Key::Slot, 0, a.args[0], a.tag});
            if (it == l.end())
                return 0;
            auto i2 = l.find({Key::Slot, 0, S.addc(a.args[0], optPtr), a.tag});
            if (i2 == l.end() || (i2->second > 0) == (it->second > 0))
                return 0;
            return it->second > 0 ? std::min(it->second, -i2->second)
                                  : std::max(it->second, -i2->second);
        }
        auto it = l.find({Key::Ref, 0, S.atomE(b), 0});
        return it == l.end() ? 0 : it->second;
    }
    void takeOwn(Ledger& l, AtomId b, int64_t n)
    {
        auto upd = [&](Key kk, int64_t d) {
            auto it = l.emplace(kk, 0).first;
            if ((it->second += d) == 0)
                l.erase(it);
        };
        auto a = S.atoms[b];
        if (a.k == AK::Load) {
            upd({Key::Slot, 0, a.args[0], a.tag}, -n);
            upd({Key::Slot, 0, S.addc(a.args[0], optPtr), a.tag}, n);
        } else
            upd({Key::Ref, 0, S.atomE(b), 0}, -n);
    }

    void runFunction(Function* f)
    {
        F  = f;
        DT = std::make_unique<DominatorTree>(*f);
        LI = std::make_unique<LoopInfo>(*DT);
        rpo.clear();
        rpoIdx.clear();
        ReversePostOrderTraversal<Function*> rp(f);
        for (auto* b : rp)
            rpo.push_back(b);
        computeLiveness();
        sig.clear();
        auto nm = f->getName();
        bool drv = isDriver(*f);
        if (drv)
            sig = nm.substr(nm.rfind("__") + 2).str();
        slotReads.clear();
        unsignedArgs.clear();
        findDescents(f);
        descentArgs.clear();
        for (auto& d : descents)
            descentArgs[argAtom(d.arg, false)] = {d.end, d.step};
        for (auto& i : f->getEntryBlock())
            if (auto* dv = dyn_cast<DbgValueInst>(&i))
                if (dv->getNumVariableLocationOps() == 1)
                    if (auto* ar = dyn_cast_or_null<Argument>(dv->getValue(0)))
                        if (ar->getType()->isIntegerTy() && ar->getType()->getIntegerBitWidth() > 1) {
                            const DIType* t = dv->getVariable()->getType();
                            while (auto* dt = dyn_cast_or_null<DIDerivedType>(t))
                                t = dt->getBaseType();
                            if (auto* bt = dyn_cast_or_null<DIBasicType>(t))
                                if (bt->getEncoding() == 7 && !goesNegative(ar))
                                    unsignedArgs.insert(argAtom(ar->getArgNo(), false));
                        }
        cur     = drv ? nullptr : &sums[f];
        nstates = 0;
        newOut.clear();
        stats[f] = FnStats();
        std::vector<Exit> ex;
        exits = &ex;
        State s;
        s.env = EF->getEmptyMap();
        Region top{nullptr, nullptr, 0};
        try {
            runRegion(top, &f->getEntryBlock(), {s});
            for (auto& e : ex) {
                if (drv)
                    finishDriver(e);
                else
                    finishRec(e);
            }
        } catch (TooMany&) {
            quiet = 0;
            stats[f].unresolved = true;
            if (!drv)
                sums[f].unresolved = true;
        }
        stats[f].states = nstates;
        exits = nullptr;
    }
    void inferArgs()
    {
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& f : M)
                for (auto& i : instructions(f))
                    if (auto* cb = dyn_cast<CallBase>(&i))
                        if (auto* g = cb->getCalledFunction())
                            if (rec.count(g))
                                for (unsigned n = 0; n < cb->arg_size(); ++n) {
                                    auto* a = cb->getArgOperand(n);
                                    if (!a->getType()->isPointerTy())
                                        continue;
                                    auto* u = a->stripInBoundsOffsets();
                                    bool loc = isa<AllocaInst>(u) || cb->paramHasAttr(n, Attribute::StructRet) ||
                                               cb->paramHasAttr(n, Attribute::ByVal);
                                    if (auto* ar = dyn_cast<Argument>(u)) {
                                        auto& m = argOwnedMap[&f];
                                        auto mi = m.find(ar->getArgNo());
                                        if (mi != m.end() && !mi->second)
                                            loc = true;
                                    }
                                    auto& m = argOwnedMap[g];
                                    if (loc && (!m.count(n) || m[n])) {
                                        m[n] = false;
                                        ch   = true;
                                    }
                                }
        }
    }
    void run(const std::string& only)
    {
        if (auto* g = M.getGlobalVariable("vf_embedded"))
            if (g->hasInitializer())
                if (auto* ci = dyn_cast<ConstantInt>(g->getInitializer()))
                    embedded = ci->getSExtValue();
        inferArgs();
        std::vector<Function*> order;
        // callees first among the recursive functions
        {
            std::set<Function*> seen;
            auto edges = callEdges(M);
            std::function<void(Function*)> go = [&](Function* f) {
                if (!seen.insert(f).second)
                    return;
                for (auto* g : edges[f])
                    if (rec.count(g))
                        go(g);
                order.push_back(f);
            };
            for (auto& f : M)
                if (rec.count(&f))
                    go(&f);
        }
        for (auto* f : order)
            sums[f];
        std::set<Function*> dirty(order.begin(), order.end());
        auto edges = callEdges(M);
        for (int round = 0; round < 12 && !dirty.empty(); ++round) {
            auto now = dirty;
            dirty.clear();
            for (auto* f : order) {
                if (!now.count(f) || sums[f].unresolved)
                    continue;
                auto nn = sums[f].reads.size() + sums[f].needExcl.size() + sums[f].needExclE.size() + sums[f].needPathE.size() + sums[f].needPathExcl.size();
                runFunction(f);
                auto& sm = sums[f];
                bool ch  = nn != sm.reads.size() + sm.needExcl.size() + sm.needExclE.size() + sm.needPathE.size() + sm.needPathExcl.size() || sm.unresolved;
                for (auto& o : newOut)
                    if (sm.out.emplace(o.first, o.second).second)
                        ch = true;
                if (optTrace)
                    errs() << "round " << round << " "
                           << shortName(f->getName().str()) << " outcomes "
                           << sm.out.size() << " states " << stats[f].states
                           << (sm.unresolved ? " UNRESOLVED" : "") << "\n";
                if (sm.out.size() > 64)
                    sm.unresolved = true;
                if (ch)
                    for (auto* g : order)
                        if (edges[g].count(f))
                            dirty.insert(g);
            }
        }
        for (auto* f : dirty)
            sums[f].unresolved = true; // no fixpoint
        report = true;
        relFree.clear();
        for (auto* f : order)
            if (!sums[f].unresolved)
                runFunction(f);
        std::map<std::pair<std::string, unsigned>, int> byLine;
        for (auto& p : relFree)
            if (auto* sp = p.first->getSubprogram())
                byLine[{sp->getFilename().str(), sp->getLine()}] |= p.second;
        for (auto& p : relFree)
            if (auto* sp = p.first->getSubprogram(); sp && byLine[{sp->getFilename().str(), sp->getLine()}] == 1) {
                F = p.first;
                State s0;
                violate(s0, "leak", "a block is released, but never anything that it holds",
                        &p.first->getEntryBlock().front());
            }
        for (auto& f : M)
            if (isDriver(f) && (only.empty() || f.getName().contains(only)))
                runFunction(&f);
    }
