// Normalisation of a driver module: everything that is defined and not
// (irreducibly) recursive is inlined into the drivers and the remaining
// recursive functions, then memory is promoted to registers.
#pragma once
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

inline bool isDriver(const llvm::Function& f)
{
    return f.getName().starts_with("d_") && f.getName().contains("__") &&
           !f.isDeclaration();
}

inline std::map<llvm::Function*, std::set<llvm::Function*>>
callEdges(llvm::Module& m)
{
    std::map<llvm::Function*, std::set<llvm::Function*>> e;
    for (auto& f : m)
        for (auto& i : llvm::instructions(f))
            if (auto* cb = llvm::dyn_cast<llvm::CallBase>(&i))
                if (auto* c = cb->getCalledFunction())
                    if (!c->isDeclaration())
                        e[&f].insert(c);
    return e;
}

// Greedy feedback vertex set: the functions that stay out of line.
inline std::set<llvm::Function*> recursiveCut(llvm::Module& m, std::set<llvm::Function*> cut = {})
{
    auto edges = callEdges(m);
    for (;;) {
        // Tarjan on the graph without cut nodes
        std::map<llvm::Function*, int> idx, low;
        std::vector<llvm::Function*> st;
        std::set<llvm::Function*> on;
        int n = 0;
        std::vector<llvm::Function*> bestScc;
        std::function<void(llvm::Function*)> go = [&](llvm::Function* f) {
            idx[f] = low[f] = n++;
            st.push_back(f);
            on.insert(f);
            for (auto* g : edges[f]) {
                if (cut.count(g))
                    continue;
                if (!idx.count(g)) {
                    go(g);
                    low[f] = std::min(low[f], low[g]);
                } else if (on.count(g))
                    low[f] = std::min(low[f], idx[g]);
            }
            if (low[f] == idx[f]) {
                std::vector<llvm::Function*> scc;
                for (;;) {
                    auto* g = st.back();
                    st.pop_back();
                    on.erase(g);
                    scc.push_back(g);
                    if (g == f)
                        break;
                }
                if (scc.size() > 1 || edges[f].count(f))
                    if (bestScc.empty())
                        bestScc = scc;
            }
        };
        for (auto& f : m)
            if (!f.isDeclaration() && !cut.count(&f) && !idx.count(&f))
                go(&f);
        if (bestScc.empty())
            return cut;
        // choose the node with max in*out degree within the scc
        std::set<llvm::Function*> in(bestScc.begin(), bestScc.end());
        llvm::Function* best = nullptr;
        long bestScore       = -1;
        for (auto* f : bestScc) {
            long o = 0, i = 0;
            for (auto* g : edges[f])
                o += in.count(g);
            for (auto* g : bestScc)
                i += edges[g].count(f);
            long s = o * i * 1000 + (edges[f].count(f) ? 1000000 : 0);
            // what a function is given by value says more in its summary
            for (auto& a : f->args())
                if (a.getDereferenceableBytes() > 8)
                    s -= 1;
            if (s > bestScore ||
                (s == bestScore && f->getName() < best->getName())) {
                bestScore = s;
                best      = f;
            }
        }
        cut.insert(best);
    }
}

// Functions that only let go of storage: they drop a reference themselves and,
// when it was the last, release the block (and whatever it held).
inline std::set<llvm::Function*> releaseFunctions(llvm::Module& m)
{
    auto edges = callEdges(m);
    std::map<llvm::Function*, std::set<std::string>> ext;
    for (auto& f : m)
        for (auto& i : llvm::instructions(f))
            if (auto* cb = llvm::dyn_cast<llvm::CallBase>(&i)) {
                auto* c = cb->getCalledFunction();
                if (!c)
                    ext[&f].insert("indirect");
                else if (c->isDeclaration() && !c->isIntrinsic())
                    ext[&f].insert(c->getName().str());
            }
    for (bool ch = true; ch;) {
        ch = false;
        for (auto& e : edges)
            for (auto* g : e.second)
                for (auto& n : std::set<std::string>(ext[g]))
                    ch |= ext[e.first].insert(n).second;
    }
    auto dec  = [&](llvm::Function* f) { return ext[f].count("__p_dec") != 0; };
    auto free = [&](llvm::Function* f) { return ext[f].count("__p_free") != 0; };
    std::set<llvm::Function*> r;
    for (auto& f : m) {
        if (f.isDeclaration() || isDriver(f) || !dec(&f) || !free(&f))
            continue;
        if (f.getName().contains("EUl") || f.getName().contains("ENKUl"))
            continue; // a closure is part of the function it is written in
        bool only = true;
        for (auto& n : ext[&f])
            only &= n == "__p_dec" || n == "__p_free" || n.rfind("__p_dtor", 0) == 0 ||
                    n == "_ZSt9terminatev" || n == "__assert_fail" || n == "abort" ||
                    n == "__cxa_begin_catch";
        bool direct = false;
        for (auto* g : edges[&f])
            direct |= dec(g) && !free(g);
        for (auto& i : llvm::instructions(f))
            if (auto* cb = llvm::dyn_cast<llvm::CallBase>(&i))
                if (auto* c = cb->getCalledFunction())
                    direct |= c->getName() == "__p_dec";
        // one that always frees something does more than let go of a reference
        auto frees = [&](llvm::BasicBlock& b) {
            for (auto& i : b)
                if (auto* cb = llvm::dyn_cast<llvm::CallBase>(&i))
                    if (auto* c = cb->getCalledFunction())
                        if (c->getName() == "__p_free" || ext[c].count("__p_free"))
                            return true;
            return false;
        };
        std::set<llvm::BasicBlock*> seen;
        std::vector<llvm::BasicBlock*> todo{&f.getEntryBlock()};
        bool spares = false;
        while (!todo.empty()) {
            auto* b = todo.back();
            todo.pop_back();
            if (!seen.insert(b).second || frees(*b))
                continue;
            spares |= llvm::isa<llvm::ReturnInst>(b->getTerminator());
            for (auto* n : llvm::successors(b))
                todo.push_back(n);
        }
        if (only && direct && spares)
            r.insert(&f);
    }
    return r;
}

inline void runPasses(llvm::Module& m, const std::string& pipeline)
{
    llvm::LoopAnalysisManager lam;
    llvm::FunctionAnalysisManager fam;
    llvm::CGSCCAnalysisManager cam;
    llvm::ModuleAnalysisManager mam;
    llvm::PassBuilder pb;
    pb.registerModuleAnalyses(mam);
    pb.registerCGSCCAnalyses(cam);
    pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    llvm::ModulePassManager mpm;
    if (auto e = pb.parsePassPipeline(mpm, pipeline)) {
        llvm::errs() << "bad pipeline: " << toString(std::move(e)) << "\n";
        exit(2);
    }
    mpm.run(m, mam);
}

// returns the set of out-of-line recursive functions
inline std::set<llvm::Function*>
prepare(llvm::Module& m, std::set<llvm::Function*>* releasers = nullptr,
        const std::string& post =
            "function(sroa,early-cse,simplifycfg<no-switch-to-lookup>,"
            "instsimplify,loop-simplify)")
{
    for (auto& f : m) {
        f.removeFnAttr(llvm::Attribute::NoInline);
        f.removeFnAttr(llvm::Attribute::OptimizeNone);
        f.removeFnAttr(llvm::Attribute::MinSize);
        f.removeFnAttr(llvm::Attribute::OptimizeForSize);
        if (!f.isDeclaration()) {
            if (!isDriver(f)) {
                f.setLinkage(llvm::GlobalValue::InternalLinkage);
                f.setComdat(nullptr);
            }
        }
    }
    runPasses(m, "globaldce");
    std::set<llvm::Function*> rel;
    if (releasers)
        rel = *releasers = releaseFunctions(m);
    auto cut = recursiveCut(m, rel);
    for (auto& f : m)
        if (!f.isDeclaration() && !isDriver(f)) {
            if (cut.count(&f))
                f.addFnAttr(llvm::Attribute::NoInline);
            else
                f.addFnAttr(llvm::Attribute::AlwaysInline);
        }
    runPasses(m, "function(sroa,early-cse)");
    runPasses(m, "always-inline");
    runPasses(m, "globaldce");
    runPasses(m, post);
    std::set<llvm::Function*> left;
    for (auto& f : m)
        if (!f.isDeclaration() && !isDriver(f))
            left.insert(&f);
    return left;
}
