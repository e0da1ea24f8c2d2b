// Writes an LLVM module as JSON for the Python rules: functions, blocks,
// instructions with resolved operands, memory orderings and source positions.
#include <functional>
#include <map>
#include <set>
#include <llvm/ADT/MapVector.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static std::map<const Value*, int> ids;
static const DataLayout* DL;
static json::Value val(const Value* v)
{
    if (auto* c = dyn_cast<ConstantInt>(v)) {
        if (c->getBitWidth() <= 64)
            return json::Object{{"c", c->getSExtValue()}, {"w", c->getBitWidth()}};
        return json::Object{{"k", "bigint"}};
    }
    if (isa<ConstantPointerNull>(v))
        return json::Object{{"c", 0}, {"null", true}};
    if (auto* g = dyn_cast<GlobalValue>(v))
        return json::Object{{"g", g->getName()}, {"off", 0}};
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        APInt off(64, 0);
        if (ce->getType()->isPointerTy()) {
            auto* b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto* g = dyn_cast<GlobalValue>(b))
                return json::Object{{"g", g->getName()}, {"off", off.getSExtValue()}};
        }
        return json::Object{{"k", "constexpr"}};
    }
    if (isa<UndefValue>(v))
        return json::Object{{"k", "undef"}};
    auto it = ids.find(v);
    if (it != ids.end())
        return json::Object{{"v", it->second}};
    if (auto* b = dyn_cast<BasicBlock>(v))
        return json::Object{{"b", ids.count(b) ? ids[b] : -1}};
    return json::Object{{"k", "const"}};
}
static json::Value loc(const Instruction& i)
{
    json::Array r;
    int n = 0;
    for (const DILocation* l = i.getDebugLoc(); l && n < 8; l = l->getInlinedAt(), ++n) {
        std::string f = l->getFilename().str();
        auto* sp      = l->getScope()->getSubprogram();
        r.push_back(json::Array{f, (int64_t) l->getLine(), sp ? sp->getName() : ""});
    }
    return r;
}
static std::string ty(Type* t)
{
    std::string s;
    raw_string_ostream o(s);
    t->print(o);
    return s.size() > 60 ? s.substr(0, 60) : s;
}
int main(int c, char** v)
{
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(v[1], err, C);
    if (!M) {
        err.print("irdump", errs());
        return 2;
    }
    DL = &M->getDataLayout();
    json::Array fns, gls;
    for (auto& g : M->globals()) {
        json::Array refs;
        if (g.hasInitializer()) {
            std::set<std::string> names;
            std::function<void(const Constant*)> go = [&](const Constant* k) {
                if (auto* gv = dyn_cast<GlobalValue>(k)) {
                    names.insert(gv->getName().str());
                    return;
                }
                for (auto& o : k->operands())
                    if (auto* kk = dyn_cast<Constant>(o))
                        go(kk);
            };
            go(g.getInitializer());
            for (auto& n : names)
                refs.push_back(n);
        }
        gls.push_back(json::Object{{"name", g.getName()},
                                   {"dem", demangle(g.getName().str())},
                                   {"const", g.isConstant()},
                                   {"tls", g.isThreadLocal()},
                                   {"decl", g.isDeclaration()},
                                   {"type", ty(g.getValueType())},
                                   {"zero", g.hasInitializer() && g.getInitializer()->isNullValue()},
                                   {"refs", std::move(refs)}});
    }
    for (auto& f : *M) {
        json::Object fo{{"name", f.getName()},
                        {"dem", demangle(f.getName().str())},
                        {"decl", f.isDeclaration()},
                        {"nounwind", f.doesNotThrow()}};
        if (f.isDeclaration()) {
            fns.push_back(std::move(fo));
            continue;
        }
        ids.clear();
        int n = 0;
        json::Array args, blocks;
        for (auto& a : f.args()) {
            ids[&a] = n;
            args.push_back(json::Object{{"id", n++}, {"ty", ty(a.getType())}, {"sret", a.hasStructRetAttr()}, {"byval", a.hasByValAttr()}});
        }
        for (auto& b : f)
            ids[&b] = n++;
        for (auto& i : instructions(f))
            ids[&i] = n++;
        if (auto* sp = f.getSubprogram()) {
            fo["file"] = sp->getFilename();
            fo["line"] = (int64_t) sp->getLine();
            fo["short"] = sp->getName();
        }
        for (auto& b : f) {
            json::Array is, su;
            for (auto* s : successors(&b))
                su.push_back(ids[s]);
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(i))
                    continue;
                json::Object o{{"id", ids[&i]}, {"op", i.getOpcodeName()}, {"ty", ty(i.getType())}, {"loc", loc(i)}};
                json::Array ops;
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    for (auto& a : cb->args())
                        ops.push_back(val(a));
                    auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (cf) {
                        o["callee"] = cf->getName();
                        if (cf->isIntrinsic())
                            o["intr"] = true;
                    } else
                        o["indirect"] = val(cb->getCalledOperand());
                    o["nounwind"] = cb->doesNotThrow();
                    if (auto* inv = dyn_cast<InvokeInst>(&i)) {
                        o["normal"] = ids[inv->getNormalDest()];
                        o["unwind"] = ids[inv->getUnwindDest()];
                    }
                } else if (auto* ph = dyn_cast<PHINode>(&i)) {
                    json::Array in;
                    for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k)
                        in.push_back(json::Array{val(ph->getIncomingValue(k)), ids[ph->getIncomingBlock(k)]});
                    o["in"] = std::move(in);
                } else {
                    for (auto& a : i.operands())
                        ops.push_back(val(a));
                }
                o["ops"] = std::move(ops);
                if (auto* x = dyn_cast<ICmpInst>(&i))
                    o["pred"] = ICmpInst::getPredicateName(x->getPredicate());
                if (auto* x = dyn_cast<LoadInst>(&i))
                    if (x->isAtomic())
                        o["ord"] = toIRString(x->getOrdering());
                if (auto* x = dyn_cast<StoreInst>(&i)) {
                    if (x->isAtomic())
                        o["ord"] = toIRString(x->getOrdering());
                    o["sty"] = ty(x->getValueOperand()->getType());
                }
                if (auto* x = dyn_cast<AtomicRMWInst>(&i)) {
                    o["ord"] = toIRString(x->getOrdering());
                    o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation());
                }
                if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) {
                    o["ord"]  = toIRString(x->getSuccessOrdering());
                    o["ford"] = toIRString(x->getFailureOrdering());
                }
                if (auto* x = dyn_cast<FenceInst>(&i))
                    o["ord"] = toIRString(x->getOrdering());
                if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                    APInt off(64, 0);
                    if (g->accumulateConstantOffset(*DL, off))
                        o["off"] = off.getSExtValue();
                    else {
                        MapVector<Value*, APInt> vs;
                        APInt c(64, 0);
                        if (cast<GEPOperator>(g)->collectOffset(*DL, 64, vs, c)) {
                            json::Array t;
                            for (auto& x : vs)
                                t.push_back(json::Array{val(x.first), x.second.getSExtValue()});
                            o["vs"] = std::move(t);
                            o["vo"] = c.getSExtValue();
                        }
                    }
                }
                if (auto* s = dyn_cast<SwitchInst>(&i)) {
                    json::Array cs;
                    for (auto& k : s->cases())
                        cs.push_back(json::Array{k.getCaseValue()->getSExtValue(), ids[k.getCaseSuccessor()]});
                    o["cases"]   = std::move(cs);
                    o["default"] = ids[s->getDefaultDest()];
                }
                if (auto* br = dyn_cast<BranchInst>(&i)) {
                    json::Array t;
                    for (unsigned k = 0; k < br->getNumSuccessors(); ++k)
                        t.push_back(ids[br->getSuccessor(k)]);
                    o["to"] = std::move(t);
                    if (br->isConditional())
                        o["cond"] = val(br->getCondition());
                }
                if (auto* al = dyn_cast<AllocaInst>(&i)) {
                    json::Array t;
                    std::vector<Type*> todo{al->getAllocatedType()};
                    while (!todo.empty() && t.size() < 64) {
                        auto* x = dyn_cast<StructType>(todo.back());
                        todo.pop_back();
                        if (!x)
                            continue;
                        if (x->hasName())
                            t.push_back(x->getName());
                        for (auto* y : x->elements())
                            todo.push_back(y);
                    }
                    o["aty"] = std::move(t);
                }
                if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
                    json::Array t;
                    for (auto x : iv->indices())
                        t.push_back((int64_t) x);
                    o["idx"] = std::move(t);
                }
                if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
                    json::Array t;
                    for (auto x : ev->indices())
                        t.push_back((int64_t) x);
                    o["idx"] = std::move(t);
                }
                if (auto* lp = dyn_cast<LandingPadInst>(&i)) {
                    o["cleanup"] = lp->isCleanup();
                    o["clauses"] = (int64_t) lp->getNumClauses();
                }
                is.push_back(std::move(o));
            }
            blocks.push_back(json::Object{{"id", ids[&b]}, {"succs", std::move(su)}, {"insts", std::move(is)}});
        }
        fo["args"]   = std::move(args);
        fo["blocks"] = std::move(blocks);
        fns.push_back(std::move(fo));
    }
    outs() << json::Value(json::Object{{"functions", std::move(fns)}, {"globals", std::move(gls)}}) << "\n";
}
