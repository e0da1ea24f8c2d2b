// Ownership analysis: a path-partitioned forward dataflow over the normalised
// IR of the drivers.  See DESIGN.md, "The ownership engine".
#include "prep.h"
#include "sym.h"
#include <llvm/ADT/ImmutableMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/CommandLine.h>
#include <memory>
#include <optional>
#include <unordered_set>

using namespace llvm;

static cl::opt<std::string> optIn(cl::Positional, cl::desc("<bitcode>"));
static cl::opt<std::string> optOut("o", cl::desc("json output"), cl::init("-"));
static cl::opt<std::string> optOnly("only", cl::desc("only this driver"));
static cl::opt<bool> optTrace("trace", cl::desc("debug trace"));
static cl::opt<std::string> optDump("dump", cl::desc("dump normalised IR"));
static cl::opt<int> optStates("max-states", cl::init(40000));
static cl::opt<int> optStrideT("stride-T", cl::init(24));
static cl::opt<int> optStrideU("stride-U", cl::init(40));
static cl::opt<bool> optReleasers("releasers", cl::desc("keep functions that only let go of storage out of line"));
static cl::opt<int> optPtr("ptr", cl::init(8));

static Sym S;
static const DataLayout* DL;

// ------------------------------------------------------------------ names

static std::string shortName(std::string n)
{
    n      = demangle(n);
    // drop template arguments and parameter lists for readability
    std::string r;
    int d = 0;
    for (size_t i = 0; i < n.size(); ++i) {
        if (n.compare(i, 8, "operator") == 0 && d == 0) {
            r += n.substr(i, 10);
            i += 9;
            continue;
        }
        char ch = n[i];
        if (ch == '<' )
            ++d;
        else if (ch == '>')
            --d;
        else if (d == 0) {
            if (ch == '(')
                break;
            r += ch;
        }
    }
    auto sp = r.rfind(' ');
    if (sp != std::string::npos)
        r = r.substr(sp + 1);
    return r;
}

static std::string relFile(StringRef f)
{
    auto p = f.rfind("immer/");
    auto q = f.find("/repo/");
    if (q != StringRef::npos)
        return f.substr(q + 6).str();
    if (p != StringRef::npos)
        return f.substr(p).str();
    return f.str();
}

// innermost location that lies in the library, followed by its callers
static std::string locStr(const Instruction* i, int maxDepth = 4)
{
    std::string out;
    int n = 0;
    if (!i || !i->getDebugLoc())
        return "?";
    for (const DILocation* l = i->getDebugLoc(); l; l = l->getInlinedAt()) {
        auto f = relFile(l->getFilename());
        if (f.find("immer/") != 0)
            continue;
        if (n++ >= maxDepth)
            break;
        if (!out.empty())
            out += " <- ";
        out += f + ":" + std::to_string(l->getLine());
        if (auto* sp = l->getScope()->getSubprogram())
            out += "(" + sp->getName().split('<').first.str() + ")";
    }
    if (out.empty()) {
        const DILocation* l = i->getDebugLoc();
        while (l->getInlinedAt())
            l = l->getInlinedAt();
        out = relFile(l->getFilename()) + ":" + std::to_string(l->getLine());
    }
    return out;
}

// ------------------------------------------------------------------ state

struct MemNode;
using MemP = std::shared_ptr<const MemNode>;
struct MemNode
{
    enum K
    {
        Store,
        Copy,
        Havoc,      // whole base object
        HavocRange, // [addr, addr+len)
        Zero        // memset 0
    } k;
    EId addr = 0, val = 0, len = 0; // val: value / source address
    unsigned size = 0;
    bool ptrs     = false;
    AtomId base   = 0;
    int64_t id    = 0;
    MemP prev;
};

struct TraceNode
{
    std::string what;
    const Instruction* at;
    std::shared_ptr<const TraceNode> prev;
};
using TraceP = std::shared_ptr<const TraceNode>;

// what a ledger entry is about
struct Key
{
    enum K : uint8_t
    {
        Slot,  // references held on the pointers stored in [addr, ...)
        Ref,   // references held on one particular pointer
        ElemT, // constructed elements in [addr, ...)
        ElemU
    } k;
    AtomId tag; // object whose slots account for this entry (0: free pool)
    EId e;      // half-line start, or atom expression for Ref
    int64_t ver;
    bool operator<(const Key& o) const
    {
        return std::tie(k, tag, e, ver) < std::tie(o.k, o.tag, o.e, o.ver);
    }
    bool operator==(const Key& o) const
    {
        return k == o.k && tag == o.tag && e == o.e && ver == o.ver;
    }
};
using Ledger = std::map<Key, int64_t>;

struct Interval
{
    int64_t lo = INT64_MIN, hi = INT64_MAX;
    std::vector<int64_t> ne;
    bool operator==(const Interval& o) const
    {
        return lo == o.lo && hi == o.hi && ne == o.ne;
    }
};

using Env = ImmutableMap<const Value*, unsigned>;
static Env::Factory* EF;

struct Block
{
    EId size;
    uint8_t st; // 0 live, 1 freed
    const Instruction* at;
    int rc = 0; // exact count while only this path knows the block
    bool operator==(const Block& o) const
    {
        return size == o.size && st == o.st && rc == o.rc;
    }
};

struct State
{
    Env env{nullptr};
    MemP mem;
    std::map<AtomId, EId> subst;
    std::map<EId, Interval> iv;
    Ledger led;
    std::map<AtomId, Block> blocks;
    std::set<AtomId> pend;  // dec() returned true, block not yet released
    std::set<AtomId> freed; // released blocks that were not fresh
    std::set<AtomId> freedGuarded; // ... under a guard of this function
    std::map<AtomId, EId> freedHere; // ... by this function itself, with their sizes
    std::map<const Instruction*, int> cnt;
    std::set<std::string> taint;
    int caught      = 0;
    bool rethrowing = false;
    bool unwinding  = false;
    bool released   = false; // a releaser let go of something the block held
    const Instruction* thrower = nullptr;
    TraceP tr;
    std::unordered_map<EId, EId> memo;
};

struct Violation
{
    std::string rule, msg, fn, loc, trace;
};

// one way a recursive function can end
struct Comp
{
    enum K
    {
        Const,
        Expr,
        Named,
        Opaque
    } k        = Opaque;
    int64_t c  = 0; // constant / offset
    EId e      = 0;
    int id     = 0;
    bool ptr   = false;
    bool fresh = false;
    bool some  = false; // known not to be null
    std::string str() const
    {
        return text() + (some ? "!" : "");
    }
    std::string text() const
    {
        switch (k) {
        case Const:
            return "c" + std::to_string(c);
        case Expr:
            return "e" + std::to_string(e);
        case Named:
            return (fresh ? "N" : "n") + std::to_string(id) + "+" + std::to_string(c);
        default:
            return fresh ? "?x" : ptr ? "?p" : "?";
        }
    }
};
struct Effect
{
    Key::K k;
    bool named;
    int id; // named
    EId e;
    int64_t n;
};
struct Outcome
{
    bool unwind = false;
    std::vector<Comp> ret;
    std::vector<Effect> eff;
    std::vector<std::tuple<EId, unsigned, Comp>> stores; // address over args
    std::set<unsigned> havoc;                            // args written
    std::vector<unsigned> freedArgs;  // caller holds no reference any more
    std::vector<unsigned> freedOwned; // released under the callee's own guard
    std::vector<std::pair<unsigned, int64_t>> eqs; // arguments known constant
    std::vector<std::pair<unsigned, int64_t>> ges; // arguments known to be at least
    bool taint = false;
    std::string key() const
    {
        std::string s = unwind ? "U" : "R";
        for (auto& c : ret)
            s += c.str() + ",";
        s += "|";
        for (auto& f : eff)
            s += std::to_string(f.k) + (f.named ? "n" : "e") +
                 std::to_string(f.named ? f.id : f.e) + "*" +
                 std::to_string(f.n) + ",";
        s += "|";
        for (auto& t : stores)
            s += std::to_string(std::get<0>(t)) + "=" + std::get<2>(t).str() +
                 ",";
        s += "|";
        for (auto h : havoc)
            s += std::to_string(h) + ",";
        for (auto h : freedArgs)
            s += "f" + std::to_string(h);
        for (auto h : freedOwned)
            s += "F" + std::to_string(h);
        for (auto& q : ges)
            s += "g" + std::to_string(q.first) + ">" + std::to_string(q.second);
        for (auto& q : eqs)
            s += "|a" + std::to_string(q.first) + "=" + std::to_string(q.second);
        s += taint ? "T" : "";
        return s;
    }
};
struct Summary
{
    std::map<std::string, Outcome> out;
    std::set<unsigned> needExcl;     // args written without a guard of its own
    std::set<unsigned> needPathExcl; // args written under a guard on the arg
    std::set<EId> needExclE;         // nodes found through the arguments
    std::set<EId> needPathE;         // ... and written under a guard
    std::set<EId> reads;             // slots of existing nodes that it looks at
    bool unresolved = false;
};

struct FnStats
{
    size_t states = 0, exits = 0, unwinds = 0, events = 0, allocs = 0,
           frees = 0, stores = 0, guarded = 0, tainted = 0, incs = 0, decs = 0,
           ctors = 0, dtors = 0, loops = 0;
    bool unresolved = false;
    std::set<std::string> taints;
};

struct TooMany
{};

struct Engine
{
    Module& M;
    std::set<Function*> rec;
    std::set<Function*> releasers;
    std::map<Function*, int> relFree;
    std::map<Function*, Summary> sums;
    std::map<std::string, Violation> viols; // by key
    std::map<Function*, FnStats> stats;
    bool report = false;
    int quiet   = 0;

    // per function
    Function* F = nullptr;
    std::unique_ptr<DominatorTree> DT;
    std::unique_ptr<LoopInfo> LI;
    std::vector<BasicBlock*> rpo;
    std::map<const BasicBlock*, int> rpoIdx;
    std::map<const BasicBlock*, std::set<const Value*>> liveIn;
    std::string sig;
    Summary* cur = nullptr;
    size_t nstates;
    std::map<std::string, Outcome> newOut;
    std::set<std::string> fnTaint;

    explicit Engine(Module& m) : M(m) {}

    // ---------------------------------------------------------- expressions
    EId norm(State& s, EId e)
    {
        if (s.subst.empty())
            return e;
        auto it = s.memo.find(e);
        if (it != s.memo.end())
            return it->second;
        EId r = S.cst(S.lins[e].c);
        // copy: interning may reallocate
        auto terms = S.lins[e].t;
        for (auto& p : terms) {
            auto si = s.subst.find(p.first);
            EId v;
            if (si != s.subst.end())
                v = norm(s, si->second);
            else if (S.atoms[p.first].args.empty())
                v = S.atomE(p.first);
            else {
                Atom a    = S.atoms[p.first];
                bool chg  = false;
                auto args = a.args;
                for (auto& x : args) {
                    auto y = norm(s, x);
                    chg |= y != x;
                    x = y;
                }
                if (!chg)
                    v = S.atomE(p.first);
                else {
                    v = rebuild(a, args);
                    // the rebuilt atom may itself be substituted
                    auto& l = S.lins[v];
                    if (l.t.size() == 1 && l.c == 0 && l.t[0].second == 1) {
                        auto s2 = s.subst.find(l.t[0].first);
                        if (s2 != s.subst.end())
                            v = norm(s, s2->second);
                    }
                }
            }
            r = S.add(r, S.scale(v, p.second));
        }
        s.memo[e] = r;
        return r;
    }
    EId rebuild(const Atom& a, const std::vector<EId>& args)
    {
        if (a.k == AK::Op)
            return mkOp(a.op, args, a.tag, a.ptr);
        auto id        = S.mkAtom(a.k, a.op, a.tag, args, a.ptr);
        S.atoms[id].name = a.name;
        return S.atomE(id);
    }
    EId opaque(bool ptr, const char* n = "") { return S.atomE(S.fresh(AK::Opaque, ptr, n)); }

    EId mkOp(int op, std::vector<EId> a, int64_t tag = 0, bool ptr = false)
    {
        int64_t x, y;
        switch (op) {
        case OP_EQ0: {
            if (S.isC(a[0], x))
                return S.cst(x == 0);
            // canonical sign & gcd
            auto& l = S.lins[a[0]];
            if (l.t[0].second < 0)
                a[0] = S.scale(a[0], -1);
            int64_t g = 0;
            for (auto& p : S.lins[a[0]].t)
                g = std::gcd(g, p.second);
            if (g > 1) {
                if (S.lins[a[0]].c % g)
                    return S.cst(0);
                a[0] = S.divExact(a[0], g);
            }
            // distinct objects
            auto& l2 = S.lins[a[0]];
            if (l2.t.size() == 1 && l2.c == 0 &&
                std::llabs(l2.t[0].second) == 1) {
                auto k = S.atoms[l2.t[0].first].k;
                if (k == AK::Alloc || k == AK::Alloca || k == AK::Global)
                    return S.cst(0);
            }
            if (l2.t.size() == 2) {
                auto &p = S.atoms[l2.t[0].first], &q = S.atoms[l2.t[1].first];
                auto own = [](const Atom& z) {
                    return z.k == AK::Alloc || z.k == AK::Alloca ||
                           z.k == AK::Global;
                };
                if (p.ptr && q.ptr && l2.t[0].second == -l2.t[1].second &&
                    (own(p) || own(q)))
                    return S.cst(0);
            }
            break;
        }
        case OP_NEG:
            if (S.isC(a[0], x))
                return S.cst(x < 0);
            {
                int64_t g = 0;
                for (auto& p : S.lins[a[0]].t)
                    g = std::gcd(g, p.second);
                if (g > 1) { // a<0  <=>  floor(a/g) < 0
                    Lin l = S.lins[a[0]];
                    for (auto& p : l.t)
                        p.second /= g;
                    int64_t c = l.c;
                    l.c       = c >= 0 ? c / g : -((-c + g - 1) / g);
                    a[0]      = S.mk(l);
                }
            }
            break;
        case OP_POPC: {
            if (S.isC(a[0], x))
                return S.cst(__builtin_popcountll((uint64_t) x));
            auto l = S.lins[a[0]];
            if (l.c == 0 && l.t.size() == 1 && l.t[0].second == 1) {
                Atom at = S.atoms[l.t[0].first];
                if (at.k == AK::Op && at.op == OP_LLVM + Instruction::Or) {
                    if (S.isBit(at.args[1]))
                        return S.addc(mkOp(OP_POPC, {at.args[0]}), 1);
                    if (S.isBit(at.args[0]))
                        return S.addc(mkOp(OP_POPC, {at.args[1]}), 1);
                }
                if (at.k == AK::Op && at.op == OP_LLVM + Instruction::And)
                    for (int i = 0; i < 2; ++i) {
                        // x & ~bit ; ~bit == -1 - bit
                        auto nb = S.addc(S.scale(at.args[i], -1), -1);
                        if (S.isBit(nb) && !S.isC(nb))
                            return S.addc(mkOp(OP_POPC, {at.args[1 - i]}), -1);
                    }
            }
            if (S.isBit(a[0]))
                return S.cst(1);
            break;
        }
        case OP_SELECT:
            if (S.isC(a[0], x))
                return x ? a[1] : a[2];
            if (a[1] == a[2])
                return a[1];
            break;
        default: break;
        }
        if (op >= OP_LLVM) {
            auto o  = op - OP_LLVM;
            bool cx = S.isC(a[0], x);
            bool cy = a.size() > 1 && S.isC(a[1], y);
            switch (o) {
            case Instruction::And:
                if (cx && cy)
                    return S.cst(x & y);
                if ((cx && x == 0) || (cy && y == 0))
                    return S.cst(0);
                if (cx && x == -1)
                    return a[1];
                if (cy && y == -1)
                    return a[0];
                if (a[0] == a[1])
                    return a[0];
                if (isBool(a[0]) && cy && y == 1)
                    return a[0];
                if (isBool(a[1]) && cx && x == 1)
                    return a[1];
                if (a[0] > a[1])
                    std::swap(a[0], a[1]);
                break;
            case Instruction::Or:
                if (cx && cy)
                    return S.cst(x | y);
                if (cx && x == 0)
                    return a[1];
                if (cy && y == 0)
                    return a[0];
                if (a[0] == a[1])
                    return a[0];
                if (a[0] > a[1])
                    std::swap(a[0], a[1]);
                break;
            case Instruction::Xor:
                if (cx && cy)
                    return S.cst(x ^ y);
                if (cy && y == -1)
                    return S.addc(S.scale(a[0], -1), -1);
                if (cx && x == -1)
                    return S.addc(S.scale(a[1], -1), -1);
                if (cy && y == 0)
                    return a[0];
                if (cy && y == 1 && isBool(a[0]))
                    return S.addc(S.scale(a[0], -1), 1);
                if (a[0] > a[1])
                    std::swap(a[0], a[1]);
                break;
            case Instruction::Mul:
                if (cx)
                    return S.scale(a[1], x);
                if (cy)
                    return S.scale(a[0], y);
                if (a[0] > a[1])
                    std::swap(a[0], a[1]);
                break;
            case Instruction::Shl:
                if (cy && y >= 0 && y < 62)
                    return S.scale(a[0], 1ll << y);
                break;
            case Instruction::LShr:
            case Instruction::AShr:
                if (cx && cy && y >= 0 && y < 63)
                    return S.cst(x >> y);
                if (cy && y >= 0 && y < 62 && S.divisible(a[0], 1ll << y))
                    return S.divExact(a[0], 1ll << y);
                break;
            case Instruction::UDiv:
            case Instruction::SDiv:
                if (cy && y > 0 && S.divisible(a[0], y))
                    return S.divExact(a[0], y);
                if (cx && cy && y)
                    return S.cst(x / y);
                break;
            case Instruction::URem:
            case Instruction::SRem:
                if (cx && cy && y)
                    return S.cst(x % y);
                break;
            default: break;
            }
        }
        return S.atomE(S.mkAtom(AK::Op, op, tag, std::move(a), ptr));
    }
    bool isBool(EId e)
    {
        auto& l = S.lins[e];
        if (l.t.empty())
            return l.c == 0 || l.c == 1;
        if (l.t.size() != 1)
            return false;
        if (!((l.c == 0 && l.t[0].second == 1) ||
              (l.c == 1 && l.t[0].second == -1)))
            return false;
        auto& a = S.atoms[l.t[0].first];
        if (a.k == AK::Op) {
            if (a.op == OP_EQ0 || a.op == OP_NEG || a.op == OP_UNIQUE ||
                a.op == OP_CANMUT || a.op == OP_DEC)
                return true;
            if (a.op == OP_LLVM + Instruction::And ||
                a.op == OP_LLVM + Instruction::Or ||
                a.op == OP_LLVM + Instruction::Xor)
                return isBool(a.args[0]) && isBool(a.args[1]);
        }
        return a.op == -7; // opaque boolean
    }

    // ---------------------------------------------------------- facts
    // returns false if infeasible
    bool setSubst(State& s, AtomId a, EId v)
    {
        s.subst[a] = v;
        s.memo.clear();
        if (inherentNonneg(S.atoms[a], a) && !S.isC(v)) {
            Interval in;
            in.lo = 0;
            if (!addIv(s, norm(s, v), in))
                return false;
        }
        if (S.atoms[a].k == AK::Op && S.atoms[a].op == OP_POPC) {
            // no bits: the word itself is zero
            int64_t z;
            if (S.isC(v, z) && z == 0) {
                EId w = norm(s, S.atoms[a].args[0]);
                if (!S.isC(w) && !solveZero(s, w))
                    return false;
            }
            // a subset has no more bits than the whole
            auto& l = S.lins[S.atoms[a].args[0]];
            if (l.c == 0 && l.t.size() == 1 && l.t[0].second == 1) {
                auto& q = S.atoms[l.t[0].first];
                if (q.k == AK::Op && q.op == OP_LLVM + Instruction::And) {
                    auto args = q.args;
                    for (auto x : args) {
                        if (S.lins[x].t.size() != 1 || S.lins[x].c)
                            continue;
                        Interval in;
                        in.lo = 0;
                        if (!addIv(s, norm(s, S.sub(mkOp(OP_POPC, {x}), v)), in))
                            return false;
                    }
                }
            }
        }
        // re-canonicalise interval facts
        std::map<EId, Interval> old;
        old.swap(s.iv);
        for (auto& p : old)
            if (!addIv(s, norm(s, p.first), p.second))
                return false;
        return true;
    }
    // linear part without constant, sign-canonical
    EId linPart(EId e, int64_t& c, bool& negd)
    {
        Lin l = S.lins[e];
        c     = l.c;
        l.c   = 0;
        negd  = !l.t.empty() && l.t[0].second < 0;
        EId r = S.mk(l);
        return negd ? S.scale(r, -1) : r;
    }
    bool addIv(State& s, EId e, Interval in)
    {
        int64_t c;
        bool neg;
        auto k = linPart(e, c, neg);
        // e in [lo,hi] => k = ±(e - c)
        auto sh = [&](int64_t v, int64_t d) {
            return v == INT64_MIN || v == INT64_MAX ? v : v + d;
        };
        int64_t lo = sh(in.lo, -c), hi = sh(in.hi, -c);
        if (neg) {
            auto t = lo;
            lo     = hi == INT64_MAX ? INT64_MIN : -hi;
            hi     = t == INT64_MIN ? INT64_MAX : -t;
        }
        if (S.lins[k].t.empty())
            return lo <= 0 && 0 <= hi &&
                   std::find(in.ne.begin(), in.ne.end(), c) == in.ne.end();
        auto& v = s.iv[k];
        v.lo    = std::max(v.lo, lo);
        v.hi    = std::min(v.hi, hi);
        if (v.lo < 0 && nonneg(s, k))
            v.lo = 0;
        if (v.hi > 0 && nonneg(s, S.scale(k, -1)))
            v.hi = 0;
        for (auto n : in.ne) {
            auto m = n - c;
            if (neg)
                m = -m;
            if (std::find(v.ne.begin(), v.ne.end(), m) == v.ne.end()) {
                v.ne.push_back(m);
                std::sort(v.ne.begin(), v.ne.end());
            }
        }
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto n : v.ne) {
                if (n == v.lo && v.lo != INT64_MIN) {
                    ++v.lo;
                    ch = true;
                }
                if (n == v.hi && v.hi != INT64_MAX) {
                    --v.hi;
                    ch = true;
                }
            }
        }
        if (v.lo > v.hi)
            return false;
        bool counter = S.lins[k].t.size() == 1 &&
                       S.atoms[S.lins[k].t[0].first].k == AK::Iter;
        if (v.lo == v.hi && !counter) {
            auto val = v.lo;
            s.iv.erase(k);
            return solveZero(s, S.addc(k, -val));
        }
        return true;
    }
    bool solveZero(State& s, EId d)
    {
        d = norm(s, d);
        auto l = S.lins[d];
        if (l.t.empty())
            return l.c == 0;
        int64_t g = 0;
        for (auto& p : l.t)
            g = std::gcd(g, p.second);
        if (g > 1) {
            if (l.c % g)
                return false;
            d = S.divExact(d, g);
            l = S.lins[d];
        }
        // iteration counters first, then newest atom
        int best = -1;
        for (size_t i = 0; i < l.t.size(); ++i) {
            if (std::llabs(l.t[i].second) != 1)
                continue;
            auto a = l.t[i].first;
            auto k = S.atoms[a].k;
            if (k == AK::Alloc || k == AK::Alloca || k == AK::Global)
                continue;
            EId rest = S.scale(S.add(d, S.scale(S.atomE(a), -l.t[i].second)),
                               -l.t[i].second);
            if (S.occurs(rest, a))
                continue;
            if (best < 0)
                best = i;
            else {
                bool bi = S.atoms[l.t[best].first].k == AK::Iter;
                bool ci = k == AK::Iter;
                if (ci && !bi)
                    best = i;
                else if (ci == bi && a > l.t[best].first)
                    best = i;
            }
        }
        if (best < 0)
            return true; // nothing to learn
        auto a = l.t[best].first;
        EId rest =
            S.scale(S.add(d, S.scale(S.atomE(a), -l.t[best].second)),
                    -l.t[best].second);
        return setSubst(s, a, rest);
    }
    // known truth of a canonical predicate, -1 unknown
    int decide(State& s, EId cond)
    {
        cond = norm(s, cond);
        int64_t c;
        if (S.isC(cond, c))
            return c != 0;
        auto& l = S.lins[cond];
        if (l.t.size() == 1 && std::llabs(l.t[0].second) == 1) {
            bool inv = l.t[0].second < 0;
            Atom a   = S.atoms[l.t[0].first];
            int r    = -1;
            if (a.k == AK::Op && (a.op == OP_NEG || a.op == OP_EQ0)) {
                int64_t cc;
                bool neg;
                auto k  = linPart(norm(s, a.args[0]), cc, neg);
                auto it = s.iv.find(k);
                int64_t lo = INT64_MIN, hi = INT64_MAX;
                std::vector<int64_t> ne;
                if (it != s.iv.end()) {
                    lo = it->second.lo;
                    hi = it->second.hi;
                    ne = it->second.ne;
                }
                // implicit: sums of nonnegative atoms
                if (lo < 0 && nonneg(s, k))
                    lo = 0;
                if (hi > 0 && nonneg(s, S.scale(k, -1)))
                    hi = 0;
                // value = ±k + cc
                int64_t vlo = neg ? (hi == INT64_MAX ? INT64_MIN : -hi + cc)
                                  : (lo == INT64_MIN ? INT64_MIN : lo + cc);
                int64_t vhi = neg ? (lo == INT64_MIN ? INT64_MAX : -lo + cc)
                                  : (hi == INT64_MAX ? INT64_MAX : hi + cc);
                if (a.op == OP_NEG) {
                    if (vhi < 0)
                        r = 1;
                    else if (vlo >= 0)
                        r = 0;
                    else if (optReleasers) {
                        EId x = norm(s, a.args[0]);
                        if (lowB(s, x) >= 0)
                            r = 0;
                        else if (upB(s, x) < 0)
                            r = 1;
                    }
                } else {
                    if (vlo > 0 || vhi < 0)
                        r = 0;
                    for (auto n : ne)
                        if ((neg ? -n : n) + cc == 0)
                            r = 0;
                }
            } else if (a.k == AK::Op && a.op == OP_LLVM + Instruction::And &&
                       isBool(a.args[0]) && isBool(a.args[1])) {
                int x = decide(s, a.args[0]), y = decide(s, a.args[1]);
                if (x == 0 || y == 0)
                    r = 0;
                else if (x == 1 && y == 1)
                    r = 1;
            } else if (a.k == AK::Op && a.op == OP_LLVM + Instruction::Or &&
                       isBool(a.args[0]) && isBool(a.args[1])) {
                int x = decide(s, a.args[0]), y = decide(s, a.args[1]);
                if (x == 1 || y == 1)
                    r = 1;
                else if (x == 0 && y == 0)
                    r = 0;
            }
            if (r >= 0)
                return inv ? !r : r;
        }
        return -1;
    }
    // a - b where b counts a subset of the bits that a counts
    bool subsetBits(const Atom& big, const Atom& small)
    {
        auto x = big.args[0];
        std::function<bool(EId)> has = [&](EId e) {
            if (e == x)
                return true;
            auto& l = S.lins[e];
            if (l.c || l.t.size() != 1 || l.t[0].second != 1)
                return false;
            auto& a = S.atoms[l.t[0].first];
            if (a.k != AK::Op || a.op != OP_LLVM + Instruction::And)
                return false;
            return has(a.args[0]) || has(a.args[1]);
        };
        return has(small.args[0]);
    }
    // lower / upper bounds from facts
    int64_t lowB(State& s, EId e, int depth = 0)
    {
        int64_t c;
        if (S.isC(e, c))
            return c;
        bool neg;
        auto k  = linPart(e, c, neg);
        int64_t best = INT64_MIN;
        auto it = s.iv.find(k);
        if (it != s.iv.end()) {
            auto v = neg ? it->second.hi : it->second.lo;
            if (v != INT64_MIN && v != INT64_MAX)
                best = (neg ? -v : v) + c;
        }
        if (nonneg(s, S.addc(e, -c)))
            best = std::max(best, c);
        if (S.lins[e].t.size() > 1 || std::llabs(S.lins[e].t[0].second) != 1) {
            int64_t sum = c;
            bool ok     = depth < 2;
            auto t      = S.lins[e].t;
            for (auto& p : t) {
                if (!ok)
                    break;
                int64_t b = p.second > 0
                                ? lowB(s, S.atomE(p.first), depth + 1)
                                : upB(s, S.atomE(p.first), depth + 1);
                if (b == INT64_MIN || b == INT64_MAX || std::llabs(b) > (1ll << 40))
                    ok = false;
                else
                    sum += p.second * b;
            }
            if (ok)
                best = std::max(best, sum);
        }
        if (depth < 2)
            best = std::max(best, viaFacts(s, e, depth));
        return best;
    }
    // e = fact + rest
    int64_t viaFacts(State& s, EId e, int depth)
    {
        int64_t best = INT64_MIN;
        size_t nt    = S.lins[e].t.size();
        std::vector<std::pair<EId, int64_t>> cand;
        for (auto& f : s.iv) {
            if (f.second.lo == INT64_MIN && f.second.hi == INT64_MAX)
                continue;
            if (S.lins[f.first].t.size() < 2)
                continue; // single terms are summed elsewhere
            for (int sg = 0; sg < 2; ++sg) {
                int64_t lo = sg ? f.second.hi : f.second.lo;
                if (lo == INT64_MIN || lo == INT64_MAX)
                    continue;
                // a term in common, same sign
                int64_t m = 0;
                for (auto& p : S.lins[f.first].t) {
                    auto c = S.coef(e, p.first);
                    int64_t fc = sg ? -p.second : p.second;
                    if (c && fc && c % fc == 0 && c / fc > 0) {
                        m = c / fc;
                        break;
                    }
                }
                if (!m)
                    continue;
                EId x    = S.scale(f.first, sg ? -m : m);
                EId rest = S.sub(e, x);
                if (S.lins[rest].t.size() > nt || rest == e)
                    continue;
                cand.push_back({rest, m * (sg ? -lo : lo)});
            }
        }
        for (auto& c : cand) {
            auto b = lowB(s, c.first, depth + 1);
            if (b != INT64_MIN && b > -(1ll << 40))
                best = std::max(best, b + c.second);
        }
        return best;
    }
    // do the facts of this path contradict each other?
    bool contradictory(State& s)
    {
        auto iv = s.iv;
        for (auto& f : iv) {
            EId e = norm(s, f.first);
            if (lowB(s, e) > f.second.hi || upB(s, e) < f.second.lo)
                return true;
        }
        return false;
    }
    int64_t upB(State& s, EId e, int depth = 0)
    {
        auto v = lowB(s, S.scale(e, -1), depth);
        return v == INT64_MIN ? INT64_MAX : -v;
    }
    std::set<AtomId> unsignedArgs;
    // argument the function descends by -> where the descent ends, and its step
    std::map<AtomId, std::pair<int64_t, int64_t>> descentArgs;
    bool inherentNonneg(const Atom& a, AtomId id)
    {
        return a.k == AK::Iter || (a.k == AK::Op && a.op == OP_POPC) ||
               (a.k == AK::Arg && unsignedArgs.count(id));
    }
    bool nonneg(State& s, EId k)
    {
        auto isPop = [&](const Atom& a) {
            return a.k == AK::Op && a.op == OP_POPC;
        };
        std::vector<std::pair<AtomId, int64_t>> pos, neg;
        for (auto& p : S.lins[k].t) {
            auto& a = S.atoms[p.first];
            if (p.second < 0) {
                if (!isPop(a))
                    return false;
                neg.push_back({p.first, -p.second});
                continue;
            }
            if (inherentNonneg(a, p.first)) {
                pos.push_back(p);
                continue;
            }
            return false;
        }
        for (auto& n : neg) {
            for (auto& p : pos)
                if (isPop(S.atoms[p.first]) && p.second > 0 &&
                    subsetBits(S.atoms[p.first], S.atoms[n.first])) {
                    auto d = std::min(p.second, n.second);
                    p.second -= d;
                    n.second -= d;
                }
            if (n.second)
                return false;
        }
        return S.lins[k].c >= 0;
    }
    // exit: the branch leaves a loop whose counter is k
    bool assume(State& s, EId cond, bool val, bool exitEdge, AtomId k)
    {
        cond = norm(s, cond);
        int64_t c;
        if (S.isC(cond, c))
            return (c != 0) == val;
        auto l = S.lins[cond];
        if (l.t.size() != 1 || std::llabs(l.t[0].second) != 1)
            return true;
        if (l.t[0].second < 0)
            val = !val; // 1 - a
        AtomId at = l.t[0].first;
        Atom a    = S.atoms[at];
        int kn    = decide(s, S.atomE(at));
        if (kn >= 0 && (kn != 0) != val)
            return false;
        if (!setSubst(s, at, S.cst(val)))
            return false;
        if (a.k == AK::Op && a.op == OP_EQ0) {
            EId d = norm(s, a.args[0]);
            if (val)
                return solveZero(s, d);
            Interval in;
            in.ne.push_back(0);
            if (!addIv(s, d, in))
                return false;
            // not at the end of a descent: at least a step away
            {
                auto dl = S.lins[d];
                if (dl.t.size() == 1 && std::llabs(dl.t[0].second) == 1)
                    if (auto it = descentArgs.find(dl.t[0].first); it != descentArgs.end())
                        if (-dl.c * dl.t[0].second == it->second.first) {
                            Interval ge;
                            ge.lo = it->second.first + it->second.second;
                            if (!addIv(s, S.atomE(dl.t[0].first), ge))
                                return false;
                        }
            }
            // bit b is in x: fewer than popc(x) bits of x lie below b
            auto dl = S.lins[d];
            if (dl.c == 0 && dl.t.size() == 1 && dl.t[0].second == 1) {
                auto q = S.atoms[dl.t[0].first];
                if (q.k == AK::Op && q.op == OP_LLVM + Instruction::And)
                    for (int i = 0; i < 2; ++i)
                        if (S.isBit(q.args[i]) && !S.isC(q.args[i])) {
                            EId below = mkOp(OP_LLVM + Instruction::And,
                                             {q.args[1 - i], S.addc(q.args[i], -1)});
                            Interval one;
                            one.lo = 1;
                            if (!addIv(s, norm(s, S.sub(mkOp(OP_POPC, {q.args[1 - i]}), mkOp(OP_POPC, {below}))), one))
                                return false;
                        }
            }
            return true;
        }
        if (a.k == AK::Op && a.op == OP_NEG) {
            EId d = norm(s, a.args[0]);
            if (exitEdge) {
                auto co = S.coef(d, k);
                if (!val && co == 1)
                    return solveZero(s, d);
                if (val && co == -1)
                    return solveZero(s, S.addc(d, 1));
            }
            Interval in;
            if (val)
                in.hi = -1;
            else
                in.lo = 0;
            return addIv(s, d, in);
        }
        if (a.k == AK::Op && isBool(S.atomE(at))) {
            if (a.op == OP_LLVM + Instruction::And && val)
                return assume(s, a.args[0], true, exitEdge, k) &&
                       assume(s, a.args[1], true, exitEdge, k);
            if (a.op == OP_LLVM + Instruction::Or && !val)
                return assume(s, a.args[0], false, exitEdge, k) &&
                       assume(s, a.args[1], false, exitEdge, k);
        }
        return true;
    }

    // ---------------------------------------------------------- memory
    bool base(State& s, EId e, AtomId& b) { return S.baseOf(norm(s, e), b); }

    // relation of address a to [lo, lo+len): 0 disjoint, 1 exact/inside, 2 may
    // pre: same base
    // could an older write to the block have filled the slot?
    bool mayCover(State& s, EId addr, AtomId b, MemP m)
    {
        for (; m; m = m->prev) {
            AtomId mb;
            if (m->k == MemNode::Havoc) {
                if (m->base == b)
                    return true;
                continue;
            }
            EId ma = norm(s, m->addr);
            if (!S.baseOf(ma, mb) || mb != b)
                continue;
            EId d = S.sub(addr, ma);
            if (m->k == MemNode::Store) {
                if (m->ptrs && !apart(s, d, optPtr, m->size, addr, ma, b))
                    return true;
                continue;
            }
            if (lowB(s, S.sub(d, norm(s, m->len))) >= 0 || upB(s, d) < 0 ||
                fieldBefore(s, addr, ma, b))
                continue;
            return true;
        }
        return false;
    }
    EId loadAt(State& s, EId addr, unsigned size, bool ptr, MemP m)
    {
        addr = norm(s, addr);
        AtomId b;
        bool hb = S.baseOf(addr, b);
        for (; m; m = m->prev) {
            if (m->k == MemNode::Havoc) {
                AtomId mb = m->base;
                auto si   = s.subst.find(mb);
                if (si != s.subst.end())
                    S.baseOf(norm(s, si->second), mb);
                if (hb && mb == b)
                    return S.atomE(S.mkAtom(AK::Load, 0, m->id, {addr}, ptr));
                continue;
            }
            EId ma = norm(s, m->addr);
            AtomId mb;
            bool hmb = S.baseOf(ma, mb);
            if (hb != hmb || (hb && mb != b))
                continue; // different objects
            EId d = S.sub(addr, ma);
            if (m->k == MemNode::Store) {
                int64_t dc;
                if (S.isC(d, dc)) {
                    if (dc == 0) {
                        if (m->size == size)
                            return norm(s, m->val);
                        if (size < m->size) {
                            int64_t c;
                            if (S.isC(norm(s, m->val), c) && c == 0)
                                return S.cst(0);
                        }
                        return S.atomE(
                            S.mkAtom(AK::Load, 0, m->id, {addr}, ptr));
                    }
                    if (dc >= (int64_t) m->size || dc + (int64_t) size <= 0)
                        continue;
                    return S.atomE(S.mkAtom(AK::Load, 0, m->id, {addr}, ptr));
                }
                if (apart(s, d, size, m->size, addr, ma, b))
                    continue;
                if (ptr && !m->ptrs && hb && S.atoms[b].k == AK::Alloc)
                    continue; // what is no pointer is not stored among pointers
                if (ptr && hb && S.atoms[b].k == AK::Alloc &&
                    !mayCover(s, addr, b, m->prev)) {
                    State t = s;
                    if (solveZero(t, d)) {
                        s = std::move(t);
                        return norm(s, m->val); // the only slot filled so far
                    }
                    return S.atomE(S.mkAtom(AK::Uninit, 0, 0, {addr}, ptr));
                }
                if (optTrace && hb && S.atoms[b].k == AK::Alloc && !quiet && report)
                    {errs() << "may-alias " << S.str(addr) << " vs " << S.str(ma) << "\n";}
                return S.atomE(S.mkAtom(AK::Load, 0, m->id, {addr}, ptr));
            }
            // ranges
            int64_t dc;
            EId len = norm(s, m->len);
            if (S.isC(d, dc)) {
                if (dc < 0)
                    continue;
                int64_t lc;
                if (S.isC(len, lc) && dc >= lc)
                    continue;
            } else {
                EId past = S.sub(d, len); // >= 0: beyond the range
                if (lowB(s, past) >= 0 || upB(s, d) < 0)
                    continue;
                if (fieldBefore(s, addr, ma, b))
                    continue;
                // an index into an array does not run into what follows the array
                int64_t rc;
                if (hb && S.isC(S.sub(ma, S.atomE(b)), rc) && S.lins[S.sub(addr, S.atomE(b))].c < rc)
                    continue;
            }
            if (optTrace && hb && S.atoms[b].k == AK::Alloc && !quiet && report)
                errs() << "may-range " << S.str(addr) << " in " << S.str(ma) << " len " << S.str(len) << " kind " << m->k << "\n";
            if (m->k == MemNode::Zero)
                return S.cst(0);
            if (m->k == MemNode::Copy && (!ptr || m->ptrs || true)) {
                EId src = S.add(norm(s, m->val), d);
                return loadAt(s, src, size, ptr, m->prev);
            }
            return S.atomE(S.mkAtom(AK::Load, 0, m->id, {addr}, ptr));
        }
        if (hb && S.atoms[b].k == AK::Alloc)
            return S.atomE(S.mkAtom(AK::Uninit, 0, 0, {addr}, ptr));
        if (hb && S.atoms[b].k == AK::Alloca)
            return S.atomE(S.mkAtom(AK::Uninit, 0, 0, {addr}, ptr));
        if (hb && S.atoms[b].k == AK::Arg && handleKind(b) == 'o')
            return S.atomE(S.mkAtom(AK::Uninit, 0, 0, {addr}, ptr));
        return S.atomE(S.mkAtom(AK::Load, 0, 0, {addr}, ptr));
    }
    // address at a constant offset that lies below the constant part of the
    // (symbolically indexed) other address: a header field before an array
    bool fieldBefore(State& s, EId a, EId m, AtomId b)
    {
        auto ra = S.sub(a, S.atomE(b)), rm = S.sub(m, S.atomE(b));
        int64_t c;
        if (S.isC(ra, c))
            return c < S.lins[rm].c || c < lowB(s, rm);
        return false;
    }
    bool apart(State& s, EId d, unsigned sz, unsigned msz, EId a, EId m, AtomId b)
    {
        if (fieldBefore(s, a, m, b) || fieldBefore(s, m, a, b))
            return true;
        return lowB(s, d) >= (int64_t) msz || upB(s, d) <= -(int64_t) sz;
    }
    // selects whose condition has become known
    EId settle(State& s, EId e)
    {
        e     = norm(s, e);
        EId r = S.cst(S.lins[e].c);
        for (auto& p : Lin(S.lins[e]).t) {
            Atom a = S.atoms[p.first];
            EId v  = S.atomE(p.first);
            if (a.k == AK::Op && a.op == OP_SELECT) {
                int d = decide(s, a.args[0]);
                if (d >= 0)
                    v = settle(s, a.args[d ? 1 : 2]);
            }
            r = S.add(r, S.scale(v, p.second));
        }
        return r;
    }
    void push(State& s, MemNode n)
    {
        n.prev = s.mem;
        size_t h = s.mem ? (size_t) s.mem->id : 1469598103u;
        auto mix = [&](size_t v) { h = (h ^ v) * 1099511628211ull; };
        mix(n.k);
        mix(n.addr + 1);
        mix(n.val + 17);
        mix(n.len + 31);
        mix(n.size);
        mix(n.base + 3);
        n.id  = (int64_t)(h & 0x3fffffffffffull) | 1;
        s.mem = std::make_shared<const MemNode>(std::move(n));
    }

    // kind of handle: driver argument letter, or 0
    char handleKind(AtomId b)
    {
        auto& a = S.atoms[b];
        if (a.k != AK::Arg || sig.empty())
            return 0;
        return (size_t) a.op < sig.size() ? sig[a.op] : 0;
    }
    // is this memory whose pointer slots own references?
    bool ownedMem(State& s, AtomId b)
    {
        auto& a = S.atoms[b];
        switch (a.k) {
        case AK::Alloc:
        case AK::Load:
        case AK::Call:
        case AK::Opaque:
            return true;
        case AK::Arg: {
            char h = handleKind(b);
            if (!sig.empty())
                return h == 'o' || h == 'm' || h == 'x' || h == 'c';
            return argOwned(a.op);
        }
        default:
            return false;
        }
    }
    std::map<AtomId, EId> phiInit;
    int64_t embedded = -1; // offset of such pointers in nodes
    std::map<const Function*, std::map<unsigned, bool>> argOwnedMap;
    bool argOwned(unsigned n)
    {
        auto it = argOwnedMap[F].find(n);
        return it == argOwnedMap[F].end() ? true : it->second;
    }

    // ---------------------------------------------------------- ledgers
    void bump(State& s, Key k, int64_t n)
    {
        auto it = s.led.find(k);
        if (it == s.led.end())
            s.led.emplace(k, n);
        else if ((it->second += n) == 0)
            s.led.erase(it);
    }
    // a callee cannot have let go of what a slot that was never filled holds:
    // such paths are not real
    void refsOf(State& s, EId ptr, int64_t n)
    {
        AtomId b, nb;
        ptr = norm(s, ptr);
        if (S.baseOf(ptr, b) && S.atoms[b].k == AK::Uninit &&
            S.baseOf(S.atoms[b].args[0], nb) && S.atoms[nb].k == AK::Alloc)
            taint(s, "a slot beyond what was filled");
        else
            refs(s, 0, ptr, n);
    }
    void refs(State& s, AtomId tag, EId ptr, int64_t n)
    {
        ptr = norm(s, ptr);
        int64_t c;
        if (S.isC(ptr, c))
            return;
        AtomId b;
        if (!S.baseOf(ptr, b)) {
            taint(s, "reference to an unresolved pointer");
            return;
        }
        auto& a = S.atoms[b];
        if (a.k == AK::Uninit || a.k == AK::Alloca || a.k == AK::Global)
            return;
        if (a.k == AK::Load) {
            EId ad  = a.args[0];
            auto vr = a.tag;
            bump(s, {Key::Slot, tag, ad, vr}, n);
            bump(s, {Key::Slot, tag, S.addc(ad, optPtr), vr}, -n);
        } else
            bump(s, {Key::Ref, tag, S.atomE(b), 0}, n);
    }
    void elems(State& s, Key::K k, EId addr, int64_t n)
    {
        addr = norm(s, addr);
        AtomId b;
        if (!S.baseOf(addr, b)) {
            taint(s, "element at an unresolved address");
            return;
        }
        auto& a = S.atoms[b];
        if (a.k == AK::Alloca || a.k == AK::Global)
            return;
        int st = k == Key::ElemT ? optStrideT : optStrideU;
        bump(s, {k, 0, addr, 0}, n);
        bump(s, {k, 0, S.addc(addr, st), 0}, -n);
    }
    void taint(State& s, const std::string& why)
    {
        s.taint.insert(why);
    }
    void trace(State& s, const Instruction* i, std::string w)
    {
        s.tr = std::make_shared<const TraceNode>(
            TraceNode{std::move(w), i, s.tr});
    }
    std::string traceStr(State& s)
    {
        std::vector<std::string> v;
        for (auto t = s.tr; t; t = t->prev)
            v.push_back(t->what + " at " + locStr(t->at, 2));
        std::reverse(v.begin(), v.end());
        std::string r;
        size_t from = v.size() > 24 ? v.size() - 24 : 0;
        for (size_t i = from; i < v.size(); ++i)
            r += "\n      " + v[i];
        return r;
    }
    void violate(State& s, const std::string& rule, const std::string& msg,
                 const Instruction* at)
    {
        if (quiet || !report)
            return;
        if (!s.taint.empty() && rule != "write" && rule != "swallow")
            return;
        if (contradictory(s))
            return;
        std::string loc = locStr(at);
        std::string key = rule + "|" + loc.substr(0, loc.find(" <- ")) + "|" +
                          (s.unwinding ? "u" : "n") +
                          (s.thrower ? locStr(s.thrower, 1) : "");
        if (viols.count(key))
            return;
        Violation v{rule, msg, isDriver(*F) ? F->getName().str() : shortName(F->getName().str()), loc, traceStr(s)};
        if (s.thrower)
            v.msg += "; exception raised at " + locStr(s.thrower, 3);
        viols[key] = v;
    }

    // ---------------------------------------------------------- exclusivity
    bool exclusive(State& s, AtomId b)
    {
        auto& a = S.atoms[b];
        switch (a.k) {
        case AK::Alloc:
        case AK::Alloca:
            return true;
        case AK::Uninit:
            return true;
        default: break;
        }
        if (s.pend.count(b) || s.freed.count(b))
            return true;
        if (a.k == AK::Arg) {
            char h = handleKind(b);
            if (h == 'o' || h == 'm' || h == 'x' || h == 'p')
                return true;
        }
        if (guarded(s, b))
            return pathExclusive(s, b);
        if (a.k == AK::Call && a.op == 1)
            return true; // freshly owned result
        return false;
    }
    bool guarded(State& s, AtomId b)
    {
        if (isTrue(s, S.mkAtom(AK::Op, OP_UNIQUE, 0, {S.atomE(b)}, false)))
            return true;
        for (auto& p : s.subst) {
            auto& x = S.atoms[p.first];
            if (x.k == AK::Op && x.op == OP_CANMUT) {
                AtomId bb;
                if (S.baseOf(norm(s, x.args[0]), bb) && bb == b &&
                    isTrue(s, p.first))
                    return true;
            }
        }
        return false;
    }
    bool isTrue(State& s, AtomId a)
    {
        int64_t c;
        return S.isC(norm(s, S.atomE(a)), c) && c == 1;
    }
    bool pathExclusive(State& s, AtomId b)
    {
        auto& a = S.atoms[b];
        if (a.k == AK::Load) {
            AtomId h;
            if (!S.baseOf(norm(s, a.args[0]), h))
                return false;
            if (exclusive(s, h))
                return true;
            // the slot's pointee was given an extra reference on this path:
            // the guard cannot have succeeded through sharing
            for (auto& p : s.led)
                if (p.first.k == Key::Slot && p.first.tag == 0 && p.second > 0) {
                    AtomId kb;
                    if (S.baseOf(norm(s, p.first.e), kb) && kb == h)
                        return true;
                }
            if (S.atoms[h].k == AK::Arg && sig.empty() &&
                !argOwned(S.atoms[h].op))
                return true;
            return cur && needs(b, cur->needPathE);
        }
        auto ph = phiInit.find(b);
        if (ph != phiInit.end()) {
            // carried around a loop, starting from a handle of this function
            AtomId i, h;
            if (S.baseOf(norm(s, ph->second), i)) {
                auto& ia = S.atoms[i];
                if (ia.k == AK::Alloc || ia.k == AK::Call)
                    return true;
                if (ia.k == AK::Load && S.baseOf(norm(s, ia.args[0]), h))
                    return S.atoms[h].k == AK::Global || S.atoms[h].k == AK::Alloca;
            }
            return false;
        }
        if (a.k == AK::Arg && sig.empty()) {
            if (cur)
                cur->needPathExcl.insert(a.op);
            return true;
        }
        if (a.k == AK::Call)
            return true;
        return false;
    }
    // leave it to the callers that a node found through the arguments is theirs
    bool needs(AtomId b, std::set<EId>& n)
    {
        if ( !sig.empty() || S.atoms[b].k != AK::Load ||
            !throughArgs(S.atomE(b)))
            return false;
        if (n.size() > 12 && !n.count(S.atomE(b)))
            return false;
        n.insert(S.atomE(b));
        return true;
    }
    bool throughArgs(EId e, int depth = 0)
    {
        if (depth > 6)
            return false;
        for (auto& p : Lin(S.lins[e]).t) {
            Atom a = S.atoms[p.first];
            if (a.k == AK::Arg)
                continue;
            if ((a.k == AK::Load && a.tag == 0) || (a.k == AK::Op && a.op != OP_UNIQUE && a.op != OP_CANMUT)) {
                for (auto x : a.args)
                    if (!throughArgs(x, depth + 1))
                        return false;
                continue;
            }
            return false;
        }
        return true;
    }
    // a pointer passed by value, to a node; objects are passed by reference
    bool nodeArg(AtomId b)
    {
        return S.atoms[b].k == AK::Arg && sig.empty() &&
               !F->getArg(S.atoms[b].op)->getDereferenceableBytes();
    }
    // a pointer to data that lies in the very node it is found in
    bool inNode(State& s, AtomId b, AtomId& h)
    {
        if (embedded < 0 || S.atoms[b].k != AK::Load)
            return false;
        EId ad = norm(s, S.atoms[b].args[0]);
        int64_t c;
        return S.baseOf(ad, h) && (S.atoms[h].k == AK::Load || nodeArg(h)) &&
               S.isC(S.sub(ad, S.atomE(h)), c) && c == embedded;
    }
    void writeTo(State& s, EId addr, const Instruction* at, const char* what)
    {
        AtomId b;
        if (!S.baseOf(norm(s, addr), b))
            return;
        auto& st = stats[F];
        ++st.stores;
        if (uaf(s, b, at, what))
            return;
        if (exclusive(s, b)) {
            if (S.atoms[b].k != AK::Alloc && S.atoms[b].k != AK::Alloca)
                ++st.guarded;
            return;
        }
        auto& a = S.atoms[b];
        if (AtomId h; inNode(s, b, h))
            return writeTo(s, S.atomE(h), at, what);
        if (a.k == AK::Arg && sig.empty()) {
            if (cur)
                cur->needExcl.insert(a.op);
            return;
        }
        if (a.k == AK::Global)
            return; // judged by the shared-state rule
        if (cur && needs(b, cur->needExclE))
            return;
        violate(s, "write",
                std::string(what) + " to a node that may be shared (" +
                    S.astr(b) + "), not established as exclusively owned",
                at);
    }
    bool uaf(State& s, AtomId b, const Instruction* at, const char* what)
    {
        auto it = s.blocks.find(b);
        if ((it != s.blocks.end() && it->second.st == 1) || s.freed.count(b)) {
            violate(s, "uaf",
                    std::string(what) + " on a block already released (" +
                        S.astr(b) + ")",
                    at);
            return true;
        }
        return false;
    }
#include "own_exec.inc"
#include "own_summary.inc"
};
#include "own_main.inc"
