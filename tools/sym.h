// Hash-consed linear expressions over atoms.  Pointers and integers are both
// linear forms; a pointer into an object is (object atom) + offset.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <numeric>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

using AtomId = uint32_t;
using EId    = uint32_t;

enum class AK : uint8_t
{
    Opaque, // unknown value
    Uninit,
    Op,    // uninterpreted / folded operator
    Load,  // content of memory at args[0], version tag
    Alloc, // fresh heap block
    Alloca,
    Arg,
    Global,
    Iter, // loop iteration counter
    Call, // result of a summarised call
};

enum : int
{
    OP_EQ0 = 1, // args[0] == 0
    OP_NEG,     // args[0] < 0
    OP_POPC,
    OP_UNIQUE, // args: pointer
    OP_CANMUT, // args: pointer, token
    OP_DEC,
    OP_TUPLE,
    OP_SELECT,
    OP_LLVM = 1000, // + opcode
};

struct Lin
{
    int64_t c = 0;
    std::vector<std::pair<AtomId, int64_t>> t;
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
};

struct Atom
{
    AK k;
    bool ptr;
    int op;
    int64_t tag;
    std::vector<EId> args;
    std::string name;
    const void* val = nullptr;
};

struct Sym
{
    std::deque<Lin> lins; // references stay valid while interning
    std::deque<Atom> atoms;
    struct LH
    {
        size_t operator()(const Lin& l) const
        {
            size_t h = std::hash<int64_t>()(l.c);
            for (auto& p : l.t)
                h = h * 1000003 ^ (p.first * 7919 + p.second);
            return h;
        }
    };
    std::unordered_map<Lin, EId, LH> lmap;
    std::map<std::tuple<int, int, int64_t, std::vector<EId>>, AtomId> amap;
    std::unordered_map<const void*, AtomId> vmap[16];
    int64_t counter = 0;
    int opShl       = -1;

    EId mk(Lin l)
    {
        auto it = lmap.find(l);
        if (it != lmap.end())
            return it->second;
        EId id = lins.size();
        lins.push_back(l);
        lmap.emplace(lins.back(), id);
        return id;
    }
    EId cst(int64_t c)
    {
        Lin l;
        l.c = c;
        return mk(l);
    }
    EId atomE(AtomId a)
    {
        Lin l;
        l.t.push_back({a, 1});
        return mk(l);
    }
    AtomId mkAtom(AK k, int op, int64_t tag, std::vector<EId> args, bool ptr)
    {
        auto key = std::make_tuple((int) k * 2 + ptr, op, tag, args);
        auto it  = amap.find(key);
        if (it != amap.end())
            return it->second;
        AtomId id = atoms.size();
        atoms.push_back({k, ptr, op, tag, args, "", nullptr});
        amap.emplace(key, id);
        return id;
    }
    AtomId fresh(AK k, bool ptr, std::string name = "")
    {
        auto a         = mkAtom(k, 0, ++counter + (1ll << 40), {}, ptr);
        atoms[a].name  = name;
        return a;
    }
    EId add(EId a, EId b, int64_t cb = 1)
    {
        const Lin &x = lins[a], &y = lins[b];
        Lin r;
        r.c      = x.c + cb * y.c;
        size_t i = 0, j = 0;
        while (i < x.t.size() || j < y.t.size()) {
            if (j == y.t.size() ||
                (i < x.t.size() && x.t[i].first < y.t[j].first))
                r.t.push_back(x.t[i++]);
            else if (i == x.t.size() || y.t[j].first < x.t[i].first) {
                if (cb)
                    r.t.push_back({y.t[j].first, cb * y.t[j].second});
                ++j;
            } else {
                auto v = x.t[i].second + cb * y.t[j].second;
                if (v)
                    r.t.push_back({x.t[i].first, v});
                ++i;
                ++j;
            }
        }
        return mk(std::move(r));
    }
    EId sub(EId a, EId b) { return add(a, b, -1); }
    EId addc(EId a, int64_t c)
    {
        Lin l = lins[a];
        l.c += c;
        return mk(std::move(l));
    }
    EId scale(EId a, int64_t k)
    {
        if (k == 0)
            return cst(0);
        Lin l = lins[a];
        l.c *= k;
        for (auto& p : l.t)
            p.second *= k;
        return mk(std::move(l));
    }
    bool isC(EId a) const { return lins[a].t.empty(); }
    bool isC(EId a, int64_t& c) const
    {
        c = lins[a].c;
        return lins[a].t.empty();
    }
    bool divisible(EId a, int64_t k) const
    {
        auto& l = lins[a];
        if (l.c % k)
            return false;
        for (auto& p : l.t)
            if (p.second % k)
                return false;
        return true;
    }
    EId divExact(EId a, int64_t k)
    {
        Lin l = lins[a];
        l.c /= k;
        for (auto& p : l.t)
            p.second /= k;
        return mk(std::move(l));
    }
    int64_t coef(EId a, AtomId x) const
    {
        for (auto& p : lins[a].t)
            if (p.first == x)
                return p.second;
        return 0;
    }
    // does atom x occur (deeply) in e ?
    bool occurs(EId e, AtomId x) const
    {
        for (auto& p : lins[e].t) {
            if (p.first == x)
                return true;
            for (auto a : atoms[p.first].args)
                if (occurs(a, x))
                    return true;
        }
        return false;
    }
    // pointer base: the single pointer atom with coefficient one
    bool baseOf(EId e, AtomId& out) const
    {
        int n = 0;
        for (auto& p : lins[e].t)
            if (atoms[p.first].ptr) {
                ++n;
                if (p.second != 1)
                    return false;
                out = p.first;
            }
        return n == 1;
    }
    bool isBit(EId e) const // single-bit value 1<<i
    {
        auto& l = lins[e];
        if (l.t.empty())
            return l.c > 0 && (l.c & (l.c - 1)) == 0;
        if (l.c != 0 || l.t.size() != 1 || l.t[0].second != 1)
            return false;
        auto& a = atoms[l.t[0].first];
        int64_t c;
        return a.k == AK::Op && a.op == opShl && isC(a.args[0], c) &&
               c == 1;
    }
    std::string str(EId e, int depth = 0) const
    {
        std::string s;
        auto& l = lins[e];
        for (auto& p : l.t) {
            if (!s.empty())
                s += p.second < 0 ? " - " : " + ";
            else if (p.second < 0)
                s += "-";
            auto k = std::llabs(p.second);
            if (k != 1)
                s += std::to_string(k) + "*";
            s += astr(p.first, depth);
        }
        if (l.c || s.empty()) {
            if (!s.empty())
                s += l.c < 0 ? " - " : " + ";
            else if (l.c < 0)
                s += "-";
            s += std::to_string(std::llabs(l.c));
        }
        return s;
    }
    std::string astr(AtomId a, int depth = 0) const
    {
        auto& x = atoms[a];
        static const char* kn[] = {"?",     "uninit", "op",   "ld",     "new",
                                   "local", "arg",    "glob", "iter",   "call"};
        std::string s = kn[(int) x.k];
        if (!x.name.empty())
            s = x.name;
        if (x.k == AK::Op) {
            static std::map<int, std::string> on{{OP_EQ0, "eq0"},
                                                 {OP_NEG, "neg"},
                                                 {OP_POPC, "popc"},
                                                 {OP_UNIQUE, "unique"},
                                                 {OP_CANMUT, "canmut"},
                                                 {OP_DEC, "dec"}};
            s = on.count(x.op) ? on[x.op] : "op" + std::to_string(x.op);
        }
        if (x.args.empty())
            return s + "#" + std::to_string(a);
        s += "(";
        if (depth > 4)
            return s + "..)";
        for (size_t i = 0; i < x.args.size(); ++i)
            s += (i ? "," : "") + str(x.args[i], depth + 1);
        if (x.k == AK::Load && x.tag)
            s += "@" + std::to_string(x.tag % 100000);
        return s + ")";
    }
};
