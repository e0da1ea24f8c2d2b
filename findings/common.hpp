// element that counts live instances and can throw on the Nth copy
#pragma once
#include <cstdio>
#include <cstdlib>
#include <set>
#include <stdexcept>
struct boom {};
struct el
{
    static std::set<const el*>& live() { static std::set<const el*> s; return s; }
    static int& fuse() { static int f = -1; return f; }
    static int& bad() { static int b = 0; return b; }
    static void tick() { if (fuse() > 0 && --fuse() == 0) { fuse() = -1; throw boom{}; } }
    void born() { if (!live().insert(this).second) ++bad(); }
    int v;
    el(int x = 0) : v{x} { born(); }
    el(const el& o) : v{o.v} { tick(); born(); }
    el(el&& o) : v{o.v} { born(); }
    el& operator=(const el& o) { if (!live().count(this)) ++bad(); v = o.v; return *this; }
    ~el() { if (!live().erase(this)) { ++bad(); } }
    bool operator==(const el& o) const { return v == o.v; }
};
