// Lookups and updates of the hash containers with trivial elements: only the
// hash, the equality and the callbacks are opaque.
#include "probe.hpp"
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
extern "C" {
void __p_found(const void*);
void __p_ref(const void*);
void __p_count(std::size_t);
void __p_sizes(std::size_t, std::size_t);
long __p_f(long);
void __p_key(const void*);
}
struct K
{
    long k;
};
struct V
{
    long v;
};
struct Row
{
    K id;
    long v;
};
struct RowKey
{
    const K& operator()(const Row& r) const { return r.id; }
    Row operator()(Row r, const K& k) const
    {
        r.id = k;
        return r;
    }
};
struct Hs
{
    std::size_t operator()(const K& k) const { return __p_hash(&k); }
};
struct Es
{
    bool operator()(const K& a, const K& b) const { return __p_eq(&a, &b); }
};
struct F
{
    V operator()(V v) const { return {__p_f(v.v)}; }
};
struct FR
{
    Row operator()(Row r) const
    {
        r.v = __p_f(r.v);
        return r;
    }
};
using Set = immer::set<K, Hs, Es, MP>;
using Map = immer::map<K, V, Hs, Es, MP>;
using Tab = immer::table<Row, RowKey, Hs, Es, MP>;
#define D(op, name, ...) extern "C" __attribute__((used)) void h_##op##_##name(__VA_ARGS__)
#define LOOK(name, S)                                                                                                  \
    D(find, name, const S& s, const K& k)                                                                              \
    {                                                                                                                  \
        __p_key(&k);                                                                                                   \
        __p_found(s.find(k));                                                                                          \
    }                                                                                                                  \
    D(count, name, const S& s, const K& k)                                                                             \
    {                                                                                                                  \
        __p_key(&k);                                                                                                   \
        __p_count(s.count(k));                                                                                         \
    }                                                                                                                  \
    D(find, name##_t, const S::transient_type& s, const K& k)                                                          \
    {                                                                                                                  \
        __p_key(&k);                                                                                                   \
        __p_found(s.find(k));                                                                                          \
    }                                                                                                                  \
    D(count, name##_t, const S::transient_type& s, const K& k)                                                         \
    {                                                                                                                  \
        __p_key(&k);                                                                                                   \
        __p_count(s.count(k));                                                                                         \
    }
LOOK(set, Set)
LOOK(map, Map)
LOOK(tab, Tab)
#define AT(name, S)                                                                                                    \
    D(at, name, const S& s, const K& k)                                                                                \
    {                                                                                                                  \
        __p_key(&k);                                                                                                   \
        __p_ref(&s.at(k));                                                                                             \
    }                                                                                                                  \
    D(index, name, const S& s, const K& k)                                                                             \
    {                                                                                                                  \
        __p_key(&k);                                                                                                   \
        __p_ref(&s[k]);                                                                                                \
    }
AT(map, Map)
AT(tab, Tab)
AT(map_t, Map::transient_type)
AT(tab_t, Tab::transient_type)
// what is done with the result of a consuming call is not its caller's concern
#define UPD(op, name, S, EXPR, ...)                                                                                    \
    D(op, name, const S& s, __VA_ARGS__)                                                                               \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        auto r = s.EXPR;                                                                                               \
        __p_sizes(n, r.size());                                                                                        \
    }                                                                                                                  \
    D(op, name##_r, S& s, __VA_ARGS__)                                                                                 \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        S r    = std::move(s).EXPR;                                                                                    \
        __p_sizes(n, r.size());                                                                                        \
    }                                                                                                                  \
    D(op, name##_t, S::transient_type& s, __VA_ARGS__)                                                                 \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        s.EXPR;                                                                                                        \
        __p_sizes(n, s.size());                                                                                        \
    }
UPD(insert, set, Set, insert(k), K k)
UPD(erase, set, Set, erase(k), K k)
UPD(insert, map, Map, insert({k, v}), K k, V v)
UPD(insert, mapset, Map, set(k, v), K k, V v)
UPD(update, map, Map, update(k, F{}), K k)
UPD(updatex, map, Map, update_if_exists(k, F{}), K k)
UPD(erase, map, Map, erase(k), K k)
UPD(insert, tab, Tab, insert(x), Row x)
UPD(update, tab, Tab, update(k, FR{}), K k)
UPD(updatex, tab, Tab, update_if_exists(k, FR{}), K k)
UPD(erase, tab, Tab, erase(k), K k)
