// What the operations return by reference.
#include "probe.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
extern "C" {
void __p_ref(const void*);
long __p_f(long);
}
struct K
{
    long k;
};
struct V
{
    long v;
};
struct Row
{
    K id;
    long v;
};
struct RowKey
{
    const K& operator()(const Row& r) const { return r.id; }
    Row operator()(Row r, const K& k) const
    {
        r.id = k;
        return r;
    }
};
struct Hs
{
    std::size_t operator()(const K& k) const { return __p_hash(&k); }
};
struct Es
{
    bool operator()(const K& a, const K& b) const { return __p_eq(&a, &b); }
};
struct F
{
    V operator()(V v) const { return {__p_f(v.v)}; }
    Row operator()(Row r) const
    {
        r.v = __p_f(r.v);
        return r;
    }
};
using Set   = immer::set<K, Hs, Es, MP>;
using Map   = immer::map<K, V, Hs, Es, MP>;
using Table = immer::table<Row, RowKey, Hs, Es, MP>;
using Vec   = immer::vector<V, MP, 3, 3>;
using Flex  = immer::flex_vector<V, MP, 3, 3>;
using Arr   = immer::array<V, MP>;
using Box   = immer::box<V, MP>;
using N     = std::size_t;

// operations on rvalues, which may hand out the object they were called on
#define RV(name, S, EXPR, ...)                                                                                         \
    extern "C" __attribute__((used)) void q_res_##name(S& s, __VA_ARGS__)                                              \
    {                                                                                                                  \
        auto&& r = std::move(s).EXPR;                                                                                  \
        __p_ref(&r);                                                                                                   \
    }
#define SEQ(name, S)                                                                                                   \
    RV(name##_push, S, push_back(v), V v)                                                                              \
    RV(name##_set, S, set(i, v), N i, V v)                                                                             \
    RV(name##_update, S, update(i, F{}), N i)                                                                          \
    RV(name##_take, S, take(i), N i)
SEQ(vec, Vec)
SEQ(flex, Flex)
SEQ(arr, Arr)
RV(flex_pushf, Flex, push_front(v), V v)
RV(flex_drop, Flex, drop(i), N i)
RV(flex_insert, Flex, insert(i, v), N i, V v)
RV(flex_insertv, Flex, insert(i, v), N i, const Flex& v)
RV(flex_erase, Flex, erase(i), N i)
RV(flex_erase2, Flex, erase(i, j), N i, N j)
RV(box_update, Box, update(F{}), int)
RV(set_insert, Set, insert(k), K k)
RV(set_erase, Set, erase(k), const K& k)
RV(map_insert, Map, insert({k, v}), K k, V v)
RV(map_set, Map, set(k, v), K k, V v)
RV(map_update, Map, update(k, F{}), K k)
RV(map_updatex, Map, update_if_exists(k, F{}), K k)
RV(map_erase, Map, erase(k), const K& k)
RV(table_insert, Table, insert(r0), Row r0)
RV(table_update, Table, update(k, F{}), K k)
RV(table_updatex, Table, update_if_exists(k, F{}), K k)
RV(table_erase, Table, erase(k), const K& k)
#define CAT(name, L, R, l, r)                                                                                          \
    extern "C" __attribute__((used)) void q_res_cat##name(L s, R t)                                                    \
    {                                                                                                                  \
        auto&& x = l + r;                                                                                              \
        __p_ref(&x);                                                                                                   \
    }
CAT(_ll, const Flex&, const Flex&, s, t)
CAT(_rl, Flex&, const Flex&, std::move(s), t)
CAT(_lr, const Flex&, Flex&, s, std::move(t))
CAT(_rr, Flex&, Flex&, std::move(s), std::move(t))

// parts of a container
#define GET(name, S, EXPR, ...)                                                                                        \
    extern "C" __attribute__((used)) void q_get_##name(S& s, __VA_ARGS__) { __p_ref(&(EXPR)); }
#define GETS(name, S, EXPR, ...)                                                                                       \
    GET(name, const S, EXPR, __VA_ARGS__) GET(name##_t, const S::transient_type, EXPR, __VA_ARGS__)
#define SEQ2(name, S)                                                                                                  \
    GETS(name##_index, S, s[i], N i)                                                                                   \
    GETS(name##_at, S, s.at(i), N i)                                                                                   \
    GETS(name##_begin, S, *s.begin(), int)                                                                             \
    GETS(name##_end, S, *(s.end() - 1), int)                                                                           \
    GETS(name##_plus, S, s.begin()[i], N i)                                                                            \
    GET(name##_front, const S, s.front(), int)                                                                         \
    GET(name##_back, const S, s.back(), int)
SEQ2(vec, Vec)
SEQ2(flex, Flex)
SEQ2(arr, Arr)
GETS(arr_data, Arr, *s.data(), int)
GET(arr_datam, Arr::transient_type, *s.data_mut(), int)
GET(box_get, const Box, s.get(), int)
GET(box_deref, const Box, *s, int)
GET(box_conv, const Box, static_cast<const V&>(s), int)
GETS(set_find, Set, *s.find(k), const K& k)
GETS(set_begin, Set, *s.begin(), int)
GETS(map_index, Map, s[k], const K& k)
GETS(map_at, Map, s.at(k), const K& k)
GETS(map_find, Map, *s.find(k), const K& k)
GETS(map_begin, Map, *s.begin(), int)
GETS(table_index, Table, s[k], const K& k)
GETS(table_at, Table, s.at(k), const K& k)
GETS(table_find, Table, *s.find(k), const K& k)
GETS(table_begin, Table, *s.begin(), int)
