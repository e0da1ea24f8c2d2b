// Transients under the ownership-token policy: what happens to the tokens when
// storage becomes shared between handles.
#include "probe.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
// naming: t_<op>__<sig>: T transient, live before and after; P persistent, same;
// O storage where a persistent is built; o storage where a transient is built;
// S transient whose contents are copied into another one and that stays usable
#define X(name) extern "C" __attribute__((used)) void t_##name
using GMP = immer::memory_policy<immer::heap_policy<probe_heap>,
                                 immer::no_refcount_policy,
                                 immer::no_lock_policy,
                                 immer::gc_transience_policy,
                                 FEWER,
                                 false>;
struct Rec
{
    T id;
    U u;
};
using Vec  = immer::vector<T, GMP, 3, 1>;
using Flex = immer::flex_vector<T, GMP, 3, 1>;
using Arr  = immer::array<T, GMP>;
using Set  = immer::set<T, H, E, GMP>;
using Map  = immer::map<T, U, H, E, GMP>;
using Tab  = immer::table<Rec, immer::table_key_fn, H, E, GMP>;
#define ALL(p, S)                                                              \
    X(p##_copy__To)(S::transient_type& s, void* o) { new (o) S::transient_type(s); }                            \
    X(p##_copyc__To)(const S::transient_type& s, void* o) { new (o) S::transient_type(s); }                     \
    X(p##_move__To)(S::transient_type& s, void* o) { new (o) S::transient_type(std::move(s)); }                 \
    X(p##_cassign__TT)(S::transient_type& a, const S::transient_type& b) { a = b; }                             \
    X(p##_massign__TT)(S::transient_type& a, S::transient_type& b) { a = std::move(b); }                        \
    X(p##_swap__TT)(S::transient_type& a, S::transient_type& b) { using std::swap; swap(a, b); }                \
    X(p##_new__o)(void* o) { new (o) S::transient_type(); }                                                     \
    X(p##_open__Po)(const S& s, void* o) { new (o) S::transient_type(s.transient()); }                          \
    X(p##_openmv__Po)(S& s, void* o) { new (o) S::transient_type(std::move(s).transient()); }                   \
    X(p##_close__TO)(S::transient_type& s, void* o) { new (o) S(s.persistent()); }                              \
    X(p##_closemv__TO)(S::transient_type& s, void* o) { new (o) S(std::move(s).persistent()); }
ALL(vec, Vec)
ALL(flex, Flex)
ALL(arr, Arr)
ALL(set, Set)
ALL(map, Map)
ALL(tab, Tab)
X(flex_fromvec__To)(Vec::transient_type& v, void* o) { new (o) Flex::transient_type(v); }
X(flex_fromvecmv__To)(Vec::transient_type& v, void* o) { new (o) Flex::transient_type(std::move(v)); }
X(flex_append__TS)(Flex::transient_type& l, Flex::transient_type& r) { l.append(r); }
X(flex_prepend__TS)(Flex::transient_type& l, Flex::transient_type& r) { l.prepend(r); }

using tr = immer::gc_transience_policy::apply<immer::heap_policy<probe_heap>>::type;
using nt = immer::no_transience_policy::apply<immer::heap_policy<probe_heap>>::type;
extern "C" {
__attribute__((used)) bool e_can(const tr::ownee* n, void* e) { return n->can_mutate(tr::edit{e}); }
__attribute__((used)) void e_set(tr::ownee* n, void* e) { *n = tr::edit{e}; }
__attribute__((used)) bool e_owned(const tr::ownee* n) { return n->owned(); }
__attribute__((used)) void e_init(tr::ownee* n) { new (n) tr::ownee; }
__attribute__((used)) void* e_edit(tr::owner* o) { return static_cast<tr::edit>(*o).v; }
__attribute__((used)) bool n_can(const nt::ownee* n, nt::edit* e) { return n->can_mutate(*e); }
}
