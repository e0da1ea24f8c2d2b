// Operations that take constant time: copying, moving, assigning, and moving
// between persistent and transient.
#include "probe.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#define Q(name) extern "C" __attribute__((used)) void q_##name
struct Rec
{
    T id;
    U u;
};
using Vec  = immer::vector<T, MP, 3, 1>;
using Flex = immer::flex_vector<T, MP, 3, 1>;
using Arr  = immer::array<T, MP>;
using Set  = immer::set<T, H, E, MP>;
using Map  = immer::map<T, U, H, E, MP>;
using Tab  = immer::table<Rec, immer::table_key_fn, H, E, MP>;
using Box  = immer::box<T, MP>;
#define BASIC(p, S)                                                            \
    Q(p##_copy)(const S& s, void* o) { new (o) S(s); }                         \
    Q(p##_move)(S& s, void* o) { new (o) S(std::move(s)); }                    \
    Q(p##_cassign)(S& a, const S& b) { a = b; }                                \
    Q(p##_massign)(S& a, S& b) { a = std::move(b); }                           \
    Q(p##_swap)(S& a, S& b) { using std::swap; swap(a, b); }                   \
    Q(p##_dtor)(S& a) { using X = S; a.~X(); }
#define ALL(p, S)                                                              \
    BASIC(p, S)                                                                \
    BASIC(t##p, S::transient_type)                                             \
    Q(p##_size)(const S& s, std::size_t& n) { n = s.size(); }                  \
    Q(p##_default)(void* o) { new (o) S(); }                                   \
    Q(p##_open)(const S& s, void* o) { new (o) S::transient_type(s.transient()); }                             \
    Q(p##_openmv)(S& s, void* o) { new (o) S::transient_type(std::move(s).transient()); }                      \
    Q(p##_closemv)(S::transient_type& s, void* o) { new (o) S(std::move(s).persistent()); }
ALL(vec, Vec)
ALL(flex, Flex)
ALL(set, Set)
ALL(map, Map)
ALL(tab, Tab)
BASIC(arr, Arr)
BASIC(box, Box)
Q(vec_close)(Vec::transient_type& s, void* o) { new (o) Vec(s.persistent()); }
Q(flex_close)(Flex::transient_type& s, void* o) { new (o) Flex(s.persistent()); }
Q(set_close)(Set::transient_type& s, void* o) { new (o) Set(s.persistent()); }
Q(map_close)(Map::transient_type& s, void* o) { new (o) Map(s.persistent()); }
Q(tab_close)(Tab::transient_type& s, void* o) { new (o) Tab(s.persistent()); }
