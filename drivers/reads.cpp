// Every read-only operation of the persistent containers and transients.
#include "probe.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#define R(name) extern "C" __attribute__((used)) auto k_##name
struct Rec
{
    T id;
    U u;
    friend bool operator==(const Rec& a, const Rec& b) { return a.id == b.id && a.u == b.u; }
    friend bool operator!=(const Rec& a, const Rec& b) { return !(a == b); }
};
struct KeyFn // a key accessor that does not copy
{
    const T& operator()(const Rec& x) const { return x.id; }
    Rec operator()(Rec x, const T& k) const
    {
        x.id = k;
        return x;
    }
};
using Vec  = immer::vector<T, MP, 3, 1>;
using Flex = immer::flex_vector<T, MP, 3, 1>;
using Arr  = immer::array<T, MP>;
using Set  = immer::set<T, H, E, MP>;
using Map  = immer::map<T, U, H, E, MP>;
using Tab  = immer::table<Rec, KeyFn, H, E, MP>;
using Box  = immer::box<T, MP>;
extern "C" {
void __p_chunk(const void*, const void*);   // user callback, may throw
bool __p_chunkp(const void*, const void*);  // user predicate, may throw
void __p_added(const void*);
void __p_removed(const void*);
void __p_changed(const void*, const void*);
}
struct Chunk
{
    template <typename P>
    void operator()(P a, P b) const
    {
        __p_chunk(&*a, &*b);
    }
};
struct ChunkP
{
    template <typename P>
    bool operator()(P a, P b) const
    {
        return __p_chunkp(a, b);
    }
};
struct PredT
{
    template <typename X>
    bool operator()(const X& x) const
    {
        return __p_pred(&x);
    }
};
struct Added
{
    template <typename X>
    void operator()(const X& x) const
    {
        __p_added(&x);
    }
};
struct Removed
{
    template <typename X>
    void operator()(const X& x) const
    {
        __p_removed(&x);
    }
};
struct Changed
{
    template <typename X>
    void operator()(const X& x, const X& y) const
    {
        __p_changed(&x, &y);
    }
};
#define SEQ(p, S)                                                              \
    R(p##_size)(const S& s)->std::size_t { return s.size(); }                  \
    R(p##_empty)(const S& s)->bool { return s.empty(); }                       \
    R(p##_at)(const S& s, std::size_t i)->const T* { return &s.at(i); }        \
    R(p##_index)(const S& s, std::size_t i)->const T* { return &s[i]; }        \
    R(p##_front)(const S& s)->const T* { return &s.front(); }                  \
    R(p##_back)(const S& s)->const T* { return &s.back(); }                    \
    R(p##_eq)(const S& s, const S& t)->bool { return s == t; }                 \
    R(p##_ne)(const S& s, const S& t)->bool { return s != t; }                 \
    R(p##_chunks)(const S& s)->void { immer::for_each_chunk(s, Chunk{}); }     \
    R(p##_chunksp)(const S& s)->bool { return immer::for_each_chunk_p(s, ChunkP{}); }                          \
    R(p##_chunkspi)(const S& s, std::size_t a, std::size_t b)->bool                                            \
    {                                                                                                          \
        return immer::for_each_chunk_p(s.begin() + a, s.begin() + b, ChunkP{});                                \
    }                                                                                                          \
    R(p##_chunksi)(const S& s, std::size_t a, std::size_t b)->void                                             \
    {                                                                                                          \
        immer::for_each_chunk(s.begin() + a, s.begin() + b, Chunk{});                                          \
    }                                                                                                          \
    R(p##_all)(const S& s)->bool { return immer::all_of(s, PredT{}); }         \
    R(p##_alli)(const S& s, std::size_t a, std::size_t b)->bool                                                \
    {                                                                                                          \
        return immer::all_of(s.begin() + a, s.begin() + b, PredT{});                                           \
    }
SEQ(vec, Vec)
SEQ(flex, Flex)
SEQ(arr, Arr)
#define ITER(p, S)                                                             \
    R(p##_begin)(const S& s, void* o)->void { new (o) auto(s.begin()); }       \
    R(p##_end)(const S& s, void* o)->void { new (o) auto(s.end()); }           \
    R(p##_deref)(const S::iterator& i)->const void* { return &*i; }            \
    R(p##_next)(S::iterator& i)->void { ++i; }                                 \
    R(p##_ieq)(const S::iterator& i, const S::iterator& j)->bool { return i == j; }
ITER(vec, Vec)
ITER(flex, Flex)
ITER(arr, Arr)
ITER(set, Set)
ITER(map, Map)
ITER(tab, Tab)
#define RANDOM(p, S)                                                           \
    R(p##_prev)(S::iterator& i)->void { --i; }                                 \
    R(p##_plus)(S::iterator& i, std::ptrdiff_t n)->void { i += n; }            \
    R(p##_dist)(const S::iterator& i, const S::iterator& j)->std::ptrdiff_t { return j - i; }
RANDOM(vec, Vec)
RANDOM(flex, Flex)
RANDOM(arr, Arr)
#define HASHED(p, S)                                                           \
    R(p##_size)(const S& s)->std::size_t { return s.size(); }                  \
    R(p##_empty)(const S& s)->bool { return s.empty(); }                       \
    R(p##_count)(const S& s, const T& k)->std::size_t { return s.count(k); }   \
    R(p##_find)(const S& s, const T& k)->const void* { return s.find(k); }     \
    R(p##_eq)(const S& s, const S& t)->bool { return s == t; }                 \
    R(p##_chunks)(const S& s)->void { immer::for_each_chunk(s, Chunk{}); }     \
    R(p##_diff)(const S& s, const S& t)->void { immer::diff(s, t, Added{}, Removed{}, Changed{}); }
HASHED(set, Set)
HASHED(map, Map)
HASHED(tab, Tab)
R(map_at)(const Map& m, const T& k)->const U* { return &m.at(k); }
R(map_index)(const Map& m, const T& k)->const U* { return &m[k]; }
R(tab_at)(const Tab& m, const T& k)->const Rec* { return &m.at(k); }
R(tab_index)(const Tab& m, const T& k)->const Rec* { return &m[k]; }
R(vec_id)(const Vec& s)->const void* { return s.identity().first; }
R(flex_id)(const Flex& s)->const void* { return s.identity().first; }
R(arr_data)(const Arr& s)->const void* { return s.data(); }
R(box_get)(const Box& s)->const void* { return &s.get(); }
R(box_deref)(const Box& s)->const void* { return &*s; }
R(box_arrow)(const Box& s)->const void* { return &s->a_; }
R(box_eq)(const Box& s, const Box& t)->bool { return s == t; }
#define TSEQ(p, S)                                                             \
    R(p##_size)(const S& s)->std::size_t { return s.size(); }                  \
    R(p##_at)(const S& s, std::size_t i)->const T* { return &s.at(i); }        \
    R(p##_index)(const S& s, std::size_t i)->const T* { return &s[i]; }        \
    R(p##_begin)(const S& s, void* o)->void { new (o) auto(s.begin()); }       \
    R(p##_end)(const S& s, void* o)->void { new (o) auto(s.end()); }
TSEQ(tvec, Vec::transient_type)
TSEQ(tflex, Flex::transient_type)
TSEQ(tarr, Arr::transient_type)
#define THASHED(p, S)                                                          \
    R(p##_size)(const S& s)->std::size_t { return s.size(); }                  \
    R(p##_count)(const S& s, const T& k)->std::size_t { return s.count(k); }   \
    R(p##_find)(const S& s, const T& k)->const void* { return s.find(k); }     \
    R(p##_begin)(const S& s, void* o)->void { new (o) auto(s.begin()); }       \
    R(p##_end)(const S& s, void* o)->void { new (o) auto(s.end()); }
THASHED(tset, Set::transient_type)
THASHED(tmap, Map::transient_type)
THASHED(ttab, Tab::transient_type)
R(tmap_at)(const Map::transient_type& m, const T& k)->const U* { return &m.at(k); }
R(ttab_at)(const Tab::transient_type& m, const T& k)->const Rec* { return &m.at(k); }
