// The reference counting policies, one operation per function.
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/refcount/refcount_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <new>
#define OPS(p, P)                                                              \
    extern "C" void p##_inc(P* x) { x->inc(); }                                \
    extern "C" bool p##_dec(P* x) { return x->dec(); }                         \
    extern "C" bool p##_unique(P* x) { return x->unique(); }                   \
    extern "C" void p##_ctor(void* x) { new (x) P; }                           \
    extern "C" void p##_disowned(void* x) { new (x) P{immer::disowned{}}; }
using dflt = immer::default_memory_policy::refcount;
OPS(dflt, dflt)
OPS(atom, immer::refcount_policy)
OPS(plain, immer::unsafe_refcount_policy)
OPS(none, immer::no_refcount_policy)
