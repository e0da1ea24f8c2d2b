// The lock policies, one operation per function.
#include <immer/lock/no_lock_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <new>
extern "C" void __p_user(void*); // may throw
#define OPS(p, P)                                                              \
    extern "C" void p##_lock(P* x) { x->lock(); }                              \
    extern "C" bool p##_try(P* x) { return x->try_lock(); }                    \
    extern "C" void p##_unlock(P* x) { x->unlock(); }                          \
    extern "C" void p##_ctor(void* x) { new (x) P{}; }                         \
    extern "C" void p##_scoped(P* x)                                           \
    {                                                                          \
        P::scoped_lock l{*x};                                                  \
        __p_user(x);                                                           \
    }
using dflt = immer::default_memory_policy::lock;
OPS(dflt, dflt)
OPS(spin, immer::spinlock_policy)
