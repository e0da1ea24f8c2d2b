// Probe policies: opaque stand-ins for everything the containers are
// parameterised on, so that in the compiler's IR every ownership event stays
// visible as a call to an undefined __p_* function.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
#include <immer/heap/heap_policy.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/transience/no_transience_policy.hpp>

extern "C" {
void* __p_alloc(std::size_t);                    // may throw
void __p_free(std::size_t, void*) noexcept;
void __p_rcinit(const void*) noexcept;
void __p_inc(const void*) noexcept;
bool __p_dec(const void*) noexcept;
void __p_dec_unsafe(const void*) noexcept;
bool __p_unique(const void*) noexcept;
// elements: <kind>_<type tag>
void __p_cctor_T(void*, const void*);            // may throw
void __p_mctor_T(void*, void*) noexcept;
void __p_mctor_throwing_T(void*, void*);
void __p_vctor_T(void*, int);                    // may throw
void __p_cassign_T(void*, const void*);          // may throw
void __p_massign_T(void*, void*) noexcept;
void __p_massign_throwing_T(void*, void*);
void __p_dtor_T(void*) noexcept;
void __p_cctor_U(void*, const void*);
void __p_mctor_U(void*, void*) noexcept;
void __p_vctor_U(void*, int);
void __p_cassign_U(void*, const void*);
void __p_massign_U(void*, void*) noexcept;
void __p_dtor_U(void*) noexcept;
std::size_t __p_hash(const void*);               // may throw
bool __p_eq(const void*, const void*);           // may throw
bool __p_pred(const void*);                      // may throw
void __p_call(const void*, const void*);         // may throw
void __p_fn(void* out, void* in);                // may throw; constructs *out
// transience tokens
void __p_owner_init(void*);
std::uintptr_t __p_owner_edit(const void*) noexcept;
bool __p_can_mutate(const void*, std::uintptr_t) noexcept;
void __p_set_owner(const void*, std::uintptr_t) noexcept;
}

struct probe_rc
{
    mutable int rc_;
    probe_rc() noexcept { __p_rcinit(this); }
    probe_rc(immer::disowned) noexcept { __p_rcinit(this); }
    void inc() noexcept { __p_inc(this); }
    bool dec() noexcept { return __p_dec(this); }
    void dec_unsafe() noexcept { __p_dec_unsafe(this); }
    bool unique() noexcept { return __p_unique(this); }
};

struct probe_heap
{
    using type = probe_heap;
    template <typename... Tags>
    static void* allocate(std::size_t s, Tags...)
    {
        return __p_alloc(s);
    }
    template <typename... Tags>
    static void deallocate(std::size_t s, void* p, Tags...) noexcept
    {
        __p_free(s, p);
    }
};

struct T
{
    long a_, b_, c_;
    explicit T(int x) { __p_vctor_T(this, x); }
    T() { __p_vctor_T(this, 0); }
    T(const T& o) { __p_cctor_T(this, &o); }
#ifdef PROBE_THROWING_MOVE
    T(T&& o) { __p_mctor_throwing_T(this, &o); }
    T& operator=(T&& o)
    {
        __p_massign_throwing_T(this, &o);
        return *this;
    }
#else
    T(T&& o) noexcept { __p_mctor_T(this, &o); }
    T& operator=(T&& o) noexcept
    {
        __p_massign_T(this, &o);
        return *this;
    }
#endif
    T& operator=(const T& o)
    {
        __p_cassign_T(this, &o);
        return *this;
    }
    ~T() { __p_dtor_T(this); }
    friend bool operator==(const T& a, const T& b) { return __p_eq(&a, &b); }
    friend bool operator!=(const T& a, const T& b) { return !__p_eq(&a, &b); }
};

// a second element type, for mapped values
struct U
{
    long a_, b_, c_, d_, e_;
    U() { __p_vctor_U(this, 0); }
    U(const U& o) { __p_cctor_U(this, &o); }
    U(U&& o) noexcept { __p_mctor_U(this, &o); }
    U& operator=(const U& o)
    {
        __p_cassign_U(this, &o);
        return *this;
    }
    U& operator=(U&& o) noexcept
    {
        __p_massign_U(this, &o);
        return *this;
    }
    ~U() { __p_dtor_U(this); }
    friend bool operator==(const U& a, const U& b) { return __p_eq(&a, &b); }
    friend bool operator!=(const U& a, const U& b) { return !__p_eq(&a, &b); }
};

struct H
{
    std::size_t operator()(const T& x) const { return __p_hash(&x); }
};
struct E
{
    bool operator()(const T& a, const T& b) const { return __p_eq(&a, &b); }
};
struct FnT
{
    T operator()(T x) const; // user callback, may throw
};
struct FnU
{
    U operator()(U x) const; // user callback, may throw
};
struct Pred
{
    bool operator()(const T* a, const T* b) const; // user callback, may throw
    bool operator()(const T& a) const;
};
struct Visit
{
    void operator()(const T* a, const T* b) const; // user callback, may throw
    void operator()(const T& a) const;
};

// a transience policy whose tokens are opaque
struct probe_transience
{
    template <typename HeapPolicy>
    struct apply
    {
        struct type
        {
            struct edit
            {
                std::uintptr_t v;
                edit() = delete;
                edit(std::uintptr_t x)
                    : v{x}
                {}
                bool operator==(edit x) const { return v == x.v; }
                bool operator!=(edit x) const { return v != x.v; }
            };
            struct owner
            {
                mutable std::uintptr_t token_;
                operator edit() { return {__p_owner_edit(&token_)}; }
                owner() { __p_owner_init(&token_); }
                owner(const owner& o)
                {
                    __p_owner_init(&token_);
                    __p_owner_init(&o.token_);
                }
                owner(owner&& o) noexcept { token_ = o.token_; }
                owner& operator=(const owner& o)
                {
                    __p_owner_init(&o.token_);
                    __p_owner_init(&token_);
                    return *this;
                }
                owner& operator=(owner&& o) noexcept
                {
                    token_ = o.token_;
                    return *this;
                }
            };
            struct ownee
            {
                std::uintptr_t token_ = 0;
                ownee& operator=(edit e)
                {
                    __p_set_owner(this, e.v);
                    return *this;
                }
                bool can_mutate(edit t) const
                {
                    return __p_can_mutate(this, t.v);
                }
                bool owned() const { return token_ != 0; }
            };
            static owner noone;
        };
    };
};
template <typename HP>
typename probe_transience::apply<HP>::type::owner
    probe_transience::apply<HP>::type::noone = {};

#ifndef FEWER
#define FEWER true
#endif
#ifdef POLICY
#include POLICY
#elif defined(GCCFG)
using MP = immer::memory_policy<immer::heap_policy<probe_heap>,
                                immer::no_refcount_policy,
                                immer::no_lock_policy,
                                probe_transience,
                                FEWER,
                                false>;
#else
using MP = immer::memory_policy<immer::heap_policy<probe_heap>,
                                probe_rc,
                                immer::no_lock_policy,
                                immer::no_transience_policy,
                                FEWER,
                                true>;
#endif
// Driver naming: d_<name>__<sig>, one letter per parameter:
//  o storage in which a new handle is constructed   c const handle (live)
//  m handle, live before and after                  x handle, consumed
//  v const element&     n integer      f callback   p other
#define D(name) extern "C" void d_##name
