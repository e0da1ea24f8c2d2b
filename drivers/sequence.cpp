// Sequences with trivial elements: sizes, bounds and the order of callbacks.
#include "probe.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
extern "C" {
void __p_sizes(std::size_t, std::size_t);
void __p_size(std::size_t);
void __p_ref(const void*);
long __p_f(long);
}
struct Elem
{
    long v;
    friend bool operator==(const Elem& a, const Elem& b) { return __p_eq(&a, &b); }
    friend bool operator!=(const Elem& a, const Elem& b) { return !__p_eq(&a, &b); }
};
struct F
{
    Elem operator()(Elem e) const { return {__p_f(e.v)}; }
};
#ifndef BITS
#define BITS 3
#endif
using Vec  = immer::vector<Elem, MP, BITS, BITS>;
using Flex = immer::flex_vector<Elem, MP, BITS, BITS>;
using Arr  = immer::array<Elem, MP>;
using N    = std::size_t;
#define D(op, name, ...) extern "C" __attribute__((used)) void q_##op##_##name(__VA_ARGS__)
#define AT(name, S)                                                                                                    \
    D(at, name, const S& s, N i)                                                                                       \
    {                                                                                                                  \
        __p_size(s.size());                                                                                            \
        __p_ref(&s.at(i));                                                                                             \
    }
AT(vec, Vec)
AT(flex, Flex)
AT(arr, Arr)
AT(vec_t, Vec::transient_type)
AT(flex_t, Flex::transient_type)
AT(arr_t, Arr::transient_type)
#define PERS(op, name, S, EXPR, ...)                                                                                   \
    D(op, name, const S& s, __VA_ARGS__)                                                                               \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        auto r = s.EXPR;                                                                                               \
        __p_sizes(n, r.size());                                                                                        \
    }                                                                                                                  \
    D(op, name##_r, S& s, __VA_ARGS__)                                                                                 \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        S r    = std::move(s).EXPR;                                                                                    \
        __p_sizes(n, r.size());                                                                                        \
    }
#define TRAN(op, name, S, EXPR, ...)                                                                                   \
    D(op, name##_t, S::transient_type& s, __VA_ARGS__)                                                                 \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        s.EXPR;                                                                                                        \
        __p_sizes(n, s.size());                                                                                        \
    }
#define UPD(op, name, S, EXPR, ...) PERS(op, name, S, EXPR, __VA_ARGS__) TRAN(op, name, S, EXPR, __VA_ARGS__)
#define ALL(name, S)                                                                                                   \
    UPD(push, name, S, push_back(e), Elem e)                                                                              \
    UPD(set, name, S, set(i, e), N i, Elem e)                                                                             \
    UPD(update, name, S, update(i, F{}), N i)                                                                          \
    UPD(take, name, S, take(i), N i)
#define KEEP(name, S, EXPR, ...)                                                                                       \
    D(copy, name, __VA_ARGS__)                                                                                         \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        S r    = EXPR;                                                                                                 \
        __p_sizes(n, r.size());                                                                                        \
    }
#define COPY(name, S)                                                                                                  \
    KEEP(name, S, s, const S& s)                                                                                       \
    KEEP(name##_r, S, std::move(s), S& s)                                                                              \
    KEEP(name##_t, S::transient_type, s, const S::transient_type& s)                                                   \
    KEEP(name##_tr, S::transient_type, std::move(s), S::transient_type& s)                                             \
    KEEP(name##_pt, S::transient_type, s.transient(), const S& s)                                                      \
    KEEP(name##_ptr, S::transient_type, std::move(s).transient(), S& s)                                                \
    KEEP(name##_tp, S, s.persistent(), S::transient_type& s)                                                           \
    KEEP(name##_tpr, S, std::move(s).persistent(), S::transient_type& s)                                               \
    D(copy, name##_as, const S& s, S& t)                                                                               \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        t      = s;                                                                                                    \
        __p_sizes(n, t.size());                                                                                        \
    }                                                                                                                  \
    D(copy, name##_asr, S& s, S& t)                                                                                    \
    {                                                                                                                  \
        auto n = s.size();                                                                                             \
        t      = std::move(s);                                                                                         \
        __p_sizes(n, t.size());                                                                                        \
    }
#define EMPTY(name, S)                                                                                                 \
    D(empty, name, )                                                                                                   \
    {                                                                                                                  \
        S r;                                                                                                           \
        __p_sizes(0, r.size());                                                                                        \
    }
EMPTY(vec, Vec)
EMPTY(flex, Flex)
COPY(vec, Vec)
COPY(flex, Flex)
COPY(arr, Arr)
ALL(vec, Vec)
ALL(flex, Flex)
ALL(arr, Arr)
PERS(push, flexf, Flex, push_front(e), Elem e)
UPD(drop, flex, Flex, drop(i), N i)
PERS(insert, flex, Flex, insert(i, e), N i, Elem e)
D(insertv, flex, const Flex& s, N i, const Flex& t)
{
    auto n = s.size();
    __p_size(t.size());
    auto r = s.insert(i, t);
    __p_sizes(n, r.size());
}
D(insertv, flex_r, Flex& s, N i, const Flex& t)
{
    auto n = s.size();
    __p_size(t.size());
    Flex r = std::move(s).insert(i, t);
    __p_sizes(n, r.size());
}
PERS(erase, flex, Flex, erase(i), N i)
PERS(erase2, flex, Flex, erase(i, j), N i, N j)
D(concat, flex, const Flex& s, const Flex& t)
{
    auto n = s.size();
    __p_size(t.size());
    auto r = s + t;
    __p_sizes(n, r.size());
}
D(concat, flex_rl, Flex& s, const Flex& t)
{
    auto n = s.size();
    __p_size(t.size());
    Flex r = std::move(s) + t;
    __p_sizes(n, r.size());
}
D(concat, flex_lr, const Flex& s, Flex& t)
{
    auto n = s.size();
    __p_size(t.size());
    Flex r = s + std::move(t);
    __p_sizes(n, r.size());
}
D(concat, flex_rr, Flex& s, Flex& t)
{
    auto n = s.size();
    __p_size(t.size());
    Flex r = std::move(s) + std::move(t);
    __p_sizes(n, r.size());
}
D(concat, flex_ta, Flex::transient_type& s, Flex::transient_type& t)
{
    auto n = s.size();
    __p_size(t.size());
    s.append(t);
    __p_sizes(n, s.size());
}
D(concat, flex_tp, Flex::transient_type& s, Flex::transient_type& t)
{
    auto n = s.size();
    __p_size(t.size());
    s.prepend(t);
    __p_sizes(n, s.size());
}
