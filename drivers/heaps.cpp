// Heap adaptors over an opaque heap.
#include <immer/config.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/gc_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/tags.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/with_data.hpp>
#include <immer/memory_policy.hpp>
#include <cstddef>
extern "C" {
void* __p_balloc(int heap, std::size_t size, int tags);
void __p_bfree(int heap, std::size_t size, void* p, int tags) noexcept;
}
inline int tg() { return 0; }
inline int tg(immer::norefs_tag) { return 1; }
template <int K>
struct hb
{
    using type = hb;
    template <typename... Tags>
    static void* allocate(std::size_t n, Tags... t)
    {
        return __p_balloc(K, n, tg(t...));
    }
    template <typename... Tags>
    static void deallocate(std::size_t n, void* p, Tags... t) noexcept
    {
        __p_bfree(K, n, p, tg(t...));
    }
};
struct alignas(std::max_align_t) X16
{
    long a_ = 0, b_ = 0;
};
using namespace immer;
#define S extern "C" __attribute__((used))
#define HEAP(name, ...)                                                        \
    S void* a_##name(std::size_t n) { return __VA_ARGS__::allocate(n); }       \
    S void f_##name(std::size_t n, void* p) { __VA_ARGS__::deallocate(n, p); }
#define HEAPT(name, ...)                                                       \
    HEAP(name, __VA_ARGS__)                                                    \
    S void* at_##name(std::size_t n) { return __VA_ARGS__::allocate(n, norefs_tag{}); }        \
    S void ft_##name(std::size_t n, void* p) { __VA_ARGS__::deallocate(n, p, norefs_tag{}); }
using split_t = split_heap<64, hb<0>, hb<1>>;
using wd_t    = with_data<X16, hb<0>>;
using wf_t    = with_free_list_node<hb<0>>;
using idn_t    = identity_heap<hb<0>>;
using dbg_t   = debug_size_heap<hb<0>>;
using fl_t    = free_list_heap<64, 4, hb<0>>;
using ufl_t   = unsafe_free_list_heap<64, 4, hb<0>>;
using tfl_t   = thread_local_free_list_heap<64, 4, hb<0>>;
HEAPT(split, split_t)
HEAPT(with_data, wd_t)
HEAPT(with_node, wf_t)
HEAPT(identity, idn_t)
HEAPT(debug, dbg_t)
HEAP(hp, heap_policy<hb<0>>::type)
HEAP(hpopt, heap_policy<hb<0>>::optimized<64>::type)
using flp  = free_list_heap_policy<hb<0>, 4>;
using uflp = unsafe_free_list_heap_policy<hb<0>, 4>;
HEAP(flp, flp::type)
HEAP(uflp, uflp::type)
HEAP(fl_list, fl_t)
HEAP(ufl_list, ufl_t)
HEAP(tfl_list, tfl_t)
// the optimized heaps: lists behind a header, by size
using flo  = flp::optimized<64>::type;
using uflo = uflp::optimized<64>::type;
HEAP(flo_opt, flo)
HEAP(uflo_opt, uflo)
struct two_heaps
{
    using type = hb<0>;
    template <std::size_t N>
    struct optimized
    {
        using type = hb<static_cast<int>(N)>;
    };
};
struct D1 : enable_optimized_heap_policy<D1, two_heaps>
{
    char c_[40];
    D1() noexcept {}
};
S void* a_opnew() { return D1::operator new(sizeof(D1)); }
S void f_opnew(void* p) { D1::operator delete(p, sizeof(D1)); }
HEAP(malloc, malloc_heap)
HEAP(cpp, cpp_heap)
HEAPT(gc, gc_heap)
S void c_ufl() { ufl_t::clear(); }
S void c_tfl() { tfl_t::clear(); }
