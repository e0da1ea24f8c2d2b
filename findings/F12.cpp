// A persistent array obtained with std::move(t).persistent() still shares its
// storage with t, which keeps the token: with token-based transience an update
// through the moved-from transient changes the array.
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <cstdio>
using MP = immer::memory_policy<immer::heap_policy<immer::malloc_heap>, immer::no_refcount_policy,
                                immer::default_lock_policy, immer::gc_transience_policy, false, false>;
int main()
{
    auto t = immer::array<int, MP>{}.transient();
    for (int i = 0; i < 4; ++i)
        t.push_back(i);
    auto p = std::move(t).persistent();
    if (t.size() > 0)
        t.set(0, 42);
    std::printf("%d\n", p[0]);
    return p[0] != 0;
}
