#include <immer/memory_policy.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
using MP = immer::memory_policy<immer::free_list_heap_policy<immer::malloc_heap>, immer::refcount_policy, immer::spinlock_policy, immer::gc_transience_policy, true, false>;
