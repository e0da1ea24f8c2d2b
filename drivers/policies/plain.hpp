#include <immer/memory_policy.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
using MP = immer::memory_policy<immer::heap_policy<immer::cpp_heap>, immer::refcount_policy, immer::spinlock_policy, immer::no_transience_policy, false, false>;
