#include <immer/memory_policy.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
using MP = immer::memory_policy<immer::heap_policy<immer::malloc_heap>, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy, false>;
