#include <immer/memory_policy.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>
#include <immer/transience/gc_transience_policy.hpp>
using MP = immer::default_memory_policy;
