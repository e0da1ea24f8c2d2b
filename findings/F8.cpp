// in-place erase that collapses a subtree, then an allocation fails:
// the node keeps a pointer to the child that was already released
#include <cstdio>
#include <immer/heap/malloc_heap.hpp>
#include <immer/set.hpp>
struct boom {};
static int fuse = -1;
struct heap
{
    template <typename... Ts>
    static void* allocate(std::size_t n, Ts...)
    {
        if (fuse > 0 && --fuse == 0) { fuse = -1; throw boom{}; }
        return immer::malloc_heap::allocate(n);
    }
    template <typename... Ts>
    static void deallocate(std::size_t n, void* p, Ts...) { immer::malloc_heap::deallocate(n, p); }
};
using mp = immer::memory_policy<immer::heap_policy<heap>, immer::refcount_policy, immer::no_lock_policy>;
struct hh { std::size_t operator()(int e) const { return e; } };
int main()
{
    for (int n = 1; n < 10; ++n) {
        immer::set<int, hh, std::equal_to<int>, mp> s;
        for (int i : {1, 33, 2, 3, 4, 5}) s = std::move(s).insert(i);
        fuse = n;
        try { s = std::move(s).erase(33); } catch (boom&) {}
        fuse = -1;
        for (int i : {1, 2, 3, 4, 5}) if (!s.count(i)) return std::printf("lost %d\n", i), 1;
    }
    return 0;
}
