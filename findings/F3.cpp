// Threads taking blocks from and returning them to free_list_heap get blocks
// that another thread is using: the head's compare-exchange suffers from ABA.
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
using heap = immer::free_list_heap<64, 1000, immer::malloc_heap>;
struct block
{
    char head_[16];
    std::atomic<int> owner;
};
int main()
{
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    for (int t = 1; t <= 8; ++t)
        ts.emplace_back([&, t] {
            block* own[3];
            for (int i = 0; i < 2000000 && !bad; ++i) {
                for (auto& b : own) {
                    b = static_cast<block*>(heap::allocate(64));
                    b->owner = t;
                }
                for (auto& b : own)
                    if (b->owner != t)
                        bad = true;
                for (auto& b : own)
                    heap::deallocate(64, b);
            }
        });
    for (auto& t : ts)
        t.join();
    std::printf("a block was handed to two threads: %s\n", bad ? "yes" : "no");
    std::fflush(stdout);
    std::_Exit(bad);
}
