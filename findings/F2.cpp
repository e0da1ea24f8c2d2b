// replacing an element of a collision node, copy throws: double destroy
#include "common.hpp"
#include <immer/set.hpp>
#include <immer/map.hpp>
struct h0 { std::size_t operator()(int) const { return 1; } };
int main()
{
    {
        immer::map<int, el, h0> m;
        for (int i = 0; i < 4; ++i) m = m.set(i, el{i});
        for (int n = 1; n < 12; ++n)
            for (int k = 0; k < 4; ++k) {
                el::fuse() = n;
                try { auto x = m.set(k, el{9}); } catch (boom&) {}
                el::fuse() = -1;
            }
    }
    std::printf("bad=%d live=%zu\n", el::bad(), el::live().size());
    return el::bad() || el::live().size();
}
