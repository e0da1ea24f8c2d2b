// transient append, exception while growing the tree: wrong elements destroyed
#include "common.hpp"
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
int main()
{
    using V = immer::flex_vector<el, immer::default_memory_policy, 2, 2>;
    for (int n = 1; n < 30; ++n) {
        for (int mode = 0; mode < 2; ++mode) {
        V l, r;
        for (int i = 0; i < 6; ++i) l = l.push_back(el{i});
        for (int i = 0; i < 4; ++i) r = r.push_back(el{i});
        auto t = V{}.transient();
        for (int i = 0; i < 6; ++i) t.push_back(el{i});
        auto rt = r.transient();
        el::fuse() = n;
        try { if (mode) t.append(rt); else { l = std::move(l) + r; } } catch (boom&) {}
        el::fuse() = -1;
        }
        if (el::bad() || el::live().size()) { std::printf("n=%d bad=%d live=%zu\n", n, el::bad(), el::live().size()); return 1; }
    }
    std::printf("bad=%d live=%zu\n", el::bad(), el::live().size());
    return el::bad() || el::live().size();
}
