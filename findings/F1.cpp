// array(_transient)::take in place destroys the wrong elements
#include "common.hpp"
#include <immer/array_transient.hpp>
#include <immer/array.hpp>
int main()
{
    {
        immer::array<el> a;
        for (int i = 0; i < 5; ++i) a = std::move(a).push_back(i);
        a = std::move(a).take(2);
    }
    std::printf("bad=%d live=%zu\n", el::bad(), el::live().size());
    return el::bad() || el::live().size();
}
