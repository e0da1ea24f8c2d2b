// default heap hands out storage that is not aligned for max_align_t
#include <immer/vector.hpp>
#include <immer/map.hpp>
#include <immer/box.hpp>
#include <cstdio>
#include <cstddef>
int main()
{
    int bad = 0;
    auto chk = [&](const void* p, std::size_t a) { bad += reinterpret_cast<std::size_t>(p) % a != 0; };
    immer::vector<long double> v;
    for (int i = 0; i < 100; ++i) v = std::move(v).push_back(i);
    for (auto& x : v) chk(&x, alignof(long double));
    immer::map<int, long double> m;
    for (int i = 0; i < 100; ++i) m = std::move(m).set(i, i);
    for (auto& x : m) chk(&x.second, alignof(long double));
    immer::box<long double> b{1};
    chk(&b.get(), alignof(long double));
    std::printf("misaligned elements: %d\n", bad);
    return bad != 0;
}
