// copying a moved-from box dereferences null
#include <immer/box.hpp>
int main()
{
    immer::box<int> a{1};
    auto b = std::move(a);
    auto c = a; // moved-from handles stay usable as ordinary values
    a      = b;
    return *a == 1 ? 0 : 1;
}
