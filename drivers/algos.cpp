// Algorithms, ranges and conversions over every container, only type checked.
#include "probe.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <string>
#include <utility>
#include <vector>
struct Item
{
    int id;
    std::string s;
};
inline bool operator==(const Item& a, const Item& b) { return a.id == b.id && a.s == b.s; }
inline bool operator!=(const Item& a, const Item& b) { return !(a == b); }
using Vec   = immer::vector<int, MP>;
using Flex  = immer::flex_vector<int, MP>;
using Arr   = immer::array<int, MP>;
using Set   = immer::set<std::string, std::hash<std::string>, std::equal_to<std::string>, MP>;
using Map   = immer::map<std::string, int, std::hash<std::string>, std::equal_to<std::string>, MP>;
using Table = immer::table<Item, immer::table_key_fn, std::hash<int>, std::equal_to<int>, MP>;
using Box   = immer::box<std::string, MP>;
using Atom  = immer::atom<std::string, MP>;

template <typename C>
void swap_(C& c);
template <typename C>
void range(const C& c)
{
    using V = typename C::value_type;
    immer::for_each(c, [](const V&) {});
    immer::for_each_chunk(c, [](const V*, const V*) {});
    (void) immer::accumulate(c, 0, [](int n, const V&) { return n + 1; });
    std::vector<V> out(c.begin(), c.end());
    immer::copy(c, out.begin());
    for (auto& x : c)
        (void) x;
    C d = c;
    (void) (c == d);
    (void) (c != d);
    (void) c.empty();
    (void) c.size();
    swap_(d);
}
template <typename C>
void swap_(C& c)
{
    using std::swap;
    C d;
    swap(c, d);
    c = std::move(d);
    c = d;
    auto t = c.transient();
    auto u = std::move(c).transient();
    u      = t;
    u      = std::move(t);
    C e    = u.persistent();
    C f    = std::move(u).persistent();
}
template <typename C>
void sequence(const C& c)
{
    range(c);
    using V = typename C::value_type;
    std::vector<V> out(c.begin(), c.end());
    immer::for_each(c.begin(), c.end(), [](const V&) {});
    immer::for_each_chunk(c.begin(), c.end(), [](const V*, const V*) {});
    (void) immer::all_of(c.begin(), c.end(), [](const V&) { return true; });
    (void) immer::accumulate(c.begin(), c.end(), 0, [](int n, const V&) { return n + 1; });
    immer::copy(c.begin(), c.end(), out.begin());
    (void) immer::for_each_chunk_p(c, [](const V*, const V*) { return true; });
    (void) immer::all_of(c, [](const V&) { return true; });
    auto i = c.begin();
    auto j = c.end();
    (void) (j - i);
    (void) (i + 1);
    (void) (i - 1);
    (void) i[0];
    (void) (i < j);
    (void) (i == j);
    (void) (i != j);
    ++i, --i, i++, i--, i += 1, i -= 1;
    (void) c.rbegin();
    (void) c.rend();
    std::vector<int> v;
    C a(v.begin(), v.end());
    C b{1, 2, 3};
    C e(3);
    C f(std::size_t{3}, 7);
    (void) c.front();
    (void) c.back();
    (void) c.update(0, [](int x) { return x; });
}
template <typename C>
void differ(const C& c)
{
    using V = typename C::value_type;
    immer::diff(c, c, [](const V&) {}, [](const V&) {}, [](const V&, const V&) {});
    immer::diff(c, c, immer::make_differ([](const V&) {}, [](const V&) {}, [](const V&, const V&) {}));
}
void uses(const Vec& v, const Flex& f, const Arr& a, const Set& s, const Map& m, const Table& t, const Box& b, Atom& at)
{
    sequence(v);
    sequence(f);
    sequence(a);
    range(s);
    range(m);
    range(t);
    (void) v.identity(), (void) f.identity(), (void) a.identity(), (void) s.identity(), (void) m.identity();
    immer::diff(s, s, [](const std::string&) {}, [](const std::string&) {});
    differ(m);
    differ(t);
    Flex g = v;
    Flex h{v};
    immer::accumulate(v, 0);
    immer::accumulate(v.begin(), v.end(), 0);
    immer::accumulate(f, 0);
    immer::accumulate(a, 0);
    Set s2{"a", "b"};
    Map m2{{"a", 1}};
    Table t2{{1, "a"}};
    std::vector<std::string> names;
    Set s3(names.begin(), names.end());
    std::vector<std::pair<std::string, int>> pairs;
    Map m3(pairs.begin(), pairs.end());
    Box c = "x";
    Box d{b};
    (void) (b == d);
    (void) (b != d);
    (void) (b < d);
    (void) std::hash<Box>{}(b);
    (void) b.update([](const std::string& x) { return x; });
    (void) std::move(d).update([](std::string x) { return x; });
    at.store(b);
    at = b;
    Box e           = at.load();
    Box e2          = at;
    std::string val = at;
    e               = at.exchange(c);
    at.update([](std::string x) { return x; });
    Atom fresh, from{b};
    Vec::transient_type tv;
    Flex::transient_type tf{tv};
    tf.append(tf);
    tf.prepend(tf);
    tf.append(Flex::transient_type{});
    tf.prepend(Flex::transient_type{});
    Map::transient_type tm;
    tm.update("a", [](int x) { return x; });
    tm.update_if_exists("a", [](int x) { return x; });
    tm.set("a", 1);
    tm.insert({"a", 1});
    tm.erase("a");
    Set::transient_type ts;
    ts.insert("a");
    ts.erase("a");
    Table::transient_type tt;
    tt.insert({1, "a"});
    tt.update(1, [](Item x) { return x; });
    tt.update_if_exists(1, [](Item x) { return x; });
    tt.erase(1);
}
