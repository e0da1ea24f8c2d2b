// The containers with the policies the library provides, for what they keep in
// static storage.
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/heap/gc_heap.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/transience/gc_transience_policy.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <string>
struct E
{
    E();
    E(const E&);
    E& operator=(const E&);
    ~E();
    int id;
    bool operator==(const E&) const;
    bool operator!=(const E&) const;
    bool operator<(const E&) const;
};
struct Hs
{
    std::size_t operator()(const E&) const;
};
struct Eq
{
    bool operator()(const E&, const E&) const;
};
struct Rec
{
    E id;
    E u;
    bool operator==(const Rec&) const;
};
using gc_mp = immer::memory_policy<immer::heap_policy<immer::gc_heap>,
                                   immer::no_refcount_policy,
                                   immer::default_lock_policy,
                                   immer::gc_transience_policy,
                                   false,
                                   false>;
template class immer::vector<E>;
template class immer::flex_vector<E>;
template class immer::array<E>;
template class immer::set<E, Hs, Eq>;
template class immer::map<E, E, Hs, Eq>;
template class immer::table<Rec, immer::table_key_fn, Hs, Eq>;
template class immer::vector_transient<E, immer::default_memory_policy, 5, 2>;
template class immer::flex_vector_transient<E, immer::default_memory_policy, 5, 2>;
template class immer::array_transient<E, immer::default_memory_policy>;
template class immer::set_transient<E, Hs, Eq, immer::default_memory_policy, 5>;
template class immer::map_transient<E, E, Hs, Eq, immer::default_memory_policy, 5>;
template class immer::atom<E>;
template class immer::box<E>;
struct Fn
{
    E operator()(E) const;
};
#define X extern "C" __attribute__((used))
X void x_vec(const immer::vector<E>& v, E e, void* o) { new (o) auto(v.push_back(e).set(1, e).update(2, Fn{}).take(3)); }
X void x_fvec(const immer::flex_vector<E>& v, E e, void* o)
{
    new (o) auto(((v.push_back(e) + v.push_front(e)).drop(3) + v).insert(2, e).erase(1).erase(2, 3).set(0, e).update(1, Fn{}).take(3));
}
X void x_set(const immer::set<E, Hs, Eq>& v, E e, void* o) { new (o) auto(v.insert(e).erase(e)); }
X void x_map(const immer::map<E, E, Hs, Eq>& v, E e, void* o)
{
    new (o) auto(v.set(e, e).update(e, Fn{}).update_if_exists(e, Fn{}).erase(e));
}
X void x_tab(const immer::table<Rec, immer::table_key_fn, Hs, Eq>& v, Rec e, void* o) { new (o) auto(v.insert(e).erase(e.id)); }
X void x_tvec(const immer::vector<E>& v, E e, void* o)
{
    auto t = v.transient();
    t.push_back(e);
    t.set(1, e);
    t.update(2, Fn{});
    t.take(3);
    new (o) auto(t.persistent());
}
X void x_tflex(const immer::flex_vector<E>& v, E e, void* o)
{
    auto t = v.transient();
    t.push_back(e);
    t.set(1, e);
    t.update(2, Fn{});
    t.take(3);
    t.drop(1);
    auto u = v.transient();
    t.append(u);
    t.prepend(u);
    new (o) auto(t.persistent());
}
X void x_tmap(const immer::map<E, E, Hs, Eq>& v, E e, void* o)
{
    auto t = v.transient();
    t.set(e, e);
    t.update(e, Fn{});
    t.erase(e);
    new (o) auto(t.persistent());
}
X void x_atom(immer::atom<E>& a, E e, void* o)
{
    a.store(e);
    a.update(Fn{});
    a.exchange(e);
    new (o) auto(a.load());
}
X void g_vec(const immer::vector<E, gc_mp>& v, E e, void* o)
{
    auto t = v.push_back(e).set(1, e).transient();
    t.push_back(e);
    t.set(1, e);
    new (o) auto(t.persistent());
}
X void g_flex(const immer::flex_vector<E, gc_mp>& v, E e, void* o)
{
    auto t = (v + v.push_front(e)).drop(3).insert(2, e).transient();
    auto u = t;
    t.push_back(e);
    t.append(u);
    new (o) auto(t.persistent());
}
X void g_map(const immer::map<E, E, Hs, Eq, gc_mp>& v, E e, void* o)
{
    auto t = v.set(e, e).erase(e).transient();
    t.set(e, e);
    t.update(e, Fn{});
    new (o) auto(t.persistent());
}
X void g_arr(const immer::array<E, gc_mp>& v, E e, void* o)
{
    auto t = v.push_back(e).transient();
    t.push_back(e);
    t.set(1, e);
    new (o) auto(t.persistent());
}
X void g_atom(immer::atom<E, gc_mp>& a, E e, void* o)
{
    a.store(e);
    a.update(Fn{});
    new (o) auto(a.load());
}
