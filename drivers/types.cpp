// What the interface must and must not allow, as facts for the type checker.
#include "probe.hpp"
#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/atom.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>

struct Val
{
    int id;
    int x;
};
inline bool operator==(const Val& a, const Val& b) { return a.id == b.id && a.x == b.x; }
inline bool operator!=(const Val& a, const Val& b) { return !(a == b); }
inline bool operator<(const Val& a, const Val& b) { return a.x < b.x; }
struct Hash
{
    template <typename T>
    std::size_t operator()(const T&) const
    {
        return 0;
    }
    using is_transparent = void;
};
struct Eq
{
    bool operator()(const Val& a, const Val& b) const { return a == b; }
    bool operator()(const Val& a, int b) const { return a.id == b; }
    bool operator()(int a, int b) const { return a == b; }
};
using Vec   = immer::vector<Val, MP>;
using Flex  = immer::flex_vector<Val, MP>;
using Arr   = immer::array<Val, MP>;
using Set   = immer::set<Val, Hash, Eq, MP>;
using Map   = immer::map<int, Val, Hash, Eq, MP>;
using Table = immer::table<Val, immer::table_key_fn, Hash, Eq, MP>;
using Box   = immer::box<Val, MP>;
using Atom  = immer::atom<Val, MP>;

template <typename...>
using voider = void;
#define DETECT(NAME, ...)                                                                                      \
    template <typename A, typename B, typename C, typename = void>                                             \
    struct NAME##_t                                                                                            \
    {                                                                                                          \
        static constexpr bool ok = false;                                                                      \
        using type               = void;                                                                       \
    };                                                                                                         \
    template <typename A, typename B, typename C>                                                              \
    struct NAME##_t<A, B, C, voider<decltype(__VA_ARGS__)>>                                                    \
    {                                                                                                          \
        static constexpr bool ok = true;                                                                       \
        using type               = decltype(__VA_ARGS__);                                                      \
    };                                                                                                         \
    template <typename A, typename B = void, typename C = void>                                                \
    constexpr bool can_##NAME = NAME##_t<A, B, C>::ok;                                                         \
    template <typename A, typename B = void, typename C = void>                                                \
    using NAME##_of = typename NAME##_t<A, B, C>::type;
#define D(X) std::declval<X>()
DETECT(index, D(A)[D(B)])
DETECT(at, D(A).at(D(B)))
DETECT(find, D(A).find(D(B)))
DETECT(front, D(A).front())
DETECT(back, D(A).back())
DETECT(data, D(A).data())
DETECT(begin, D(A).begin())
DETECT(end, D(A).end())
DETECT(rbegin, D(A).rbegin())
DETECT(deref, *D(A))
DETECT(arrow, D(A).operator->())
DETECT(get, D(A).get())
DETECT(impl, D(A).impl())
DETECT(push_back, D(A).push_back(D(B)))
DETECT(push_front, D(A).push_front(D(B)))
DETECT(set, D(A).set(D(B), D(C)))
DETECT(update, D(A).update(D(B), D(C)))
DETECT(update_if, D(A).update_if_exists(D(B), D(C)))
DETECT(updateb, D(A).update(D(B)))
DETECT(take, D(A).take(D(B)))
DETECT(drop, D(A).drop(D(B)))
DETECT(insert, D(A).insert(D(B)))
DETECT(insertat, D(A).insert(D(B), D(C)))
DETECT(erase, D(A).erase(D(B)))
DETECT(erase2, D(A).erase(D(B), D(C)))
DETECT(plus, D(A) + D(B))
DETECT(transient, D(A).transient())
DETECT(persistent, D(A).persistent())
DETECT(append, D(A).append(D(B)))
DETECT(prepend, D(A).prepend(D(B)))
DETECT(load, D(A).load())
DETECT(store, D(A).store(D(B)))
DETECT(exchange, D(A).exchange(D(B)))
DETECT(assign, D(A) = D(B))

#define FACT(WHAT, ...) static_assert(__VA_ARGS__, "FACT " WHAT)
#define SAME(WHAT, X, Y) FACT(WHAT, std::is_same<X, Y>::value)
struct Fn
{
    Val operator()(Val) const;
};
// the result is the type itself, by value, when the operand may not be changed
#define FRESH(WHAT, R, ...) FACT(WHAT " on const value returns a new value", std::is_same<__VA_ARGS__, R>::value)

template <typename C, bool Seq>
struct container
{
    using V = typename C::value_type;
    using K = const C&;
    using I = typename C::iterator;
    FACT("value_type is the element type", !std::is_const<V>::value && !std::is_reference<V>::value);
    SAME("reference is const", typename C::reference, const V&);
    SAME("const_reference is const", typename C::const_reference, const V&);
    SAME("iterator is const_iterator", typename C::iterator, typename C::const_iterator);
    SAME("iterator reference is const", typename std::iterator_traits<I>::reference, const V&);
    SAME("iterator pointer is const", typename std::iterator_traits<I>::pointer, const V*);
    SAME("*begin is const", deref_of<begin_of<K>>, const V&);
    SAME("*begin of non-const is const", deref_of<begin_of<C&>>, const V&);
    SAME("*begin of rvalue is const", deref_of<begin_of<C>>, const V&);
    SAME("begin and end have one type", begin_of<K>, end_of<K>);
    SAME("begin is iterator", begin_of<K>, I);
    FACT("element cannot be assigned through an iterator", !can_assign<deref_of<begin_of<C&>>, V>);
    FACT("implementation is only reached as const", std::is_const<std::remove_reference_t<impl_of<C&>>>::value);
    FACT("implementation of const is only reached as const", std::is_const<std::remove_reference_t<impl_of<K>>>::value);
    FACT("copyable", std::is_copy_constructible<C>::value && std::is_copy_assignable<C>::value);
    FACT("movable", std::is_move_constructible<C>::value && std::is_move_assignable<C>::value);
    FACT("default constructible", std::is_default_constructible<C>::value);
    FACT("destructor does not throw", std::is_nothrow_destructible<C>::value);
    FACT("const value cannot be assigned", !std::is_assignable<K, C>::value);
    using T = typename C::transient_type;
    SAME("transient of const value", transient_of<K>, T);
    SAME("persistent of transient", persistent_of<T&>, C);
    SAME("transient_type has this persistent_type", typename T::persistent_type, C);
    FACT("transients are copyable", std::is_copy_constructible<T>::value&& std::is_copy_assignable<T>::value);
    SAME("transient reference is const", typename T::reference, const V&);
    SAME("transient iterator is const_iterator", typename T::iterator, typename T::const_iterator);
    SAME("*begin of transient is const", deref_of<begin_of<T&>>, const V&);
    FACT("persistent value does not convert to transient implicitly", !std::is_convertible<C, T>::value);
    FACT("transient does not convert to persistent implicitly", !std::is_convertible<T, C>::value);
};
template struct container<Vec, true>;
template struct container<Flex, true>;
template struct container<Arr, true>;
template struct container<Set, false>;
template struct container<Map, false>;
template struct container<Table, false>;

static_assert(std::is_same<index_of<const Vec&, std::size_t>, const Val&>::value, "FACT Vec::index gives const");
static_assert(std::is_same<index_of<Vec&, std::size_t>, const Val&>::value, "FACT Vec::index on non-const gives const");
static_assert(std::is_same<index_of<Vec, std::size_t>, const Val&>::value, "FACT Vec::index on rvalue gives const");
static_assert(std::is_same<at_of<const Vec&, std::size_t>, const Val&>::value, "FACT Vec::at gives const");
static_assert(std::is_same<at_of<Vec&, std::size_t>, const Val&>::value, "FACT Vec::at on non-const gives const");
static_assert(std::is_same<at_of<Vec, std::size_t>, const Val&>::value, "FACT Vec::at on rvalue gives const");
static_assert(std::is_same<index_of<Vec::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Vec: index gives const");
static_assert(std::is_same<index_of<const Vec::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Vec: index is a const operation");
static_assert(std::is_same<at_of<Vec::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Vec: at gives const");
static_assert(std::is_same<at_of<const Vec::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Vec: at is a const operation");
static_assert(std::is_same<front_of<const Vec&>, const Val&>::value, "FACT Vec::front gives const");
static_assert(std::is_same<front_of<Vec&>, const Val&>::value, "FACT Vec::front on non-const gives const");
static_assert(std::is_same<front_of<Vec>, const Val&>::value, "FACT Vec::front on rvalue gives const");
static_assert(std::is_same<back_of<const Vec&>, const Val&>::value, "FACT Vec::back gives const");
static_assert(std::is_same<back_of<Vec&>, const Val&>::value, "FACT Vec::back on non-const gives const");
static_assert(std::is_same<back_of<Vec>, const Val&>::value, "FACT Vec::back on rvalue gives const");
static_assert(std::is_same<push_back_of<const Vec&, Val>, Vec>::value, "FACT Vec::push_back on const gives a new value");
static_assert(std::is_same<push_back_of<Vec&, Val>, Vec>::value, "FACT Vec::push_back on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<push_back_of<Vec, Val>>, Vec>::value, "FACT Vec::push_back on rvalue gives the container");
static_assert(std::is_same<push_back_of<const Vec, Val>, Vec>::value, "FACT Vec::push_back on const rvalue is no change in place");
static_assert(std::is_same<set_of<const Vec&, std::size_t, Val>, Vec>::value, "FACT Vec::set on const gives a new value");
static_assert(std::is_same<set_of<Vec&, std::size_t, Val>, Vec>::value, "FACT Vec::set on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<set_of<Vec, std::size_t, Val>>, Vec>::value, "FACT Vec::set on rvalue gives the container");
static_assert(std::is_same<set_of<const Vec, std::size_t, Val>, Vec>::value, "FACT Vec::set on const rvalue is no change in place");
static_assert(std::is_same<update_of<const Vec&, std::size_t, Fn>, Vec>::value, "FACT Vec::update on const gives a new value");
static_assert(std::is_same<update_of<Vec&, std::size_t, Fn>, Vec>::value, "FACT Vec::update on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_of<Vec, std::size_t, Fn>>, Vec>::value, "FACT Vec::update on rvalue gives the container");
static_assert(std::is_same<update_of<const Vec, std::size_t, Fn>, Vec>::value, "FACT Vec::update on const rvalue is no change in place");
static_assert(std::is_same<take_of<const Vec&, std::size_t>, Vec>::value, "FACT Vec::take on const gives a new value");
static_assert(std::is_same<take_of<Vec&, std::size_t>, Vec>::value, "FACT Vec::take on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<take_of<Vec, std::size_t>>, Vec>::value, "FACT Vec::take on rvalue gives the container");
static_assert(std::is_same<take_of<const Vec, std::size_t>, Vec>::value, "FACT Vec::take on const rvalue is no change in place");
static_assert(can_push_back<Vec::transient_type&, Val>, "FACT transient of Vec has push_back");
static_assert(std::is_same<push_back_of<Vec::transient_type&, Val>, void>::value, "FACT transient of Vec: push_back returns nothing");
static_assert(!can_push_back<const Vec::transient_type&, Val>, "FACT const transient of Vec has no push_back");
static_assert(can_set<Vec::transient_type&, std::size_t, Val>, "FACT transient of Vec has set");
static_assert(std::is_same<set_of<Vec::transient_type&, std::size_t, Val>, void>::value, "FACT transient of Vec: set returns nothing");
static_assert(!can_set<const Vec::transient_type&, std::size_t, Val>, "FACT const transient of Vec has no set");
static_assert(can_update<Vec::transient_type&, std::size_t, Fn>, "FACT transient of Vec has update");
static_assert(std::is_same<update_of<Vec::transient_type&, std::size_t, Fn>, void>::value, "FACT transient of Vec: update returns nothing");
static_assert(!can_update<const Vec::transient_type&, std::size_t, Fn>, "FACT const transient of Vec has no update");
static_assert(can_take<Vec::transient_type&, std::size_t>, "FACT transient of Vec has take");
static_assert(std::is_same<take_of<Vec::transient_type&, std::size_t>, void>::value, "FACT transient of Vec: take returns nothing");
static_assert(!can_take<const Vec::transient_type&, std::size_t>, "FACT const transient of Vec has no take");
static_assert(std::is_same<index_of<const Flex&, std::size_t>, const Val&>::value, "FACT Flex::index gives const");
static_assert(std::is_same<index_of<Flex&, std::size_t>, const Val&>::value, "FACT Flex::index on non-const gives const");
static_assert(std::is_same<index_of<Flex, std::size_t>, const Val&>::value, "FACT Flex::index on rvalue gives const");
static_assert(std::is_same<at_of<const Flex&, std::size_t>, const Val&>::value, "FACT Flex::at gives const");
static_assert(std::is_same<at_of<Flex&, std::size_t>, const Val&>::value, "FACT Flex::at on non-const gives const");
static_assert(std::is_same<at_of<Flex, std::size_t>, const Val&>::value, "FACT Flex::at on rvalue gives const");
static_assert(std::is_same<index_of<Flex::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Flex: index gives const");
static_assert(std::is_same<index_of<const Flex::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Flex: index is a const operation");
static_assert(std::is_same<at_of<Flex::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Flex: at gives const");
static_assert(std::is_same<at_of<const Flex::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Flex: at is a const operation");
static_assert(std::is_same<front_of<const Flex&>, const Val&>::value, "FACT Flex::front gives const");
static_assert(std::is_same<front_of<Flex&>, const Val&>::value, "FACT Flex::front on non-const gives const");
static_assert(std::is_same<front_of<Flex>, const Val&>::value, "FACT Flex::front on rvalue gives const");
static_assert(std::is_same<back_of<const Flex&>, const Val&>::value, "FACT Flex::back gives const");
static_assert(std::is_same<back_of<Flex&>, const Val&>::value, "FACT Flex::back on non-const gives const");
static_assert(std::is_same<back_of<Flex>, const Val&>::value, "FACT Flex::back on rvalue gives const");
static_assert(std::is_same<push_back_of<const Flex&, Val>, Flex>::value, "FACT Flex::push_back on const gives a new value");
static_assert(std::is_same<push_back_of<Flex&, Val>, Flex>::value, "FACT Flex::push_back on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<push_back_of<Flex, Val>>, Flex>::value, "FACT Flex::push_back on rvalue gives the container");
static_assert(std::is_same<push_back_of<const Flex, Val>, Flex>::value, "FACT Flex::push_back on const rvalue is no change in place");
static_assert(std::is_same<set_of<const Flex&, std::size_t, Val>, Flex>::value, "FACT Flex::set on const gives a new value");
static_assert(std::is_same<set_of<Flex&, std::size_t, Val>, Flex>::value, "FACT Flex::set on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<set_of<Flex, std::size_t, Val>>, Flex>::value, "FACT Flex::set on rvalue gives the container");
static_assert(std::is_same<set_of<const Flex, std::size_t, Val>, Flex>::value, "FACT Flex::set on const rvalue is no change in place");
static_assert(std::is_same<update_of<const Flex&, std::size_t, Fn>, Flex>::value, "FACT Flex::update on const gives a new value");
static_assert(std::is_same<update_of<Flex&, std::size_t, Fn>, Flex>::value, "FACT Flex::update on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_of<Flex, std::size_t, Fn>>, Flex>::value, "FACT Flex::update on rvalue gives the container");
static_assert(std::is_same<update_of<const Flex, std::size_t, Fn>, Flex>::value, "FACT Flex::update on const rvalue is no change in place");
static_assert(std::is_same<take_of<const Flex&, std::size_t>, Flex>::value, "FACT Flex::take on const gives a new value");
static_assert(std::is_same<take_of<Flex&, std::size_t>, Flex>::value, "FACT Flex::take on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<take_of<Flex, std::size_t>>, Flex>::value, "FACT Flex::take on rvalue gives the container");
static_assert(std::is_same<take_of<const Flex, std::size_t>, Flex>::value, "FACT Flex::take on const rvalue is no change in place");
static_assert(can_push_back<Flex::transient_type&, Val>, "FACT transient of Flex has push_back");
static_assert(std::is_same<push_back_of<Flex::transient_type&, Val>, void>::value, "FACT transient of Flex: push_back returns nothing");
static_assert(!can_push_back<const Flex::transient_type&, Val>, "FACT const transient of Flex has no push_back");
static_assert(can_set<Flex::transient_type&, std::size_t, Val>, "FACT transient of Flex has set");
static_assert(std::is_same<set_of<Flex::transient_type&, std::size_t, Val>, void>::value, "FACT transient of Flex: set returns nothing");
static_assert(!can_set<const Flex::transient_type&, std::size_t, Val>, "FACT const transient of Flex has no set");
static_assert(can_update<Flex::transient_type&, std::size_t, Fn>, "FACT transient of Flex has update");
static_assert(std::is_same<update_of<Flex::transient_type&, std::size_t, Fn>, void>::value, "FACT transient of Flex: update returns nothing");
static_assert(!can_update<const Flex::transient_type&, std::size_t, Fn>, "FACT const transient of Flex has no update");
static_assert(can_take<Flex::transient_type&, std::size_t>, "FACT transient of Flex has take");
static_assert(std::is_same<take_of<Flex::transient_type&, std::size_t>, void>::value, "FACT transient of Flex: take returns nothing");
static_assert(!can_take<const Flex::transient_type&, std::size_t>, "FACT const transient of Flex has no take");
static_assert(std::is_same<index_of<const Arr&, std::size_t>, const Val&>::value, "FACT Arr::index gives const");
static_assert(std::is_same<index_of<Arr&, std::size_t>, const Val&>::value, "FACT Arr::index on non-const gives const");
static_assert(std::is_same<index_of<Arr, std::size_t>, const Val&>::value, "FACT Arr::index on rvalue gives const");
static_assert(std::is_same<at_of<const Arr&, std::size_t>, const Val&>::value, "FACT Arr::at gives const");
static_assert(std::is_same<at_of<Arr&, std::size_t>, const Val&>::value, "FACT Arr::at on non-const gives const");
static_assert(std::is_same<at_of<Arr, std::size_t>, const Val&>::value, "FACT Arr::at on rvalue gives const");
static_assert(std::is_same<index_of<Arr::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Arr: index gives const");
static_assert(std::is_same<index_of<const Arr::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Arr: index is a const operation");
static_assert(std::is_same<at_of<Arr::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Arr: at gives const");
static_assert(std::is_same<at_of<const Arr::transient_type&, std::size_t>, const Val&>::value, "FACT transient of Arr: at is a const operation");
static_assert(std::is_same<front_of<const Arr&>, const Val&>::value, "FACT Arr::front gives const");
static_assert(std::is_same<front_of<Arr&>, const Val&>::value, "FACT Arr::front on non-const gives const");
static_assert(std::is_same<front_of<Arr>, const Val&>::value, "FACT Arr::front on rvalue gives const");
static_assert(std::is_same<back_of<const Arr&>, const Val&>::value, "FACT Arr::back gives const");
static_assert(std::is_same<back_of<Arr&>, const Val&>::value, "FACT Arr::back on non-const gives const");
static_assert(std::is_same<back_of<Arr>, const Val&>::value, "FACT Arr::back on rvalue gives const");
static_assert(std::is_same<push_back_of<const Arr&, Val>, Arr>::value, "FACT Arr::push_back on const gives a new value");
static_assert(std::is_same<push_back_of<Arr&, Val>, Arr>::value, "FACT Arr::push_back on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<push_back_of<Arr, Val>>, Arr>::value, "FACT Arr::push_back on rvalue gives the container");
static_assert(std::is_same<push_back_of<const Arr, Val>, Arr>::value, "FACT Arr::push_back on const rvalue is no change in place");
static_assert(std::is_same<set_of<const Arr&, std::size_t, Val>, Arr>::value, "FACT Arr::set on const gives a new value");
static_assert(std::is_same<set_of<Arr&, std::size_t, Val>, Arr>::value, "FACT Arr::set on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<set_of<Arr, std::size_t, Val>>, Arr>::value, "FACT Arr::set on rvalue gives the container");
static_assert(std::is_same<set_of<const Arr, std::size_t, Val>, Arr>::value, "FACT Arr::set on const rvalue is no change in place");
static_assert(std::is_same<update_of<const Arr&, std::size_t, Fn>, Arr>::value, "FACT Arr::update on const gives a new value");
static_assert(std::is_same<update_of<Arr&, std::size_t, Fn>, Arr>::value, "FACT Arr::update on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_of<Arr, std::size_t, Fn>>, Arr>::value, "FACT Arr::update on rvalue gives the container");
static_assert(std::is_same<update_of<const Arr, std::size_t, Fn>, Arr>::value, "FACT Arr::update on const rvalue is no change in place");
static_assert(std::is_same<take_of<const Arr&, std::size_t>, Arr>::value, "FACT Arr::take on const gives a new value");
static_assert(std::is_same<take_of<Arr&, std::size_t>, Arr>::value, "FACT Arr::take on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<take_of<Arr, std::size_t>>, Arr>::value, "FACT Arr::take on rvalue gives the container");
static_assert(std::is_same<take_of<const Arr, std::size_t>, Arr>::value, "FACT Arr::take on const rvalue is no change in place");
static_assert(can_push_back<Arr::transient_type&, Val>, "FACT transient of Arr has push_back");
static_assert(std::is_same<push_back_of<Arr::transient_type&, Val>, void>::value, "FACT transient of Arr: push_back returns nothing");
static_assert(!can_push_back<const Arr::transient_type&, Val>, "FACT const transient of Arr has no push_back");
static_assert(can_set<Arr::transient_type&, std::size_t, Val>, "FACT transient of Arr has set");
static_assert(std::is_same<set_of<Arr::transient_type&, std::size_t, Val>, void>::value, "FACT transient of Arr: set returns nothing");
static_assert(!can_set<const Arr::transient_type&, std::size_t, Val>, "FACT const transient of Arr has no set");
static_assert(can_update<Arr::transient_type&, std::size_t, Fn>, "FACT transient of Arr has update");
static_assert(std::is_same<update_of<Arr::transient_type&, std::size_t, Fn>, void>::value, "FACT transient of Arr: update returns nothing");
static_assert(!can_update<const Arr::transient_type&, std::size_t, Fn>, "FACT const transient of Arr has no update");
static_assert(can_take<Arr::transient_type&, std::size_t>, "FACT transient of Arr has take");
static_assert(std::is_same<take_of<Arr::transient_type&, std::size_t>, void>::value, "FACT transient of Arr: take returns nothing");
static_assert(!can_take<const Arr::transient_type&, std::size_t>, "FACT const transient of Arr has no take");
static_assert(std::is_same<data_of<const Arr&>, const Val*>::value, "FACT Arr::data gives const");
static_assert(std::is_same<data_of<Arr&>, const Val*>::value, "FACT Arr::data on non-const gives const");
static_assert(std::is_same<data_of<Arr>, const Val*>::value, "FACT Arr::data on rvalue gives const");

static_assert(std::is_same<push_front_of<const Flex&, Val>, Flex>::value, "FACT Flex::push_front on const gives a new value");
static_assert(std::is_same<push_front_of<Flex&, Val>, Flex>::value, "FACT Flex::push_front on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<push_front_of<Flex, Val>>, Flex>::value, "FACT Flex::push_front on rvalue gives the container");
static_assert(std::is_same<push_front_of<const Flex, Val>, Flex>::value, "FACT Flex::push_front on const rvalue is no change in place");
static_assert(std::is_same<drop_of<const Flex&, std::size_t>, Flex>::value, "FACT Flex::drop on const gives a new value");
static_assert(std::is_same<drop_of<Flex&, std::size_t>, Flex>::value, "FACT Flex::drop on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<drop_of<Flex, std::size_t>>, Flex>::value, "FACT Flex::drop on rvalue gives the container");
static_assert(std::is_same<drop_of<const Flex, std::size_t>, Flex>::value, "FACT Flex::drop on const rvalue is no change in place");
static_assert(std::is_same<insertat_of<const Flex&, std::size_t, Val>, Flex>::value, "FACT Flex::insertat on const gives a new value");
static_assert(std::is_same<insertat_of<Flex&, std::size_t, Val>, Flex>::value, "FACT Flex::insertat on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<insertat_of<Flex, std::size_t, Val>>, Flex>::value, "FACT Flex::insertat on rvalue gives the container");
static_assert(std::is_same<insertat_of<const Flex, std::size_t, Val>, Flex>::value, "FACT Flex::insertat on const rvalue is no change in place");
static_assert(std::is_same<erase_of<const Flex&, std::size_t>, Flex>::value, "FACT Flex::erase on const gives a new value");
static_assert(std::is_same<erase_of<Flex&, std::size_t>, Flex>::value, "FACT Flex::erase on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<erase_of<Flex, std::size_t>>, Flex>::value, "FACT Flex::erase on rvalue gives the container");
static_assert(std::is_same<erase_of<const Flex, std::size_t>, Flex>::value, "FACT Flex::erase on const rvalue is no change in place");
static_assert(std::is_same<erase2_of<const Flex&, std::size_t, std::size_t>, Flex>::value, "FACT Flex::erase2 on const gives a new value");
static_assert(std::is_same<erase2_of<Flex&, std::size_t, std::size_t>, Flex>::value, "FACT Flex::erase2 on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<erase2_of<Flex, std::size_t, std::size_t>>, Flex>::value, "FACT Flex::erase2 on rvalue gives the container");
static_assert(std::is_same<erase2_of<const Flex, std::size_t, std::size_t>, Flex>::value, "FACT Flex::erase2 on const rvalue is no change in place");
static_assert(can_drop<Flex::transient_type&, std::size_t>, "FACT transient of Flex has drop");
static_assert(std::is_same<drop_of<Flex::transient_type&, std::size_t>, void>::value, "FACT transient of Flex: drop returns nothing");
static_assert(!can_drop<const Flex::transient_type&, std::size_t>, "FACT const transient of Flex has no drop");
static_assert(std::is_same<std::decay_t<plus_of<const Flex&, const Flex&>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<plus_of<const Flex&, const Flex&>, Flex>::value, "FACT Flex + Flex of lvalues is a new value");
static_assert(std::is_same<std::decay_t<plus_of<const Flex&, Flex&>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<plus_of<const Flex&, Flex&>, Flex>::value, "FACT Flex + Flex of lvalues is a new value");
static_assert(std::is_same<std::decay_t<plus_of<const Flex&, Flex>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<std::decay_t<plus_of<Flex&, const Flex&>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<std::decay_t<plus_of<Flex&, Flex&>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<std::decay_t<plus_of<Flex&, Flex>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<std::decay_t<plus_of<Flex, const Flex&>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<std::decay_t<plus_of<Flex, Flex&>>, Flex>::value, "FACT Flex + Flex");
static_assert(std::is_same<std::decay_t<plus_of<Flex, Flex>>, Flex>::value, "FACT Flex + Flex");
static_assert(can_append<Flex::transient_type&, Flex::transient_type&>, "FACT transient of Flex has append");
static_assert(std::is_same<append_of<Flex::transient_type&, Flex::transient_type&>, void>::value, "FACT transient of Flex: append returns nothing");
static_assert(!can_append<const Flex::transient_type&, Flex::transient_type&>, "FACT const transient of Flex has no append");
static_assert(can_append<Flex::transient_type&, Flex::transient_type>, "FACT transient of Flex has append");
static_assert(std::is_same<append_of<Flex::transient_type&, Flex::transient_type>, void>::value, "FACT transient of Flex: append returns nothing");
static_assert(!can_append<const Flex::transient_type&, Flex::transient_type>, "FACT const transient of Flex has no append");
static_assert(can_prepend<Flex::transient_type&, Flex::transient_type&>, "FACT transient of Flex has prepend");
static_assert(std::is_same<prepend_of<Flex::transient_type&, Flex::transient_type&>, void>::value, "FACT transient of Flex: prepend returns nothing");
static_assert(!can_prepend<const Flex::transient_type&, Flex::transient_type&>, "FACT const transient of Flex has no prepend");
static_assert(can_prepend<Flex::transient_type&, Flex::transient_type>, "FACT transient of Flex has prepend");
static_assert(std::is_same<prepend_of<Flex::transient_type&, Flex::transient_type>, void>::value, "FACT transient of Flex: prepend returns nothing");
static_assert(!can_prepend<const Flex::transient_type&, Flex::transient_type>, "FACT const transient of Flex has no prepend");
static_assert(std::is_same<find_of<const Set&, Val>, const Val*>::value, "FACT Set::find gives const");
static_assert(std::is_same<find_of<Set&, Val>, const Val*>::value, "FACT Set::find on non-const gives const");
static_assert(std::is_same<find_of<Set, Val>, const Val*>::value, "FACT Set::find on rvalue gives const");
static_assert(std::is_same<find_of<const Map&, int>, const Val*>::value, "FACT Map::find gives const");
static_assert(std::is_same<find_of<Map&, int>, const Val*>::value, "FACT Map::find on non-const gives const");
static_assert(std::is_same<find_of<Map, int>, const Val*>::value, "FACT Map::find on rvalue gives const");
static_assert(std::is_same<index_of<const Map&, int>, const Val&>::value, "FACT Map::index gives const");
static_assert(std::is_same<index_of<Map&, int>, const Val&>::value, "FACT Map::index on non-const gives const");
static_assert(std::is_same<index_of<Map, int>, const Val&>::value, "FACT Map::index on rvalue gives const");
static_assert(std::is_same<at_of<const Map&, int>, const Val&>::value, "FACT Map::at gives const");
static_assert(std::is_same<at_of<Map&, int>, const Val&>::value, "FACT Map::at on non-const gives const");
static_assert(std::is_same<at_of<Map, int>, const Val&>::value, "FACT Map::at on rvalue gives const");
static_assert(std::is_same<find_of<const Table&, int>, const Val*>::value, "FACT Table::find gives const");
static_assert(std::is_same<find_of<Table&, int>, const Val*>::value, "FACT Table::find on non-const gives const");
static_assert(std::is_same<find_of<Table, int>, const Val*>::value, "FACT Table::find on rvalue gives const");
static_assert(std::is_same<index_of<const Table&, int>, const Val&>::value, "FACT Table::index gives const");
static_assert(std::is_same<index_of<Table&, int>, const Val&>::value, "FACT Table::index on non-const gives const");
static_assert(std::is_same<index_of<Table, int>, const Val&>::value, "FACT Table::index on rvalue gives const");
static_assert(std::is_same<at_of<const Table&, int>, const Val&>::value, "FACT Table::at gives const");
static_assert(std::is_same<at_of<Table&, int>, const Val&>::value, "FACT Table::at on non-const gives const");
static_assert(std::is_same<at_of<Table, int>, const Val&>::value, "FACT Table::at on rvalue gives const");
static_assert(std::is_same<find_of<Set::transient_type&, Val>, const Val*>::value, "FACT transient of Set: find gives const");
static_assert(std::is_same<find_of<const Set::transient_type&, Val>, const Val*>::value, "FACT transient of Set: find is a const operation");
static_assert(std::is_same<find_of<Map::transient_type&, int>, const Val*>::value, "FACT transient of Map: find gives const");
static_assert(std::is_same<find_of<const Map::transient_type&, int>, const Val*>::value, "FACT transient of Map: find is a const operation");
static_assert(std::is_same<index_of<Map::transient_type&, int>, const Val&>::value, "FACT transient of Map: index gives const");
static_assert(std::is_same<index_of<const Map::transient_type&, int>, const Val&>::value, "FACT transient of Map: index is a const operation");
static_assert(std::is_same<at_of<Map::transient_type&, int>, const Val&>::value, "FACT transient of Map: at gives const");
static_assert(std::is_same<at_of<const Map::transient_type&, int>, const Val&>::value, "FACT transient of Map: at is a const operation");
static_assert(std::is_same<find_of<Table::transient_type&, int>, const Val*>::value, "FACT transient of Table: find gives const");
static_assert(std::is_same<find_of<const Table::transient_type&, int>, const Val*>::value, "FACT transient of Table: find is a const operation");
static_assert(std::is_same<index_of<Table::transient_type&, int>, const Val&>::value, "FACT transient of Table: index gives const");
static_assert(std::is_same<index_of<const Table::transient_type&, int>, const Val&>::value, "FACT transient of Table: index is a const operation");
static_assert(std::is_same<at_of<Table::transient_type&, int>, const Val&>::value, "FACT transient of Table: at gives const");
static_assert(std::is_same<at_of<const Table::transient_type&, int>, const Val&>::value, "FACT transient of Table: at is a const operation");
static_assert(std::is_same<insert_of<const Set&, Val>, Set>::value, "FACT Set::insert on const gives a new value");
static_assert(std::is_same<insert_of<Set&, Val>, Set>::value, "FACT Set::insert on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<insert_of<Set, Val>>, Set>::value, "FACT Set::insert on rvalue gives the container");
static_assert(std::is_same<insert_of<const Set, Val>, Set>::value, "FACT Set::insert on const rvalue is no change in place");
static_assert(std::is_same<erase_of<const Set&, Val>, Set>::value, "FACT Set::erase on const gives a new value");
static_assert(std::is_same<erase_of<Set&, Val>, Set>::value, "FACT Set::erase on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<erase_of<Set, Val>>, Set>::value, "FACT Set::erase on rvalue gives the container");
static_assert(std::is_same<erase_of<const Set, Val>, Set>::value, "FACT Set::erase on const rvalue is no change in place");
static_assert(can_insert<Set::transient_type&, Val>, "FACT transient of Set has insert");
static_assert(std::is_same<insert_of<Set::transient_type&, Val>, void>::value, "FACT transient of Set: insert returns nothing");
static_assert(!can_insert<const Set::transient_type&, Val>, "FACT const transient of Set has no insert");
static_assert(can_erase<Set::transient_type&, Val>, "FACT transient of Set has erase");
static_assert(std::is_same<erase_of<Set::transient_type&, Val>, void>::value, "FACT transient of Set: erase returns nothing");
static_assert(!can_erase<const Set::transient_type&, Val>, "FACT const transient of Set has no erase");
static_assert(std::is_same<insert_of<const Map&, std::pair<int, Val>>, Map>::value, "FACT Map::insert on const gives a new value");
static_assert(std::is_same<insert_of<Map&, std::pair<int, Val>>, Map>::value, "FACT Map::insert on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<insert_of<Map, std::pair<int, Val>>>, Map>::value, "FACT Map::insert on rvalue gives the container");
static_assert(std::is_same<insert_of<const Map, std::pair<int, Val>>, Map>::value, "FACT Map::insert on const rvalue is no change in place");
static_assert(std::is_same<set_of<const Map&, int, Val>, Map>::value, "FACT Map::set on const gives a new value");
static_assert(std::is_same<set_of<Map&, int, Val>, Map>::value, "FACT Map::set on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<set_of<Map, int, Val>>, Map>::value, "FACT Map::set on rvalue gives the container");
static_assert(std::is_same<set_of<const Map, int, Val>, Map>::value, "FACT Map::set on const rvalue is no change in place");
static_assert(std::is_same<update_of<const Map&, int, Fn>, Map>::value, "FACT Map::update on const gives a new value");
static_assert(std::is_same<update_of<Map&, int, Fn>, Map>::value, "FACT Map::update on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_of<Map, int, Fn>>, Map>::value, "FACT Map::update on rvalue gives the container");
static_assert(std::is_same<update_of<const Map, int, Fn>, Map>::value, "FACT Map::update on const rvalue is no change in place");
static_assert(std::is_same<update_if_of<const Map&, int, Fn>, Map>::value, "FACT Map::update_if on const gives a new value");
static_assert(std::is_same<update_if_of<Map&, int, Fn>, Map>::value, "FACT Map::update_if on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_if_of<Map, int, Fn>>, Map>::value, "FACT Map::update_if on rvalue gives the container");
static_assert(std::is_same<update_if_of<const Map, int, Fn>, Map>::value, "FACT Map::update_if on const rvalue is no change in place");
static_assert(std::is_same<erase_of<const Map&, int>, Map>::value, "FACT Map::erase on const gives a new value");
static_assert(std::is_same<erase_of<Map&, int>, Map>::value, "FACT Map::erase on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<erase_of<Map, int>>, Map>::value, "FACT Map::erase on rvalue gives the container");
static_assert(std::is_same<erase_of<const Map, int>, Map>::value, "FACT Map::erase on const rvalue is no change in place");
static_assert(can_insert<Map::transient_type&, std::pair<int, Val>>, "FACT transient of Map has insert");
static_assert(std::is_same<insert_of<Map::transient_type&, std::pair<int, Val>>, void>::value, "FACT transient of Map: insert returns nothing");
static_assert(!can_insert<const Map::transient_type&, std::pair<int, Val>>, "FACT const transient of Map has no insert");
static_assert(can_set<Map::transient_type&, int, Val>, "FACT transient of Map has set");
static_assert(std::is_same<set_of<Map::transient_type&, int, Val>, void>::value, "FACT transient of Map: set returns nothing");
static_assert(!can_set<const Map::transient_type&, int, Val>, "FACT const transient of Map has no set");
static_assert(can_update<Map::transient_type&, int, Fn>, "FACT transient of Map has update");
static_assert(std::is_same<update_of<Map::transient_type&, int, Fn>, void>::value, "FACT transient of Map: update returns nothing");
static_assert(!can_update<const Map::transient_type&, int, Fn>, "FACT const transient of Map has no update");
static_assert(can_update_if<Map::transient_type&, int, Fn>, "FACT transient of Map has update_if");
static_assert(std::is_same<update_if_of<Map::transient_type&, int, Fn>, void>::value, "FACT transient of Map: update_if returns nothing");
static_assert(!can_update_if<const Map::transient_type&, int, Fn>, "FACT const transient of Map has no update_if");
static_assert(can_erase<Map::transient_type&, int>, "FACT transient of Map has erase");
static_assert(std::is_same<erase_of<Map::transient_type&, int>, void>::value, "FACT transient of Map: erase returns nothing");
static_assert(!can_erase<const Map::transient_type&, int>, "FACT const transient of Map has no erase");
static_assert(std::is_same<insert_of<const Table&, Val>, Table>::value, "FACT Table::insert on const gives a new value");
static_assert(std::is_same<insert_of<Table&, Val>, Table>::value, "FACT Table::insert on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<insert_of<Table, Val>>, Table>::value, "FACT Table::insert on rvalue gives the container");
static_assert(std::is_same<insert_of<const Table, Val>, Table>::value, "FACT Table::insert on const rvalue is no change in place");
static_assert(std::is_same<update_of<const Table&, int, Fn>, Table>::value, "FACT Table::update on const gives a new value");
static_assert(std::is_same<update_of<Table&, int, Fn>, Table>::value, "FACT Table::update on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_of<Table, int, Fn>>, Table>::value, "FACT Table::update on rvalue gives the container");
static_assert(std::is_same<update_of<const Table, int, Fn>, Table>::value, "FACT Table::update on const rvalue is no change in place");
static_assert(std::is_same<update_if_of<const Table&, int, Fn>, Table>::value, "FACT Table::update_if on const gives a new value");
static_assert(std::is_same<update_if_of<Table&, int, Fn>, Table>::value, "FACT Table::update_if on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<update_if_of<Table, int, Fn>>, Table>::value, "FACT Table::update_if on rvalue gives the container");
static_assert(std::is_same<update_if_of<const Table, int, Fn>, Table>::value, "FACT Table::update_if on const rvalue is no change in place");
static_assert(std::is_same<erase_of<const Table&, int>, Table>::value, "FACT Table::erase on const gives a new value");
static_assert(std::is_same<erase_of<Table&, int>, Table>::value, "FACT Table::erase on lvalue gives a new value");
static_assert(std::is_same<std::decay_t<erase_of<Table, int>>, Table>::value, "FACT Table::erase on rvalue gives the container");
static_assert(std::is_same<erase_of<const Table, int>, Table>::value, "FACT Table::erase on const rvalue is no change in place");
static_assert(can_insert<Table::transient_type&, Val>, "FACT transient of Table has insert");
static_assert(std::is_same<insert_of<Table::transient_type&, Val>, void>::value, "FACT transient of Table: insert returns nothing");
static_assert(!can_insert<const Table::transient_type&, Val>, "FACT const transient of Table has no insert");
static_assert(can_update<Table::transient_type&, int, Fn>, "FACT transient of Table has update");
static_assert(std::is_same<update_of<Table::transient_type&, int, Fn>, void>::value, "FACT transient of Table: update returns nothing");
static_assert(!can_update<const Table::transient_type&, int, Fn>, "FACT const transient of Table has no update");
static_assert(can_update_if<Table::transient_type&, int, Fn>, "FACT transient of Table has update_if");
static_assert(std::is_same<update_if_of<Table::transient_type&, int, Fn>, void>::value, "FACT transient of Table: update_if returns nothing");
static_assert(!can_update_if<const Table::transient_type&, int, Fn>, "FACT const transient of Table has no update_if");
static_assert(can_erase<Table::transient_type&, int>, "FACT transient of Table has erase");
static_assert(std::is_same<erase_of<Table::transient_type&, int>, void>::value, "FACT transient of Table: erase returns nothing");
static_assert(!can_erase<const Table::transient_type&, int>, "FACT const transient of Table has no erase");
static_assert(std::is_same<get_of<const Box&>, const Val&>::value, "FACT box get is const");
static_assert(std::is_same<deref_of<const Box&>, const Val&>::value, "FACT box dereference is const");
static_assert(std::is_same<arrow_of<const Box&>, const Val*>::value, "FACT box arrow is const");
static_assert(std::is_const<std::remove_pointer_t<impl_of<const Box&>>>::value, "FACT box contents are reached as const");
static_assert((std::is_convertible<const Box&, const Val&>::value && !std::is_convertible<const Box&, Val&>::value), "FACT box converts to const reference only");
static_assert(std::is_same<get_of<Box&>, const Val&>::value, "FACT box get is const");
static_assert(std::is_same<deref_of<Box&>, const Val&>::value, "FACT box dereference is const");
static_assert(std::is_same<arrow_of<Box&>, const Val*>::value, "FACT box arrow is const");
static_assert(std::is_const<std::remove_pointer_t<impl_of<Box&>>>::value, "FACT box contents are reached as const");
static_assert((std::is_convertible<Box&, const Val&>::value && !std::is_convertible<Box&, Val&>::value), "FACT box converts to const reference only");
static_assert(std::is_same<get_of<Box>, const Val&>::value, "FACT box get is const");
static_assert(std::is_same<deref_of<Box>, const Val&>::value, "FACT box dereference is const");
static_assert(std::is_same<arrow_of<Box>, const Val*>::value, "FACT box arrow is const");
static_assert(std::is_const<std::remove_pointer_t<impl_of<Box>>>::value, "FACT box contents are reached as const");
static_assert((std::is_convertible<Box, const Val&>::value && !std::is_convertible<Box, Val&>::value), "FACT box converts to const reference only");
static_assert(std::is_same<updateb_of<const Box&, Fn>, Box>::value, "FACT box update on const gives a new box");
static_assert(std::is_same<std::decay_t<updateb_of<Box, Fn>>, Box>::value, "FACT box update on rvalue gives the box");
static_assert(!std::is_assignable<const Box&, Box>::value, "FACT const box cannot be assigned");
static_assert(std::is_nothrow_destructible<Box>::value && std::is_copy_constructible<Box>::value && std::is_move_constructible<Box>::value, "FACT boxes copy and move without throwing");
static_assert(std::is_same<load_of<const Atom&>, Box>::value, "FACT atom load gives a box by value");
static_assert(std::is_same<exchange_of<Atom&, Box>, Box>::value, "FACT atom exchange gives a box by value");
static_assert(!can_store<const Atom&, Box> && !can_exchange<const Atom&, Box>, "FACT const atom has no store");
static_assert(!std::is_copy_constructible<Atom>::value && !std::is_copy_assignable<Atom>::value && !std::is_move_constructible<Atom>::value && !std::is_move_assignable<Atom>::value, "FACT atoms neither copy nor move");
struct NeedsMutable
{
    void operator()(Val*, Val*) const;
};
struct TakesConst
{
    void operator()(const Val*, const Val*) const;
};
struct TakesRef
{
    void operator()(Val&) const;
};
template <typename C, bool Seq>
struct traversal_gives_const
{
    struct Probe
    {
        template <typename T>
        void operator()(T* a, T* b) const
        {
            static_assert(std::is_const<T>::value, "FACT traversal gives pointers to const");
        }
        template <typename T>
        void operator()(T& a) const
        {
            static_assert(std::is_const<T>::value, "FACT traversal gives references to const");
        }
    };
    static void check(C& c, const C& k)
    {
        immer::for_each_chunk(c, Probe{});
        immer::for_each_chunk(k, Probe{});
        immer::for_each(c, Probe{});
        immer::for_each(k, Probe{});
    }
};
template struct traversal_gives_const<Vec, true>;
template struct traversal_gives_const<Flex, true>;
template struct traversal_gives_const<Arr, true>;
template struct traversal_gives_const<Set, true>;
template struct traversal_gives_const<Map, true>;
template struct traversal_gives_const<Table, true>;
