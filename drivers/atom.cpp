// The atom with an opaque lock: every operation in its own function.
#include "probe.hpp"
#include <immer/atom.hpp>
#include <immer/box.hpp>
extern "C" {
void __p_lock(void*) noexcept;
bool __p_try_lock(void*) noexcept;
void __p_unlock(void*) noexcept;
}
struct probe_lock
{
    char l_;
    bool try_lock() { return __p_try_lock(this); }
    void lock() { __p_lock(this); }
    void unlock() { __p_unlock(this); }
    struct scoped_lock
    {
        probe_lock& l_;
        explicit scoped_lock(probe_lock& l)
            : l_{l}
        {
            __p_lock(&l_);
        }
        scoped_lock(const scoped_lock&) = delete;
        ~scoped_lock() { __p_unlock(&l_); }
    };
};
#ifdef GCCFG
using AMP = MP;
#else
using AMP = immer::memory_policy<immer::heap_policy<probe_heap>,
                                 probe_rc,
                                 probe_lock,
                                 immer::no_transience_policy,
                                 true,
                                 true>;
#endif
using B = immer::box<T, AMP>;
using A = immer::atom<T, AMP>;
extern "C" {
void a_load(A* a, void* o) { new (o) B(a->load()); }
void a_conv(A* a, void* o) { new (o) B(a->operator B()); }
void a_value(A* a, void* o) { new (o) T(static_cast<T>(*a)); }
void a_store(A* a, B* b) { a->store(std::move(*b)); }
void a_storec(A* a, const B* b) { a->store(*b); }
void a_assign(A* a, B* b) { *a = std::move(*b); }
void a_exchange(A* a, void* o, B* b) { new (o) B(a->exchange(std::move(*b))); }
void a_update(A* a, void* o) { new (o) B(a->update(FnT{})); }
}
