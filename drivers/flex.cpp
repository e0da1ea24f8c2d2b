#include "probe.hpp"
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
using S = immer::flex_vector<T, MP, 3, 1>;
using ST = S::transient_type;
// where nodes of this layout point to sizes that lie in the node itself
using N_ = immer::detail::rbts::node<T, MP, 3, 1>;
extern "C" { extern const long vf_embedded; const long vf_embedded =
    N_::embed_relaxed ? (long) immer_offsetof(N_::impl_t, d.data.inner.relaxed) : -1; }
D(push__ocv)(S* out, const S& s, const T& v){ new(out) S(s.push_back(v)); }
D(push_mv__omv)(S* out, S& s, const T& v){ new(out) S(std::move(s).push_back(v)); }
D(set__ocnv)(S* out, const S& s, std::size_t i, const T& v){ new(out) S(s.set(i, v)); }
D(set_mv__omnv)(S* out, S& s, std::size_t i, const T& v){ new(out) S(std::move(s).set(i, v)); }
D(update__ocn)(S* out, const S& s, std::size_t i){ new(out) S(s.update(i, FnT{})); }
D(update_mv__omn)(S* out, S& s, std::size_t i){ new(out) S(std::move(s).update(i, FnT{})); }
#ifndef NOSLICE
D(take__ocn)(S* out, const S& s, std::size_t i){ new(out) S(s.take(i)); }
#endif
#ifndef NOSLICE
D(take_mv__omn)(S* out, S& s, std::size_t i){ new(out) S(std::move(s).take(i)); }
#endif
#ifndef NOSLICE
D(drop__ocn)(S* out, const S& s, std::size_t i){ new(out) S(s.drop(i)); }
#endif
#ifndef NOSLICE
D(drop_mv__omn)(S* out, S& s, std::size_t i){ new(out) S(std::move(s).drop(i)); }
#endif
D(at__cn)(const S& s, std::size_t i){ s.at(i); }
D(dtor__x)(S& s){ s.~S(); }
D(copy__oc)(S*o, const S& s){ new(o) S(s); }
D(move__om)(S*o, S& s){ new(o) S(std::move(s)); }
D(cassign__mc)(S&o, const S& s){ o=s; }
D(massign__mm)(S&o, S& s){ o=std::move(s); }
D(moved_copy__oom)(S*o, S*p, S& s){ new(o) S(std::move(s)); new(p) S(s); }
D(default__o)(S*o){ new(o) S(); }
#ifndef NOSLICE
D(eq__cc)(const S&a, const S& b){ (void)(a==b); }
#endif
D(iter__c)(const S&a){ for(auto& x:a) Visit{}(x); }
D(t_open__oc)(ST*o, const S& s){ new(o) ST(s.transient()); }
D(t_openmv__om)(ST*o, S& s){ new(o) ST(std::move(s).transient()); }
D(t_push__mv)(ST& s, const T& v){ s.push_back(v); }
D(t_set__mnv)(ST& s, std::size_t i, const T& v){ s.set(i, v); }
D(t_update__mn)(ST& s, std::size_t i){ s.update(i, FnT{}); }
#ifndef NOSLICE
D(t_take__mn)(ST& s, std::size_t i){ s.take(i); }
#endif
#ifndef NOSLICE
D(t_drop__mn)(ST& s, std::size_t i){ s.drop(i); }
#endif
D(t_close__om)(S*o, ST& s){ new(o) S(s.persistent()); }
D(t_closemv__om)(S*o, ST& s){ new(o) S(std::move(s).persistent()); }
D(t_dtor__x)(ST& s){ s.~ST(); }
