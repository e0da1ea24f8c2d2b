#include "probe.hpp"
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
struct KeyOf
{
    const T& operator()(const T& x) const { return x; }
    T operator()(T x, const T&) const { return x; }
};
using S = immer::table<T, KeyOf, H, E, MP>;
using ST = S::transient_type;
D(insert__ocv)(S* out, const S& s, const T& v){ new(out) S(s.insert(v)); }
D(insert_mv__omv)(S* out, S& s, const T& v){ new(out) S(std::move(s).insert(v)); }
D(update__ocv)(S* out, const S& s, const T& k){ new(out) S(s.update(k, FnT{})); }
D(update_mv__omv)(S* out, S& s, const T& k){ new(out) S(std::move(s).update(k, FnT{})); }
D(updateif__ocv)(S* out, const S& s, const T& k){ new(out) S(s.update_if_exists(k, FnT{})); }
D(updateif_mv__omv)(S* out, S& s, const T& k){ new(out) S(std::move(s).update_if_exists(k, FnT{})); }
D(erase__ocv)(S* out, const S& s, const T& v){ new(out) S(s.erase(v)); }
D(erase_mv__omv)(S* out, S& s, const T& v){ new(out) S(std::move(s).erase(v)); }
D(dtor__x)(S& s){ s.~S(); }
D(copy__oc)(S*o, const S& s){ new(o) S(s); }
D(cassign__mc)(S&o, const S& s){ o=s; }
D(find__cv)(const S& s, const T& v){ s.find(v); }
D(at__cv)(const S& s, const T& v){ s.at(v); }
D(index__cv)(const S& s, const T& v){ s[v]; }
D(eq__cc)(const S&a, const S& b){ (void)(a==b); }
D(t_open__oc)(ST*o, const S& s){ new(o) ST(s.transient()); }
D(t_openmv__om)(ST*o, S& s){ new(o) ST(std::move(s).transient()); }
D(t_insert__mv)(ST& s, const T& v){ s.insert(v); }
D(t_update__mv)(ST& s, const T& v){ s.update(v, FnT{}); }
D(t_updateif__mv)(ST& s, const T& v){ s.update_if_exists(v, FnT{}); }
D(t_erase__mv)(ST& s, const T& v){ s.erase(v); }
D(t_close__om)(S*o, ST& s){ new(o) S(s.persistent()); }
D(t_closemv__om)(S*o, ST& s){ new(o) S(std::move(s).persistent()); }
D(t_dtor__x)(ST& s){ s.~ST(); }
