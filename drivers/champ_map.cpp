#include "probe.hpp"
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
using S = immer::map<T, U, H, E, MP>;
using ST = S::transient_type;
D(insert__ocv)(S* out, const S& s, const S::value_type& v){ new(out) S(s.insert(v)); }
D(insert_mv__omv)(S* out, S& s, const S::value_type& v){ new(out) S(std::move(s).insert(v)); }
D(set__ocvv)(S* out, const S& s, const T& k, const U& v){ new(out) S(s.set(k, v)); }
D(set_mv__omvv)(S* out, S& s, const T& k, const U& v){ new(out) S(std::move(s).set(k, v)); }
D(update__ocv)(S* out, const S& s, const T& k){ new(out) S(s.update(k, FnU{})); }
D(update_mv__omv)(S* out, S& s, const T& k){ new(out) S(std::move(s).update(k, FnU{})); }
D(updateif__ocv)(S* out, const S& s, const T& k){ new(out) S(s.update_if_exists(k, FnU{})); }
D(updateif_mv__omv)(S* out, S& s, const T& k){ new(out) S(std::move(s).update_if_exists(k, FnU{})); }
D(erase__ocv)(S* out, const S& s, const T& v){ new(out) S(s.erase(v)); }
D(erase_mv__omv)(S* out, S& s, const T& v){ new(out) S(std::move(s).erase(v)); }
D(dtor__x)(S& s){ s.~S(); }
D(copy__oc)(S*o, const S& s){ new(o) S(s); }
D(move__om)(S*o, S& s){ new(o) S(std::move(s)); }
D(cassign__mc)(S&o, const S& s){ o=s; }
D(massign__mm)(S&o, S& s){ o=std::move(s); }
D(find__cv)(const S& s, const T& v){ s.find(v); }
D(at__cv)(const S& s, const T& v){ s.at(v); }
D(index__cv)(const S& s, const T& v){ s[v]; }
D(count__cv)(const S& s, const T& v){ s.count(v); }
D(default__o)(S*o){ new(o) S(); }
D(eq__cc)(const S&a, const S& b){ (void)(a==b); }
D(iter__c)(const S&a){ for(auto& x:a) Visit{}(x.first); }
D(t_open__oc)(ST*o, const S& s){ new(o) ST(s.transient()); }
D(t_openmv__om)(ST*o, S& s){ new(o) ST(std::move(s).transient()); }
D(t_insert__mv)(ST& s, const S::value_type& v){ s.insert(v); }
D(t_set__mvv)(ST& s, const T& v, const U& u){ s.set(v, u); }
D(t_update__mv)(ST& s, const T& v){ s.update(v, FnU{}); }
D(t_updateif__mv)(ST& s, const T& v){ s.update_if_exists(v, FnU{}); }
D(t_erase__mv)(ST& s, const T& v){ s.erase(v); }
D(t_close__om)(S*o, ST& s){ new(o) S(s.persistent()); }
D(t_closemv__om)(S*o, ST& s){ new(o) S(std::move(s).persistent()); }
D(t_dtor__x)(ST& s){ s.~ST(); }
