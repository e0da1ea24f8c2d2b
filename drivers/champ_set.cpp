#include "probe.hpp"
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
using S = immer::set<T, H, E, MP>;
using ST = S::transient_type;
D(insert__ocv)(S* out, const S& s, const T& v){ new(out) S(s.insert(v)); }
D(insert_mv__omv)(S* out, S& s, const T& v){ new(out) S(std::move(s).insert(v)); }
D(erase__ocv)(S* out, const S& s, const T& v){ new(out) S(s.erase(v)); }
D(erase_mv__omv)(S* out, S& s, const T& v){ new(out) S(std::move(s).erase(v)); }
D(dtor__x)(S& s){ s.~S(); }
D(copy__oc)(S*o, const S& s){ new(o) S(s); }
D(move__om)(S*o, S& s){ new(o) S(std::move(s)); }
D(cassign__mc)(S&o, const S& s){ o=s; }
D(massign__mm)(S&o, S& s){ o=std::move(s); }
D(selfassign__m)(S&o){ S& p = o; o=p; }
D(find__cv)(const S& s, const T& v){ s.find(v); }
D(count__cv)(const S& s, const T& v){ s.count(v); }
D(default__o)(S*o){ new(o) S(); }
D(eq__cc)(const S&a, const S& b){ (void)(a==b); }
D(iter__c)(const S&a){ for(auto& x:a) Visit{}(x); }
D(moved_copy__oom)(S*o, S*p, S& s){ new(o) S(std::move(s)); new(p) S(s); }
D(t_open__oc)(ST*o, const S& s){ new(o) ST(s.transient()); }
D(t_openmv__om)(ST*o, S& s){ new(o) ST(std::move(s).transient()); }
D(t_copy__oc)(ST*o, const ST& s){ new(o) ST(s); }
D(t_insert__mv)(ST& s, const T& v){ s.insert(v); }
D(t_erase__mv)(ST& s, const T& v){ s.erase(v); }
D(t_close__om)(S*o, ST& s){ new(o) S(s.persistent()); }
D(t_closemv__om)(S*o, ST& s){ new(o) S(std::move(s).persistent()); }
D(t_dtor__x)(ST& s){ s.~ST(); }
