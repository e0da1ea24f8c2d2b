#include "probe.hpp"
#include <immer/box.hpp>
using B = immer::box<T, MP>;
D(make__ov)(B* out, const T& v){ new(out) B(v); }
D(default__o)(B* out){ new(out) B(); }
D(args__on)(B* out, int n){ new(out) B(n); }
D(update__oc)(B* out, const B& s){ new(out) B(s.update(FnT{})); }
D(update_mv__om)(B* out, B& s){ new(out) B(std::move(s).update(FnT{})); }
D(dtor__x)(B& s){ s.~B(); }
D(copy__oc)(B*o, const B& s){ new(o) B(s); }
D(move__om)(B*o, B& s){ new(o) B(std::move(s)); }
D(cassign__mc)(B&o, const B& s){ o=s; }
D(massign__mm)(B&o, B& s){ o=std::move(s); }
D(moved_copy__oom)(B*o, B*p, B& s){ new(o) B(std::move(s)); new(p) B(s); }
D(moved_assign__om)(B*o, B& s){ new(o) B(std::move(s)); s = *o; }
D(moved_assignfrom__omm)(B*o, B& s, B& t){ new(o) B(std::move(s)); t = s; }
D(moved_update__om)(B*o, B& s){ B t(std::move(s)); }
D(get__c)(const B& s){ s.get(); }
D(eq__cc)(const B&a, const B& b){ (void)(a==b); }
D(lt__cc)(const B&a, const B& b){ (void)(a==b); }
