#include "probe.hpp"
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
using S = immer::flex_vector<T, MP, 3, 1>;
using ST = S::transient_type;
D(concat__occ)(S* out, const S& a, const S& b){ new(out) S(a + b); }
D(concat_ml__omc)(S* out, S& a, const S& b){ new(out) S(std::move(a) + b); }
D(concat_mr__ocm)(S* out, const S& a, S& b){ new(out) S(a + std::move(b)); }
D(concat_mm__omm)(S* out, S& a, S& b){ new(out) S(std::move(a) + std::move(b)); }
D(t_append__mm)(ST& a, ST& b){ a.append(b); }
D(t_prepend__mm)(ST& a, ST& b){ a.prepend(b); }
