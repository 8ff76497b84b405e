// Operations that reach the library's tables by reference and its utility templates.
#include <e_float/e_float.h>
#include <algorithm>
#include <array>
#include <complex>
#include <deque>
#include <map>
#include <numeric>
#include <functions/gamma/gamma_util.h>
#include <functions/integer/prime_factors.h>
#include <functions/tables/tables.h>
#include <utility/util_alternating_sum.h>
#include <utility/util_coefficient_expansion.h>
#include <utility/util_digit_scale.h>
#include <utility/util_dynamic_array.h>
#include <utility/util_interpolate.h>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <utility/util_point.h>
#include <utility/util_power_j_pow_x.h>
#include "ops.h"

namespace
{
  template<const std::vector<Tables::pfn_efloat>& (*F)()> void entry(Ctx& c)
  {
    const std::vector<Tables::pfn_efloat>& t = F();
    const e_float& k = t[(size_t) I(1) % t.size()]();
    R(0) = k;
    res(c, "%zu &%zx", t.size(), (size_t) &k);
  }

  typedef util::dynamic_array<std::uint32_t> DA;
  void show(Ctx& c, const DA& d)
  {
    unsigned long long h = 5381;
    for(DA::size_type i = 0; i < d.size(); ++i) h = h * 33 + d[i];
    res(c, "%zu:%llx", (size_t) d.size(), h);
  }

  const OpDef defs[] __attribute__((init_priority(101))) =
  {
    // ---- entries of the tables behind factorials, Bernoulli numbers and binomials
    { "t_A000142", "Ri", entry<Tables::A000142> }, { "t_A000367", "Ri", entry<Tables::A000367> },
    { "t_A002445", "Ri", entry<Tables::A002445> }, { "t_A006882", "Ri", entry<Tables::A006882> },
    { "t_A007318", "Rii", [](Ctx& c) { const std::vector<Tables::pfn_vector_efloat>& t = Tables::A007318(); const std::vector<e_float>& v = t[(size_t) I(1) % t.size()]();
        const e_float& k = v[(size_t) I(2) % v.size()]; R(0) = k; res(c, "%zu %zu &%zx", t.size(), v.size(), (size_t) &k); } },
    { "digit_scale", "", [](Ctx& c) { const double& d = Util::DigitScale(); res(c, "%a &%zx", d, (size_t) &d); } },

    // ---- integers
    { "factors", "u", [](Ctx& c) { std::deque<Util::point<std::uint32_t>> pf; ef::prime_factors((std::uint32_t) U(0), pf);
        rt::Quiet q; std::string s; for(const auto& p : pf) s += std::to_string(p.x) + "^" + std::to_string(p.y) + " "; res(c, "%s", s.c_str()); } },
    { "factors_big", "u", [](Ctx& c) { std::deque<Util::point<std::uint32_t>> pf; ef::prime_factors((std::uint32_t) U(0), pf);
        rt::Quiet q; std::string s; for(const auto& p : pf) s += std::to_string(p.x) + "^" + std::to_string(p.y) + " "; res(c, "%s", s.c_str()); } },
    { "jpow", "RRruu", [](Ctx& c) { std::map<std::uint32_t, e_float> m; const e_float x(X(2)); R(0) = Util::j_pow_x((std::uint32_t) U(3), x, m); R(1) = Util::j_pow_x((std::uint32_t) U(4), x, m); } },
    { "zjpow", "Zzuu", [](Ctx& c) { std::map<std::uint32_t, cplx> m; const cplx x(ZX(1)); const cplx a(Util::j_pow_x((std::uint32_t) U(2), x, m)); Z(0) = a + Util::j_pow_x((std::uint32_t) U(3), x, m); } },
    { "gamma_pm", "RRr", [](Ctx& c) { GammaUtil::GammaOfPlusXMinusX(X(2), R(0), R(1)); } },

    { "bernoulli_big", "Ru", [](Ctx& c) { R(0) = ef::bernoulli((std::uint32_t) U(1)); } },
    { "factorial_big", "Ru", [](Ctx& c) { R(0) = ef::factorial((std::uint32_t) U(1)); } },
    { "factorial2_big", "Ri", [](Ctx& c) { R(0) = ef::factorial2((std::int32_t) I(1)); } },
    { "binomial_big", "Ruu", [](Ctx& c) { R(0) = ef::binomial((std::uint32_t) U(1), (std::uint32_t) U(2)); } },
    { "pown_big", "Rri", [](Ctx& c) { R(0) = ef::pow(X(1), (std::int64_t) I(2)); } },
    { "ldexp_big", "Rri", [](Ctx& c) { R(0) = ef::ldexp(X(1), (int) I(2)); } },
    { "pow2_big", "Ri", [](Ctx& c) { R(0) = ef::pow2(I(1)); } },
    { "atan2_any", "Rrr", [](Ctx& c) { R(0) = ef::atan2(X(1), X(2)); } },

    // ---- helpers over sequences of numbers
    { "interpol", "Rrv", [](Ctx& c) {
        std::vector<Util::point<e_float>> p; const std::vector<e_float>& v = V(2);
        for(std::size_t i = 0; i + 1 < v.size(); i += 2) p.push_back(Util::point<e_float>(e_float((int) i), v[i] + v[i + 1]));
        R(0) = Util::linear_interpolate<e_float>::interpolate(X(1), p); } },
    { "expand", "Rrv", [](Ctx& c) { const e_float x(X(1)); R(0) = std::accumulate(V(2).begin(), V(2).end(), e_float(0), Util::coefficient_expansion<e_float>(x)); } },
    { "altsum", "Rv", [](Ctx& c) { R(0) = std::accumulate(V(1).begin(), V(1).end(), e_float(0), Util::alternating_sum<e_float>()); } },
    { "zexpand", "Zzv", [](Ctx& c) { const cplx x(ZX(1)); Z(0) = std::accumulate(V(2).begin(), V(2).end(), cplx(0), Util::coefficient_expansion<cplx>(x)); } },
    { "vinit", "Vrr", [](Ctx& c) { const std::vector<e_float> t { X(1), X(2), e_float(1), X(1) * X(2) }; V(0) = t; } },
    { "varray", "Vrr", [](Ctx& c) { std::array<e_float, 3U> t {{ X(1), X(2), X(1) - X(2) }}; const std::array<e_float, 3U> u(t); t.fill(e_float(0)); V(0).assign(u.begin(), u.end()); } },
    { "vmovecat", "Vv", [](Ctx& c) { std::vector<e_float> t(V(1)); std::move(t.begin(), t.end(), std::back_inserter(V(0))); if(V(0).size() > 40U) V(0).resize(40U); } },
    { "vaccum", "Rv", [](Ctx& c) { R(0) = std::accumulate(V(1).begin(), V(1).end(), e_float(0)); } },
    { "vinner", "Rvv", [](Ctx& c) { R(0) = std::inner_product(V(1).begin(), V(1).begin() + (std::ptrdiff_t) (std::min)(V(1).size(), V(2).size()), V(2).begin(), e_float(0)); } },
    { "vminmax", "RRv", [](Ctx& c) { if(V(2).empty()) { R(0) = e_float(0); R(1) = e_float(0); } else { const auto p = std::minmax_element(V(2).begin(), V(2).end()); const e_float a(*p.first), b(*p.second); R(0) = a; R(1) = b; } } },

    // ---- text and built-in types
    { "lexcast", "Si", [](Ctx& c) { S(0) = Util::lexical_cast((std::int64_t) I(1)); } },
    { "numcast", "SL", [](Ctx& c) { const std::string t(L(1)); S(0) = Util::lexical_cast(Util::numeric_cast<std::int64_t>(t)) + "," + Util::lexical_cast(Util::numeric_cast<std::uint16_t>(t)); } },
    { "from_all", "Ri", [](Ctx& c) { e_float t((signed char) I(1)); t += e_float((unsigned char) I(1)); t += e_float((short) I(1)); t += e_float((unsigned short) I(1)); t += e_float((int) I(1)); t += e_float((unsigned) I(1));
        t += e_float((long) I(1)); t += e_float((unsigned long) I(1)); t += e_float((long long) I(1)); t += e_float((unsigned long long) I(1)); t += e_float((float) I(1)); R(0) = t; } },
    { "zfrom_i", "Zi", [](Ctx& c) { Z(0) = cplx((std::int64_t) I(1)); } },
    { "zfrom_d", "Zd", [](Ctx& c) { Z(0) = cplx(D(1)); } },

    // ---- the limb container
    { "da_copy", "uu", [](Ctx& c) { DA a((DA::size_type) (U(0) % 50U), (std::uint32_t) U(1)); if(!a.empty()) a.front() = 7U; DA b(a); DA d; d = b; d = static_cast<DA&&>(b); b = a; b.swap(d); if(b != a) d.fill(3U); show(c, b); } },
    { "da_range", "uu", [](Ctx& c) { DA a((DA::size_type) (1U + U(0) % 50U)); std::iota(a.begin(), a.end(), (std::uint32_t) U(1)); const DA b(a.rbegin(), a.rend()); DA d { 1U, 2U, 3U }; d = b; const DA e(static_cast<DA&&>(d)); d = a; show(c, b < a ? e : d); } },
  };
  OpReg reg __attribute__((init_priority(101)))(defs, (int) (sizeof defs / sizeof defs[0]));
}
