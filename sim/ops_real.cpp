// Operations on real numbers: constants, limits, arithmetic, functions, value plumbing, conversions, text.
#include <e_float/e_float.h>
#include <algorithm>
#include <deque>
#include <iomanip>
#include <sstream>
#include <cinttypes>
#include "ops.h"

extern "C" void sim_apply_env(int what, long val);

namespace
{
  template<const e_float& (*F)()> void konst(Ctx& c) { const e_float& k = F(); R(0) = k; res(c, "&%zx", (size_t) &k); }
  template<const e_float& (*F)()> void konst_nc(Ctx& c) { const e_float& k = F(); res(c, "&%zx", (size_t) &k); }
  template<e_float (*F)(const e_float&)> void fn1(Ctx& c) { R(0) = F(X(1)); }
  template<e_float (*F)(const e_float&, const e_float&)> void fn2(Ctx& c) { R(0) = F(X(1), X(2)); }

  const e_float& nl_min() { return (std::numeric_limits<e_float>::min)(); }
  const e_float& nl_max() { return (std::numeric_limits<e_float>::max)(); }
  const e_float& nl_eps() { return std::numeric_limits<e_float>::epsilon(); }
  const e_float& nl_rnd() { return std::numeric_limits<e_float>::round_error(); }
  const e_float& nl_inf() { return std::numeric_limits<e_float>::infinity(); }
  const e_float& nl_nan() { return std::numeric_limits<e_float>::quiet_NaN(); }

  template<bool (*F)(const e_float&)> void qb(Ctx& c) { const bool b = F(X(0)); res(c, "%d", b ? 1 : 0); }

  void print_with(std::ostream& os, long long flags, int prec, int width, int fill)
  {
    os.flags((std::ios::fmtflags) 0);
    if(flags & 1)  os.setf(std::ios::scientific, std::ios::floatfield);
    if(flags & 2)  os.setf(std::ios::fixed, std::ios::floatfield);
    if(flags & 4)  os.setf(std::ios::showpos);
    if(flags & 8)  os.setf(std::ios::showpoint);
    if(flags & 16) os.setf(std::ios::uppercase);
    if(flags & 32) os.setf(std::ios::left, std::ios::adjustfield);
    if(flags & 64) os.setf(std::ios::right, std::ios::adjustfield);
    if(flags & 128) os.setf(std::ios::internal, std::ios::adjustfield);
    os.precision(prec); os.width(width); os.fill((char) fill);
  }

  const OpDef defs[] __attribute__((init_priority(101))) =
  {
    // ---- constants handed out by reference: value and identity
    #define K(n) { "k_" #n, "R", konst<ef::n> }, { "kc_" #n, "", konst_nc<ef::n> }
    K(two), K(three), K(four), K(five), K(six), K(seven), K(eight), K(nine), K(ten), K(fifty), K(hundred), K(thousand), K(million),
    K(billion), K(trillion), K(googol), K(int64_min), K(int64_max), K(int32_min), K(int32_max), K(unsigned_long_long_max),
    K(signed_long_long_max), K(signed_long_long_min), K(double_min), K(double_max), K(long_double_min), K(long_double_max), K(one_minus),
    K(tenth), K(eighth), K(fifth), K(quarter), K(third), K(two_third), K(three_half), K(sqrt2), K(pi), K(pi_half), K(pi_squared), K(two_pi),
    K(sqrt_pi), K(e), K(ln2), K(ln10), K(phi), K(euler_gamma), K(catalan), K(khinchin), K(glaisher),
    K(zero), K(one), K(half), K(value_min), K(value_max), K(value_eps), K(value_inf), K(value_nan),
    #undef K
    { "k_nl_min", "R", konst<nl_min> }, { "k_nl_max", "R", konst<nl_max> }, { "k_nl_eps", "R", konst<nl_eps> }, { "k_nl_rnd", "R", konst<nl_rnd> },
    { "k_nl_inf", "R", konst<nl_inf> }, { "k_nl_nan", "R", konst<nl_nan> },
    { "kc_nl_min", "", konst_nc<nl_min> }, { "kc_nl_max", "", konst_nc<nl_max> }, { "kc_nl_eps", "", konst_nc<nl_eps> },
    { "kc_nl_inf", "", konst_nc<nl_inf> }, { "kc_nl_nan", "", konst_nc<nl_nan> },
    { "k_vmax_of", "Rr", [](Ctx& c) { const e_float& k = X(1).my_value_max(); R(0) = k; res(c, "&%zx", (size_t) &k); } },
    { "k_vmin_of", "Rr", [](Ctx& c) { const e_float& k = X(1).my_value_min(); R(0) = k; res(c, "&%zx", (size_t) &k); } },
    { "k_vnan_of", "Rr", [](Ctx& c) { const e_float& k = X(1).my_value_nan(); R(0) = k; res(c, "&%zx", (size_t) &k); } },
    { "k_vinf_of", "Rr", [](Ctx& c) { const e_float& k = X(1).my_value_inf(); R(0) = k; res(c, "&%zx", (size_t) &k); } },
    { "tolerance", "", [](Ctx& c) { res(c, "%lld", (long long) ef::tolerance()); } },
    { "max_iteration", "", [](Ctx& c) { res(c, "%d", (int) ef::max_iteration()); } },

    // ---- unary functions
    #define F1(n) { #n, "Rr", fn1<ef::n> }
    F1(fabs), F1(floor), F1(ceil), F1(abs), F1(real), F1(imag), F1(integer_part), F1(decimal_part), F1(inv), F1(sqrt), F1(cbrt), F1(exp), F1(log), F1(log10),
    F1(log1p), F1(log1p1m2), F1(sin), F1(cos), F1(tan), F1(csc), F1(sec), F1(cot), F1(asin), F1(acos), F1(atan), F1(sinh), F1(cosh),
    F1(tanh), F1(asinh), F1(acosh), F1(atanh), F1(hypergeometric_0f0), F1(gamma),
    #undef F1
    { "zeta", "Rr", [](Ctx& c) { R(0) = ef::riemann_zeta(X(1)); } },
    { "neg", "Rr", [](Ctx& c) { R(0) = -X(1); } },
    { "pos", "Rr", [](Ctx& c) { R(0) = +X(1); } },
    { "sincos", "RRr", [](Ctx& c) { ef::sincos(X(2), &R(0), &R(1)); } },
    { "sincos_s", "Rr", [](Ctx& c) { ef::sincos(X(1), &R(0), nullptr); } },
    { "sincos_c", "Rr", [](Ctx& c) { ef::sincos(X(1), nullptr, &R(0)); } },
    { "sinhcosh", "RRr", [](Ctx& c) { ef::sinhcosh(X(2), &R(0), &R(1)); } },
    { "frexp", "Rr", [](Ctx& c) { int e = 0; R(0) = ef::frexp(X(1), &e); res(c, "%d", e); } },
    { "ldexp", "Rri", [](Ctx& c) { R(0) = ef::ldexp(X(1), (int) I(2)); } },
    { "pow2", "Ri", [](Ctx& c) { R(0) = ef::pow2(I(1)); } },
    { "rootn", "Rri", [](Ctx& c) { R(0) = ef::rootn(X(1), (std::int32_t) I(2)); } },
    { "rootn_inverse", "Rri", [](Ctx& c) { R(0) = ef::rootn_inverse(X(1), (std::int32_t) I(2)); } },
    { "pown", "Rri", [](Ctx& c) { R(0) = ef::pow(X(1), (std::int64_t) I(2)); } },
    { "factorial", "Ru", [](Ctx& c) { R(0) = ef::factorial((std::uint32_t) U(1)); } },
    { "factorial2", "Ri", [](Ctx& c) { R(0) = ef::factorial2((std::int32_t) I(1)); } },
    { "binomial_uu", "Ruu", [](Ctx& c) { R(0) = ef::binomial((std::uint32_t) U(1), (std::uint32_t) U(2)); } },
    { "binomial_ur", "Rur", [](Ctx& c) { R(0) = ef::binomial((std::uint32_t) U(1), X(2)); } },
    { "binomial_ru", "Rru", [](Ctx& c) { R(0) = ef::binomial(X(1), (std::uint32_t) U(2)); } },
    { "binomial_rr", "Rrr", [](Ctx& c) { R(0) = ef::binomial(X(1), X(2)); } },
    { "pochhammer_n", "Rru", [](Ctx& c) { R(0) = ef::pochhammer(X(1), (std::uint32_t) U(2)); } },
    { "pochhammer", "Rrr", [](Ctx& c) { R(0) = ef::pochhammer(X(1), X(2)); } },
    { "bernoulli", "Ru", [](Ctx& c) { R(0) = ef::bernoulli((std::uint32_t) U(1)); } },
    { "bernoulli_table", "Vu", [](Ctx& c) { ef::bernoulli_table(V(0), (std::uint32_t) U(1)); } },
    { "zeta_n", "Ri", [](Ctx& c) { R(0) = ef::riemann_zeta((std::int32_t) I(1)); } },
    { "gamma_near_n", "Rir", [](Ctx& c) { R(0) = ef::gamma_near_n((std::int32_t) I(1), X(2)); } },
    { "primes", "u", [](Ctx& c) { std::deque<std::uint32_t> d; ef::prime((std::uint32_t) U(0), d); rt::Quiet q; unsigned long long h = 5381; for(std::uint32_t p : d) h = h * 33 + p; res(c, "%zu:%llx", d.size(), h); } },

    // ---- binary functions
    #define F2(n) { #n, "Rrr", fn2<ef::n> }
    F2(fmod), F2(loga), F2(pow), F2(atan2), F2(hypergeometric_0f1), F2(hypergeometric_1f0),
    #undef F2
    { "h1f1", "Rrrr", [](Ctx& c) { R(0) = ef::hypergeometric_1f1(X(1), X(2), X(3)); } },
    { "h2f0", "Rrrr", [](Ctx& c) { R(0) = ef::hypergeometric_2f0(X(1), X(2), X(3)); } },
    { "h2f1", "Rrrrr", [](Ctx& c) { R(0) = ef::hypergeometric_2f1(X(1), X(2), X(3), X(4)); } },
    { "hpfq", "Rrrrr", [](Ctx& c) { const std::deque<e_float> a(1, X(1)); std::deque<e_float> b; b.push_back(X(2)); b.push_back(X(3)); R(0) = ef::hypergeometric_pfq(a, b, X(4)); } },
    { "add", "Rrr", [](Ctx& c) { R(0) = X(1) + X(2); } },
    { "sub", "Rrr", [](Ctx& c) { R(0) = X(1) - X(2); } },
    { "mul", "Rrr", [](Ctx& c) { R(0) = X(1) * X(2); } },
    { "div", "Rrr", [](Ctx& c) { R(0) = X(1) / X(2); } },
    { "add_i", "Rri", [](Ctx& c) { R(0) = X(1) + I(2); } },
    { "sub_i", "Rri", [](Ctx& c) { R(0) = X(1) - I(2); } },
    { "mul_i", "Rri", [](Ctx& c) { R(0) = X(1) * I(2); } },
    { "div_i", "Rri", [](Ctx& c) { R(0) = X(1) / I(2); } },
    { "i_add", "Rir", [](Ctx& c) { R(0) = I(1) + X(2); } },
    { "i_sub", "Rir", [](Ctx& c) { R(0) = I(1) - X(2); } },
    { "i_mul", "Rir", [](Ctx& c) { R(0) = I(1) * X(2); } },
    { "i_div", "Rir", [](Ctx& c) { R(0) = I(1) / X(2); } },
    { "add_u", "Rru", [](Ctx& c) { R(0) = X(1) + U(2); } },
    { "sub_u", "Rru", [](Ctx& c) { R(0) = X(1) - U(2); } },
    { "mul_u", "Rru", [](Ctx& c) { R(0) = X(1) * U(2); } },
    { "div_u", "Rru", [](Ctx& c) { R(0) = X(1) / U(2); } },
    { "add_d", "Rrd", [](Ctx& c) { R(0) = X(1) + D(2); } },
    { "sub_d", "Rrd", [](Ctx& c) { R(0) = X(1) - D(2); } },
    { "mul_d", "Rrd", [](Ctx& c) { R(0) = X(1) * D(2); } },
    { "div_d", "Rrd", [](Ctx& c) { R(0) = X(1) / D(2); } },
    { "d_sub", "Rdr", [](Ctx& c) { R(0) = D(1) - X(2); } },
    { "d_div", "Rdr", [](Ctx& c) { R(0) = D(1) / X(2); } },

    // ---- compound operations
    { "iadd", "Mr", [](Ctx& c) { R(0) += X(1); } },
    { "isub", "Mr", [](Ctx& c) { R(0) -= X(1); } },
    { "imul", "Mr", [](Ctx& c) { R(0) *= X(1); } },
    { "idiv", "Mr", [](Ctx& c) { R(0) /= X(1); } },
    { "iadd_i", "Mi", [](Ctx& c) { R(0) += I(1); } },
    { "isub_i", "Mi", [](Ctx& c) { R(0) -= I(1); } },
    { "imul_i", "Mi", [](Ctx& c) { R(0) *= I(1); } },
    { "idiv_i", "Mi", [](Ctx& c) { R(0) /= I(1); } },
    { "iadd_u", "Mu", [](Ctx& c) { R(0) += U(1); } },
    { "isub_u", "Mu", [](Ctx& c) { R(0) -= U(1); } },
    { "imul_u", "Mu", [](Ctx& c) { R(0) *= U(1); } },
    { "idiv_u", "Mu", [](Ctx& c) { R(0) /= U(1); } },
    { "iadd_d", "Md", [](Ctx& c) { R(0) += D(1); } },
    { "imul_d", "Md", [](Ctx& c) { R(0) *= D(1); } },
    { "preinc", "M", [](Ctx& c) { ++R(0); } },
    { "predec", "M", [](Ctx& c) { --R(0); } },
    { "postinc", "RM", [](Ctx& c) { R(0) = R(1)++; } },
    { "postdec", "RM", [](Ctx& c) { R(0) = R(1)--; } },
    { "negate", "M", [](Ctx& c) { R(0).negate(); } },
    { "calc_inv", "M", [](Ctx& c) { R(0).calculate_inv(); } },
    { "calc_sqrt", "M", [](Ctx& c) { R(0).calculate_sqrt(); } },

    // ---- value plumbing
    { "default", "R", [](Ctx& c) { R(0) = e_float(); } },
    { "copy", "Rr", [](Ctx& c) { R(0) = X(1); } },
    { "copyctor", "Rr", [](Ctx& c) { const e_float t(X(1)); R(0) = t; } },
    { "move", "RQ", [](Ctx& c) { R(0) = static_cast<e_float&&>(R(1)); } },
    { "movector", "RQ", [](Ctx& c) { e_float t(static_cast<e_float&&>(R(1))); R(0) = t; } },
    { "movector2", "RQ", [](Ctx& c) { e_float t(static_cast<e_float&&>(R(1))); e_float t2(static_cast<e_float&&>(t)); t = e_float(7); R(0) = static_cast<e_float&&>(t2); } },
    { "selfassign", "M", [](Ctx& c) { const e_float& a = R(0); R(0) = a; } },
    { "selfmove", "M", [](Ctx& c) { e_float& a = R(0); R(0) = static_cast<e_float&&>(a); } },
    { "swapm", "MM", [](Ctx& c) { R(0).swap(R(1)); } },
    { "swaps", "MM", [](Ctx& c) { std::swap(R(0), R(1)); } },
    { "baseassign", "Rr", [](Ctx& c) { e_float_base& b = R(0); b = X(1); } },
    { "vpush", "Vr", [](Ctx& c) { V(0).push_back(X(1)); } },
    { "vset", "Vir", [](Ctx& c) { V(0).assign((size_t) I(1), X(2)); } },
    { "vinsert", "Vr", [](Ctx& c) { V(0).insert(V(0).begin(), X(1)); } },
    { "verase", "V", [](Ctx& c) { if(!V(0).empty()) V(0).erase(V(0).begin()); } },
    { "vresize", "Vi", [](Ctx& c) { V(0).resize((size_t) I(1)); } },
    { "vshrink", "V", [](Ctx& c) { V(0).shrink_to_fit(); } },
    { "vsort", "V", [](Ctx& c) { std::sort(V(0).begin(), V(0).end()); } },
    { "vrotate", "V", [](Ctx& c) { if(!V(0).empty()) std::rotate(V(0).begin(), V(0).begin() + (std::ptrdiff_t) (V(0).size() / 2), V(0).end()); } },
    { "vget", "Rvi", [](Ctx& c) { if(V(1).empty()) R(0) = e_float(0); else R(0) = V(1)[(size_t) I(2) % V(1).size()]; } },
    { "vcopy", "Vv", [](Ctx& c) { V(0) = V(1); } },
    { "vclear", "V", [](Ctx& c) { V(0).clear(); } },

    // ---- construction
    { "lit", "RL", [](Ctx& c) { const std::string s(L(1)); typedef std::numeric_limits<e_float> N;
        if(s == "inf") R(0) = N::infinity(); else if(s == "-inf") R(0) = -N::infinity(); else if(s == "nan") R(0) = N::quiet_NaN(); else R(0) = e_float(L(1)); } },
    { "litstr", "RL", [](Ctx& c) { const std::string s(L(1)); R(0) = e_float(s); } },
    { "from_i", "Ri", [](Ctx& c) { R(0) = e_float(I(1)); } },
    { "from_u", "Ru", [](Ctx& c) { R(0) = e_float(U(1)); } },
    { "from_d", "Rd", [](Ctx& c) { R(0) = e_float(D(1)); } },
    { "from_ld", "Rd", [](Ctx& c) { R(0) = e_float((long double) D(1)); } },
    { "assign_i", "Ri", [](Ctx& c) { R(0) = (int) I(1); } },
    { "mantexp", "Rdi", [](Ctx& c) { R(0) = e_float(D(1), (std::int64_t) I(2)); } },
    { "precision", "Mi", [](Ctx& c) { R(0).precision((std::int32_t) I(1)); } },
    { "precision_tmp", "ri", [](Ctx& c) { e_float t(X(0)); t.precision((std::int32_t) I(1)); t *= t; } },

    // ---- queries and conversions
    { "q_isnan", "r", qb<ef::isnan> }, { "q_isinf", "r", qb<ef::isinf> }, { "q_isfinite", "r", qb<ef::isfinite> }, { "q_isneg", "r", qb<ef::isneg> },
    { "q_ispos", "r", qb<ef::ispos> }, { "q_isint", "r", qb<ef::isint> }, { "q_isone", "r", qb<ef::isone> }, { "q_iszero", "r", qb<ef::iszero> },
    { "q_small", "r", qb<ef::small_arg> }, { "q_large", "r", qb<ef::large_arg> }, { "q_near1", "r", qb<ef::near_one> }, { "q_nearint", "r", qb<ef::near_int> },
    { "q_sgn", "r", [](Ctx& c) { const int v = ef::sgn(X(0)); res(c, "%d", v); } },
    { "q_order", "r", [](Ctx& c) { const long long v = ef::order_of(X(0)); res(c, "%lld", v); } },
    { "q_double", "r", [](Ctx& c) { const double v = ef::to_double(X(0)); res(c, "%a", v); } },
    { "q_ldouble", "r", [](Ctx& c) { const long double v = X(0).extract_long_double(); res(c, "%La", v); } },
    { "q_int64", "r", [](Ctx& c) { const long long v = ef::to_int64(X(0)); res(c, "%lld", v); } },
    { "q_int32", "r", [](Ctx& c) { const long long v = ef::to_int32(X(0)); res(c, "%lld", v); } },
    { "q_sll", "r", [](Ctx& c) { const long long v = X(0).extract_signed_long_long(); res(c, "%lld", v); } },
    { "q_ull", "r", [](Ctx& c) { const unsigned long long v = X(0).extract_unsigned_long_long(); res(c, "%llu", v); } },
    { "q_parts", "r", [](Ctx& c) { double m = 0; std::int64_t e = 0; ef::to_parts(X(0), m, e); res(c, "%a:%lld", m, (long long) e); } },
    { "q_cmp", "rr", [](Ctx& c) { const int v = X(0).cmp(X(1)); res(c, "%d", v); } },
    { "q_rel", "rr", [](Ctx& c) { const int v = (X(0) < X(1)) | ((X(0) <= X(1)) << 1) | ((X(0) == X(1)) << 2) | ((X(0) != X(1)) << 3) | ((X(0) >= X(1)) << 4) | ((X(0) > X(1)) << 5); res(c, "%d", v); } },
    { "q_rel_i", "ri", [](Ctx& c) { const int v = (X(0) < I(1)) | ((X(0) == I(1)) << 1) | ((I(1) > X(0)) << 2); res(c, "%d", v); } },
    { "q_rel_d", "rd", [](Ctx& c) { const int v = (X(0) < D(1)) | ((X(0) == D(1)) << 1) | ((D(1) > X(0)) << 2); res(c, "%d", v); } },

    // ---- text
    { "print", "Sriiii", [](Ctx& c) { std::ostringstream os; os.exceptions(std::ios::badbit); print_with(os, I(2), (int) I(3), (int) I(4), (int) I(5)); os << X(1); S(0) = os.str(); } },
    { "wrstr", "Sriiii", [](Ctx& c) { std::ostringstream os; print_with(os, I(2), (int) I(3), (int) I(4), (int) I(5)); std::string t; X(1).wr_string(t, os); S(0) = t; } },
    { "parse", "Rs", [](Ctx& c) { R(0) = e_float(S(1).c_str()); } },
    { "readstr", "Rs", [](Ctx& c) { std::istringstream is(S(1)); is.exceptions(std::ios::badbit); if(!(is >> R(0))) R(0) = e_float(0); } },
    { "read2", "RRs", [](Ctx& c) { std::istringstream is(S(2)); is.exceptions(std::ios::badbit); is >> R(0) >> R(1); } },
    { "sset", "SL", [](Ctx& c) { S(0) = L(1); } },
    { "scat", "SL", [](Ctx& c) { S(0) += L(1); } },

    // ---- environment and scheduling
    { "env", "ii", [](Ctx& c) { rt::Quiet q; sim_apply_env((int) I(0), (long) I(1)); } },
    { "yield", "", [](Ctx&) { rt::yield_now(); } },
    { "nop", "", [](Ctx&) { } }
  };
  OpReg reg __attribute__((init_priority(101)))(defs, (int) (sizeof defs / sizeof defs[0]));
}
