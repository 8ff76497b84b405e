// Operations on Boost.Multiprecision numbers over this library's binding.
#include <e_float/e_float.h>
#include <boost/math/bindings/e_float.hpp>
#include <sstream>
#include <iomanip>
#include "ops.h"

typedef boost::multiprecision::number<boost::math::ef::e_float, boost::multiprecision::et_on> bnum;

void* boost_new() { return new bnum(); }
void  boost_del(void* p) { delete (bnum*) p; }
void* boost_clone(const void* p) { return new bnum(*(const bnum*) p); }
void  boost_render(std::string& o, const void* p) { render(o, ((const bnum*) p)->backend().crepresentation()); }
void  boost_reset(void* p) { *(bnum*) p = bnum("0.5"); }

namespace
{
  #define B(k) (*(bnum*) c.b[c.a[k].i])
  const OpDef defs[] __attribute__((init_priority(101))) =
  {
    { "bmake", "Br", [](Ctx& c) { B(0) = bnum(boost::math::ef::e_float(X(1))); } },
    { "bget", "Rb", [](Ctx& c) { R(0) = B(1).backend().crepresentation(); } },
    { "blit", "BL", [](Ctx& c) { B(0) = bnum(L(1)); } },
    { "bint", "Bi", [](Ctx& c) { B(0) = I(1); } },
    { "bdbl", "Bd", [](Ctx& c) { B(0) = D(1); } },
    { "bcopy", "Bb", [](Ctx& c) { B(0) = B(1); } },
    { "bmove", "BQ", [](Ctx& c) { B(0) = static_cast<bnum&&>(B(1)); } },
    { "bmovector", "BQ", [](Ctx& c) { bnum t(static_cast<bnum&&>(B(1))); B(0) = t; } },
    { "bselfassign", "C", [](Ctx& c) { const bnum& t = B(0); B(0) = t; } },
    { "bswap", "CC", [](Ctx& c) { B(0).swap(B(1)); } },
    { "bswaps", "CC", [](Ctx& c) { using std::swap; swap(B(0), B(1)); } },
    { "badd", "Bbb", [](Ctx& c) { B(0) = B(1) + B(2); } },
    { "bsub", "Bbb", [](Ctx& c) { B(0) = B(1) - B(2); } },
    { "bmul", "Bbb", [](Ctx& c) { B(0) = B(1) * B(2); } },
    { "bdiv", "Bbb", [](Ctx& c) { B(0) = B(1) / B(2); } },
    { "biadd", "Cb", [](Ctx& c) { B(0) += B(1); } },
    { "bisub", "Cb", [](Ctx& c) { B(0) -= B(1); } },
    { "bimul", "Cb", [](Ctx& c) { B(0) *= B(1); } },
    { "bidiv", "Cb", [](Ctx& c) { B(0) /= B(1); } },
    { "biadd_i", "Ci", [](Ctx& c) { B(0) += (int) I(1); } },
    { "bimul_i", "Ci", [](Ctx& c) { B(0) *= (int) I(1); } },
    { "bidiv_i", "Ci", [](Ctx& c) { B(0) /= (int) I(1); } },
    { "bfma", "Bbbb", [](Ctx& c) { B(0) = B(1) * B(2) + B(3); } },
    { "bexpr", "Bbb", [](Ctx& c) { B(0) = (B(1) + B(2)) * (B(1) - B(2)) / (B(2) * 2 + 3); } },
    { "bneg", "Bb", [](Ctx& c) { B(0) = -B(1); } },
    { "bnegate", "C", [](Ctx& c) { B(0).backend().negate(); } },
    #define F1(n) { "b" #n, "Bb", [](Ctx& c) { B(0) = n(B(1)); } }
    F1(sqrt), F1(sin), F1(cos), F1(tan), F1(asin), F1(acos), F1(atan), F1(log), F1(log10), F1(exp), F1(sinh), F1(cosh), F1(tanh), F1(floor), F1(ceil), F1(trunc), F1(abs), F1(fabs),
    #undef F1
    { "bpow", "Bbb", [](Ctx& c) { B(0) = pow(B(1), B(2)); } },
    { "bfmod", "Bbb", [](Ctx& c) { B(0) = fmod(B(1), B(2)); } },
    { "batan2", "Bbb", [](Ctx& c) { B(0) = atan2(B(1), B(2)); } },
    { "bldexp", "Bbi", [](Ctx& c) { B(0) = ldexp(B(1), (int) I(2)); } },
    { "bfrexp", "Bb", [](Ctx& c) { int e = 0; B(0) = frexp(B(1), &e); res(c, "%d", e); } },
    { "bscalbn", "Bbi", [](Ctx& c) { B(0) = scalbn(B(1), (int) I(2)); } },
    { "q_bcmp", "bb", [](Ctx& c) { const int v = B(0).compare(B(1)); res(c, "%d", v); } },
    { "q_brel", "bb", [](Ctx& c) { const int v = (B(0) < B(1)) | ((B(0) == B(1)) << 1) | ((B(0) >= B(1)) << 2) | ((B(0) < 1) << 3); res(c, "%d", v); } },
    { "q_bcls", "b", [](Ctx& c) { const int v = fpclassify(B(0)); res(c, "%d", v); } },
    { "q_bll", "b", [](Ctx& c) { const long long v = B(0).convert_to<long long>(); res(c, "%lld", v); } },
    { "q_bdouble", "b", [](Ctx& c) { const double v = B(0).convert_to<double>(); res(c, "%a", v); } },
    { "q_bilogb", "b", [](Ctx& c) { const long long v = (long long) ilogb(B(0)); res(c, "%lld", v); } },
    { "bstr", "Sbi", [](Ctx& c) { S(0) = B(1).str((std::streamsize) I(2), std::ios::scientific); } },
    { "bprint", "Sbi", [](Ctx& c) { std::ostringstream os; os.exceptions(std::ios::badbit); os << std::scientific << std::setprecision((int) I(2)) << B(1); S(0) = os.str(); } },
    { "bread", "Bs", [](Ctx& c) { std::istringstream is(S(1)); is.exceptions(std::ios::badbit); is >> B(0); } },
    { "blimits", "BBB", [](Ctx& c) { B(0) = (std::numeric_limits<bnum>::max)(); B(1) = std::numeric_limits<bnum>::epsilon(); B(2) = std::numeric_limits<bnum>::infinity(); } }
  };
  OpReg reg __attribute__((init_priority(101)))(defs, (int) (sizeof defs / sizeof defs[0]));
}
