// Operations on complex numbers.
#include <e_float/e_float.h>
#include <iomanip>
#include <sstream>
#include "ops.h"

namespace
{
  typedef ef::complex<e_float> C;
  const OpDef defs[] __attribute__((init_priority(101))) =
  {
    { "zmake", "Zrr", [](Ctx& c) { Z(0) = C(X(1), X(2)); } },
    { "zmake1", "Zr", [](Ctx& c) { Z(0) = C(X(1)); } },
    { "zset", "Zr", [](Ctx& c) { Z(0) = X(1); } },
    { "zdefault", "Z", [](Ctx& c) { Z(0) = C(); } },
    { "zcopy", "Zz", [](Ctx& c) { Z(0) = ZX(1); } },
    { "zcopyctor", "Zz", [](Ctx& c) { const C t(ZX(1)); Z(0) = t; } },
    { "zmove", "ZQ", [](Ctx& c) { Z(0) = static_cast<C&&>(Z(1)); } },
    { "zselfassign", "N", [](Ctx& c) { const C& t = Z(0); Z(0) = t; } },
    { "zswap", "NN", [](Ctx& c) { std::swap(Z(0), Z(1)); } },
    { "zsetreal", "Nr", [](Ctx& c) { Z(0).real(X(1)); } },
    { "zsetimag", "Nr", [](Ctx& c) { Z(0).imag(X(1)); } },
    { "zreal", "Rz", [](Ctx& c) { R(0) = ZX(1).real(); } },
    { "zimag", "Rz", [](Ctx& c) { R(0) = ZX(1).imag(); } },
    { "zabs", "Rz", [](Ctx& c) { R(0) = abs(ZX(1)); } },
    { "zarg", "Rz", [](Ctx& c) { R(0) = arg(ZX(1)); } },
    { "znorm", "Rz", [](Ctx& c) { R(0) = norm(ZX(1)); } },
    { "zconj", "Zz", [](Ctx& c) { Z(0) = conj(ZX(1)); } },
    { "zproj", "Zz", [](Ctx& c) { Z(0) = proj(ZX(1)); } },
    { "zpolar", "Zrr", [](Ctx& c) { Z(0) = ef::polar(X(1), X(2)); } },
    { "zneg", "Zz", [](Ctx& c) { Z(0) = -ZX(1); } },
    { "zpos", "Zz", [](Ctx& c) { Z(0) = +ZX(1); } },
    { "zadd", "Zzz", [](Ctx& c) { Z(0) = ZX(1) + ZX(2); } },
    { "zsub", "Zzz", [](Ctx& c) { Z(0) = ZX(1) - ZX(2); } },
    { "zmul", "Zzz", [](Ctx& c) { Z(0) = ZX(1) * ZX(2); } },
    { "zdiv", "Zzz", [](Ctx& c) { Z(0) = ZX(1) / ZX(2); } },
    { "zadd_r", "Zzr", [](Ctx& c) { Z(0) = ZX(1) + X(2); } },
    { "zsub_r", "Zzr", [](Ctx& c) { Z(0) = ZX(1) - X(2); } },
    { "zmul_r", "Zzr", [](Ctx& c) { Z(0) = ZX(1) * X(2); } },
    { "zdiv_r", "Zzr", [](Ctx& c) { Z(0) = ZX(1) / X(2); } },
    { "r_zadd", "Zrz", [](Ctx& c) { Z(0) = X(1) + ZX(2); } },
    { "r_zsub", "Zrz", [](Ctx& c) { Z(0) = X(1) - ZX(2); } },
    { "r_zmul", "Zrz", [](Ctx& c) { Z(0) = X(1) * ZX(2); } },
    { "r_zdiv", "Zrz", [](Ctx& c) { Z(0) = X(1) / ZX(2); } },
    { "ziadd", "Nz", [](Ctx& c) { Z(0) += ZX(1); } },
    { "zisub", "Nz", [](Ctx& c) { Z(0) -= ZX(1); } },
    { "zimul", "Nz", [](Ctx& c) { Z(0) *= ZX(1); } },
    { "zidiv", "Nz", [](Ctx& c) { Z(0) /= ZX(1); } },
    { "ziadd_r", "Nr", [](Ctx& c) { Z(0) += X(1); } },
    { "zisub_r", "Nr", [](Ctx& c) { Z(0) -= X(1); } },
    { "zimul_r", "Nr", [](Ctx& c) { Z(0) *= X(1); } },
    { "zidiv_r", "Nr", [](Ctx& c) { Z(0) /= X(1); } },
    #define F1(n) { "z" #n, "Zz", [](Ctx& c) { Z(0) = n(ZX(1)); } }
    F1(acos), F1(asin), F1(atan), F1(asinh), F1(acosh), F1(atanh), F1(cos), F1(cosh), F1(exp), F1(log), F1(log10), F1(sin), F1(sinh), F1(sqrt), F1(tan), F1(tanh),
    #undef F1
    { "zpow_i", "Zzi", [](Ctx& c) { Z(0) = pow(ZX(1), (std::int64_t) I(2)); } },
    { "zpow_r", "Zzr", [](Ctx& c) { Z(0) = pow(ZX(1), X(2)); } },
    { "zpow", "Zzz", [](Ctx& c) { Z(0) = pow(ZX(1), ZX(2)); } },
    { "rpow_z", "Zrz", [](Ctx& c) { Z(0) = pow(X(1), ZX(2)); } },
    { "zgamma", "Zz", [](Ctx& c) { Z(0) = ef::gamma(ZX(1)); } },
    { "zzeta", "Zz", [](Ctx& c) { Z(0) = ef::riemann_zeta(ZX(1)); } },
    { "zpochhammer_n", "Zzu", [](Ctx& c) { Z(0) = ef::pochhammer(ZX(1), (std::uint32_t) U(2)); } },
    { "zpochhammer", "Zzz", [](Ctx& c) { Z(0) = ef::pochhammer(ZX(1), ZX(2)); } },
    { "q_zeq", "zz", [](Ctx& c) { const int v = (ZX(0) == ZX(1)) | ((ZX(0) != ZX(1)) << 1); res(c, "%d", v); } },
    { "q_zeq_r", "zr", [](Ctx& c) { const int v = (ZX(0) == X(1)) | ((X(1) != ZX(0)) << 1); res(c, "%d", v); } },
    { "zprint", "Szi", [](Ctx& c) { std::ostringstream os; os.exceptions(std::ios::badbit); os << std::scientific << std::setprecision((int) I(2)) << ZX(1); S(0) = os.str(); } },
    { "zread", "Zs", [](Ctx& c) { std::istringstream is(S(1)); is.exceptions(std::ios::badbit); if(!(is >> Z(0))) Z(0) = C(); } }
  };
  OpReg reg __attribute__((init_priority(101)))(defs, (int) (sizeof defs / sizeof defs[0]));
}
