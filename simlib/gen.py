"""Generates the programs that the simulated threads run.

A program is a list of operations {"t": thread, "op": name, "a": [args]}.  The generator keeps a rough double
estimate of every variable so that operations are mostly called inside their domain; correctness never depends
on these estimates (the oracle is the library itself, run undisturbed).
"""
import math

NAN = float("nan")


def _try(f):
    def g(*a):
        try:
            if any(x is None for x in a):
                return None
            v = f(*a)
            return v if isinstance(v, (int, float)) and v == v and abs(v) < 1e300 else None
        except Exception:
            return None
    return g


# ---- domains: predicate on the estimate, literal maker
def _d(lo, hi):
    return lambda x: x is not None and lo <= x <= hi


DOM = {
    "A": (lambda x: True, lambda r: r.choice([0, 1, -1, 2, 3.5, -0.25, 1e10, 1e-10, r.uniform(-100, 100)])),
    "F": (_d(-1e12, 1e12), lambda r: r.choice([r.uniform(-1000, 1000), r.uniform(-1, 1), r.uniform(-1e9, 1e9)])),
    "NZ": (lambda x: x is not None and 1e-12 < abs(x) < 1e12, lambda r: r.choice([-1, 1]) * r.choice([r.uniform(0.01, 1), r.uniform(1, 1000)])),
    "P": (_d(1e-12, 1e12), lambda r: r.choice([r.uniform(0.001, 1), r.uniform(1, 20), r.uniform(20, 1e6)])),
    "U": (_d(-0.999, 0.999), lambda r: r.uniform(-0.99, 0.99)),
    "U1": (_d(-1, 1), lambda r: r.choice([r.uniform(-1, 1), r.uniform(-1, 1), 1, -1, 0])),
    "G1": (_d(1, 1e9), lambda r: r.choice([1, r.uniform(1, 3), r.uniform(1, 1e5)])),
    "X": (_d(-150, 150), lambda r: r.choice([r.uniform(-1, 1), r.uniform(-100, 100)])),
    "S": (_d(-30, 30), lambda r: r.choice([r.uniform(-3, 3), r.uniform(-30, 30)])),
    "T": (_d(-1e6, 1e6), lambda r: r.choice([r.uniform(-7, 7), r.uniform(-7, 7), r.uniform(-1e5, 1e5), 1e-30])),
    "GA": (lambda x: x is not None and (1e-90 < x < 250 or (-20 < x < 0 and abs(x - round(x)) > 0.01)), lambda r: r.choice([r.uniform(0.1, 5), r.uniform(5, 60), r.randint(1, 30), r.uniform(100, 240), -r.randint(0, 5) - r.uniform(0.2, 0.8)])),
    "ZE": (lambda x: x is not None and (1.05 < x < 60 or -10 < x < 0.9), lambda r: r.choice([r.uniform(1.1, 5), r.uniform(5, 50), r.uniform(0.1, 0.8), r.uniform(-6, -0.2)])),
    "H": (_d(-0.9, 0.9), lambda r: r.uniform(-0.8, 0.8)),
    "HB": (lambda x: x is not None and 0.1 < x < 20, lambda r: r.uniform(0.3, 6)),
    "I": (lambda x: x is not None and abs(x) < 9e18, lambda r: r.choice([r.randint(-50, 50), r.uniform(-1e6, 1e6), r.randint(-2**40, 2**40)])),
    "J": (lambda x: x is not None and 1e12 < abs(x) < 1.8e19 and (x > 0 or x > -9.2e18), lambda r: r.choice([1, 1, 1, -1]) * r.randint(10 ** 12, 10 ** r.choice([13, 15, 16, 17, 18, 18])) if r.random() < 0.6 else r.randint(10 ** 18, 18 * 10 ** 18)),
    "L": (_d(-0.4, 3), lambda r: r.choice([r.uniform(-0.4, 1), 1e-20, -1e-30])),
}


HALFPI = "1.570796326794896619231321691639751442098584699687552910487472296153908203143104499314017412671058533991074043256641153323546922304775291115862679704064240558725142051350969260552779822311474477465190982214405487832966723064237824116893391582635600954572824283461730174305227163324106696803630124570636863"
NINES = "0." + "9" * 40

# values at which functions change their method; the estimate is of the same literal
SPECIAL = {
    "T": [HALFPI, HALFPI[:22], HALFPI[:60], "-" + HALFPI[:40], "3.14159265358979323846264338327950288419716939937510", "0.7853981633974483096156608458198757210492923498437764", "1e-20", "-1e-45", "1e-90", "0"],
    "S": ["1e-20", "-1e-45", "1e-90", "0", "0.5", "1", "-1"],
    "X": ["1e-20", "-1e-45", "1e-90", "0", "1", "-1"],
    "GA": ["1e-20", "3e-31", "1e-60", "1e-9", "0.5", "1.5", "20.5", "1", "2", "3", "1.00000000000000000000000001", "2.9999999999999999999999999999999", "-3.5", "-0.5", "-2.000000000000000000000000000000001",
           "-4.99999999999999999999999999999", "100", "101", "99.9999999999999999", "-1e-20", "30.25"],
    "ZE": ["1e-20", "0.5", "2", "4", "3", "1.5", "10", "-1", "-2", "-3", "-2.00000000000000000000000000001", "1.01", "0.99", "40", "41.5", "0"],
    "U1": [NINES, "-" + NINES, "1e-20", "-1e-50", "0.5", "-0.5", "0.99"],
    "U": [NINES[:16], "1e-20", "-1e-50", "0.5", "0"],
    "G1": ["1.00000000000000000000000000001", "1.0001", "2", "1e8", "1e30"],
    "P": ["1." + "0" * 30 + "1", NINES, "1", "2", "10", "1e-30", "1e40", "1e300", "1e-300", "4", "0.5", "100"],
    "L": ["1e-20", "-1e-45", "1e-90", "0", "0.01", "-0.01", "1"],
    "H": ["1e-20", "-1e-45", "0.5", "0", "-0.5"],
    "HB": ["1", "2", "0.5", "1.5", "3", "10"],
    "NZ": ["1", "-1", "2", "1e-40", "1e40", "1e8", "1e-8", "3", "99999999", "100000001", "1e300"],
    "F": ["0", "1e-20", "1e-50", "0.5", "1e8", "100000000.00000001", "99999999.99999999", "1e64", "-1"],
    "A": ["1e8", "1e16", "99999999", "0.00000001", "1e300", "1e-300", "0.99999999", "100000000000000000000000000000001"],
}


def literal(r, dom, digits):
    """A decimal literal inside the domain and its estimate."""
    v = DOM[dom][1](r)
    if dom in SPECIAL and r.random() < getattr(r, "sp", 0.2):
        s = r.choice(SPECIAL[dom])
        return s, float(s)
    if dom == "A" and r.random() < 0.25:
        return r.choice([("inf", None), ("-inf", None), ("nan", None), ("1e1000", None), ("-2.5e-1000", None),
                         ("9.999999999999999999999999e2000", None), ("0", 0.0), ("-0", 0.0), ("1e-3000000", None)])
    if isinstance(v, int) or v == int(v):
        s = "%d" % v
        k = r.random()
        if k < 0.2:
            s += ".0"
        elif k < 0.3:
            s += ".000000000000000000000000"
        elif k < 0.35:
            s = "%de0" % v
        return s, float(v)
    k = r.random()
    if abs(v) < 1e-6:
        return "%.6e" % v, v
    if k < 0.2:
        s = "%.3f" % v
        if float(s) == 0 and v != 0:
            s = "%.12f" % v
    elif k < 0.4:
        s = "%.10e" % v
    else:
        s = "%.12f" % v
        n = r.choice([10, 20, digits - 14, digits, digits + 5, digits + 40])
        s += "".join(r.choice("0123456789") for _ in range(max(0, n)))
        if r.random() < 0.2:
            s += "e%d" % r.choice([0, 1, -1, 2])
    try:
        e = float(s)
    except ValueError:
        e = v
    if not DOM[dom][0](e):
        s, e = repr(v), v
    return s, e


# name: (domains of the read arguments in order, estimate function of read arguments, groups, weight)
R = {}


def op(names, sig, doms, f=None, g="arith", w=1.0, **kw):
    for n in names.split():
        R[n] = dict(sig=sig, dom=doms.split(), f=f, g=g, w=w, **kw)


def est(**k):
    for n, f in k.items():
        R[n]["f"] = _try(f)


CONST = ("two three four five six seven eight nine ten fifty hundred thousand million billion trillion googol int64_min int64_max "
         "int32_min int32_max unsigned_long_long_max signed_long_long_max signed_long_long_min double_min double_max long_double_min "
         "long_double_max one_minus tenth eighth fifth quarter third two_third three_half sqrt2 pi pi_half pi_squared two_pi sqrt_pi e ln2 "
         "ln10 phi euler_gamma catalan khinchin glaisher zero one half value_min value_max value_eps value_inf value_nan "
         "nl_min nl_max nl_eps nl_rnd nl_inf nl_nan").split()
CVAL = {"two": 2, "three": 3, "four": 4, "five": 5, "six": 6, "seven": 7, "eight": 8, "nine": 9, "ten": 10, "fifty": 50, "hundred": 100,
        "thousand": 1e3, "million": 1e6, "billion": 1e9, "one_minus": -1, "tenth": .1, "eighth": .125, "fifth": .2, "quarter": .25,
        "third": 1 / 3., "two_third": 2 / 3., "three_half": 1.5, "sqrt2": 2 ** .5, "pi": math.pi, "pi_half": math.pi / 2, "pi_squared": math.pi ** 2,
        "two_pi": 2 * math.pi, "sqrt_pi": math.pi ** .5, "e": math.e, "ln2": math.log(2), "ln10": math.log(10), "phi": 1.618, "euler_gamma": .5772,
        "catalan": .91596, "khinchin": 2.685, "glaisher": 1.2824, "zero": 0., "one": 1., "half": .5, "int32_max": 2**31 - 1., "int32_min": -2.**31}
for _c in CONST:
    op("k_" + _c, "R", "", (lambda v: (lambda: v))(CVAL.get(_c)), g="const", w=0.35, const=True)
for _c in CONST:
    if _c != "nl_rnd":
        op("kc_" + _c, "", "", g="const", w=0.1, const=True)
op("k_vmax_of k_vmin_of k_vnan_of k_vinf_of", "Rr", "A", g="const", w=0.3, const=True)
op("tolerance max_iteration", "", "", g="const", w=0.2)

op("fabs abs floor ceil real imag integer_part decimal_part neg pos", "Rr", "A", g="arith")
op("inv", "Rr", "NZ", _try(lambda x: 1 / x), "arith")
op("sqrt", "Rr", "P", _try(math.sqrt), "elem", w=2)
op("cbrt", "Rr", "P", _try(lambda x: x ** (1 / 3.)), "elem")
op("exp hypergeometric_0f0", "Rr", "X", _try(math.exp), "elem", w=2)
op("log", "Rr", "P", _try(math.log), "elem", w=2)
op("log10", "Rr", "P", _try(math.log10), "elem")
op("log1p log1p1m2", "Rr", "L", None, "elem")
op("sin", "Rr", "T", _try(math.sin), "elem", w=2)
op("cos", "Rr", "T", _try(math.cos), "elem", w=2)
op("tan csc sec cot", "Rr", "S", None, "elem")
op("asin acos", "Rr", "U1", None, "elem")
op("atan", "Rr", "A", _try(math.atan), "elem")
op("sinh cosh", "Rr", "X", None, "elem")
op("tanh", "Rr", "X", _try(math.tanh), "elem")
op("asinh", "Rr", "F", _try(math.asinh), "elem")
op("acosh", "Rr", "G1", _try(math.acosh), "elem")
op("atanh", "Rr", "U", _try(math.atanh), "elem")
op("gamma", "Rr", "GA", None, "special", w=2)
op("zeta", "Rr", "ZE", None, "zeta", w=1, heavy=True)
op("sincos", "RRr", "T", None, "elem")
op("sincos_s", "Rr", "T", None, "elem")
op("sincos_c", "Rr", "T", None, "elem")
op("sinhcosh", "RRr", "X", None, "elem")
op("frexp", "Rr", "F", None, "arith")
op("ldexp", "Rri", "F", None, "arith", ints=[(-40, 40)])
op("pow2", "Ri", "", None, "elem", ints=[(-300, 300)])
op("rootn", "Rri", "P", None, "elem", ints=[(1, 12)])
op("rootn_inverse", "Rri", "P", None, "elem", ints=[(1, 12)])
op("pown", "Rri", "NZ", None, "elem", ints=[(-12, 25)])
op("factorial", "Ru", "", None, "special", ints=[(0, 400)])
op("factorial2", "Ri", "", None, "special", ints=[(-9, 400)])
op("binomial_uu", "Ruu", "", None, "special", ints=[(0, 120), (0, 60)])
op("binomial_ur", "Rur", "HB", None, "special", ints=[(0, 20)], w=.5)
op("binomial_ru", "Rru", "HB", None, "special", ints=[(0, 20)], w=.5)
op("binomial_rr", "Rrr", "HB HB", None, "special", w=.5)
op("pochhammer_n", "Rru", "HB", None, "special", ints=[(0, 40)])
op("pochhammer", "Rrr", "HB HB", None, "special", w=.5)
op("bernoulli", "Ru", "", None, "integer", ints=[(0, 260)], w=2)
op("bernoulli_table", "Vu", "", None, "integer", ints=[(0, 40)])
op("zeta_n", "Ri", "", None, "zeta", ints=[(-40, 200)], w=1, heavy=True)
op("gamma_near_n", "Rir", "TINY", None, "special", ints=[(-10, 0)], w=.4)
op("primes", "u", "", None, "integer", ints=[(0, 600)], w=1.2)
op("fmod", "Rrr", "F NZ", None, "arith")
op("loga", "Rrr", "G1 P", None, "elem")
op("pow", "Rrr", "P S", None, "elem", w=2)
op("atan2", "Rrr", "F F", None, "elem")
op("hypergeometric_0f1", "Rrr", "HB S", None, "hyper", w=.7)
op("hypergeometric_1f0", "Rrr", "HB H", None, "hyper", w=.7)
op("h1f1", "Rrrr", "HB HB S", None, "hyper", w=.7)
op("h2f0", "Rrrr", "HB HB TINY", None, "hyper", w=.3)
op("h2f1", "Rrrrr", "HB HB HB H", None, "hyper", w=.7)
op("hpfq", "Rrrrr", "HB HB HB S", None, "hyper", w=.7)
op("add", "Rrr", "A A", _try(lambda a, b: a + b), "arith", w=3)
op("sub", "Rrr", "A A", _try(lambda a, b: a - b), "arith", w=3)
op("mul", "Rrr", "A A", _try(lambda a, b: a * b), "arith", w=3)
op("div", "Rrr", "A NZ", _try(lambda a, b: a / b), "arith", w=3)
op("add_i sub_i mul_i", "Rri", "A", None, "mixed", ints=[(-10**6, 10**6)])
op("div_i", "Rri", "A", None, "mixed", ints=[(1, 10**6)])
op("i_add i_sub i_mul", "Rir", "A", None, "mixed", ints=[(-1000, 1000)])
op("i_div", "Rir", "NZ", None, "mixed", ints=[(-1000, 1000)])
op("add_u sub_u mul_u", "Rru", "A", None, "mixed", ints=[(0, 2**63)])
op("div_u", "Rru", "A", None, "mixed", ints=[(1, 2**40)])
op("add_d sub_d mul_d div_d", "Rrd", "A", None, "mixed")
op("d_sub", "Rdr", "A", None, "mixed")
op("d_div", "Rdr", "NZ", None, "mixed")
op("iadd", "Mr", "A A", _try(lambda a, b: a + b), "compound", w=2)
op("isub", "Mr", "A A", _try(lambda a, b: a - b), "compound", w=2)
op("imul", "Mr", "A A", _try(lambda a, b: a * b), "compound", w=2)
op("idiv", "Mr", "A NZ", _try(lambda a, b: a / b), "compound", w=2)
op("iadd_i isub_i imul_i", "Mi", "A", None, "compound", ints=[(-10**6, 10**6)])
op("idiv_i", "Mi", "A", None, "compound", ints=[(1, 10**6)])
op("iadd_u isub_u imul_u", "Mu", "A", None, "compound", ints=[(0, 10**12)])
op("idiv_u", "Mu", "A", None, "compound", ints=[(1, 10**12)])
op("iadd_d imul_d", "Md", "A", None, "compound")
op("preinc", "M", "A", _try(lambda a: a + 1), "compound")
op("predec", "M", "A", _try(lambda a: a - 1), "compound")
op("postinc postdec", "RM", "A", None, "compound", distinct=True)
op("negate", "M", "A", _try(lambda a: -a), "compound")
op("calc_inv", "M", "NZ", _try(lambda a: 1 / a), "compound")
op("calc_sqrt", "M", "P", _try(math.sqrt), "compound")
op("default", "R", "", lambda: 0.0, "plumb")
op("copy copyctor baseassign", "Rr", "A", lambda x: x, "plumb", w=1.5)
op("move movector movector2", "RQ", "A", lambda x: x, "plumb", w=1.5, distinct=True)
op("selfassign selfmove", "M", "A", lambda x: x, "plumb")
op("swapm swaps", "MM", "A A", None, "plumb", swap=True, w=1.5)
op("vpush vinsert", "Vr", "A", None, "vec", w=2)
op("vset", "Vir", "A", None, "vec", ints=[(0, 9)])
op("verase vshrink vsort vrotate vclear", "V", "", None, "vec")
op("vresize", "Vi", "", None, "vec", ints=[(0, 12)])
op("vget", "Rvi", "", None, "vec", ints=[(0, 12)], w=2)
op("vcopy", "Vv", "", None, "vec")
op("lit", "RL", "", None, "lit", w=2)
op("litstr", "RL", "", None, "lit")
op("from_i assign_i", "Ri", "", None, "lit", ints=[(-2**31, 2**31 - 1)])
op("from_u", "Ru", "", None, "lit", ints=[(0, 2**64 - 1)])
op("from_d from_ld", "Rd", "", None, "lit")
op("mantexp", "Rdi", "", None, "lit", ints=[(-60, 60)])
op("precision_tmp", "ri", "A", None, "prec", ints=[(1, 90)])
op("q_isnan q_isinf q_isfinite q_isneg q_ispos q_isint q_isone q_iszero q_small q_large q_near1 q_nearint q_sgn q_order", "r", "A", None, "query", w=.4)
op("q_double q_ldouble q_parts q_int64 q_int32 q_sll q_ull", "r", "A|J|J", None, "query", w=.8)
op("q_cmp q_rel", "rr", "A A", None, "query")
op("q_rel_i", "ri", "A", None, "query", ints=[(-100, 100)], w=.5)
op("q_rel_d", "rd", "A", None, "query", w=.5)
op("print wrstr", "Sriiii", "A", None, "text", w=2, fmt=True)
op("sset scat", "SL", "", None, "text", text=True)
op("parse", "Rs", "", None, "text", w=1)
op("readstr", "Rs", "", None, "text", w=1)
op("zmake", "Zrr", "S S", None, "cplx", w=3)
op("zmake1 zset", "Zr", "S", None, "cplx")
op("zdefault", "Z", "", None, "cplx", w=.4)
op("zcopy zcopyctor", "Zz", "A", None, "cplx")
op("zmove", "ZQ", "A", None, "cplx", distinct=True)
op("zselfassign", "N", "A", None, "cplx", w=.5)
op("zswap", "NN", "A A", None, "cplx", swap=True)
op("zsetreal zsetimag", "Nr", "A S", None, "cplx", w=.5)
op("zreal zimag zabs zarg znorm", "Rz", "A", None, "cplx")
op("zconj zproj zneg zpos", "Zz", "A", None, "cplx", w=.5)
op("zpolar", "Zrr", "S S", None, "cplx")
op("zadd zsub zmul", "Zzz", "A A", None, "cplx", w=1.5)
op("zdiv", "Zzz", "A A", None, "cplx")
op("zadd_r zsub_r zmul_r", "Zzr", "A S", None, "cplx", w=.5)
op("zdiv_r", "Zzr", "A NZ", None, "cplx", w=.5)
op("r_zadd r_zsub r_zmul r_zdiv", "Zrz", "S A", None, "cplx", w=.5)
op("ziadd zisub zimul zidiv", "Nz", "A A", None, "cplx")
op("ziadd_r zisub_r zimul_r", "Nr", "A S", None, "cplx", w=.5)
op("zidiv_r", "Nr", "A NZ", None, "cplx", w=.5)
op("zacos zasin zatan zasinh zacosh zatanh zcos zcosh zexp zlog zlog10 zsin zsinh zsqrt ztan ztanh", "Zz", "ZS", None, "cplxf")
op("zpow_i", "Zzi", "ZS", None, "cplxf", ints=[(-6, 10)])
op("zpow_r", "Zzr", "ZS S", None, "cplxf")
op("zpow", "Zzz", "ZS ZS", None, "cplxf")
op("rpow_z", "Zrz", "P ZS", None, "cplxf")
op("zgamma", "Zz", "ZS", None, "cplxs", heavy=True)
op("zzeta", "Zz", "ZS", None, "zzeta", heavy=True)
op("zpochhammer_n", "Zzu", "ZS", None, "cplxs", ints=[(0, 8)])
op("zpochhammer", "Zzz", "ZS ZS", None, "cplxs", heavy=True)
op("q_zeq", "zz", "A A", None, "cplx", w=.5)
op("q_zeq_r", "zr", "A A", None, "cplx", w=.5)
op("zprint", "Szi", "A", None, "ztext", ints=[(5, 120)])
op("zread", "Zs", "", None, "ztext")
op("bmake", "Br", "S", None, "boost", w=3)
op("bget", "Rb", "A", None, "boost")
op("blit", "BL", "", None, "boost", w=2)
op("bint", "Bi", "", None, "boost", ints=[(-2**40, 2**40)])
op("bdbl", "Bd", "", None, "boost")
op("bcopy", "Bb", "A", None, "boost")
op("bmove bmovector", "BQ", "A", None, "boost", distinct=True)
op("bselfassign", "C", "A", None, "boost", w=.5)
op("bswap bswaps", "CC", "A A", None, "boost", swap=True)
op("badd bsub bmul bdiv bexpr", "Bbb", "A A", None, "boost", w=1.5)
op("biadd bisub bimul bidiv", "Cb", "A A", None, "boost")
op("biadd_i bimul_i bidiv_i", "Ci", "A", None, "boost", ints=[(1, 1000)])
op("bfma", "Bbbb", "A A A", None, "boost")
op("bneg", "Bb", "A", None, "boost")
op("bnegate", "C", "A", None, "boost")
op("bsqrt bsin bcos btan basin bacos batan blog blog10 bexp bsinh bcosh btanh bfloor bceil btrunc babs bfabs", "Bb", "ZS", None, "boostf")
op("bpow bfmod batan2", "Bbb", "ZS ZS", None, "boostf")
op("bldexp bscalbn", "Bbi", "A", None, "boostf", ints=[(-30, 30)])
op("bfrexp", "Bb", "A", None, "boostf")
op("q_bcmp q_brel", "bb", "A A", None, "boost", w=.5)
op("q_bcls q_bll q_bdouble q_bilogb", "b", "A", None, "boost", w=.5)
op("bstr bprint", "Sbi", "A", None, "boostf", ints=[(5, 120)])
op("bread", "Bs", "", None, "boostf")
op("blimits", "BBB", "", None, "boostf", w=.6, distinct3=True)
for _t, _n in (("A000142", 1001), ("A000367", 1001), ("A002445", 1001), ("A006882", 1001)):
    op("t_" + _t, "Ri", "", None, "util", ints=[(0, _n - 1)], w=.5, const=True)
op("t_A007318", "Rii", "", None, "util", ints=[(0, 160), (0, 160)], w=.5, const=True)
op("digit_scale", "", "", None, "util", w=.4, const=True)
op("factors", "u", "", None, "util", ints=[(0, 11000)], heavy=True)
op("factors_big", "u", "", None, "util", ints=[(1000000, 2**32 - 1)], heavy=True)
op("jpow", "RRruu", "S", None, "util", ints=[(1, 600), (1, 600)], heavy=True)
op("zjpow", "Zzuu", "ZS", None, "util", ints=[(1, 600), (1, 600)], heavy=True)
op("gamma_pm", "RRr", "HB", None, "util")
op("bernoulli_big", "Ru", "", None, "util", ints=[(2000, 2300)], heavy=True, w=.5)
op("factorial_big", "Ru", "", None, "util", ints=[(990, 1020)], w=.5)
op("factorial2_big", "Ri", "", None, "util", ints=[(990, 1020)], w=.5)
op("binomial_big", "Ruu", "", None, "util", ints=[(150, 170), (0, 80)], w=.5)
op("pown_big", "Rri", "NZ", None, "util", ints=[(-10**12, 10**12)], w=.5)
op("ldexp_big", "Rri", "F", None, "util", ints=[(-2**31, 2**31 - 1)], w=.5)
op("pow2_big", "Ri", "", None, "util", ints=[(-10**6, 10**6)], w=.5)
op("atan2_any", "Rrr", "A A", None, "util")
op("interpol expand", "Rrv", "S", None, "vec")
op("zexpand", "Zzv", "ZS", None, "vec", w=.5)
op("altsum vaccum", "Rv", "", None, "vec", w=.6)
op("vinner", "Rvv", "", None, "vec", w=.6)
op("vminmax", "RRv", "", None, "vec", w=.6)
op("vinit varray", "Vrr", "A A", None, "vec")
op("vmovecat", "Vv", "", None, "vec")
op("lexcast", "Si", "", None, "text", ints=[(-2**63, 2**63 - 1)], w=.3)
op("numcast", "SL", "", None, "text", text=True, w=.3)
op("from_all", "Ri", "", None, "lit", ints=[(-2**31, 2**31 - 1)], w=.6)
op("zfrom_i", "Zi", "", None, "cplx", ints=[(-2**62, 2**62)], w=.4)
op("zfrom_d", "Zd", "", None, "cplx", w=.4)
op("da_copy da_range", "uu", "", None, "vec", ints=[(0, 49), (0, 10**6)], w=.5)
DOM["TINY"] = (lambda x: x is not None and abs(x) < 1e-3, lambda r: r.choice([1e-5, -1e-6, 1e-20]))
DOM["ZS"] = DOM["S"]

_ARITH = {"arith", "compound", "plumb", "vec", "lit", "mixed", "query", "text", "const", "cplx", "prec", "boost", "ztext"}
_PI = {"k_pi", "k_pi_half", "k_two_pi", "k_pi_squared", "k_sqrt_pi", "kc_pi", "kc_pi_half", "kc_two_pi", "kc_pi_squared", "kc_sqrt_pi"}


def allowed(name, digits):
    """Beyond 300 digits the library is for arithmetic, roots and constants (and too slow here for most functions)."""
    if digits <= 400:
        return True
    if name in ("zarg", "gamma_near_n", "tolerance", "max_iteration"):
        return name[0] in "tm"
    if R[name]["g"] in _ARITH or name in ("sqrt", "cbrt", "rootn", "rootn_inverse", "pown", "pow2", "zsqrt", "bsqrt", "bfloor", "bceil", "btrunc", "babs", "bfabs"):
        return digits < 3000 or name not in _PI
    return digits < 3000 and name in ("exp", "hypergeometric_0f0", "factorial", "factorial2", "binomial_uu", "primes", "bernoulli", "bernoulli_table", "blimits", "bstr",
                                         "t_A000142", "t_A000367", "t_A002445", "t_A006882", "t_A007318", "digit_scale", "factorial_big", "factorial2_big", "binomial_big")


GROUPS = sorted({v["g"] for v in R.values()})
FLAGS = [0, 1, 2, 1 | 4, 2 | 8, 1 | 16, 1 | 32, 1 | 64, 1 | 128 | 4, 8, 4 | 64, 2 | 4 | 128]


class Gen:
    def __init__(self, rng, digits, groups=None, heavy=0.3, tid=1, nr=5, shared=(), zshared=(), only=None, no_alias=False, exclude=()):
        self.r, self.digits, self.tid = rng, digits, tid
        self.v = {}          # variable -> estimate (None unknown); absent: not yet written
        self.moved = set()
        self.ops = []
        self.nr = nr
        self.shared, self.zshared = list(shared), list(zshared)
        self.no_alias = no_alias
        names = only or [n for n in R if groups is None or R[n]["g"] in groups]
        names = [n for n in names if n not in exclude and allowed(n, digits) and not (R[n].get("heavy") and rng.random() > heavy)]
        self.names = names
        self.weights = [R[n]["w"] for n in names]

    def emit(self, name, *a):
        self.ops.append({"t": self.tid, "op": name, "a": [str(x) for x in a]})

    def fresh(self, kind):
        n = {"r": self.nr, "z": 3, "s": 3, "v": 2, "b": 4}[kind]
        return "%s%d" % (kind, self.r.randrange(n))

    def pick_read(self, dom, avoid=(), kind="r", own=False):
        """A variable satisfying the domain; creates one when there is none."""
        pred = DOM[dom][0]
        if kind == "r":
            c = [x for x in self.v if x[0] == "r" and x not in self.moved and x not in avoid and pred(self.v[x])]
            if not own:
                c += [x for x in self.shared if pred(self.sv.get(x))] if hasattr(self, "sv") else self.shared if dom == "A" else []
            if c and self.r.random() < 0.9:
                return self.r.choice(c)
            n = [x for x in ("r%d" % i for i in range(self.nr)) if x not in avoid]
            x = self.r.choice(n)
            s, e = literal(self.r, dom, self.digits)
            self.emit("lit", x, "L" + s)
            self.v[x] = e
            self.moved.discard(x)
            return x
        if kind in "zb":
            c = [x for x in self.v if x[0] == kind and x not in self.moved and x not in avoid and (dom == "A" or self.v[x] is not None)]
            if kind == "z" and not own:
                c += self.zshared
            if c and self.r.random() < 0.85:
                return self.r.choice(c)
            n = [x for x in ("%s%d" % (kind, i) for i in range({"z": 3, "b": 4}[kind])) if x not in avoid]
            x = self.r.choice(n)
            if kind == "z":
                a, b = self.pick_read("S"), self.pick_read("S")
                self.emit("zmake", x, a, b)
            else:
                self.emit("bmake", x, self.pick_read("S"))
            self.v[x] = 1.0
            self.moved.discard(x)
            return x
        if kind == "s":
            c = [x for x in self.v if x[0] == "s"]
            if c and self.r.random() < 0.8:
                return self.r.choice(c)
            x = self.fresh("s")
            s, _ = literal(self.r, "F", self.digits)
            self.emit("sset", x, "L" + s)
            self.v[x] = 1.0
            return x
        if kind == "v":
            c = [x for x in self.v if x[0] == "v"]
            if c:
                return self.r.choice(c)
            x = self.fresh("v")
            self.emit("vpush", x, self.pick_read("A"))
            self.v[x] = 1.0
            return x
        raise KeyError(kind)

    def step(self):
        r = self.r
        name = r.choices(self.names, self.weights)[0]
        d = R[name]
        if name == "parse" or name == "readstr" or name == "zread" or name == "bread":
            # text to read is usually a good number
            s = self.fresh("s")
            if r.random() < 0.8:
                t, _ = literal(r, "F", self.digits)
                if name == "zread":
                    t2, _ = literal(r, "F", self.digits)
                    t = r.choice(["(%s,%s)" % (t, t2), "(%s)" % t, t])
                self.emit("sset", s, "L" + t)
                self.v[s] = 1.0
            elif s not in self.v:
                self.emit("sset", s, "L" + "2.5")
                self.v[s] = 1.0
        sig, args, doms = d["sig"], [], list(d["dom"])
        ints = list(d.get("ints", []))
        ins, out = [], []
        # reads first so that their set-up precedes the operation
        chosen = {}
        for k, ch in enumerate(sig):
            if ch in "rzbMNCQ":
                kind = {"r": "r", "M": "r", "z": "z", "N": "z", "b": "b", "C": "b"}.get(ch) or {"m": "r", "s": "r", "z": "z", "b": "b"}[name[0] if name[0] in "zb" else "m"]
                own = ch in "MNCQ"
                avoid = [chosen[j] for j in chosen] if (d.get("swap") or d.get("distinct")) else []
                if self.no_alias and ch in "rzb" and any(c in "MNC" for c in sig):
                    avoid = [chosen[j] for j in chosen]
                dom = doms.pop(0) if doms else "A"
                dom = r.choice(dom.split("|"))
                x = self.pick_read(dom, avoid, kind, own)
                chosen[k] = x
                ins.append(self.v.get(x) if x[0] not in "gh" else getattr(self, "sv", {}).get(x))
            elif ch in "sv" :
                chosen[k] = (name in ("parse", "readstr", "zread", "bread") and s) or self.pick_read("A", (), ch)
        # setting up a later operand may have overwritten an earlier one: check domains again is not needed for soundness
        for k, ch in enumerate(sig):
            if k in chosen:
                args.append(chosen[k])
            elif ch in "RZSVB":
                kind = {"R": "r", "Z": "z", "S": "s", "V": "v", "B": "b"}[ch]
                x = self.fresh(kind)
                if d.get("distinct") or d.get("distinct3") or self.no_alias or sig.count(ch) > 1:
                    used = set(args) | set(chosen.values())
                    n = {"r": self.nr, "z": 3, "s": 3, "v": 2, "b": 4}[kind]
                    free = ["%s%d" % (kind, i) for i in range(n + 3) if "%s%d" % (kind, i) not in used]
                    x = r.choice(free[:max(1, n - len(used))])
                args.append(x)
                out.append(x)
            elif ch in "iu":
                if d.get("fmt"):
                    fm = r.choice(FLAGS)
                    rest = sum(1 for c in args if c.startswith("i"))
                    args.append("i%d" % [fm, r.choice([0, 1, 5, 20, 30, self.digits, self.digits + 1, self.digits + 30]), r.choice([0, 0, 10, 40, 150]), r.choice([32, 42])][rest])
                else:
                    lo, hi = ints.pop(0) if ints else (0, 10)
                    v = r.choice([r.randint(lo, hi), r.randint(lo, hi), lo, hi]) if r.random() < 0.6 else max(lo, min(hi, r.randint(-20, 20)))
                    if name in ("idiv_i", "div_i") and v == 0:
                        v = 7
                    args.append("%s%d" % (ch, v))
            elif ch == "d":
                v = r.choice([r.uniform(-10, 10), r.uniform(0.001, 1), 1.0, 0.5, -3.0, r.uniform(1, 2) * 10.0 ** r.randint(-30, 30)])
                args.append("d" + float(v).hex())
            elif ch == "L":
                if d.get("text"):
                    t, _ = literal(r, "F", self.digits)
                    if name == "scat":
                        t = r.choice(["1", "0", "5", "e2", ".25", t])
                else:
                    t, e = literal(r, r.choice(["F", "S", "A", "P"]), self.digits)
                    ins.append(e)
                args.append("L" + t)
        self.emit(name, *args)
        # effects
        e = None
        if name in ("lit", "litstr", "blit"):
            e = ins[0] if ins else None
        elif name in ("from_i", "assign_i", "from_u", "bint"):
            e = float(args[1][1:])
        elif name in ("from_d", "from_ld", "bdbl"):
            e = float.fromhex(args[1][1:])
        elif d["f"]:
            try:
                e = d["f"](*ins)
            except TypeError:
                e = None
        for k, ch in enumerate(sig):
            x = args[k]
            if ch in "RZSVB":
                self.moved.discard(x)
                self.v[x] = e if ch == "R" else (1.0 if ch != "B" else e)
            elif ch in "MNC":
                self.v[x] = e if ch == "M" else self.v.get(x)
        if name in ("swapm", "swaps", "zswap", "bswap", "bswaps"):
            self.v[args[0]], self.v[args[1]] = None, None
        if "Q" in sig:
            self.moved.add(args[sig.index("Q")])

    def run(self, n):
        k0 = len(self.ops)
        while len(self.ops) - k0 < n:
            self.step()
        return self.ops


def related(r, t, dom):
    """A literal that has much in common with the literal t (same leading limb, same double, same digits, same magnitude...)."""
    pred = DOM[dom][0] if dom else (lambda x: True)
    neg, b = ("-", t[1:]) if t.startswith("-") else ("", t)
    m, _, e = b.partition("e")
    ip, _, fp = m.partition(".")
    c = [t, t]
    if m.isdigit() or fp:
        f0 = fp.ljust(20, "0")
        j = r.choice([12, 17, 17, len(f0), len(f0) + 9, len(f0) + 30])
        f1 = (f0.ljust(j, "0") if len(f0) < j else f0[:j]) + str(r.randint(1, 999))
        c += [neg + ip + "." + f1 + ("e" + e if e else "")] * 3                     # a later digit
        c += [neg + ip + "." + fp[::-1] + ("e" + e if e else "")] if fp else []       # the same whole part
        c += [neg + str(int(ip) + 1) + "." + fp + ("e" + e if e else "")]             # the same fraction
        c += [("" if neg else "-") + b]                                               # the same magnitude
        for k in (1, -1, 8, -8, 16, -16):
            c.append(neg + m + "e%d" % (int(e or 0) + k))                              # the same digits
        c.append(neg + ip + "." + fp[:3] + ("e" + e if e else ""))
    r.shuffle(c)
    for x in c:
        x = x.rstrip(".") if x.endswith(".") else x.replace(".e", "e")
        try:
            if pred(float(x)):
                return x
        except ValueError:
            pass
    return t


PROBE = [n for n, d in R.items() if d["g"] not in ("vec", "text", "ztext", "lit", "plumb", "prec", "query") and not any(c in d["sig"] for c in "svVSBbCQNL") and any(c in d["sig"] for c in "rzMiu") and not d.get("swap")]


# functions that keep state from a first use (tables, caches, coefficient arrays), most of it reached through special arguments
FUNCS = [n for n in PROBE if R[n]["g"] in ("elem", "special", "zeta", "integer", "hyper", "cplxf", "cplxs", "zzeta", "util")] + ["gamma", "zeta", "zgamma", "zzeta", "bernoulli", "gamma_near_n", "pow", "zeta_n"] * 3


def probe_calls(r, digits, name, n):
    """Argument lists for n calls of one function, related to each other."""
    d = R[name]
    sig, doms, ints = d["sig"], [x.split("|")[-1] for x in d["dom"]], list(d.get("ints", []))
    zdom = "S" if name in ("zzeta", "zgamma") else None
    first = []
    for ch in sig:
        if ch in "rM":
            dm = doms.pop(0) if doms else "A"
            while True:
                t, e = literal(r, dm, digits)
                if t[-1] not in "fn":
                    break
            first.append((dm, t))
        elif ch == "z":
            if doms:
                doms.pop(0)
            first.append(("z", literal(r, "S" if not zdom else r.choice(["U", "HB"]), digits)[0], literal(r, "S" if not zdom else "HB", digits)[0]))
        elif ch in "iu":
            lo, hi = ints.pop(0) if ints else (0, 10)
            first.append((lo, hi, r.randint(lo, hi)))
        elif ch == "d":
            first.append(("d", float(r.choice([0.5, 3.0, r.uniform(-10, 10)]))))
        else:
            first.append(None)
    calls = [first]

    def near(a):
        if a is None:
            return a
        if a[0] == "z":
            k = r.random()
            x, y = a[1], a[2]
            if k < 0.2:
                return a
            if k < 0.4:
                return ("z", x, related(r, y, "S"))
            if k < 0.55:
                return ("z", related(r, x, "S"), y)
            if k < 0.8:
                return ("z", x, y[1:] if y.startswith("-") else "-" + y)
            if k < 0.9:
                return ("z", y, x)
            return ("z", x[1:] if x.startswith("-") else "-" + x, y)
        if a[0] == "d":
            return ("d", r.choice([a[1], -a[1], a[1] * 2, a[1] + 1]))
        if len(a) == 3:
            return (a[0], a[1], max(a[0], min(a[1], r.choice([a[2], a[2], a[2] + 1, a[2] - 1, a[2] + 2, 2 * a[2], a[2] // 2, r.randint(a[0], a[1])]))))
        return (a[0], related(r, a[1], a[0]))
    while len(calls) < n:
        src = r.choice(calls)
        live = [k for k, x in enumerate(src) if x is not None]
        ch = set(live if r.random() < 0.25 or not live else [r.choice(live)])
        calls.append([near(x) if k in ch else x for k, x in enumerate(src)])
    return calls


def emit_calls(g, name, calls):
    """Those calls, over the last variables of the thread."""
    sig = R[name]["sig"]
    for c in calls:
        rv, zv = [15, 14, 13, 12, 11, 10], [7, 6, 5]
        args, out = [], [9, 8]
        for ch, x in zip(sig, c):
            if ch in "rM":
                y = "r%d" % rv.pop(0)
                g.emit("lit", y, "L" + x[1])
                args.append(y)
            elif ch == "z":
                y = "z%d" % zv.pop(0)
                p, q = "r%d" % rv.pop(0), "r%d" % rv.pop(0)
                g.emit("lit", p, "L" + x[1])
                g.emit("lit", q, "L" + x[2])
                g.emit("zmake", y, p, q)
                args.append(y)
            elif ch in "iu":
                args.append("%s%d" % (ch, x[2]))
            elif ch == "d":
                args.append("d" + x[1].hex())
            elif ch == "R":
                args.append("r%d" % out.pop(0))
            elif ch == "Z":
                args.append("z4")
        g.emit(name, *args)


def probe(g, name, n):
    emit_calls(g, name, probe_calls(g.r, g.digits, name, n))


def valid(ops, sigs):
    """No operation reads a moved-from variable (after operations have been removed, say)."""
    moved = set()
    for o in ops:
        sig = sigs.get(o["op"])
        if sig is None:
            return False
        for ch, x in zip(sig, o["a"]):
            if ch in "rzbsvMNCQ" and (o["t"], x) in moved:
                return False
        for ch, x in zip(sig, o["a"]):
            if ch in "RZSVBMNC":
                moved.discard((o["t"], x))
        for ch, x in zip(sig, o["a"]):
            if ch == "Q":
                moved.add((o["t"], x))
    return True


def pct(s):
    return "".join(c if 33 <= ord(c) < 127 and c != "%" else "%%%02x" % ord(c) for c in s)
