"""The properties: how a case is drawn, how a run is judged.

Every class has  gen(sim, rng, i) -> case  (a JSON-able description of one simulated history) and
verify(sim, case) -> (violations, info).  verify is a function of the case alone.
"""
import re, random, decimal

from . import gen as G
from .gen import Gen, R as OPS, GROUPS
from .drive import seed_of, symbolise

FATAL = {"uaf", "oob", "signal", "terminate", "deadlock", "recursion", "hang", "badfree", "doublefree"}
REF_BUDGET = 12000000
ADDR = re.compile(r"&[0-9a-f]+")
MAIN = ("efx", "gmp", "mpfr")


class Discard(Exception):
    pass


def noaddr(t):
    return ADDR.sub("&", t)


def per_thread(ops):
    d = {}
    for o in ops:
        d.setdefault(o["t"], []).append(o)
    return d


def strip(o, keep=("t", "op", "a")):
    return {k: o[k] for k in keep if k in o}


def viol_sig(sim, config, v, ops):
    """(class, stable signature, text) of a violation the runtime reported."""
    cls, tid, opi, text = v
    th = per_thread(ops).get(tid, [])
    opn = th[opi]["op"] if 0 <= opi < len(th) else "-"
    t = symbolise(sim.exes[config], text)
    if cls == "race":
        fns = sorted(set(re.findall(r"in (\S+)", t)))
        sig = "race:" + "|".join(f.split("@")[0] for f in fns)
    elif cls in ("uaf", "oob"):
        sig = "%s:%s:%s" % (cls, opn, "|".join(f.split("@")[0] for f in re.findall(r"in (\S+)", t)))
    elif cls == "leak":
        m = re.search(r"allocated by thread (\d+) operation (\d+)", text)
        if m:
            th = per_thread(ops).get(int(m.group(1)), [])
            k = int(m.group(2))
            opn = th[k]["op"] if k < len(th) else "-"
        sig = "leak:" + opn
    elif cls == "terminate":
        sig = "terminate:%s" % opn
    else:
        sig = "%s:%s" % (cls, opn)
    return cls, sig, "%s: operation '%s' (thread %d, #%d) on %s: %s" % (cls, opn, tid, opi, config, t)


class Viol:
    def __init__(self, cls, sig, text):
        self.cls, self.sig, self.text = cls, sig, text

    def __repr__(self):
        return "%s [%s]" % (self.text, self.sig)


def fatal(out):
    return any(v.cls in FATAL for v in out)


def run_viols(sim, case, r, base=()):
    out = []
    have = {(v[0]) for v in base}
    for v in r.viol:
        if v[0] in have and v[0] == "leak":
            continue
        out.append(Viol(*viol_sig(sim, case["config"], v, case["ops"])))
    if not fatal(out) and not r.ok():
        if r.wait in (96 << 8, 97 << 8, 14, 9):
            raise Discard("the sandbox's memory or time was used up")
        out.append(Viol("signal", "signal:process", "signal: the simulated process ended with status %#x without a report on %s" % (r.wait, case["config"])))
    return out


def _dec(t):
    t = t.split("|")[0]
    return decimal.Decimal(t)


def znear(a, b, digits):
    """Two complex numbers that agree to the library's digits (evaluation order differs, values do not)."""
    m, n = re.match(r"\((.*),(.*)\)$", a or ""), re.match(r"\((.*),(.*)\)$", b or "")
    if not m or not n:
        return False
    x, y = [_dec(t) for t in m.groups()], [_dec(t) for t in n.groups()]
    with decimal.localcontext() as c:
        c.prec, c.Emax, c.Emin = digits + 60, decimal.MAX_EMAX, decimal.MIN_EMIN
        for t in (decimal.InvalidOperation, decimal.Overflow, decimal.Inexact, decimal.Subnormal, decimal.Underflow, decimal.Clamped, decimal.Rounded):
            c.traps[t] = False
        if not all(t.is_finite() for t in x + y):
            return all((p.is_nan() and q.is_nan()) or p == q for p, q in zip(x, y))
        size = max(abs(t) for t in y)
        return all(abs(p - q) <= size * decimal.Decimal(10) ** -(digits - 3) for p, q in zip(x, y))


class Prop:
    id = ""
    configs = MAIN
    weights = (4, 3, 3)
    quick = 3000
    thorough = 60000
    deep = ("efx-30", "gmp-30", "mpfr-30", "efx-300", "mpfr-300", "efx-1200", "gmp-1200", "mpfr-1200", "efx-6000")     # thorough
    extra = ()               # other precisions, used by every `every`-th case
    every = 16
    level = "exploration"
    assumptions = []
    rule = ""
    one_schedule = True      # a case is one simulated process, whose switches can be listed

    def __init__(self):
        self._names = None

    def config(self, rng, i=None):
        if i is not None:
            if self.extra and i % self.every == self.every - 1:
                return self.extra[(i // self.every) % len(self.extra)]
            return self.configs[i % len(self.configs)]
        return rng.choices(self.configs, self.weights)[0]

    def opts(self, rng, mt):
        o = dict(seed=rng.getrandbits(60), fill=rng.choice([0, 255, 203, 1, 127, 170]), quar=rng.choice([0, 1, 4, 64]))
        if mt:
            k = rng.random()
            o["race"] = 1
            o["mean"] = rng.choice([0, 20, 60, 200, 800, 4000, 20000]) if k < 0.9 else 5
            o["psync"] = rng.choice([0, 0.1, 0.5, 1])
            o["pstatic"] = rng.choice([0, 0, 0.02, 0.3])
            o["pmp"] = rng.choice([0, 0, 0.01, 0.1])
        return o

    def ref(self, sim, config, ops, opts=None, budget=REF_BUDGET):
        """An undisturbed run in a fresh process; None of its own trouble is this property's business."""
        o = dict(seed=1, fill=203, quar=64, budget=budget, race=0, leak=0)
        o.update(opts or {})
        r = sim.run(config, o, ops)
        if not r.ok() or any(c in FATAL for c in r.classes()):
            raise Discard("reference run: " + (r.viol[0][0] if r.viol else "abnormal"))
        return r

    def pick_probe(self, rng, sigs, digits, k, heavy):
        pool = [n for n in G.PROBE if n in sigs and G.allowed(n, digits) and (not OPS[n].get("heavy") or rng.random() < heavy)]
        return pool[k % len(pool)] if rng.random() < 0.5 else rng.choice(pool)


def base_names(sim, config, groups=None, exclude=()):
    sigs, (d10, _) = sim.info(config)
    return [n for n in OPS if n in sigs and G.allowed(n, d10) and (groups is None or OPS[n]["g"] in groups) and n not in exclude]


def force(g, name):
    a, b = g.names, g.weights
    g.names, g.weights = [name], [1]
    g.step()
    g.names, g.weights = a, b


def compare(case, rec, ref, what, t, i, ops):
    if rec.status != ref.status or noaddr(rec.text) != noaddr(ref.text):
        o = ops[i]
        return Viol("value", "value:%s" % o["op"], "%s: '%s %s' (thread %d, #%d) on %s gave %s %s, undisturbed it gives %s %s" %
                    (what, o["op"], " ".join(o["a"]), t, i, case["config"], rec.status, rec.text[:400], ref.status, ref.text[:400]))
    return None


# ------------------------------------------------------------------------------------------------ C01
class C01(Prop):
    id = "C01"
    extra = ("efx-6000",)
    quick = 7000
    rule = ("a case is a program of 2-4 caller threads (each on its own numbers, all reading the same shared numbers) under one seeded schedule; "
            "non-trivial: at least two threads ran and the schedule preempted at least once; distinct by schedule+result hash")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        g0 = Gen(rng, d10, groups={"lit", "arith", "elem", "cplx"}, tid=0, nr=6)
        g0.run(rng.randint(3, 7))
        ops = g0.ops
        shared = ["g%s" % v[1:] for v in g0.v if v[0] == "r" and v not in g0.moved]
        sv = {"g%s" % v[1:]: e for v, e in g0.v.items() if v[0] == "r"}
        zsh = ["h%s" % v[1:] for v in g0.v if v[0] == "z" and v not in g0.moved]
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        style = i // 3 % 4
        tgt = names[(i // 12 * 2 + style) % len(names)] if style < 2 else None
        if style == 2 and rng.random() < 0.5:
            tgt = rng.choice([n for n in TABLEOPS if n in sigs and G.allowed(n, d10)])
        tgt2 = rng.choice(names) if rng.random() < 0.3 else tgt
        calls = []
        if style == 3:
            # every thread calls the same function with related arguments
            pn = self.pick_probe(rng, sigs, d10, i // 12, 0.1)
            calls = G.probe_calls(rng, d10, pn, rng.randint(2, 5))
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups=None if rng.random() < 0.5 else set(rng.sample(GROUPS, 3)) | {"lit"}, heavy=0.15, tid=t, nr=4, shared=shared, zshared=zsh)
            g.sv = sv
            if calls:
                for _ in range(rng.randint(1, 2)):
                    g.run(rng.randint(0, 1))
                    G.emit_calls(g, pn, [rng.choice(calls) for _ in range(rng.randint(1, 2))])
            elif tgt:
                if rng.random() < 0.5:
                    force(g, tgt if t != 2 else tgt2)
                else:
                    g.run(rng.randint(0, 2))
                    force(g, tgt2 if t == 2 else tgt)
                g.run(rng.randint(0, 3))
            else:
                g.run(rng.randint(3, 9))
            ops = ops + g.ops
        return dict(prop=self.id, config=config, opts=self.opts(rng, True), ops=ops, switches=None)

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        refs, steps = {}, 0
        for t in th:
            if t == 0:
                continue
            sub = [strip(o) for o in th.get(0, [])] + [dict(strip(o), t=1) for o in th[t]]
            refs[t] = self.ref(sim, config, sub)
            steps += refs[t].stats["steps"]
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        if not fatal(out):
            for (t, i), rec in sorted(r.ops.items()):
                if t == 0:
                    continue
                v = compare(case, rec, refs[t].ops[(1, i)], "result differs when threads are interleaved", t, i, th[t])
                if v:
                    out.append(v)
                    break
            for t in refs:
                if r.final.get(t, "") != refs[t].final.get(1, ""):
                    if not any(v.cls == "value" for v in out):
                        out.append(Viol("final", "final", "thread %d's variables at the end: %s / undisturbed: %s" % (t, r.final.get(t, "")[:300], refs[t].final.get(1, "")[:300])))
                if r.final.get(0, "") != refs[t].final.get(0, ""):
                    out.append(Viol("shared", "shared", "shared numbers changed: %s / %s" % (r.final.get(0, "")[:300], refs[t].final.get(0, "")[:300])))
        return out, dict(nontrivial=len(refs) >= 2 and r.stats.get("pre", 0) > 0, hash=r.hash, r=r)


# ------------------------------------------------------------------------------------------------ C02
TABLEOPS = "bernoulli bernoulli_table primes zeta_n factorial factorial2 binomial_uu gamma log sqrt zeta bstr blimits cbrt exp sin tolerance max_iteration factors factors_big gamma_pm bernoulli_big factorial_big factorial2_big binomial_big jpow zjpow".split()


class C02(Prop):
    id = "C02"
    extra = ("efx-1200", "gmp-1200")
    quick = 2600
    rule = ("a case is 2-4 threads (and the main program before them) using constants, limits and tables for the first time in random orders under one seeded schedule; "
            "non-trivial: at least two threads used one object and a first use was preempted or waited for; distinct by schedule+result hash")

    def __init__(self):
        Prop.__init__(self)
        self.cold = {}

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        consts = [n for n in base_names(sim, config) if OPS[n].get("const")]
        tabs = [n for n in TABLEOPS if n in sigs and G.allowed(n, d10)]
        own = consts + tabs
        nt = rng.choice([2, 2, 3, 3, 4])
        k = rng.choice([1, 2, 3, 5, 8, 12])
        tgt = own[(i // 3) % len(own)]
        pool = [tgt] + rng.sample(consts, k) + (rng.sample(tabs, min(2, len(tabs))) if rng.random() < 0.5 else [])
        pool = [p for p in pool if p in sigs]
        ops = []
        fixed = {}
        for t in range(0 if rng.random() < 0.2 else 1, nt + 1):
            ps = pool[:]
            if t == 0:
                ps = rng.sample(pool, 1)
            elif rng.random() < 0.7:
                rng.shuffle(ps)
            g = Gen(rng, d10, tid=t, nr=4)
            for n in ps:
                if "r" in OPS[n]["sig"] and not set(OPS[n]["sig"]) - set("rRiu"):
                    # same operand on every thread
                    if n not in fixed:
                        dom = OPS[n]["dom"][0].split("|")[0] if OPS[n]["dom"] else "A"
                        fixed[n] = [G.literal(rng, dom, d10)[0] for _ in range(OPS[n]["sig"].count("r"))], [rng.randint(*x) for x in OPS[n].get("ints", [])]
                    a, lits, ints = [], list(fixed[n][0]), list(fixed[n][1])
                    for ch in OPS[n]["sig"]:
                        if ch == "r":
                            x = "r%d" % (5 + len(a))
                            g.emit("lit", x, "L" + lits.pop(0))
                            a.append(x)
                        elif ch == "R":
                            a.append(g.fresh("r"))
                        else:
                            a.append(ch + str(ints.pop(0) if ints else 3))
                    g.emit(n, *a)
                elif n in fixed and rng.random() < 0.7:
                    g.emit(n, *fixed[n])
                else:
                    force(g, n)
                    if not set(OPS[n]["sig"]) - set("RVBiu"):
                        fixed[n] = g.ops[-1]["a"]
            ops += g.ops
        return dict(prop=self.id, config=config, opts=self.opts(rng, True), ops=ops, switches=None)

    def cold_text(self, sim, config, o):
        """The operation's text when it is the first thing a process does."""
        key = (config, o["op"], tuple(o["a"]))
        if key not in self.cold:
            r = self.ref(sim, config, [dict(strip(o), t=1)])
            if len(self.cold) > 20000:
                self.cold.clear()
            self.cold[key] = (r.ops[(1, 0)].status, noaddr(r.ops[(1, 0)].text), r.stats["steps"])
        return self.cold[key]

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        exp, steps = {}, 0
        for t in th:
            for i, o in enumerate(th[t]):
                if OPS.get(o["op"], {}).get("const") and OPS[o["op"]]["sig"] in ("R", "") or o["op"] in ("tolerance", "max_iteration"):
                    e = self.cold_text(sim, config, o)
                    exp[(t, i)] = e
                    steps += e[2]
            if t and any((t, i) not in exp for i in range(len(th[t]))):
                rr = self.ref(sim, config, [dict(strip(o), t=1) for o in th[t]])
                steps += rr.stats["steps"]
                for i in range(len(th[t])):
                    if (t, i) not in exp:
                        exp[(t, i)] = (rr.ops[(1, i)].status, noaddr(rr.ops[(1, i)].text), 0)
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        if not fatal(out):
            addr = {}
            for (t, i), rec in sorted(r.ops.items()):
                e = exp.get((t, i))
                op = th[t][i]
                if e and (rec.status, noaddr(rec.text)) != e[:2]:
                    out.append(Viol("value", "value:" + op["op"], "'%s' seen by thread %d (#%d) on %s is %s %s, but %s %s in a process that uses it first and alone" %
                                    (op["op"], t, i, config, rec.status, noaddr(rec.text)[:400], e[0], e[1][:400])))
                    break
                m = re.search(r"&([0-9a-f]+)", rec.q)
                if m:
                    n = re.sub(r"^kc?_", "", op["op"]) + "".join(" " + x for x in op["a"] if x[0] == "i")
                    if addr.setdefault(n, m.group(1)) != m.group(1):
                        out.append(Viol("identity", "identity:" + n, "'%s' is not one object: thread %d got another address on %s" % (n, t, config)))
        return out, dict(nontrivial=len([t for t in th if t]) >= 2 and (r.stats.get("pre", 0) + r.stats.get("gwaits", 0)) > 0, hash=r.hash, r=r)


# ------------------------------------------------------------------------------------------------ C03
class C03(Prop):
    id = "C03"
    quick = 6000
    weights = (2, 4, 4)
    rule = ("a case is 1-3 threads creating and using numbers while other numbers' precision is reduced and foreign code changes GMP/MPFR default precision and rounding mode "
            "at random library calls, judged against each program run alone by the main thread with none of that; non-trivial: an environment change took effect, a number's precision "
            "was reduced, or a number was created off the main thread; distinct by schedule+result hash")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        nt = rng.choice([1, 1, 2, 2, 3])
        ops = []
        tgt = names[(i // 3) % len(names)]
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups=None if rng.random() < 0.6 else set(rng.sample(GROUPS, 3)) | {"lit"}, heavy=0.1, tid=t, nr=4, exclude=("precision_tmp",))
            out = []
            hit = rng.randint(1, 4) if (t == 1 or rng.random() < 0.3) else 99
            for n in range(rng.randint(3, 8)):
                k = len(g.ops)
                if n == hit:
                    for _ in range(3):
                        force(g, tgt)
                else:
                    g.step()
                for o in g.ops[k:]:
                    if o["op"] == tgt and config != "efx" and rng.random() < 0.8:
                        out.append({"t": t, "op": "env", "a": self.envargs(rng, config), "x": 1})
                    if rng.random() < 0.35:
                        z = rng.random()
                        live = [v for v in g.v if v[0] == "r" and v not in g.moved]
                        if z < 0.4 or not live:
                            out.append({"t": t, "op": "env", "a": self.envargs(rng, config), "x": 1})
                        elif z < 0.7:
                            out.append({"t": t, "op": "precision_tmp", "a": [rng.choice(live) if False else "r15", "i%d" % rng.choice([1, 8, 16, 24, 40, d10 // 2])], "x": 1})
                        else:
                            out.append({"t": t, "op": "lit", "a": ["r14", "L" + G.literal(rng, "P", d10)[0]], "x": 1})
                            out.append({"t": t, "op": "precision", "a": ["r14", "i%d" % rng.choice([1, 8, 16, 24, 40, d10 // 2])], "x": 1})
                            out.append({"t": t, "op": rng.choice(["sqrt", "exp", "mul", "inv", "copy"]) if True else "", "a": [], "x": 1})
                            q = out[-1]
                            q["a"] = {"mul": ["r15", "r14", "r14"]}.get(q["op"], ["r15", "r14"])
                    if config != "efx" and rng.random() < 0.5:
                        o["e"] = [[rng.choice([1, 1, 2, 3, 5, 8, rng.randint(1, 60)])] + [int(x[1:]) for x in self.envargs(rng, config)]]
                    out.append(o)
            ops += out
        return dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)

    @staticmethod
    def envargs(rng, config):
        what = rng.choice([0]) if config == "gmp" else rng.choice([1, 1, 2, 2, 0])
        val = rng.randint(0, 4) if what == 2 else rng.choice([2, 16, 53, 64, 128, 300, 1000, 5000])
        return ["i%d" % what, "i%d" % val]

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        refs, steps, made = {}, 0, 0
        for t in th:
            rr = self.ref(sim, config, [dict(strip(o), t=0, **({"k": 1} if o.get("x") else {})) for o in th[t]])
            refs[t] = rr
            steps += rr.stats["steps"]
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        if not fatal(out):
            for (t, i), rec in sorted(r.ops.items()):
                if th[t][i].get("x"):
                    continue
                v = compare(case, rec, refs[t].ops[(0, i)], "result depends on the environment or the creating thread", t, i, th[t])
                if v:
                    out.append(v)
                    break
        return out, dict(nontrivial=any(o.get("x") for o in ops) or r.stats.get("env", 0) > 0 or len(th) > 1, hash=r.hash, r=r,
                         faults={"default precision / rounding mode changed under the library": r.stats.get("env", 0),
                                 "another number's precision reduced": sum(1 for o in ops if o["op"] in ("precision", "precision_tmp"))})


# ------------------------------------------------------------------------------------------------ C04 / C05
IOOPS = ["sink", "zsink", "source", "zsource", "quad", "newton"]


def io_op(g, rng, name, d10):
    """An operation over a healthy stream or solver, for the allocation-failure properties."""
    if name in ("sink", "zsink"):
        x = g.pick_read("A", (), "r" if name == "sink" else "z")
        g.emit(name, x, "i-1", "i0", "i%d" % rng.choice([0, 0, 16]), "i%d" % rng.choice([0, 3]), "i%d" % rng.choice([0, 1, 3]), "i%d" % rng.choice(G.FLAGS),
               "i%d" % (1000 * rng.choice([0, 5, 20, d10]) + rng.choice([0, 0, 40])), "i0")
    elif name in ("source", "zsource"):
        t = "r%d" % rng.randrange(g.nr) if name == "source" else "z%d" % rng.randrange(3)
        if name == "zsource":
            a, b = G.literal(rng, "F", d10)[0], G.literal(rng, "F", d10)[0]
            txt = rng.choice(["(%s,%s)" % (a, b), "(%s)" % a, a])
        else:
            txt = G.literal(rng, "F", d10)[0]
        g.emit(name, t, "L " + txt + " 4", "i-1", "i0", "u%d" % rng.randint(1, 99), "i%d" % rng.choice([1, 5, 256]), "i%d" % rng.choice([0, 1]), "i%d" % rng.choice([1, 1, 2]), "i0")
        g.v[t] = None if name == "source" else 1.0
        g.moved.discard(t)
    else:
        t = "r%d" % rng.randrange(g.nr)
        a, b = ("r%d" % (g.nr + 1), "r%d" % (g.nr + 2))
        g.emit("lit", a, "L" + rng.choice(["0", "1", "0.5"]) if name == "quad" else "L3")
        g.emit("lit", b, "L2")
        g.emit(name, t, a, b, "L1e-%d" % (rng.choice([2, 3, 4]) if name == "quad" else rng.choice([5, 20])), "i%d" % rng.randrange(6 if name == "quad" else 2), "i-1", "i0", "i%d" % rng.choice([-1, 2]), "i0", "i1")
        g.v[t] = None
        g.moved.discard(t)


class C04(Prop):
    id = "C04"
    extra = ("efx-6000",)
    quick = 14000
    rule = ("a case is a program of library operations with the C++ allocator failing at chosen allocations inside chosen operations (one, a burst, or from then on), judged against the same "
            "program in a process without failures in which the failed operations are left out; non-trivial: at least one injected failure was hit; distinct by result hash")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        pool = base_names(sim, config) + IOOPS * 6
        tgt = pool[(i // 3) % len(pool)]
        g = Gen(rng, d10, groups=None if rng.random() < 0.3 else set(rng.sample(GROUPS, 3)) | {"lit"}, heavy=0.08, tid=1, nr=4)
        g.run(rng.choice([0, 0, 1, 3, 5]))
        if tgt in IOOPS:
            io_op(g, rng, tgt, d10)
        else:
            force(g, tgt)
        k = len(g.ops) - 1
        if rng.random() < 0.5 and "Q" not in OPS.get(tgt, {"sig": "Q"})["sig"] and tgt not in IOOPS:
            g.ops.append(dict(g.ops[k]))           # the same again, now with memory
        g.run(rng.choice([0, 1, 2]))
        case = dict(prop=self.id, config=config, opts=self.opts(rng, False), ops=g.ops, switches=None)
        self.plant(sim, rng, case, k, i)
        return case

    def plant(self, sim, rng, case, k, i):
        p = self.ref(sim, case["config"], [strip(o) for o in case["ops"]], dict(surv=1))
        ops = case["ops"]
        n = p.ops[(1, k)].allocs
        can = [j for j in range(len(ops)) if p.ops[(1, j)].allocs]
        sel = [k] if n and rng.random() < 0.8 else rng.sample(can, min(len(can), rng.randint(1, 4)))
        for j in sel:
            n = p.ops[(1, j)].allocs
            if n == 0:
                continue
            a = rng.choice([1, 2, 3, n, n - 1, rng.randint(1, n), rng.randint(1, n), rng.randint(1, n), 1 + (i // 7) % n])
            if p.surv.get((1, j)) and rng.random() < 0.3:
                a = rng.choice(p.surv[(1, j)]) + rng.choice([0, 0, 1])
            a = max(1, min(n, a))
            b = rng.choice([a, a, a, a + 1, a + rng.randint(1, 5), 10 ** 9])
            ops[j]["f"] = [[a, b]]
            if rng.random() < 0.15 and b < n:
                c = rng.randint(b + 1, n)
                ops[j]["f"].append([c, c])

    def judge(self, sim, case, r, base, th, out):
        for (t, i), rec in sorted(r.ops.items()):
            ref = base.ops[(t, i)]
            o = th[t][i]
            if rec.status == "A":
                if rec.fired == 0:
                    out.append(Viol("spurious", "spurious:" + o["op"], "'%s' (thread %d, #%d) on %s threw bad_alloc although no allocation failed in it" % (o["op"], t, i, case["config"])))
                    break
                continue
            if rec.fired and rec.status == "E" and ref.status != "E":
                out.append(Viol("exception", "exception:" + o["op"], "'%s' (thread %d, #%d) on %s reported an allocation failure as %s" % (o["op"], t, i, case["config"], rec.text[:100])))
                break
            v = compare(case, rec, ref, "wrong value after an allocation failure inside the operation" if rec.fired else "wrong value after an earlier failed operation", t, i, th[t])
            if v:
                v.cls = "silent" if rec.fired else "poison"
                v.sig = v.cls + ":" + o["op"]
                out.append(v)
                break

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        o = dict(case["opts"])
        o["budget"] = 40 * REF_BUDGET
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        fired = r.stats.get("fail", 0)
        if fatal(out):
            base0 = self.ref(sim, config, [strip(q) for q in ops])
        else:
            bops = []
            for t in sorted(th):
                for i, q in enumerate(th[t]):
                    q2 = strip(q)
                    if (t, i) in r.ops and r.ops[(t, i)].status == "A":
                        q2["k"] = 1
                    bops.append(q2)
            base = self.ref(sim, config, bops, dict(leak=1))
            if any(v.cls == "leak" for v in out) and "leak" in base.classes():
                raise Discard("leaks without failures")
            self.judge(sim, case, r, base, th, out)
            for t in th:
                if not out and r.final.get(t, "") != base.final.get(t, ""):
                    out.append(Viol("final", "final", "variables after the failures on %s: %s / without: %s" % (config, r.final.get(t, "")[:300], base.final.get(t, "")[:300])))
        out = [v for v in out if v.cls in self.mine]
        return out, dict(nontrivial=fired > 0, hash=r.hash, r=r, faults={"allocation failed": fired})

    mine = FATAL | {"leak", "unusable", "spurious", "exception", "silent", "poison", "final", "value"}


class C05(C04):
    id = "C05"
    extra = ("efx-1200", "gmp-1200")
    quick = 8000
    rule = ("a case is 1-3 threads (cold process) in which first uses of constants, tables and caches are cut short by allocation failures and everything is then used again with memory available, judged "
            "against each program alone in a process where nothing failed; non-trivial: an operation failed and a later operation ran; distinct by schedule+result hash")
    mine = FATAL | {"spurious", "poison", "final", "value", "unusable"}

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        inits = [n for n in names if OPS[n].get("const")] + TABLEOPS
        inits = [n for n in inits if n in sigs and G.allowed(n, d10)]
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        funcs = [n for n in G.FUNCS if n in sigs and G.allowed(n, d10)]
        tabs = [n for n in TABLEOPS if n in inits]
        kind = (i // 3) % 5
        tgt = [inits, names, funcs, tabs, funcs][kind]
        tgt = tgt[(i // 15) % len(tgt)] if rng.random() < 0.7 else rng.choice(tgt)
        ops = []
        first = self.first_use(sim, rng, config, d10, tgt) if rng.random() < 0.6 else None
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups=None if rng.random() < 0.4 else {"const", "integer", "special", "elem", "zeta", "lit"}, heavy=0.1, tid=t, nr=4)
            if rng.random() < 0.3:
                g.run(1)
            if first:
                g.ops += [dict(o, t=t) for o in first[0].ops]
                g.v.update(first[0].v)
            else:
                force(g, tgt)
            if tgt in G.PROBE and rng.random() < 0.3 and not OPS[tgt].get("heavy"):
                G.probe(g, tgt, 2)
            k = len(g.ops) - 1
            again = dict(g.ops[k])
            if rng.random() < 0.7:
                # everything about the target fails before it is used with memory
                g.ops[k]["f"] = [self.fault(rng)]
                for _ in range(0 if "Q" in OPS[tgt]["sig"] else rng.choice([0, 0, 1, 2])):
                    g.ops.append(dict(strip(again), f=[self.fault(rng)]))
            if "Q" not in OPS[tgt]["sig"]:
                g.ops.append(strip(again))
            for _ in range(rng.randint(1, 3)):
                j = len(g.ops)
                if kind == 3 and rng.random() < 0.6:
                    force(g, tgt if rng.random() < 0.5 else rng.choice(tabs))
                elif rng.random() < 0.5:
                    force(g, rng.choice(inits))
                else:
                    g.step()
                if rng.random() < 0.4:
                    q = g.ops[-1]
                    if "Q" not in OPS[q["op"]]["sig"] and q["op"] != "lit":
                        g.ops.append(strip(q))
                        q["f"] = [self.fault(rng)]
            ops += g.ops
        case = dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)
        if rng.random() < 0.7:
            # put the failures at allocations that exist, often at those that outlive the operation: state being built
            try:
                th = per_thread(ops)
                for t in th:
                    p = self.ref(sim, config, [dict(strip(q), t=1) for q in th[t]], dict(surv=1))
                    for j, q in enumerate(th[t]):
                        n = p.ops[(1, j)].allocs
                        if "f" in q and n:
                            sv = p.surv.get((1, j))
                            a = rng.choice([rng.randint(1, n), rng.randint(1, n), n, 1 + (i // 7) % n])
                            if sv and rng.random() < 0.6:
                                a = min(n, rng.choice(sv) + rng.choice([0, 0, 0, 1]))
                            q["f"] = [[a, rng.choice([a, a, a + 1, 10 ** 9])]]
            except Discard:
                pass
        return case

    def first_use(self, sim, rng, config, d10, tgt):
        """The target with arguments for which its first use in a process does more than its second."""
        rng.sp = 0.6
        best, most = None, rng.random() < 0.5
        try:
            for _ in range(4):
                g = Gen(rng, d10, tid=1, nr=4)
                force(g, tgt)
                if "Q" in OPS[tgt]["sig"] or any(OPS[o["op"]].get("heavy") for o in g.ops):
                    return best
                k = len(g.ops) - 1
                try:
                    p = self.ref(sim, config, g.ops + [g.ops[-1]])
                except Discard:
                    continue
                x = p.ops[(1, k)].allocs - p.ops[(1, k + 1)].allocs
                if x > (best[1] if best else 0):
                    best = g, x
                    if not most:
                        break
        finally:
            rng.sp = 0.2
        return best

    @staticmethod
    def fault(rng):
        a = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12, 20, rng.randint(1, 60), rng.randint(1, 3000)])
        return [a, rng.choice([a, a, a + 1, 10 ** 9])]

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        o = dict(case["opts"])
        o["budget"] = 20 * REF_BUDGET
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = [v for v in run_viols(sim, case, r) if v.cls not in ("leak",)]
        fired = r.stats.get("fail", 0)
        if fatal(out):
            for t in th:
                self.ref(sim, config, [dict(strip(q), t=1) for q in th[t]])
        else:
            for t in sorted(th):
                bops = [dict(strip(q), t=1, **({"k": 1} if r.ops[(t, i)].status == "A" else {})) for i, q in enumerate(th[t])]
                base = self.ref(sim, config, bops)
                base.ops = {(t, i): x for (_, i), x in base.ops.items()}
                sub = type(r)()
                sub.ops = {k: x for k, x in r.ops.items() if k[0] == t}
                self.judge(sim, case, sub, base, th, out)
                if not out and r.final.get(t, "") != base.final.get(1, ""):
                    out.append(Viol("final", "final", "variables after the failures on %s: %s / without: %s" % (config, r.final.get(t, "")[:300], base.final.get(1, "")[:300])))
        out = [v for v in out if v.cls in self.mine or v.cls == "race"]
        failed = any(x.status == "A" for x in r.ops.values()) or bool(out)
        return out, dict(nontrivial=failed and fired > 0, hash=r.hash, r=r, faults={"allocation failed": fired})


# ------------------------------------------------------------------------------------------------ C06
class C06(Prop):
    id = "C06"
    extra = ("efx-6000",)
    quick = 8000
    rule = ("a case is a program of value plumbing and arithmetic on reused, moved, swapped and aliased variables over recycled, pattern-filled memory; sampled results are recomputed in a fresh process from "
            "fresh, never-reused variables through the operations they depend on, with copies instead of moves and swaps; non-trivial: a compared result has a target or history that differs; distinct by result hash")

    PLUMB = {"plumb", "vec", "compound", "lit", "text", "cplx", "boost"}

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        if (i // 3) % 3 == 2:
            # functions called again and again with arguments that are related
            g = Gen(rng, d10, groups=self.PLUMB, heavy=0, tid=1, nr=3)
            for _ in range(rng.choice([1, 1, 2])):
                n = self.pick_probe(rng, sigs, d10, i // 9, 0.25 if config == "efx" else 0.6)
                g.run(rng.choice([0, 0, 1]))
                G.probe(g, n, rng.randint(2, 3) if OPS[n].get("heavy") else rng.randint(3, 6))
            opts = self.opts(rng, False)
            opts["quar"] = rng.choice([0, 0, 0, 1, 3, 16])
            return dict(prop=self.id, config=config, opts=opts, ops=g.ops, switches=None, sample=rng.getrandbits(30), nsample=3)
        tgt = names[(i // 3) % len(names)]
        gr = rng.random()
        groups = self.PLUMB | {"arith", "elem"} if gr < 0.5 else None if gr < 0.8 else set(rng.sample(GROUPS, 3)) | {"lit", "plumb"}
        g = Gen(rng, d10, groups=groups, heavy=0.08, tid=1, nr=rng.choice([2, 3, 4]))
        g.run(rng.randint(1, 7))
        force(g, tgt)
        g.run(rng.randint(1, 6))
        opts = self.opts(rng, False)
        opts["quar"] = rng.choice([0, 0, 0, 1, 3, 16])
        n = len(g.ops)
        return dict(prop=self.id, config=config, opts=opts, ops=g.ops, switches=None, sample=rng.getrandbits(30), nsample=4)

    @staticmethod
    def rmw(name, sig):
        """Output kinds that this operation also reads."""
        if "V" in sig and name not in ("bernoulli_table", "vcopy", "vclear"):
            return "V"
        return "S" if name == "scat" else ""

    @staticmethod
    def slice(ops, k, sigs):
        """Operations that determine the outputs of ops[k], over fresh variables; the index of k's image; variable map."""
        # backwards: which operations matter
        need = set()
        W = "RZSVBMNC"
        Rd = "rzsvbMNCQ"
        live = set()
        keep = []
        for j in range(k, -1, -1):
            sig, a = sigs[ops[j]["op"]], ops[j]["a"]
            outs = {x for ch, x in zip(sig, a) if ch in W}
            rmw = C06.rmw(ops[j]["op"], sig)
            if j == k or outs & live:
                keep.append(j)
                live -= {x for ch, x in zip(sig, a) if ch in "RZSVB" and ch not in rmw}
                live |= {x for ch, x in zip(sig, a) if (ch in Rd or ch in rmw) and x[0] in "rzsvb"}
        keep.reverse()
        last = {}
        for j in keep:
            sig, a = sigs[ops[j]["op"]], ops[j]["a"]
            for x in a:
                last[x] = j
        cap = {"r": 16, "z": 8, "s": 8, "v": 4, "b": 8}
        free = {c: ["%s%d" % (c, n) for n in range(cap[c] - 1, -1, -1)] for c in cap}
        cur, out = {}, []
        cpop = {"r": "copyctor", "z": "zcopyctor", "b": "bcopy", "v": "vcopy"}

        def fresh(c):
            if not free[c]:
                raise Discard("too many variables")
            return free[c].pop()
        idx = None
        for j in keep:
            o = ops[j]
            sig, a, name = sigs[o["op"]], o["a"], o["op"]
            rd = {x: cur[x] for ch, x in zip(sig, a) if ch in "rzsvbMNCQ" and x in cur}
            na, new = [], {}
            # an earlier operation on aliased operands stays one, the examined one gets separate operands
            alias = {x for ch, x in zip(sig, a) if ch in "MNC"}
            # so does one in Boost's expression templates (a = b - a is computed as -(a - b), a zero of the other sign in MPFR)
            keepb = {x for ch, x in zip(sig, a) if ch == "B" and "b" in sig and j != k and x in [y for c2, y in zip(sig, a) if c2 == "b"]}
            alias |= keepb
            if name in ("swapm", "swaps", "zswap", "bswap", "bswaps"):
                c = a[0][0]
                for x in a:
                    if x not in cur:
                        cur[x] = fresh(c)
                # a swap only renames, the copies are made afresh
                p, q = fresh(c), fresh(c)
                out.append({"t": 1, "op": cpop[c], "a": [p, cur[a[1]]]})
                out.append({"t": 1, "op": cpop[c], "a": [q, cur[a[0]]]})
                cur[a[0]], cur[a[1]] = p, q
                if j == k:
                    idx = len(out) - 1
                continue
            for ch, x in zip(sig, a):
                if ch in "rzsvb" and x[0] == ch and j != k and x in alias:
                    na.append(None)
                elif ch in "rzsvb" and x[0] == ch:
                    if x not in cur:
                        cur[x] = fresh(ch)
                    na.append(cur[x])
                elif ch in "MNC" or ch in C06.rmw(name, sig) or x in keepb:
                    c = x[0]
                    y = fresh(c)
                    if x in cur:
                        if c == "s":
                            # strings have no copy operation: keep the variable
                            free[c].append(y)
                            y = cur[x]
                        else:
                            out.append({"t": 1, "op": cpop[c], "a": [y, cur[x]]})
                    new[x] = y
                    na.append(y)
                elif ch in "RZSVB":
                    y = fresh(x[0])
                    new[x] = y
                    na.append(y)
                elif ch == "Q":
                    if x not in cur:
                        cur[x] = fresh(x[0])
                    na.append(cur[x])
                else:
                    na.append(x)
            na = [new[a[q]] if y is None else y for q, y in enumerate(na)]
            nm = {"move": "copyctor", "movector": "copyctor", "movector2": "copyctor", "zmove": "zcopyctor", "bmove": "bcopy", "bmovector": "bcopy",
                  "selfassign": "nop1", "selfmove": "nop1", "zselfassign": "nop1", "bselfassign": "nop1"}.get(name, name)
            cur.update(new)
            if nm != "nop1":
                out.append({"t": 1, "op": nm, "a": na})
            if j == k:
                idx = len(out) - 1
        return out, idx, cur

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        sigs, _ = sim.info(config)
        o = dict(case["opts"])
        o["budget"] = 6 * REF_BUDGET
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        if "hang" in r.classes():
            raise Discard("too long")
        out = run_viols(sim, case, r)
        rng = random.Random(case["sample"])
        cand = [j for j in range(len(ops)) if (1, j) in r.ops and r.ops[(1, j)].status == "K"]
        if len([j for j in cand if ops[j]["op"] not in ("lit", "zmake")]) > 1:
            cand = [j for j in cand if ops[j]["op"] not in ("lit", "zmake")]
        only = case.get("only")
        if only is not None:
            cand = [j for j in cand if j in only]
        pick = cand if len(cand) <= case["nsample"] else sorted(rng.sample(cand, case["nsample"] - 1) + [cand[-1]])
        compared = 0
        if not out:
            for j in sorted(set(pick)):
                try:
                    sl, idx, cur = self.slice(ops, j, sigs)
                except Discard:
                    continue
                if idx is None or idx < 0:
                    continue
                rr = sim.run(config, dict(seed=1, fill=203, quar=1000000, budget=3 * REF_BUDGET, race=0, leak=0), sl)
                if any(c in FATAL for c in rr.classes()):
                    if "hang" in rr.classes():
                        continue
                    out += [Viol(*viol_sig(sim, config, v, sl)) for v in rr.viol]
                    break
                compared += 1
                a, b = r.ops[(1, j)], rr.ops[(1, len(sl) - 1)] if False else rr.ops[(1, idx)]
                # compare text results and each output variable under its new name
                sig = sigs[ops[j]["op"]]
                bad = None
                if noaddr(a.q) != noaddr(b.q):
                    bad = (a.q, b.q)
                fin = dict(x.split("=", 1) for x in rr.final.get(1, "").split("\t") if "=" in x)
                for ch, x in zip(sig, ops[j]["a"]):
                    if ch in "RZSVBMNC" and bad is None:
                        va, vb = a.var(x), fin.get(cur[x])
                        if va is not None and va != vb and not (ch == "N" and ops[j]["a"].count(x) > 1 and znear(va, vb, sim.info(config)[1][0])):
                            bad = (va, vb)
                if bad:
                    out.append(Viol("value", "value:" + ops[j]["op"], "'%s %s' (#%d) on %s gave %s; from fresh variables in a fresh process: %s" %
                                    (ops[j]["op"], " ".join(ops[j]["a"]), j, config, str(bad[0])[:400], str(bad[1])[:400])))
                    break
        return out, dict(nontrivial=compared > 0, hash=r.hash, r=r, faults={"memory recycled with stale content": r.stats.get("recycled", 0)})
