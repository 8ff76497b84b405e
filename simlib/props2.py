"""Properties over streams, saved state, user code and clocks (C07-C11); see props.py."""
import re, random, decimal, json

from . import gen as G
from .gen import Gen, R as OPS, GROUPS
from .props import (Prop, Viol, Discard, FATAL, MAIN, REF_BUDGET, base_names, compare, force, io_op, noaddr, per_thread, run_viols, strip, fatal,
                    C01, C02, C03, C04, C05, C06)

BAD, EOF, FAIL = 1, 2, 4


def bits(m):
    """Exception mask and pre-set state as the operations encode them."""
    return (BAD if m & 1 else 0) | (FAIL if m & 2 else 0) | (EOF if m & 4 else 0)


def prior_values(r, t, ops):
    """Value text of every variable before each operation, from the recorded outputs."""
    cur, out = {}, []
    for i, o in enumerate(ops):
        out.append(dict(cur))
        rec = r.ops.get((t, i))
        if rec is None:
            continue
        for kv in rec.text.split("\t"):
            k, _, v = kv.partition("=")
            if k and k[0] in "rzb" and k[1:].isdigit():
                cur[k] = v
    return out


EXTREME = ["9.87654321e%d", "-1.00000000000000000000001e%d", "7e-%d", "-4.25e-%d", "123456789e%d"]


def any_literal(rng, d10, big=True):
    k = rng.random()
    if k < 0.5:
        return G.literal(rng, rng.choice(["A", "F", "P"]), d10)[0]
    if k < 0.6:
        return rng.choice(["0", "-0", "inf", "-inf", "nan", "1", "-1", "10", "99999999999999999999", "1e-1", "0.1", "1e8", "1e16", "99999999", "100000000"])
    if k < 0.75 and big:
        return rng.choice(EXTREME) % rng.choice([20, 99, 100, 1000, 12345, 99999, 1000000, 300000000])
    n = rng.choice([1, 5, 8, 16, d10 - 1, d10, d10 + 1, d10 + 8, d10 + 20])
    s = "".join(rng.choice("0123456789") for _ in range(n)) or "7"
    if rng.random() < 0.3:
        s = rng.choice(["9" * n, "1" + "0" * (n - 1) + "1", "0." + "0" * rng.randint(1, 20) + s])
    if "." not in s and rng.random() < 0.7:
        p = rng.randint(0, len(s))
        s = s[:p] + "." + s[p:]
    if s in (".", ""):
        s = "5"
    return rng.choice(["", "-"]) + s + rng.choice(["", "", "e%d" % rng.randint(-40, 40)])


# ------------------------------------------------------------------------------------------------ C07
class C07(Prop):
    id = "C07"
    quick = 8000
    rule = ("a case is 1-3 threads printing real and complex numbers, in random formats, to simulated devices that accept text in pieces and stall, refuse or throw at a chosen byte, then again after repair, judged against "
            "each program alone with healthy devices; non-trivial: a device failed or was in a failed state; distinct by schedule+result hash")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        nt = rng.choice([1, 1, 1, 2, 3])
        ops = []
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups={"lit", "arith", "elem", "cplx", "plumb"}, tid=t, nr=4)
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.5:
                    g.run(rng.randint(0, 3))
                z = rng.random() < 0.4
                if rng.random() < 0.5:
                    x = "r%d" % rng.randrange(4)
                    g.emit("lit", x, "L" + any_literal(rng, d10))
                    g.v[x] = None
                    g.moved.discard(x)
                    if z:
                        y, x0 = g.pick_read("A"), x
                        x = "z%d" % rng.randrange(3)
                        g.emit("zmake", x, x0, y)
                        g.v[x] = 1.0
                        g.moved.discard(x)
                else:
                    x = g.pick_read("A", (), "z" if z else "r")
                # fixed format of a huge number is a huge text: only for literals of moderate size
                fl = rng.choice(G.FLAGS)
                prec = rng.choice([0, 1, 3, 5, 20, 30, d10, md, md + 20])
                g.emit("zsink" if z else "sink", x, *self.device(rng, d10, i), "i%d" % fl, "i%d" % (1000 * prec + rng.choice([0, 0, 0, 12, 40, 150, 400])),
                       "i%d" % rng.choice([0, 0, 0, 0, 0, 0, 1, 2, 4, 3]))
            ops += g.ops
        case = dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)
        # aim at a byte of the actual text
        try:
            h = self.healthy(sim, case)
        except Discard:
            return case
        for t, o_i, o in [(o["t"], k, o) for t_, l in per_thread(ops).items() for k, o in enumerate(l)]:
            if o["op"] in ("sink", "zsink") and o["a"][1] != "i-1" and rng.random() < 0.85:
                q = self.fields(h[t].ops[(1, o_i)].q) if (1, o_i) in h[t].ops else None
                n = len(q["text"]) if q else 10
                if n > 5000:
                    raise Discard("text too long")
                o["a"][1] = "i%d" % rng.choice([0, 1, 2, n - 1, n, rng.randint(0, max(1, n)), rng.randint(0, max(1, n)), rng.randint(0, max(1, n))])
        return case

    @staticmethod
    def device(rng, d10, i):
        return ["i%d" % rng.choice([-1, 0, 1, 2, 3, 5, 10, 30, 100, 200]), "i%d" % rng.choice([0, 0, 1, 2]), "i%d" % rng.choice([0, 0, 1, 7, 16, 64, 512]),
                "i%d" % rng.choice([0, 0, 1, 3, 17]), "i%d" % rng.choice([0, 0, 1, 2, 3])]

    @staticmethod
    def unpct(s):
        return re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)

    @classmethod
    def fields(cls, q):
        m = re.match(r'ex=(\S+) st=(\d+) same=(\d) w=(-?\d+) fails=(\d+) "([^" ]*)(?: st=(\d+) "([^" ]*))?$', q)
        if not m:
            return None
        return dict(ex=m.group(1), st=int(m.group(2)), same=m.group(3), w=int(m.group(4)), fails=int(m.group(5)), text=cls.unpct(m.group(6)),
                    st2=None if m.group(7) is None else int(m.group(7)), text2=None if m.group(8) is None else cls.unpct(m.group(8)))

    def healthy(self, sim, case):
        refs = {}
        for t, l in per_thread(case["ops"]).items():
            sub = []
            for o in l:
                o = dict(strip(o), t=1)
                if o["op"] in ("sink", "zsink"):
                    a = list(o["a"])
                    a[1:6] = ["i-1", "i0", "i0", "i0", "i0"]
                    a[8] = "i0"
                    o["a"] = a
                sub.append(o)
            refs[t] = self.ref(sim, case["config"], sub)
        return refs

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        refs = self.healthy(sim, case)
        o = dict(case["opts"])
        if max(len(x.text) for y in refs.values() for x in y.ops.values()) > 40000:
            raise Discard("text too long")
        o["budget"] = sum(x.stats["steps"] for x in refs.values()) * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        hit = {}
        if not fatal(out):
            for (t, i), rec in sorted(r.ops.items()):
                op = th[t][i]
                if op["op"] not in ("sink", "zsink"):
                    v = compare(case, rec, refs[t].ops[(1, i)], "result differs after output to a failing device", t, i, th[t])
                    if v:
                        out.append(v)
                        break
                    continue
                msg, k = self.judge(op, rec, refs[t].ops[(1, i)])
                for x in k:
                    hit[x] = hit.get(x, 0) + 1
                if msg:
                    out.append(Viol("output", "%s:%s" % (msg[0], op["op"]), "%s: '%s %s' (thread %d, #%d) on %s: %s; healthy stream: %s" %
                                    (msg[1], op["op"], " ".join(op["a"]), t, i, config, rec.q[:500], refs[t].ops[(1, i)].q[:500])))
                    break
            for t in refs:
                if not out and r.final.get(t, "") != refs[t].final.get(1, ""):
                    out.append(Viol("final", "final", "numbers changed by printing them on %s: %s / %s" % (config, r.final.get(t, "")[:300], refs[t].final.get(1, "")[:300])))
        return out, dict(nontrivial=sum(hit.values()) > 0, hash=r.hash, r=r, faults=hit)

    @classmethod
    def judge(cls, op, rec, ref):
        a = [int(x[1:]) for x in op["a"][1:]]
        limit, mode, bsz, chunk, mask, fl, pw, pre = a
        mask = bits(mask) & (BAD | FAIL)
        hit = []
        h = cls.fields(ref.q)
        if "exhausted" in ref.text:
            raise Discard("text too long")
        if ref.status not in "KA":
            return ("throws", "writing to a healthy stream ended in %s %s" % (ref.status, ref.text[:100])), hit
        if rec.status != "K" or ref.status != "K":
            return (("status", "printing ended in %s %s" % (rec.status, rec.text[:80])) if rec.status != ref.status else None), hit
        q = cls.fields(rec.q)
        if q is None or h is None:
            return ("form", "unreadable record"), hit
        if h["ex"] != "-" or h["st"] or h["st2"] or h["text"] != h["text2"]:
            return ("healthy", "a healthy stream reports %s %d %s" % (h["ex"], h["st"], h["st2"])), hit
        full = h["text"]
        if q["same"] != "1":
            return ("format", "the stream's flags, precision or fill changed"), hit
        if pre:
            hit.append("stream already in a failed state")
            if q["text"]:
                return ("written", "a stream in a failed state received text"), hit
            if not q["st"]:
                return ("state", "a failed state disappeared"), hit
            if q["ex"] != "-":
                return ("exception", "an unasked-for exception"), hit
        else:
            if not full.startswith(q["text"]):
                return ("prefix", "the delivered bytes are not a prefix of the text"), hit
            if q["fails"]:
                hit.append(["device refused bytes", "device threw a foreign object", "device threw a std::exception"][mode])
                if q["ex"] == "-" and not (q["st"] & (BAD | FAIL)):
                    return ("success", "the failure was not reported"), hit
            else:
                if q["text"] != full:
                    return ("lost", "text is missing without a failure"), hit
                if q["st"] or q["ex"] != "-":
                    return ("spurious", "a failure is reported although the device took everything"), hit
            if q["ex"] != "-":
                if not (q["st"] & mask & (BAD | FAIL)) or q["ex"] not in ["failure"] + [[], ["DevError"], ["DevStdError"]][mode]:
                    return ("exception", "an exception the stream was not configured to throw"), hit
            elif q["st"] & mask & (BAD | FAIL):
                return ("noexception", "the configured exception was not thrown"), hit
        if q["st2"] or q["text2"] != full:
            return ("again", "printing again after repair gives another text"), hit
        return None, hit


# ------------------------------------------------------------------------------------------------ C08
class Crash(Exception):
    pass


class C08(Prop):
    id = "C08"
    quick = 10000
    rule = ("a case is 1-3 threads extracting real and complex numbers from texts (good, malformed, cut at any byte) that simulated devices deliver in random pieces and that end, fail or throw, into targets holding earlier "
            "values, judged against extraction of the same bytes in one piece into a fresh variable in a fresh process; non-trivial: split, cut, thrown or failed delivery; distinct by schedule+result hash")
    SENT = "0.7182818284590452353602874713526625"

    def text(self, rng, z, d10):
        def one():
            k = rng.random()
            if k < 0.72:
                s = any_literal(rng, d10)
            elif k < 0.86:
                s = rng.choice(["+", "-", ".", "e5", "1e", "1e+", "1.e5", ".5", "+3", "-.5e-3", "1.2.3", "abc", "inf", "-inf", "nan", "INF", "NaN", "infinity", "0x10", "1e5e5", "--3", "1-2", "00012", "-0", "1e99999999999999999999",
                                "1E5", "1d3", "5,", "5)", "1e-99999999999999999999", "1.5f", "12 34", "1_000", "+-1", "0e0", "000", "1e0000000000000000000007", "0." + "0" * 60 + "1"])
            else:
                s = "".join(rng.choice("0123456789.eE+-() ,infan\t\n") for _ in range(rng.randint(0, 12)))
            return s
        if not z:
            return rng.choice(["", "", " ", "\n\t "]) + rng.choice([" ", " ", "\n", "  \t"]).join(one() for _ in range(rng.randint(1, 4))) + rng.choice(["", " ", "\n", ",x"])
        parts = []
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            a, b = one(), one()
            s = rng.choice(["", " "])
            parts.append("(%s%s%s,%s%s%s)" % (s, a, s, s, b, s) if k < 0.6 else "(%s)" % a if k < 0.72 else a if k < 0.85 else
                         rng.choice(["(%s;%s)" % (a, b), "(%s,%s" % (a, b), "%s,%s)" % (a, b), "()", "(,)", "(,%s)" % b, "(%s,)" % a, "((%s,%s))" % (a, b), "(%s,%s,%s)" % (a, b, a), "(%s" % a, "%s)" % a]))
        return rng.choice(["", " "]) + rng.choice([" ", "\n", ""]).join(parts) + rng.choice(["", " "])

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        nt = rng.choice([1, 1, 1, 2, 3])
        ops = []
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups={"lit", "arith", "cplx", "elem"}, tid=t, nr=4)
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.4:
                    g.run(rng.randint(0, 2))
                z = rng.random() < 0.45
                # the target's earlier value
                k = rng.random()
                x = ("z%d" if z else "r%d") % rng.randrange(3)
                y = x if not z else "r0"
                if k < 0.75:
                    g.emit("lit", y, "L" + any_literal(rng, d10))
                    g.v[y] = None
                    g.moved.discard(y)
                    if z:
                        w = g.pick_read("A")
                        g.emit("zmake", x, y, w)
                        g.v[x] = 1.0
                        g.moved.discard(x)
                else:
                    x = g.pick_read("A", (), "z" if z else "r", True)
                txt = self.text(rng, z, d10)
                if rng.random() < 0.02:
                    txt = ("(%s,%s)" if z else "%s%s") % ("7" * rng.choice([2000, 30000, 90000]), rng.choice(["1", "2.5", "0" * 20000]))
                n = len(txt)
                limit = rng.choice([-1, -1, n, rng.randint(0, n), rng.randint(0, n), rng.randint(0, n), max(0, n - 1), 0])
                g.emit("zsource" if z else "source", x, "L" + txt, "i%d" % limit, "i%d" % rng.choice([0, 0, 1, 2]), "u%d" % rng.getrandbits(30),
                       "i%d" % rng.choice([1, 1, 2, 3, 7, 40, 256]), "i%d" % rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 7]), "i%d" % rng.choice([1, 1, 2, 3]), "i%d" % rng.choice([0, 0, 0, 0, 0, 0, 0, 1, 2, 4]))
                g.v[x] = None if not z else 1.0
                g.moved.discard(x)
            ops += g.ops
        return dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)

    def refs_for(self, sim, config, o):
        """The same bytes in one piece, into a fresh variable with another value."""
        a = list(o["a"])
        z = o["op"] == "zsource"
        lim = int(a[2][1:])
        txt = a[1][1:]
        if lim >= 0:
            txt = txt[:lim]
        x = "z7" if z else "r7"
        pre = [{"t": 1, "op": "lit", "a": ["r6", "L" + self.SENT]}]
        pre += [{"t": 1, "op": "zmake", "a": ["z7", "r6", "r6"]}] if z else [{"t": 1, "op": "copy", "a": ["r7", "r6"]}]
        q = {"t": 1, "op": o["op"], "a": [x, "L" + txt, "i-1", "i0", "u1", "i256", "i0", a[7], "i0"]}
        r = sim.run(config, dict(seed=1, fill=203, quar=64, budget=REF_BUDGET, race=0, leak=0), pre + [q])
        if not r.ok() or any(c in FATAL for c in r.classes()):
            if "hang" in r.classes():
                raise Discard("reference run: hang")
            raise Crash("'%s %s' on %s: %s" % (o["op"], a, config, r.viol[:1] or "ended the process (status %s)" % r.wait))
        return r.ops[(1, len(pre) - 1)].var(x), r.ops[(1, len(pre))], r.stats["steps"]

    @staticmethod
    def reads(q):
        m = re.match(r"(.*?) ?fails=(\d+)$", q)
        if not m:
            return None, 0
        out = []
        for p in re.findall(r"ex=(\S+) st=(\d+) n=(\d+) (\S+)", m.group(1)):
            out.append((p[0], int(p[1]), int(p[2]), p[3]))
        return out, int(m.group(2))

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        exp, steps = {}, 0
        for t in th:
            for i, o in enumerate(th[t]):
                if o["op"] in ("source", "zsource"):
                    try:
                        exp[(t, i)] = self.refs_for(sim, config, o)
                    except Crash as e:
                        return [Viol("crash", "crash:" + o["op"], "reading a text crashes: " + str(e)[:1200])], dict(nontrivial=True, hash=sim.last.hash, r=sim.last, faults={})
                    steps += exp[(t, i)][2]
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 40000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        if "hang" in r.classes():
            # the operations around the reads have no reference here
            for t in th:
                self.ref(sim, config, [dict(strip(q), t=1) for q in th[t]])
        out = run_viols(sim, case, r)
        hit = {}
        if not fatal(out):
            for t in th:
                pv = prior_values(r, t, th[t])
                for i, op in enumerate(th[t]):
                    rec = r.ops.get((t, i))
                    if (t, i) not in exp or rec is None or out:
                        continue
                    sent, ref, _ = exp[(t, i)]
                    if rec.status != ref.status:
                        out.append(Viol("input", "status:" + op["op"], "'%s' on %s ended in %s %s, in one piece %s %s" % (op["op"], config, rec.status, rec.text[:200], ref.status, ref.text[:200])))
                        break
                    if rec.status != "K":
                        continue
                    if op["a"][0] not in pv[i]:
                        raise Discard("the target's earlier value was not recorded")
                    msg, k = self.judge(op, rec, ref, sent, pv[i][op["a"][0]])
                    for x in k:
                        hit[x] = hit.get(x, 0) + 1
                    if msg:
                        out.append(Viol("input", "%s:%s" % (msg[0], op["op"]), "%s: '%s %s' (thread %d, #%d) on %s: %s; the same bytes in one piece into a fresh variable: %s (earlier value %s)" %
                                        (msg[1], op["op"], " ".join(repr(x) for x in op["a"]), t, i, config, rec.q[:600], ref.q[:600], pv[i][op["a"][0]][:80])))
                        break
        return out, dict(nontrivial=sum(hit.values()) > 0, hash=r.hash, r=r, faults=hit)

    def judge(self, op, rec, ref, sent, prior):
        a = op["a"]
        limit, mode, mx, mask, nread, pre = int(a[2][1:]), int(a[3][1:]), int(a[5][1:]), int(a[6][1:]), int(a[7][1:]), int(a[8][1:])
        mask = bits(mask)
        n = len(a[1]) - 1
        cut = 0 <= limit < n
        hit = []
        got, fails = self.reads(rec.q)
        exp, _ = self.reads(ref.q)
        if got is None or exp is None or len(got) != nread or len(exp) != nread:
            return ("form", "unreadable record"), hit
        if cut:
            hit.append(["text cut off (end of input)", "device threw a foreign object", "device threw a std::exception"][mode])
        if mx < n:
            hit.append("text delivered in pieces")
        val, was = prior, sent
        if pre:
            hit.append("stream already in a failed state")
            for ex, st, _, v in got:
                if v != prior:
                    return ("target", "an unreadable stream changed the target"), hit
                if not st:
                    return ("state", "a failed state disappeared"), hit
                if _:
                    return ("consumed", "text was taken from a failed stream"), hit
            return None, hit
        dead = False
        for k in range(nread):
            ex, st, cn, v = got[k]
            rex, rst, rn, rv = exp[k]
            if dead:
                if v != val:
                    return ("target", "read %d after the failure changed the target" % k), hit
                if not st & (FAIL | BAD):
                    return ("state", "read %d after the failure reports success" % k), hit
                continue
            rchanged = not (rst & (FAIL | BAD))
            thrown = cut and mode and (rst & EOF)
            if thrown:
                # the device threw while this number was being read
                if not fails:
                    return ("form", "the device was not asked"), hit
                if v != val:
                    return ("target", "the device threw and the target changed"), hit
                if not st & BAD:
                    return ("state", "the device threw and the stream is not bad"), hit
                want = bool(mask & BAD) or bool(st & mask & FAIL)
                if (ex != "-") != want or ex not in ("-", "failure", ["", "DevError", "DevStdError"][mode]):
                    return ("exception", "the stream's exception mask was not obeyed"), hit
                dead = True
                continue
            if ex == "failure" and mask & st & EOF and st == rst & ~FAIL and v == val and cn == rn:
                was = rv
                continue        # the exception for the end of input came before the text was looked at
            if st != rst:
                return ("state", "stream state %d instead of %d after read %d" % (st, rst, k)), hit
            if (ex != "-") != bool(st & mask) or ex not in ("-", "failure"):
                return ("exception", "the stream's exception mask was not obeyed in read %d" % k), hit
            w = rv if rchanged else val
            if not rchanged and rv != was:
                return ("target", "a failed read changed the fresh target"), hit
            if v != w and not (ex == "failure" and v == val):
                return ("value", "read %d gave another value" % k), hit
            if cn != rn:
                return ("consumed", "read %d consumed %d bytes instead of %d" % (k, cn, rn)), hit
            val, was = v, rv
            if ex == "failure" or st & (FAIL | BAD):
                dead = bool(st & (FAIL | BAD))
                if ex == "failure" and not dead:
                    # end of input and an exception for it: later reads fail
                    continue
        return None, hit


# ------------------------------------------------------------------------------------------------ C10
class C10(Prop):
    id = "C10"
    quick = 2000
    rule = ("a case is 1-3 threads running integration and root finding whose user functions throw at a chosen evaluation, re-enter the library, yield to other threads and meet failing allocations, and running the same and other "
            "solver objects again, judged against each program alone without failures; non-trivial: a user function threw, re-entered, yielded or ran out of memory; distinct by schedule+result hash")

    def solver(self, g, rng, sigs, d10):
        quad = rng.random() < 0.55
        t = "r%d" % (10 + rng.randrange(3))
        a, b = "r%d" % (g.nr + 1), "r%d" % (g.nr + 2)
        if quad:
            lo, hi = rng.choice([("0", "1"), ("0", "2"), ("0.5", "1.25"), ("1", "0"), ("-0.25", "1"), ("0", "0.125")])
            fn = rng.choice([0, 0, 1, 2, 3, 3, 4, 4, 5])
            tol = rng.choice(["1e-2", "1e-3", "1e-4", "1e-5"] if fn in (0, 3, 4) else ["1e-1", "1e-2"])
            if fn in (1, 2):
                lo, hi = "0", "0.125"
        else:
            lo, hi = rng.choice([("3", "2"), ("4", "3"), ("20", "7"), ("3", "0.75"), ("1", "900"), ("1.5", "-2"), ("10", "2.5")])
            fn = rng.randrange(2)
            tol = rng.choice(["1e-3", "1e-10", "1e-30", "1e-%d" % (d10 // 2), "1e-%d" % (d10 - 5)])
        g.emit("lit", a, "L" + lo)
        g.emit("lit", b, "L" + hi)
        # re-entry: at an evaluation, by another object of either algorithm and either element type, or by the same object
        g.emit(rng.choice(["", "", "", "d"]) + ("quad" if quad else "newton"), t, a, b, "L" + tol, "i%d" % (fn + rng.choice([0, 0, 16])), "i-1", "i0", "i%d" % rng.choice([-1, 1, 2, 3, 4, 5]), "i0", "i%d" % rng.choice([1, 2, 2, 3]))
        return len(g.ops) - 1

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        nt = rng.choice([1, 1, 2, 2, 3])
        ops = []
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups={"lit", "arith", "elem", "const"}, tid=t, nr=3)
            sel = []
            for _ in range(rng.randint(1, 2)):
                sel.append(self.solver(g, rng, sigs, d10))
                if rng.random() < 0.5:
                    # another object, later
                    g.ops.append(json.loads(json.dumps(g.ops[sel[-1]])))
                if rng.random() < 0.3:
                    g.run(1)
            p = self.ref(sim, config, [dict(strip(o), t=1) for o in g.ops])
            for j in sel:
                q = self.parse(p.ops[(1, j)].q)
                n = q[0]["n"] if q else 10
                a = g.ops[j]["a"]
                k = rng.random()
                if k < 0.75:
                    a[5] = "i%d" % max(1, rng.choice([1, 2, 3, n, n - 1, rng.randint(1, n), rng.randint(1, n)]))
                    a[6] = "i%d" % rng.choice([0, 0, 1, 2])
                elif k < 0.9:
                    m = p.ops[(1, j)].allocs
                    if m:
                        x = rng.choice([1, 2, m, rng.randint(1, m), rng.randint(1, m)])
                        g.ops[j]["f"] = [[x, rng.choice([x, x, x + 2, 10 ** 9])]]
                a[8] = "i%d" % (rng.choice([0, 1, 1, 3]) + rng.choice([0, 0, 16]))
                if rng.random() < 0.25:
                    a[9] = "i%d" % (int(a[9][1:]) + 16 * rng.choice([1, 3, 10, 30, 70]))
            ops += g.ops
        return dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)

    @staticmethod
    def parse(q):
        out = []
        for m in re.finditer(r"ex=(\S+) n=(\d+) h=([0-9a-f]+) ok=(\d)( (?!ex=)\S+)?", q or ""):
            out.append(dict(ex=m.group(1), n=int(m.group(2)), h=m.group(3), ok=int(m.group(4)), v=(m.group(5) or "").strip()))
        return out

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        S = ("quad", "newton", "dquad", "dnewton")
        refs, plain = {}, {}
        steps = 0
        for t in th:
            sub, sub2 = [], []
            for o in th[t]:
                q = dict(strip(o), t=1)
                if o["op"] in S:
                    q["a"] = o["a"][:5] + ["i-1", "i0", o["a"][7], "i%d" % (int(o["a"][8][1:]) & 16), "i%d" % (int(o["a"][9][1:]) & 15)]
                    q2 = dict(q, a=o["a"][:5] + ["i-1", "i0", "i-1", "i0", "i1"])
                else:
                    q2 = q
                sub.append(q)
                sub2.append(q2)
            refs[t] = self.ref(sim, config, sub)
            plain[t] = self.ref(sim, config, sub2)
            steps += refs[t].stats["steps"]
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        hit = {}

        def add(k):
            hit[k] = hit.get(k, 0) + 1
        if not fatal(out):
            for (t, i), rec in sorted(r.ops.items()):
                op, ref = th[t][i], refs[t].ops[(1, i)]
                if rec.status == "A":
                    add("allocation failed inside a solver")
                    if not rec.fired:
                        out.append(Viol("spurious", "spurious:" + op["op"], "'%s' on %s threw bad_alloc although no allocation failed in it" % (op["op"], config)))
                        break
                    continue
                if op["op"] not in S:
                    if any(x.status == "A" for (tt, ii), x in r.ops.items() if tt == t and ii < i):
                        continue
                    v = compare(case, rec, ref, "result differs around an algorithm with user code", t, i, th[t])
                    if v:
                        out.append(v)
                        break
                    continue
                msg = self.judge(op, rec, ref, plain[t].ops[(1, i)], add)
                if msg:
                    out.append(Viol("algorithm", "%s:%s" % (msg[0], op["op"]), "%s: '%s %s' (thread %d, #%d) on %s: %s; undisturbed: %s" %
                                    (msg[1], op["op"], " ".join(op["a"]), t, i, config, rec.q[:600], ref.q[:600])))
                    break
        return out, dict(nontrivial=sum(hit.values()) > 0, hash=r.hash, r=r, faults=hit)

    def judge(self, op, rec, ref, plain, add):
        if rec.status != ref.status:
            return ("status", "ended in %s %s" % (rec.status, rec.text[:100]))
        if rec.status != "K":
            return None
        q, e, p = self.parse(rec.q), self.parse(ref.q), self.parse(plain.q)
        if len(q) != int(op["a"][9][1:]) & 15 or len(e) != len(q) or len(p) != 1:
            return ("form", "unreadable record")
        at, kind, re_, ye = [int(x[1:]) for x in op["a"][5:9]]
        self_ = int(op["a"][4][1:]) & 16 and 0 < re_
        if int(op["a"][9][1:]) >> 4:
            add("user function threw in each of many runs")
        if self_ and re_ <= e[0]["n"]:
            add("user function re-entered its own solver object")
        if ye & 15:
            add("user function yielded to other threads")
        if re_ > 0:
            add("user function re-entered the library")
        for k, x in enumerate(e):
            if x["ex"] != "-":
                return ("reference", "an exception without a cause")
            if (x["n"], x["ok"], x["v"]) != (p[0]["n"], p[0]["ok"], p[0]["v"]):
                return ("reenter", "run %d with a re-entering function gives %s, without %s" % (k, x, p[0]))
            if x != e[0]:
                return ("rerun", "run %d of an undisturbed solver gives %s, the first %s" % (k, x, e[0]))
        for k, x in enumerate(q):
            if k == 0 and 0 < at <= e[0]["n"]:
                add("user function threw")
                if x["ex"] != ["Boom", "bad_alloc", "string"][kind]:
                    return ("exception", "the user's exception arrived as '%s'" % x["ex"])
                if x["n"] != at:
                    return ("evaluations", "%d evaluations, the function threw at %d" % (x["n"], at))
                # the flag of an object run from within itself is that of whichever run ended last
                if x["ok"] and not (self_ and re_ <= at):
                    return ("success", "a run that ended in an exception reports success")
                continue
            if x != e[k]:
                return ("result", "run %d differs" % k)
        return None


# ------------------------------------------------------------------------------------------------ C11
class C11(Prop):
    id = "C11"
    quick = 8000
    rule = ("a case is 1-4 threads creating, reading and destroying timers in any order while the simulated processor clock advances (by work and by leaps of up to weeks) and the wall clock stalls, leaps and steps back, "
            "judged against the simulated processor time; non-trivial: a reading after the clocks moved; distinct by schedule+result hash")
    configs = ("efx", "gmp", "mpfr")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        nt = rng.choice([1, 1, 2, 3, 4])
        ops = [{"t": 0, "op": "adv_cpu", "a": ["i%d" % self.leap(rng)]}] if rng.random() < 0.8 else []
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups={"lit", "arith", "elem"}, tid=t, nr=3)
            live = set()
            for _ in range(rng.randint(4, 16)):
                k = rng.random()
                if k < 0.25 or not live:
                    w = "w%d" % rng.randrange(4)
                    g.emit("t_new", w, "d" + float(rng.choice([0, 0, 0, 1, 2.5, -3, 0.001, 1e6, -1e-6])).hex())
                    live.add(w)
                elif k < 0.6:
                    g.emit("t_read", rng.choice(sorted(live)))
                elif k < 0.68:
                    w = rng.choice(sorted(live))
                    live.discard(w)
                    g.emit("t_del", w)
                elif k < 0.8:
                    g.emit("adv_cpu", "i%d" % self.leap(rng))
                elif k < 0.9:
                    g.emit("adv_wall", "i%d" % (self.leap(rng) * rng.choice([1, 1, -1])))
                else:
                    g.run(1)
            for w in sorted(live):
                g.emit("t_read", w)
            ops += g.ops
        return dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)

    @staticmethod
    def leap(rng):
        return int(rng.choice([1, 500, 999, 1000, 1500, 10 ** 6, 10 ** 7, 10 ** 9, 3 * 10 ** 9, 60 * 10 ** 9, 2147 * 10 ** 9, 2200 * 10 ** 9, 4300 * 10 ** 9, 86400 * 10 ** 9, 14 * 86400 * 10 ** 9]) * rng.uniform(0.5, 1.5)) + 1

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        o = dict(case["opts"])
        o["budget"] = 40000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        if "hang" in r.classes():
            raise Discard("too long")
        out = run_viols(sim, case, r)
        hit = {"processor clock leapt": 0, "wall clock leapt or stepped back": 0}
        nreads = 0
        for t in th:
            born, last = {}, {}
            for i, op in enumerate(th[t]):
                rec = r.ops.get((t, i))
                if rec is None or out:
                    break
                a = op["a"]
                if op["op"] == "adv_cpu":
                    hit["processor clock leapt"] += 1
                if op["op"] == "adv_wall":
                    hit["wall clock leapt or stepped back"] += 1
                if op["op"] == "t_new":
                    born[a[0]] = [int(x) for x in rec.q.split()] + [float.fromhex(a[1][1:])]
                    last.pop(a[0], None)
                elif op["op"] == "t_del":
                    born.pop(a[0], None)
                elif op["op"] == "t_read" and a[0] in born:
                    e, c0, c1 = rec.q.split()
                    e, c0, c1 = float.fromhex(e), int(c0), int(c1)
                    b0, b1, off = born[a[0]]
                    tol = 2.1e-6 + 1e-12 * (abs(c1 / 1e9) + abs(off))
                    lo, hi = (c0 - b1) / 1e9 - off - tol, (c1 - b0) / 1e9 - off + tol
                    nreads += 1
                    if not lo <= e <= hi:
                        out.append(Viol("timer", "elapsed", "a timer (thread %d, #%d, offset %g) on %s reports %.9f s of processor time, consumed since its start: between %.9f and %.9f" % (t, i, off, config, e, (c0 - b1) / 1e9 - off, (c1 - b0) / 1e9 - off)))
                        break
                    if a[0] in last and e < last[a[0]]:
                        out.append(Viol("timer", "backwards", "a timer (thread %d, #%d) on %s went back from %.9f to %.9f" % (t, i, config, last[a[0]], e)))
                        break
                    last[a[0]] = e
        return out, dict(nontrivial=nreads > 0, hash=r.hash, r=r, faults=hit)


# ------------------------------------------------------------------------------------------------ C12
class C12(Prop):
    id = "C12"
    quick = 6000
    extra = ("efx-1200", "gmp-1200", "mpfr-1200")
    rule = ("a case is 1-3 threads computing, writing and reading numbers while the process's C locale and global C++ locale (decimal point, grouping) are switched between operations, by any of the threads, and at random "
            "allocations and library calls inside them, judged against each program run alone in a process that keeps the classic locale; non-trivial: a locale was switched; distinct by schedule+result hash")
    TEXTS = ["1,5", "1.234,5", "1,234.5", "12,345,678", "1'234'567", "12'3", "1 234", "3\u066b5", "1\u066c234", "1e3", "1.5e-7", "123456789.123456789", "1234567", "-0.001", "1.e5", ".5", "5.", "1,5e2", "-1,5", "1.2.3",
             "inf", "nan", "1e1,000", "1e1.0", "1e1234567", "9999999999999999999999", "(1,5,2)", "(1.5,2.5)", "(1,2)", "1;5", "1.5,"]

    def text(self, rng, d10):
        t = rng.choice(self.TEXTS) if rng.random() < 0.35 else any_literal(rng, d10)
        if rng.random() < 0.12:
            t = t.replace(".", rng.choice([",", "\u066b"]))
        return t.encode().decode("latin-1")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        nt = rng.choice([1, 1, 2, 2, 3])
        tgt = names[(i // 3) % len(names)]
        ops = []
        loc = [("i3", 3), ("i3", 3), ("i4", 3), ("i4", 3)]

        def env(t):
            w, n = rng.choice(loc)
            return {"t": t, "op": "env", "a": [w, "i%d" % (rng.randint(1, n) if rng.random() < 0.8 else 0)], "x": 1}
        for t in range(1, nt + 1):
            g = Gen(rng, d10, groups=rng.choice([None, {"lit", "text", "ztext", "query", "arith", "const", "boost", "boostf", "cplx"}, set(rng.sample(GROUPS, 3)) | {"lit"}]), heavy=0.05, tid=t, nr=4)
            out = [env(t)] if rng.random() < 0.7 else []
            hit = rng.randint(1, 4) if (t == 1 or rng.random() < 0.3) else 99
            for n in range(rng.randint(3, 9)):
                k = len(g.ops)
                z = rng.random()
                if n == hit:
                    force(g, tgt)
                elif z < 0.15:
                    x = "r%d" % rng.randrange(4)
                    g.emit(rng.choice(["lit", "litstr"]), x, "L" + self.text(rng, d10))
                    g.v[x] = None
                    g.moved.discard(x)
                elif z < 0.3:
                    x = rng.choice("szrb")
                    n_ = {"s": "parse", "z": "zread", "r": "readstr", "b": "bread"}[x]
                    if n_ in sigs:
                        txt = self.text(rng, d10)
                        s, y = g.fresh("s"), g.fresh("r" if x in "sr" else x)
                        g.emit("sset", s, "L" + (txt if x != "z" or rng.random() < 0.5 else "(%s,%s)" % (txt, self.text(rng, d10))))
                        g.emit(n_, y, s)
                        g.v[s], g.v[y] = 1.0, None
                        g.moved.discard(y)
                elif z < 0.42:
                    # out as text and in again, in whichever locales these happen
                    s, y = g.fresh("s"), "r%d" % rng.randrange(4)
                    x = g.pick_read("A", (), "r")
                    g.emit("print", s, x, "i%d" % rng.choice(G.FLAGS), "i%d" % rng.choice([0, 5, d10, md, md + 20]), "i%d" % rng.choice([0, 0, 40]), "i32")
                    g.emit("readstr", y, s)
                    g.v[s], g.v[y] = 1.0, None
                    g.moved.discard(y)
                elif z < 0.52:
                    io_op(g, rng, rng.choice(["sink", "zsink", "source", "zsource", "dquad", "newton", "dnewton"]) if d10 < 400 else rng.choice(["sink", "source", "zsink", "zsource"]), d10)
                else:
                    g.step()
                for o in g.ops[k:]:
                    if rng.random() < 0.3:
                        out.append(env(t))
                    if rng.random() < 0.3:
                        o["e"] = []
                        for _ in range(rng.randint(1, 2)):
                            w, n_ = rng.choice(loc)
                            o["e"].append([rng.choice([1, 1, 2, 3, 4, 5, 8, 12, rng.randint(1, 60)]), int(w[1:]), rng.randint(0, n_)])
                    out.append(o)
            ops += out
        return dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None)

    def verify(self, sim, case):
        ops, config = case["ops"], case["config"]
        th = per_thread(ops)
        refs, steps = {}, 0
        for t in th:
            refs[t] = self.ref(sim, config, [dict(strip(o), t=0, **({"k": 1} if o.get("x") else {})) for o in th[t]])
            steps += refs[t].stats["steps"]
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, case, r)
        if not fatal(out):
            for (t, i), rec in sorted(r.ops.items()):
                if th[t][i].get("x"):
                    continue
                v = compare(case, rec, refs[t].ops[(0, i)], "result depends on the process's locale", t, i, th[t])
                if v:
                    out.append(v)
                    break
        return out, dict(nontrivial=r.stats.get("env", 0) > 0, hash=r.hash, r=r,
                         faults={"locale switched between operations": sum(1 for o in ops if o["op"] == "env"),
                                 "locale switched inside an operation": r.stats.get("env", 0) - sum(1 for o in ops if o["op"] == "env")})


PROPS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C10, C11, C12)}
