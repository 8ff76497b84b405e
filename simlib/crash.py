"""C09: numbers saved as text on a simulated disk, processes killed at any point, and restarted.

A case holds one straight-line program per computation.  An operation may carry
  "sv":   save the state after it: [[variable, flags, precision], ...]  (written by the library itself to a simulated device)
  "kill": the process dies while this save is written: [index of the number, byte, device mode, short-write size, lost]
          (lost: the completed saves that were never synchronised disappear as well)
  "init": set-up that every process repeats (constants)
A process (a "life") runs every computation from its last intact save to the kill, on another thread each time.
"""
import re, decimal, random

from . import gen as G
from .gen import Gen
from .drive import seed_of
from .props import Prop, Viol, Discard, FATAL, run_viols, per_thread, strip, REF_BUDGET
from .props2 import C07, C08, any_literal, bits

FMT = [0, 1, 2, 1 | 4, 2 | 8, 1 | 16, 8, 4, 1 | 8]
NONFINITE = re.compile(r"[+-]?(inf|nan)", re.I)


def D(t):
    return decimal.Decimal(t.split("|")[0])


def ctx(prec):
    c = decimal.Context(prec=prec, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN)
    for t in c.traps:
        c.traps[t] = False
    return c


def close(a, b, digits, prec):
    """a and b agree to the given number of significant digits."""
    c = ctx(prec)
    if not (a.is_finite() and b.is_finite()):
        return str(a) == str(b)
    if a == b:
        return True
    d = c.abs(c.subtract(a, b))
    m = max(c.abs(a), c.abs(b))
    return c.compare(d, c.scaleb(m, -digits)) <= 0


def kind(t):
    """inf, -inf or nan of a recorded or written value, None if it is finite."""
    t = t.split("|")[0].lower().lstrip("+")
    if not NONFINITE.match(t):
        return None
    return "nan" if "nan" in t else t[:4] if t[0] == "-" else t[:3]


def magnitude(t):
    """Decimal order of a recorded value, None if it is not a finite number."""
    t = t.split("|")[0]
    if NONFINITE.match(t):
        return None
    d = decimal.Decimal(t)
    return d.adjusted() if d else 0


class C09(Prop):
    id = "C09"
    quick = 5000
    one_schedule = False
    thorough = 60000
    rule = ("a case is 1-3 computations whose numbers are saved as text by the library on a simulated disk; the process is killed between operations or at a chosen byte of a save (short, torn and lost writes), restarted 1-5 times "
            "from the last intact save on other threads, and its end compared with the uninterrupted computation; every restored number is written again and compared byte by byte; non-trivial: a number was restored after a kill; "
            "distinct by schedule+result hash")

    # ---- computations that forgive a perturbation in the last digit
    def program(self, rng, t, d10, sigs):
        k = rng.choice(["newton", "cbrt", "agm", "series", "cosfix", "sqrtfix", "horner", "product", "znewton", "logfix", "mixed"])
        ops = []

        def o(name, *a, **kw):
            ops.append(dict(kw, t=t, op=name, a=[str(x) for x in a]))
        lit = lambda lo, hi: "L%.12f%s" % (rng.uniform(lo, hi), "".join(rng.choice("0123456789") for _ in range(d10 + 3)))
        n = rng.randint(3, 9)
        if k == "newton":
            o("lit", "r0", lit(2, 90), init=1)
            o("lit", "r1", "L" + rng.choice(["1", "3", "7.5"]))
            for _ in range(n):
                o("div", "r2", "r0", "r1")
                o("iadd", "r1", "r2")
                o("idiv_i", "r1", "i2", pt=["r1"])
        elif k == "cbrt":
            o("lit", "r0", lit(2, 90), init=1)
            o("lit", "r1", "L2")
            for _ in range(n):
                o("mul", "r2", "r1", "r1")
                o("div", "r2", "r0", "r2")
                o("iadd", "r2", "r1", pt=["r1", "r2"])
                o("iadd", "r2", "r1")
                o("div_i", "r1", "r2", "i3", pt=["r1"])
        elif k == "agm":
            o("lit", "r1", lit(1, 2))
            o("lit", "r2", lit(.1, 1))
            for _ in range(min(n, 7)):
                o("mul", "r3", "r1", "r2")
                o("add", "r1", "r1", "r2", pt=["r1", "r3"])
                o("idiv_i", "r1", "i2")
                o("sqrt", "r2", "r3", pt=["r1", "r2"])
        elif k == "series":
            o("lit", "r0", lit(.2, 3), init=1)
            o("lit", "r1", "L1")
            o("lit", "r2", "L1")
            for j in range(1, 3 * n):
                o("imul", "r2", "r0")
                o("idiv_i", "r2", "i%d" % j, pt=["r1", "r2"])
                o("iadd", "r1", "r2", pt=["r1", "r2"])
        elif k == "cosfix":
            o("lit", "r1", lit(.1, 1))
            for _ in range(n):
                o("cos", "r2", "r1", pt=["r2"])
                o("copy", "r1", "r2", pt=["r1"])
        elif k == "sqrtfix":
            o("lit", "r1", lit(.1, 1e4))
            for _ in range(2 * n):
                o("add_i", "r1", "r1", "i%d" % rng.randint(1, 5))
                o("sqrt", "r1", "r1", pt=["r1"])
        elif k == "horner":
            o("lit", "r0", lit(.1, 2), init=1)
            o("lit", "r1", lit(.1, 1))
            for _ in range(2 * n):
                o("imul", "r1", "r0", pt=["r1"])
                o("iadd_u", "r1", "u%d" % rng.randint(1, 9), pt=["r1"])
        elif k == "product":
            o("lit", "r1", lit(1, 2))
            for j in range(2 * n):
                o("from_i", "r2", "i%d" % rng.choice([10 ** 9 + j, 3, 7, 99999999, 10 ** 8 + 1, -3]))
                if rng.random() < .5:
                    o("imul", "r1", "r2", pt=["r1"])
                else:
                    o("idiv", "r1", "r2", pt=["r1"])
        elif k == "znewton":
            o("lit", "r0", lit(.5, 3), init=1)
            o("lit", "r1", lit(.5, 3), init=1)
            o("zmake", "z0", "r0", "r1", init=1)
            o("zmake", "z1", "r1", "r1")
            for _ in range(n):
                o("zdiv", "z2", "z0", "z1")
                o("ziadd", "z1", "z2", pt=["z1"])
                o("zmul_r", "z1", "z1", "ghalf")
        elif k == "logfix":
            o("lit", "r1", lit(1, 100))
            for _ in range(max(3, n // 2)):
                o("add_i", "r1", "r1", "i3")
                o("log", "r1", "r1", pt=["r1"])
        else:
            o("lit", "r1", lit(1, 3))
            o("lit", "r2", lit(1, 3))
            for _ in range(n):
                q = rng.choice(["exp-", "atan", "mul", "div", "hyp"])
                if q == "exp-":
                    o("neg", "r3", "r1")
                    o("exp", "r1", "r3", pt=["r1", "r2"])
                    o("iadd_i", "r1", "i1", pt=["r1", "r2"])
                elif q == "atan":
                    o("atan", "r2", "r2")
                    o("iadd_i", "r2", "i2", pt=["r1", "r2"])
                elif q == "mul":
                    o("imul", "r1", "r2", pt=["r1", "r2"])
                elif q == "div":
                    o("div", "r2", "r1", "r2", pt=["r1", "r2"])
                else:
                    o("mul", "r3", "r1", "r1")
                    o("mul", "r4", "r2", "r2", pt=["r1", "r2", "r3", "r4"])
                    o("iadd", "r3", "r4")
                    o("sqrt", "r1", "r3", pt=["r1", "r2"])
        if k == "znewton":
            for q in ops:
                if "ghalf" in q["a"]:
                    q["a"] = ["z1", "z1", "r2"]
            ops.insert(2, dict(t=t, op="lit", a=["r2", "L0.5"], init=1))
        return ops

    def values(self, rng, t, d10, md):
        """Numbers with difficult digits, over the whole exponent range."""
        g = Gen(rng, d10, groups={"lit", "arith", "elem", "const", "compound", "plumb", "mixed"}, tid=t, nr=5)
        for _ in range(rng.randint(1, 5)):
            k = rng.random()
            if k < 0.25:
                g.run(rng.randint(1, 3))
                continue
            x = "r%d" % rng.randrange(5)
            e = rng.choice([0, 0, 1, -1, 7, 8, 9, -7, -8, -9, 15, 16, 17, 24, 100, -100, d10, -d10, d10 + 1, md, 1000, -1000, 30103, -30103, 10 ** 6, -10 ** 6, 123456789, -123456789, 600000000, -600000000, rng.randint(-40, 40), rng.randint(-400, 400)])
            n = rng.choice([1, 2, 7, 8, 9, 16, 17, d10 - 1, d10, md, md + 1, md + 8, md + 30, rng.randint(1, md + 40)])
            kind = rng.random()
            if kind < .25:
                s = "9" * n
            elif kind < .35:
                s = "1" + "0" * (n - 1) + rng.choice(["", "1", "5"])
            elif kind < .5:
                s = "".join(rng.choice(["00000000", "99999999", "00000001", "12345678", "50000000", "49999999"]) for _ in range(n // 8 + 1))
                s = (s.lstrip("0") or "1")
            elif kind < .6:
                s = "".join(rng.choice("0123456789") for _ in range(min(n, md - 1))) + rng.choice(["5", "49999999", "50000001", "499", "999999999999"])
                s = s.lstrip("0") or "7"
            else:
                s = (str(rng.randint(1, 9)) + "".join(rng.choice("0123456789") for _ in range(n - 1)))
            p = rng.choice([1, 1, 1, len(s), rng.randint(0, len(s))])
            s = s[:p] + "." + s[p:] if rng.random() < .8 else s
            g.emit("lit", x, "L%s%s%s" % (rng.choice(["", "", "-"]), s if s[0] != "." or rng.random() < .5 else "0" + s, ("e%d" % e) if e or rng.random() < .3 else ""))
            if rng.random() < .06:
                g.ops[-1]["a"][1] = rng.choice(["Linf", "L-inf", "Lnan"])
            g.v[x] = None
            g.moved.discard(x)
            if rng.random() < .15:
                g.emit(rng.choice(["neg", "fabs", "k_nl_max", "k_nl_min", "k_value_max", "k_value_min", "k_zero", "k_value_eps", "k_googol"]), *(["r%d" % rng.randrange(5)]))
                if g.ops[-1]["op"] in ("neg", "fabs"):
                    g.ops[-1]["a"].append(x)
                g.v[g.ops[-1]["a"][0]] = None
                g.moved.discard(g.ops[-1]["a"][0])
        ops = g.ops
        live = {a for o in ops for ch, a in zip(G.R[o["op"]]["sig"], o["a"]) if ch in "RM"} - g.moved
        if not live:
            g.emit("lit", "r0", "L2.5")
            live = {"r0"}
        ops[-1]["pt"] = sorted(live)
        if rng.random() < .4:
            for q in rng.sample(sorted(live), min(2, len(live))):
                w = rng.choice(sorted(live))
                z = "z%d" % rng.randrange(3)
                ops.append(dict(t=t, op="zmake", a=[z, q, w]))
                ops[-1]["pt"] = [z]
        return ops

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        nt = rng.choice([1, 1, 2, 2, 3])
        exact = rng.random() < 0.5
        ops = []
        for t in range(1, nt + 1):
            ops += self.values(rng, t, d10, md) if exact else self.program(rng, t, d10, sigs)
        case = dict(prop=self.id, config=config, opts=self.opts(rng, nt > 1), ops=ops, switches=None, exact=exact, salt=rng.getrandbits(40))
        # learn the magnitudes, to give every save enough digits
        every = rng.choice([1, 1, 2, 3, 5])
        for t, l in per_thread(ops).items():
            r = self.ref(sim, config, [dict(strip(o), t=1) for o in l])
            cur, seen = {}, 0
            for j, o in enumerate(l):
                for kv in r.ops[(1, j)].text.split("\t"):
                    x, _, v = kv.partition("=")
                    if x and x[0] in "rz" and x[1:].isdigit():
                        cur[x] = v
                if "pt" not in o:
                    continue
                seen += 1
                if exact or seen % every == 0:
                    o["sv"] = [[x] + self.fmt(rng, cur.get(x, "0"), d10, md) for x in o["pt"]]
                    if rng.random() < (0.5 if exact else 0.35):
                        o["kill"] = [rng.randrange(len(o["sv"])), rng.choice([-1, -1, 0, 1, rng.randint(0, 2 * md), rng.randint(0, md)]), rng.choice([0, 1, 2]), rng.choice([0, 1, 3, 17]), int(rng.random() < .3)]
        return case

    @staticmethod
    def fmt(rng, v, d10, md):
        """Flags and precision that show at least max_digits10 significant digits of the value."""
        parts = re.match(r"\((.*),(.*)\)$", v).groups() if v.startswith("(") else (v,)
        mags = [magnitude(p) for p in parts]
        if None in mags:
            return [rng.choice([f for f in FMT if not f & 2]), md + 1] if set(mags) == {None} else [1, md]
        f = rng.choice(FMT)
        extra = rng.choice([0, 0, 0, 1, 7, 20, 60])
        if f & 2:
            if max(abs(m) for m in mags) > rng.choice([60, 60, 400, 1500]):
                f &= ~2
            else:
                return [f, max(0, md - 1 - min(0, *mags) if len(mags) > 1 else md - 1 - min(0, mags[0])) + extra]
        return [f, md - 1 + extra if f & 1 else md + extra]

    # ---- one case
    def verify(self, sim, case):
        config = case["config"]
        sigs, (d10, md) = sim.info(config)
        th = per_thread(case["ops"])
        refs, steps = {}, 0
        for t, l in th.items():
            refs[t] = self.ref(sim, config, [dict(strip(o), t=1) for o in l])
            steps += refs[t].stats["steps"]
        # the simulated disk: per computation the records that reached it, (operation index, {variable: text})
        disk = {t: [] for t in th}
        start = {t: 0 for t in th}
        killed = set()
        hit, restored, rlast, hashes = {}, 0, None, []
        final = {}

        def add(k, n=1):
            hit[k] = hit.get(k, 0) + n
        tids = sorted(th)
        for life in range(8):
            rng = random.Random(seed_of("life", case["salt"], life))
            # whose kill comes first in this life, and how far the others get
            cand = [(t, j) for t in tids for j in range(start[t], len(th[t])) if "kill" in th[t][j] and (t, th[t][j]["kill"] and j) not in killed]
            victim = None
            if cand and life < 7:
                t = rng.choice(sorted({c[0] for c in cand}))
                victim = (t, min(j for c, j in cand if c == t))
                killed.add(victim)
            stop = {}
            for t in tids:
                stop[t] = len(th[t])
                if victim:
                    if t == victim[0]:
                        stop[t] = victim[1] + 1
                    else:
                        k = [j for j in range(start[t], len(th[t])) if "kill" in th[t][j] and (t, j) not in killed]
                        stop[t] = min([rng.randint(start[t], len(th[t]))] + [j for j in k])
            ops, plan = [], []
            n = max(tids)
            for t in tids:
                tid = (t - 1 + life) % n + 1
                idx = 0

                def emit(op, a, what):
                    nonlocal idx
                    ops.append(dict(t=tid, op=op, a=a))
                    plan.append((tid, idx, what))
                    idx += 1
                l = th[t]
                for j in range(start[t]):
                    if l[j].get("init"):
                        emit(l[j]["op"], l[j]["a"], None)
                if disk[t]:
                    for x, (f, p, text) in sorted(disk[t][-1][1].items()):
                        if x[0] == "z":
                            emit("zsource", [x, "L" + text, "i-1", "i0", "u%d" % rng.getrandbits(30), "i%d" % rng.choice([1, 3, 64, 256]), "i0", "i1", "i0"], ("in", x, text))
                        else:
                            how = rng.choice(["lit", "litstr", "source", "source", "text", "textparse"])
                            if how in ("lit", "litstr"):
                                emit(how, [x, "L" + text], ("lit", x, text))
                            elif how == "source":
                                emit("source", [x, "L" + rng.choice(["", " ", "\n"]) + text + rng.choice(["", " ", "\n"]), "i-1", "i0", "u%d" % rng.getrandbits(30), "i%d" % rng.choice([1, 3, 64, 256]), "i0", "i1", "i0"], ("in", x, text))
                            else:
                                emit("sset", ["s0", "L" + text], None)
                                emit("readstr" if how == "text" else "parse", [x, "s0"], ("lit", x, text))
                        emit("zsink" if x[0] == "z" else "sink", [x, "i-1", "i0", "i%d" % rng.choice([0, 16, 512]), "i0", "i0", "i%d" % f, "i%d" % (1000 * p), "i0"], ("again", t, x, text))
                for j in range(start[t], stop[t]):
                    emit(l[j]["op"], l[j]["a"], ("step", t, j))
                    if "sv" in l[j]:
                        dying = victim == (t, j)
                        kv, kb, km, kc, lost = l[j].get("kill", [0, -1, 0, 0, 0])
                        for q, (x, f, p) in enumerate(l[j]["sv"]):
                            if dying and kb >= 0 and q > kv:
                                break
                            torn = dying and kb >= 0 and q == kv
                            emit("zsink" if x[0] == "z" else "sink", [x, "i%d" % (kb if torn else -1), "i%d" % (km if torn else 0), "i%d" % rng.choice([0, 0, 16]), "i%d" % (kc if torn else rng.choice([0, 0, 7])), "i0", "i%d" % f, "i%d" % (1000 * p), "i0"],
                                 ("save", t, j, x, f, p, torn))
            o = dict(case["opts"], seed=seed_of(case["opts"]["seed"], life), budget=steps * 25 + 30000000)
            r = sim.run(config, o, ops)
            rlast = r
            hashes.append(r.hash)
            out = run_viols(sim, dict(case, ops=ops), r)
            if out:
                if out[0].cls == "hang":
                    raise Discard("too long")
                return out, self.info_of(hit, restored, hashes, r)
            add("process killed" if victim else "process ended normally")
            # what reached the disk
            recs, judged = {}, {}
            for tid, idx, what in plan:
                rec = r.ops.get((tid, idx))
                if rec is None or rec.status != "K":
                    if what is None and rec is not None and rec.status == "K":
                        continue
                    return [Viol("run", "status", "operation %s in life %d on %s ended in %s" % (what, life, config, rec))], self.info_of(hit, restored, hashes, r)
                if what is None:
                    continue
                if what[0] == "step" and what[2] == len(th[what[1]]) - 1:
                    final[what[1]] = True
                if what[0] in ("lit", "in"):
                    restored += 1
                    judged[(tid, what[1])] = rec
                    if what[0] == "in" and not (what[1][0] == "z" and NONFINITE.search(what[2])) and re.search(r"ex=(\S+) st=(\d+)", rec.q).group(2) not in ("0", "2"):
                        return [Viol("restore", "refused", "a saved number is refused on %s in life %d: %r: %s" % (config, life, what[2][:300], rec.q[:200]))], self.info_of(hit, restored, hashes, r)
                elif what[0] == "again":
                    _, t, x, text = what
                    q = C07.fields(rec.q)
                    if x[0] == "z" and NONFINITE.search(text):
                        continue  # the complex reader refuses non-finite parts (and says so)
                    if q is None or q["text2"] != text or q["text"] != text:
                        return [Viol("restore", "again", "life %d on %s: saved %r, read back and written again %r (%s)" % (life, config, text[:700], (q or {}).get("text", rec.q)[:700], x))], self.info_of(hit, restored, hashes, r)
                elif what[0] == "save":
                    _, t, j, x, f, p, torn = what
                    q = C07.fields(rec.q)
                    if q is None:
                        raise Discard("unreadable record")
                    e = recs.setdefault((t, j), {})
                    if torn:
                        add("save torn at a byte" if q["fails"] else "kill after the last byte of a save")
                        if not q["fails"]:
                            e[x] = (f, p, q["text"])
                    else:
                        e[x] = (f, p, q["text"])
                        m = self.denotes(r, tid, idx, x, q["text"], ops, md)
                        if m:
                            return [Viol("save", "digits", "life %d on %s: %s" % (life, config, m))], self.info_of(hit, restored, hashes, r)
            for (t, j), e in sorted(recs.items()):
                if len(e) == len(th[t][j]["sv"]):
                    disk[t].append((j, e))
            if victim:
                t, j = victim
                if "sv" in th[t][j] and th[t][j]["kill"][4] and disk[t]:
                    add("unsynchronised save lost")
                    disk[t].pop()
                for t in tids:
                    start[t] = disk[t][-1][0] + 1 if disk[t] else 0
                continue
            # the end: compare with the uninterrupted computation
            if case["exact"]:
                break
            for t in tids:
                last = {}
                for tid, idx, what in plan:
                    if what and what[0] == "step" and what[1] == t:
                        for kv in r.ops[(tid, idx)].text.split("\t"):
                            x, _, v = kv.partition("=")
                            if x and x[0] in "rz" and x[1:].isdigit():
                                last[x] = v
                want = {}
                for j in range(len(th[t])):
                    for kv in refs[t].ops[(1, j)].text.split("\t"):
                        x, _, v = kv.partition("=")
                        if x and x[0] in "rz" and x[1:].isdigit():
                            want[x] = v
                state = {x for o in th[t] for x in o.get("pt", ())}
                for x in last:
                    if x in want and x in state and not self.same(last[x], want[x], d10 - 4, md):
                        return [Viol("resume", "resume", "computation %d on %s ends with %s = %s after %d restarts, uninterrupted with %s" % (t, config, x, last[x][:400], life, want[x][:400]))], self.info_of(hit, restored, hashes, r)
            break
        return [], self.info_of(hit, restored, hashes, rlast)

    @staticmethod
    def same(a, b, digits, md):
        p, q = ([re.match(r"\((.*),(.*)\)$", v).groups() for v in (a, b)] if a.startswith("(") else [(a,), (b,)])
        if len(p) == 1:
            return close(D(p[0]), D(q[0]), digits, md + 60)
        c = ctx(md + 60)
        size = max(abs(D(v)) for v in q)
        return all(c.compare(c.abs(c.subtract(D(v), D(w))), c.scaleb(size, -digits)) <= 0 for v, w in zip(p, q))

    @staticmethod
    def denotes(r, tid, idx, x, text, ops, md):
        """The saved text denotes the number the process holds (its record of that variable)."""
        v = None
        for k in range(idx - 1, -1, -1):
            rec = r.ops.get((tid, k))
            for kv in (rec.text if rec else "").split("\t"):
                n, _, w = kv.partition("=")
                if n == x:
                    v = w
            if v is not None:
                break
        if v is None:
            return None
        p = re.match(r"\((.*),(.*)\)$", v).groups() if v.startswith("(") else (v,)
        q = re.match(r"\((.*),(.*)\)$", text).groups() if v.startswith("(") and re.match(r"\((.*),(.*)\)$", text) else (text,)
        if len(p) != len(q):
            return "the text %r does not show %s" % (text[:300], v[:300])
        for a, b in zip(p, q):
            if NONFINITE.match(a) or NONFINITE.match(b):
                if kind(a) == kind(b):
                    continue
                return "the text %r does not show %s" % (b[:300], a[:300])
            try:
                A, B = D(a), decimal.Decimal(b)
            except decimal.InvalidOperation:
                return "the text %r is not a number" % b[:300]
            if not close(A, B, md - 1, md + 60):
                return "the text %r denotes another number than %s" % (b[:500], a[:500])
        return None

    @staticmethod
    def info_of(hit, restored, hashes, r):
        hit = dict(hit)
        hit["number restored in a new process"] = restored
        return dict(nontrivial=restored > 0 and hit.get("process killed", 0) > 0, hash="-".join(hashes), r=r, faults=hit)
