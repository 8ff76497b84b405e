"""Properties about the whole life of a process: what repeated work leaves behind."""
import random
import re

from . import gen as G
from . import props2
from .gen import Gen, R as OPS, GROUPS
from .props import Prop, Viol, Discard, base_names, force, io_op, per_thread, run_viols, fatal, compare, strip
from .props2 import any_literal


# ------------------------------------------------------------------------------------------------ C13
class C13(Prop):
    id = "C13"
    quick = 3000
    extra = ("efx-1200", "gmp-1200", "mpfr-1200", "efx-6000")
    every = 8
    one_schedule = False
    STACK = 131072           # bytes of stack a call may use at up to 300 digits, and STACK_D more per digit beyond that
    STACK_D = 400
    rule = ("a case is a block of operations (also with failing allocations, exceptions out of callbacks and very long texts) that one thread repeats 5-40 times on fresh variables, or one function called hundreds of times with "
            "different real arguments, or a block run by 1, 2 and 4 threads; the memory the library still holds must have stopped growing, the effort of every call must not grow, and the stack of every call stays bounded; "
            "non-trivial: at least three rounds, calls or threads were compared; distinct by result hash")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        kind = ("repeat", "threads", "repeat", "vary", "long", "repeat", "threads", "vary")[i // 3 % 8]
        opts = dict(seed=rng.getrandbits(60), fill=rng.choice([0, 255, 203, 1]), quar=rng.choice([0, 4, 64]), race=0)
        case = dict(prop=self.id, config=config, opts=opts, kind=kind, switches=None)
        g = Gen(rng, d10, groups=None if rng.random() < 0.6 else set(rng.sample(GROUPS, 3)) | {"lit"}, heavy=0.1, tid=1, nr=4)
        if kind == "vary":
            pool = [n for n in G.PROBE if n in sigs and G.allowed(n, d10) and any(c in OPS[n]["sig"] for c in "rzM")]
            name = pool[(i // 24) % len(pool)] if rng.random() < 0.6 else rng.choice(pool)
            seen = set()
            fixed = {}
            for _ in range(400):
                sub = Gen(rng, d10, tid=1, nr=4)
                rng.sp = 0
                c = G.probe_calls(rng, d10, name, 1)[0]
                for k, x in enumerate(c):
                    if x is not None and len(x) == 3 and x[0] != "z":
                        c[k] = fixed.setdefault(k, x)
                key = str(c)
                if key in seen:
                    continue
                seen.add(key)
                G.emit_calls(sub, name, [c])
                g.ops += sub.ops
            case["name"] = name
            case["ops"] = g.ops
            return case
        if kind == "long":
            n = rng.choice([500, 5000, 30000, 100000])
            d = "".join(rng.choice("0123456789") for _ in range(50)) * (n // 50 + 1)
            t = rng.choice(["%s" % d[:n], "0." + "0" * n + "1", "1" + "0" * n + ".5", "-" + d[:n // 2] + "." + d[:n // 2] + "e-%d" % n, "." + d[:n], "0" * n + "7", "1e" + "0" * n + "5", " " * n + "3"])
            k = rng.random()
            if k < 0.3:
                g.emit("lit", "r0", "L" + t)
            elif k < 0.5:
                g.emit("source", "r1", "L" + t, "i-1", "i0", "u7", "i%d" % rng.choice([1, 17, 256]), "i0", "i1", "i0")
            elif k < 0.75:
                g.emit("zsource", "z1", "L" + rng.choice(["(%s,%s)" % (t, t), "(%s)" % t, t, "(" * n, "(%s" % t]), "i-1", "i0", "u7", "i%d" % rng.choice([1, 17, 256]), "i0", "i1", "i0")
            else:
                g.emit("lit", "r0", "L" + t)
                g.emit("print", "s0", "r0", "i%d" % rng.choice(G.FLAGS), "i%d" % rng.choice([20, d10, n]), "i%d" % rng.choice([0, n]), "i42")
                g.emit("readstr", "r2", "s0")
            g.v.update({"r0": None})
        elif rng.random() < 0.75:
            force(g, names[(i // 3) % len(names)])
        k = rng.random()
        if k < 0.25:
            io_op(g, rng, rng.choice(["sink", "zsink", "source", "zsource", "quad", "newton", "dquad", "dnewton"] if d10 < 400 else ["sink", "zsink", "source", "zsource"]), d10)
            o = g.ops[-1]
            if o["op"] in ("quad", "newton", "dquad", "dnewton") and rng.random() < 0.5:
                o["a"][5] = "i%d" % rng.randint(1, 6)
        g.run(rng.randint(0 if g.ops else 1, 6))
        ops = g.ops
        if kind == "repeat" and rng.random() < 0.35:
            # memory fails in the middle rounds
            for o in ops:
                if rng.random() < 0.4:
                    a = rng.choice([1, 1, 2, 3, 5, rng.randint(1, 40)])
                    o["f"] = [[a, rng.choice([a, a, a + 2, 10 ** 6])]]
        case["ops"] = ops
        case["opts"] = opts if kind != "threads" else dict(self.opts(rng, True), race=0)
        return case

    def stack(self, config, sim):
        d = sim.info(config)[1][0]
        return self.STACK + self.STACK_D * max(0, d - 300)

    def check_stack(self, sim, case, r, ops, out):
        lim = self.stack(case["config"], sim)
        for (t, i), rec in sorted(r.ops.items()):
            if rec.stk > lim and not out:
                o = per_thread(ops)[t][i]
                out.append(Viol("stack", "stack:" + o["op"], "'%s %s' on %s used %d bytes of stack (bound %d)" % (o["op"], " ".join(o["a"])[:300], case["config"], rec.stk, lim)))

    def run(self, sim, case, ops, budget):
        r = sim.run(case["config"], dict(case["opts"], budget=budget), ops)
        if "hang" in r.classes():
            raise Discard("too long")
        return r, run_viols(sim, dict(case, ops=ops), r)

    def verify(self, sim, case):
        return getattr(self, "verify_" + case["kind"])(sim, case)

    verify_long = lambda self, sim, case: self.verify_repeat(sim, case)

    def verify_repeat(self, sim, case):
        block, cfg = [dict(o) for o in case["ops"]], case["config"]
        clean = [{k: v for k, v in o.items() if k != "f"} for o in block]
        r, out = self.run(sim, case, clean, 12000000)
        if out:
            return out, dict(nontrivial=False, hash=r.hash, r=r)
        cost = r.stats["steps"]
        K = max(5, min(40, 30000000 // max(1, cost), 3000 // (len(block) + 2)))
        tail = [{"t": 1, "op": "dropall", "a": []}, {"t": 1, "op": "held", "a": []}]
        lo, mid = max(1, K // 4), K // 2
        ops = []
        for k in range(K):
            ops += [dict(o) for o in (block if lo < k <= mid else clean)] + [dict(o) for o in tail]
        r, out = self.run(sim, case, ops, 90000000 + 3 * cost * K)
        L = len(block) + 2
        held = [[int(x) for x in r.ops[(1, L * k + L - 1)].q.split()] for k in range(K) if (1, L * k + L - 1) in r.ops]
        if not fatal(out) and len(held) == K:
            self.check_stack(sim, case, r, ops, out)
            if any(o.get("f") for o in block):
                lo = mid + 1         # failures made other operands, and with them other first uses
            a, b = held[lo], held[K - 1]
            what = "%d rounds of the same work on %s" % (K, cfg)
            if b[0] > a[0]:
                out.append(Viol("held", "held:" + block[-1]["op"], "%s: the memory held between rounds grew from %d bytes after round %d to %d at the end: %s" % (what, a[0], lo + 1, b[0], [h[0] for h in held])))
            elif b[1] - a[1] >= 16 * (K - 1 - lo) and (cfg[:4] != "mpfr" or held[K - 1][1] > held[(lo + K) // 2][1]):
                out.append(Viol("held", "held-mp:" + block[-1]["op"], "%s: the memory %s holds for the library between rounds grew from %d bytes after round %d to %d at the end: %s" % (what, cfg.split("-")[0], a[1], lo + 1, b[1], [h[1] for h in held])))
            if not out:
                for j in range(len(block)):
                    s0, s1 = r.ops[(1, L * lo + j)].steps, r.ops[(1, L * (K - 1) + j)].steps
                    if s1 > s0 * 1.25 + 3000:
                        out.append(Viol("effort", "effort:" + block[j]["op"], "%s: '%s' took %d steps in round %d and %d in the last" % (what, block[j]["op"], s0, lo + 1, s1)))
                        break
        return out, dict(nontrivial=K >= 3, hash=r.hash, r=r, faults={"rounds of repeated work": K})

    def verify_vary(self, sim, case):
        cfg, name = case["config"], case["name"]
        ends = [k + 1 for k, o in enumerate(case["ops"]) if o["op"] == name]
        if not ends:
            raise Discard("no call")
        one = case["ops"][:ends[0]]
        r, out = self.run(sim, case, one, 12000000)
        if out:
            return out, dict(nontrivial=False, hash=r.hash, r=r)
        cost = max(r.stats["steps"], 300)
        n = min(len(ends), 40000000 // cost, 3900 // (len(one) + 1))
        if n < 60:
            return self.verify_near(sim, case, ends, cost)
        ops, at, k = [], [], 0
        for e in ends[:n]:
            ops += case["ops"][k:e] + [{"t": 1, "op": "held", "a": []}]
            at.append(len(ops) - 1)
            k = e
        r, out = self.run(sim, case, ops, 240000000)
        if not fatal(out) and all((1, k) in r.ops for k in at):
            self.check_stack(sim, case, r, ops, out)
            held = [[int(x) for x in r.ops[(1, k)].q.split()] for k in at]
            h = n // 2
            for m, nm in ((0, ""), (1, " (by %s for it)" % cfg.split("-")[0])):
                grew = held[n - 1][m] - held[h][m]
                ups = sum(1 for k in range(h + 1, n) if held[k][m] > held[k - 1][m])
                downs = sum(1 for k in range(h + 1, n) if held[k][m] < held[k - 1][m])
                if grew > 64 * (n - h) + 8000 or (ups > (n - h) // 2 and downs == 0 and grew > 16 * (n - h)):
                    out.append(Viol("held", "held-args:" + name, "%d calls of '%s' with different real arguments on %s: the memory held%s grew by %d bytes in the second half, in %d of its calls" % (n, name, cfg, nm, grew, ups)))
                    break
        return out, dict(nontrivial=True, hash=r.hash, r=r, faults={"calls with different real arguments": n})

    @staticmethod
    def near_literal(t, suffix):
        """A literal next to t, and never a number that is special to a function."""
        m = re.match(r"L([-+]?)(\d*)\.?(\d*)(e[-+]?\d+)?$", t)
        if not m:
            return None
        return "L%s%s.%s%s%s" % (m.group(1), m.group(2) or "0", (m.group(3) + "0" * 24)[:24], suffix, m.group(4) or "")

    def verify_near(self, sim, case, ends, cost):
        """Few calls of an expensive function, then as many next to them, twice: what those need is there already."""
        cfg, name = case["config"], case["name"]
        n = max(3, min(8, 60000000 // cost))
        ops, at = [], []
        for suffix in ("3141", "2718", "1618"):
            k, done = 0, 0
            for e in ends:
                block = []
                for o in case["ops"][k:e]:
                    if o["op"] == "lit":
                        t = self.near_literal(o["a"][1], suffix)
                        o = dict(o, a=[o["a"][0], t]) if t else None
                    block.append(o)
                k = e
                if any(o is None for o in block):
                    continue
                ops += block + [{"t": 1, "op": "held", "a": []}]
                at.append(len(ops) - 1)
                done += 1
                if done == n:
                    break
            n = done
        if n < 3:
            raise Discard("too few calls")
        r, out = self.run(sim, case, ops, 400000000)
        if not fatal(out) and all((1, k) in r.ops for k in at):
            held = [[int(x) for x in r.ops[(1, k)].q.split()] for k in at]
            for m, nm in ((0, ""), (1, " (by %s for it)" % cfg.split("-")[0])):
                ups = sum(1 for k in range(2 * n, 3 * n) if held[k][m] > held[k - 1][m])
                if ups >= max(3, (2 * n + 2) // 3) and held[3 * n - 1][m] > held[2 * n - 1][m] > held[n - 1][m]:
                    out.append(Viol("held", "held-args:" + name, "%d calls of '%s' on %s with arguments next to those of %d calls before them: the memory held%s grew by %d bytes, in %d of the calls" %
                                    (n, name, cfg, 2 * n, nm, held[3 * n - 1][m] - held[2 * n - 1][m], ups)))
                    break
        return out, dict(nontrivial=True, hash=r.hash, r=r, faults={"calls with different real arguments": 3 * n})

    def verify_threads(self, sim, case):
        block, cfg = case["ops"], case["config"]
        held, rs, cost = [], [], 0
        for nt in (1, 2, 4):
            ops = [dict(o, t=t) for t in range(1, nt + 1) for o in block]
            r, out = self.run(sim, case, ops, 12000000 if nt == 1 else cost * 20 + 5000000)
            self.check_stack(sim, case, r, ops, out)
            if out:
                return out, dict(nontrivial=False, hash=r.hash, r=r)
            cost = cost or r.stats["steps"]
            held.append((r.stats["held"], r.stats["heldmp"]))
            rs.append(r.hash)
        a, b, c = held
        for m, nm in ((0, ""), (1, " (by %s for it)" % cfg.split("-")[0])):
            if a[m] < b[m] < c[m] and c[m] - b[m] >= 32:
                out.append(Viol("held", "held-threads", "the same work on %s by 1, 2 and 4 threads that have ended leaves %d, %d and %d bytes held%s" % (cfg, a[m], b[m], c[m], nm)))
                break
        return out, dict(nontrivial=True, hash="".join(rs), r=r, faults={"threads started and ended": 7})


# ------------------------------------------------------------------------------------------------ C14
class C14(Prop):
    id = "C14"
    quick = 10000
    extra = ("efx-1200", "gmp-1200", "mpfr-1200")
    rule = ("a case is 1-4 threads that each compute something (also while allocations fail) and compute it again in the destructor of an object of theirs made after that, which lives until the thread or the process ends; the main "
            "program's part may come before the static initialisation of the library and of the program is done; judged against the same operations in the middle of an ordinary process; "
            "non-trivial: something was computed outside main(); distinct by schedule+result hash")

    def gen(self, sim, rng, i):
        config = self.config(rng, i)
        sigs, (d10, md) = sim.info(config)
        names = base_names(sim, config)
        nt = rng.choice([0, 0, 0, 1, 1, 2, 3])
        ts = list(range(0, nt + 1)) if nt == 0 or rng.random() < 0.7 else list(range(1, nt + 1))
        tgt = names[(i // 3) % len(names)]
        lead = rng.choice(ts)
        ops, when = [], {}
        for t in ts:
            g = Gen(rng, d10, groups=None if rng.random() < 0.6 else set(rng.sample(GROUPS, 3)) | {"lit"}, heavy=0.1, tid=t, nr=4)
            if t == lead or rng.random() < 0.3:
                force(g, tgt)
            if rng.random() < 0.2:
                io_op(g, rng, rng.choice(["sink", "zsink", "source", "zsource", "dquad", "newton", "dnewton"]) if d10 < 400 else rng.choice(["sink", "source", "zsink", "zsource"]), d10)
            g.run(rng.randint(0 if g.ops else 1, 4))
            when[str(t)] = rng.choice([["at_exit"], ["at_exit"], ["at_thread_exit"], ["at_thread_exit"], ["at_exit", "at_thread_exit"], ["at_exit", "at_exit"], []])
            if rng.random() < 0.25:
                for o in g.ops:
                    if rng.random() < 0.4:
                        a = rng.choice([1, 1, 2, 3, 5, rng.randint(1, 40)])
                        o["f"] = [[a, rng.choice([a, a, a + 2, 10 ** 6])]]
            ops += g.ops
        o = dict(self.opts(rng, nt > 1), early=int(0 in ts and rng.random() < 0.6), exit=1)
        if not any(when.values()):
            when[str(lead)] = ["at_exit"]
        return dict(prop=self.id, config=config, opts=o, ops=ops, when=when, switches=None)

    def verify(self, sim, case):
        config = case["config"]
        ops, refs, steps, first, out_of_main = [], {}, 0, {}, 0
        for t, block in sorted(per_thread(case["ops"]).items()):
            block = [dict(o) for o in block]
            clean = [strip(o) for o in block]
            drop = {"t": t, "op": "dropall", "a": []}
            prog = block + [drop]
            if any(o.get("f") for o in block):
                first[t] = len(prog)
                prog += clean + [drop]
            for w in case["when"].get(str(t), []):
                prog += [{"t": t, "op": w, "a": ["i%d" % (len(block) + 1)]}, drop] + clean
                out_of_main += 1
            ops += prog
            refs[t] = self.ref(sim, config, [dict(strip(o), t=0) for o in prog])
            steps += refs[t].stats["steps"]
        th = per_thread(ops)
        o = dict(case["opts"])
        o["budget"] = steps * 20 + 5000000
        r = sim.run(config, o, ops, case.get("switches"), case.get("plist", False))
        out = run_viols(sim, dict(case, ops=ops), r)
        if not fatal(out):
            for t in sorted(th):
                for i in range(first.get(t, 0), len(th[t])):
                    if (t, i) not in r.ops:
                        out.append(Viol("value", "value:missing", "thread %d's operation #%d ('%s') never ran on %s" % (t, i, th[t][i]["op"], config)))
                        break
                    v = compare(case, r.ops[(t, i)], refs[t].ops[(0, i)], "result differs outside main()", t, i, th[t])
                    if v:
                        out.append(v)
                        break
        early = int(case["opts"]["early"] and 0 in th)
        return out, dict(nontrivial=out_of_main + early > 0, hash=r.hash, r=r,
                         faults={"computed before static initialisation": early, "computed in destructors at exit or thread end": out_of_main})


PROPS = dict(props2.PROPS, C13=C13, C14=C14)
