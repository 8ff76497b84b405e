"""Runs scenarios in the simulation executables and reads what they report.

A scenario is one simulated process: some shared numbers made by the main program (thread 0), one program per
caller thread, a seed for the scheduler, and the faults.  Everything that happens is a function of its text.
"""
import os, re, subprocess, json, hashlib, random, signal

from .build import BUILD
from .gen import pct, R as OPTAB

OPT0 = dict(seed=1, mean=0, psync=0, pstatic=0, pmp=0, fill=203, quar=64, budget=60000000, race=0)


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big") >> 1


def scenario(opts, ops, switches=None, plist=False):
    o = dict(OPT0)
    o.update(opts)
    if switches is not None:
        o["replay"] = 1
    if plist:
        o["plist"] = 1
    out = ["opt " + " ".join("%s=%s" % kv for kv in sorted(o.items()))]
    idx = {}
    for q in ops:
        t = q["t"]
        i = idx.get(t, 0)
        idx[t] = i + 1
        for f in q.get("f", ()):
            out.append("F %d %d %d %d" % (t, i, f[0], f[1]))
        for e in q.get("e", ()):
            out.append("E %d %d %d %d %d" % (t, i, e[0], e[1], e[2]))
        if q.get("k"):
            out.append("K %d %d" % (t, i))
        a = ["L" + pct(x[1:]) if x[0] == "L" else x for x in q["a"]]
        out.append("%d %s %s" % (t, q["op"], " ".join(a)))
    for s in switches or ():
        out.append("P %d %d %d %d" % tuple(s))
    out.append("go\n")
    return "\n".join(out)


COV = {k: v for k, v in os.environ.items() if k == "SIM_COV_FILE"}  # see tools/coverage.py


class Rec:
    __slots__ = ("status", "allocs", "fired", "steps", "mp", "stk", "text")

    def __repr__(self):
        return "%s allocs=%d fired=%d %s" % (self.status, self.allocs, self.fired, self.text[:300])

    @property
    def q(self):
        for x in self.text.split("\t"):
            if x.startswith("q="):
                return x[2:]
        return ""

    def var(self, v):
        for x in self.text.split("\t"):
            if x.startswith(v + "="):
                return x[len(v) + 1:]
        return None


class Result:
    __slots__ = ("ops", "final", "viol", "stats", "hash", "wait", "sched", "raw_bad", "surv")

    def ok(self):
        return self.wait == 0 and not self.raw_bad and self.stats.get("done") == 1

    def classes(self):
        return [v[0] for v in self.viol]


VLINE = re.compile(r"^V (\S+) tid=(-?\d+) op=(-?\d+) (.*)$")


def parse(lines, wait):
    r = Result()
    r.ops, r.final, r.viol, r.stats, r.hash, r.wait, r.sched, r.raw_bad, r.surv = {}, {}, [], {}, "", wait, [], None, {}
    for ln in lines:
        c = ln[:2]
        if c == "O ":
            head, _, text = ln.partition("\t")
            f = head.split(" ")
            x = Rec()
            x.status, x.allocs, x.fired, x.steps, x.mp, x.stk, x.text = f[3], int(f[4]), int(f[5]), int(f[6]), int(f[7]), int(f[8]), text
            r.ops[(int(f[1]), int(f[2]))] = x
        elif c == "A ":
            f = [int(x) for x in ln.split()[1:]]
            r.surv[(f[0], f[1])] = f[2:]
        elif c == "P ":
            r.sched.append([int(x) for x in ln.split()[1:]])
        elif c == "F ":
            head, _, text = ln.partition("\t")
            r.final[int(head.split(" ")[1])] = text
        elif c == "V ":
            m = VLINE.match(ln)
            r.viol.append((m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)))
        elif c == "X ":
            for kv in ln.split()[1:]:
                k, v = kv.split("=")
                r.stats[k] = int(v)
        elif c == "H ":
            r.hash = ln[2:]
        elif ln:
            r.raw_bad = ln
    return r


class Server:
    """A fork server: each scenario runs in a fresh child of one executable."""

    def __init__(self, exe):
        self.exe, self.p = exe, None
        self.runs = self.steps = 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd="/",
                                  env=dict({"LC_ALL": "C", "PATH": "/usr/bin:/bin", "LOCPATH": os.path.join(BUILD, "locale")}, **COV), bufsize=1 << 20)

    def run(self, text):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(text.encode("latin-1"))
        self.p.stdin.flush()
        lines = []
        while True:
            ln = self.p.stdout.readline()
            if not ln:
                self.p = None
                raise RuntimeError("the fork server of %s died" % self.exe)
            ln = ln.decode("latin-1").rstrip("\n")
            if ln.startswith("#END "):
                break
            lines.append(ln)
        r = parse(lines, int(ln[5:]))
        self.runs += 1
        self.steps += r.stats.get("steps", 0)
        return r

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


class Sim:
    """The servers of one worker, and what they were used for."""

    def __init__(self, exes):
        self.exes = exes
        self.srv = {n: Server(e) for n, e in exes.items()}
        self.tot = {}
        self.sigs, self.digits = {}, {}
        self.last = None
        self.abnormal = 0

    def info(self, config):
        if config not in self.sigs:
            o = subprocess.run([self.exes[config], "--ops"], stdout=subprocess.PIPE, check=True).stdout.decode()
            s = {}
            for ln in o.splitlines():
                f = ln.split(" ")
                if f[0] == "#digits":
                    self.digits[config] = (int(f[1]), int(f[2]))
                else:
                    s[f[0]] = f[1] if len(f) > 1 else ""
            self.sigs[config] = s
        return self.sigs[config], self.digits[config]

    def run(self, config, opts, ops, switches=None, plist=False):
        r = self.srv[config].run(scenario(opts, ops, switches, plist))
        t = self.tot
        t["runs"] = t.get("runs", 0) + 1
        t["runs_" + config] = t.get("runs_" + config, 0) + 1
        for k, v in r.stats.items():
            t[k] = t.get(k, 0) + v
        if r.raw_bad:
            raise RuntimeError("scenario refused: " + r.raw_bad)
        if r.wait != 0 and not r.viol:
            self.abnormal += 1
        self.last = r
        return r

    def close(self):
        for s in self.srv.values():
            s.close()


_PC = re.compile(r"pc=([0-9a-f]+)")
_sym = {}


def symbolise(exe, text):
    """Replaces pc=… by the source position."""
    def one(m):
        key = (exe, m.group(1))
        if key not in _sym:
            try:
                a = "%x" % (int(m.group(1), 16) - 1)
                o = subprocess.run(["addr2line", "-f", "-C", "-e", exe, a], stdout=subprocess.PIPE).stdout.decode().split("\n")
                fn = re.sub(r"\(.*", "", o[0])
                _sym[key] = "%s@%s" % (fn, os.path.basename(o[1].split(" ")[0]))
            except Exception:
                _sym[key] = m.group(1)
        return "in " + _sym[key]
    return _PC.sub(one, text)


def ddmin(items, test, deadline):
    """Smallest sublist (by removal) for which test holds."""
    import time
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, (len(items) + n - 1) // n)
        done = False
        for k in range(0, len(items), size):
            cand = items[:k] + items[k + size:]
            if test(cand):
                items, done = cand, True
                n = max(n - 1, 2)
                break
            if time.time() > deadline:
                return items
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items
