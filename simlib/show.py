"""python3 -m simlib.show <property> <index> [seed]: prints one case and what its verification says."""
import sys, json
from . import build, props3 as P
from .drive import Sim
from .check import gen_case, minimise
pid, i = sys.argv[1], int(sys.argv[2])
a = [x for x in sys.argv[3:] if x != "-m"]
seed = int(a[0]) if a else 1
cls = P.PROPS[pid]
exes = build.build(sorted(set(cls.configs) | set(cls.extra)))
sim = Sim(exes)
case = gen_case(cls(), sim, seed, i)
def show(c):
    n = {}
    print(c["config"], c["opts"], {k: v for k, v in c.items() if k not in ("ops", "opts", "config", "switches")})
    for o in c["ops"]:
        k = n.get(o["t"], 0); n[o["t"]] = k + 1
        print("  t%d #%d %s %s %s" % (o["t"], k, o["op"], " ".join(o["a"]), {k: v for k, v in o.items() if k not in ("t", "op", "a")} or ""))
show(case)
vs, info = cls().verify(sim, case)
for v in vs:
    print(v)
if vs and "-m" in sys.argv:
    m = minimise(cls(), sim, case, vs[0].cls)
    print("--- minimised"); show(m)
    if m.get("switches") is not None: print("switches", len(m["switches"]), m["switches"][:20])
    for v in cls().verify(sim, m)[0]: print(v)
