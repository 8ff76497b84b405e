"""python3 -m simlib.replay FILE: runs a reported execution again and says whether it is the same one."""
import sys, json

from . import build
from .check import P
from .drive import Sim


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    case = d["case"]
    sim = Sim(build.build([case["config"]], jobs=8, log=lambda s: print(s)))
    vs, info = P.PROPS[d["property"]]().verify(sim, case)
    sim.close()
    for v in vs:
        print(v)
    same = info.get("hash") == d["hash"] and bool(vs) and vs[0].sig in [v["sig"] for v in d["violations"]]
    print("reproduced exactly (same schedule, same results)" if same else "reproduced" if vs else "not reproduced on this tree")
    return 1 if vs else 0


if __name__ == "__main__":
    sys.exit(main())
