"""Development aid: which basic blocks of the library the simulated processes reach.

SIM_COV=1 python3 tools/coverage.py [--cases N] [C01 C02 ...] : builds instrumented executables under build/cov, runs the checks
on them and prints, per library source file, the lines that no simulated process reached."""
import os, sys, re, subprocess, collections
os.environ["SIM_COV"] = "1"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from simlib import build as B

n, props, a = "1500", [], sys.argv[1:]
while a:
    x = a.pop(0)
    if x == "--cases": n = a.pop(0)
    else: props.append(x)
props = props or ["C%02d" % i for i in range(1, 12)]
names = ["efx", "gmp", "mpfr", "efx-6000", "efx-30", "efx-1200"]
exes = B.build(names, log=print)
maps = {}
cov = os.path.join(B.BUILD, "map")
for f in os.listdir(B.BUILD):
    if f.startswith("map."): os.unlink(os.path.join(B.BUILD, f))
env = dict(os.environ, SIM_COV_FILE=cov, SIM_CASES=n, SIM_NOEVIDENCE="1")
for p in props:
    r = subprocess.run([sys.executable, "-m", "simlib.check", p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(p, r.returncode, r.stdout.decode().strip().splitlines()[-1:], flush=True)
lines = {}   # file -> line -> reached?
for c, exe in exes.items():
    m = "%s.%s" % (cov, os.path.basename(exe))
    if not os.path.exists(m): continue
    hit = open(m, "rb").read()
    base = int([l.split()[0] for l in subprocess.run(["nm", exe], stdout=subprocess.PIPE).stdout.decode().splitlines() if l.endswith(" __executable_start")][0], 16)
    d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE).stdout.decode().splitlines()
    pcs, nxt = [], False
    for l in d:
        mm = re.match(r"\s*([0-9a-f]+):\t(.*)", l)
        if not mm: continue
        if nxt: pcs.append(int(mm.group(1), 16)); nxt = False
        if "call" in mm.group(2) and "__sanitizer_cov_trace_pc" in mm.group(2): nxt = True
    r = subprocess.run(["addr2line", "-e", exe], input="\n".join("%x" % p for p in pcs).encode(), stdout=subprocess.PIPE).stdout.decode().splitlines()
    tot = sum(hit[p - base] for p in pcs)
    print(c, "blocks", len(pcs), "reached", tot)
    for p, l in zip(pcs, r):
        f, _, ln = l.partition(":")
        f = os.path.normpath(f)
        if not f.startswith(B.REPO): continue
        ln = int(re.match(r"\d+", ln).group(0)) if re.match(r"\d+", ln) else 0
        e = lines.setdefault(f, {})
        e[ln] = e.get(ln, 0) or hit[p - base]
for f in sorted(lines):
    e = lines[f]; un = sorted(k for k, v in e.items() if not v)
    if "tables/A" in f: un = un[:3]
    print("%s: %d of %d lines" % (os.path.relpath(f, B.REPO), sum(1 for v in e.values() if v), len(e)))
    if un: print("   not reached:", " ".join(map(str, un)))
