"""python3 -m simlib.check <property>: explores seeded cases of one property and reports the first violation."""
import os, sys, json, time, random, hashlib, multiprocessing, traceback, queue

from . import build, drive, props3 as P, crash
from .props import Discard, FATAL, strip, per_thread
from .drive import Sim, seed_of, ddmin
from .gen import valid

P.PROPS["C09"] = crash.C09
VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    out = []
    try:
        with open(KNOWN) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("known: "):
                    d = json.loads(ln[7:])
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def is_known(known, pid, case, v):
    for k in known:
        if k["property"] == pid and k["sig"] == v.sig and case["config"].split("-")[0] in k["configs"]:
            return k
    return None


def gen_case(prop, sim, vseed, i):
    rng = random.Random(seed_of("case", prop.id, vseed, i))
    return prop.gen(sim, rng, i)


def confirm(prop, sim, case):
    """Runs the case once more: the same violations must come out of the same schedule."""
    a, ia = prop.verify(sim, case)
    b, ib = prop.verify(sim, case)
    return bool(a) and [v.sig for v in a] == [v.sig for v in b] and ia["hash"] == ib["hash"]


def worker(pid, exes, vseed, idxq, outq, stop):
    sim = Sim(exes)
    prop = P.PROPS[pid]()
    known = known_findings()
    try:
        while not stop.is_set():
            with idxq[0].get_lock():
                i = idxq[0].value
                if i >= idxq[1]:
                    break
                idxq[0].value = i + 1
            rec = {"i": i}
            try:
                case = gen_case(prop, sim, vseed, i)
                vs, info = prop.verify(sim, case)
                rec.update(nontrivial=bool(info.get("nontrivial")), hash=info.get("hash"), faults=info.get("faults", {}), config=case["config"],
                           nops=len(case["ops"]), pre=info["r"].stats.get("pre", 0) if info.get("r") else 0)
                kn = [is_known(known, pid, case, v) for v in vs]
                rec["known"] = [(k["id"]) for k in kn if k]
                vs = [v for v, k in zip(vs, kn) if not k]
                if vs:
                    rec["viol"] = [(v.cls, v.sig, v.text) for v in vs]
                    rec["case"] = case
                elif i < 40:
                    rec["sample"] = case
            except Discard as e:
                rec["discard"] = str(e)
            except Exception:
                # this case gave no answer; the others still may
                rec["error"] = "case %d: %s" % (i, traceback.format_exc())
            outq.put(rec)
        outq.put({"end": True, "tot": sim.tot, "abnormal": sim.abnormal})
    except Exception:
        outq.put({"error": traceback.format_exc()})
    finally:
        sim.close()


def explore(pid, exes, vseed, n, wall, jobs=8, keep_going=False, start=0):
    idxq, outq, stop = (multiprocessing.Value("l", start), start + n), multiprocessing.Queue(), multiprocessing.Event()
    ps = [multiprocessing.Process(target=worker, args=(pid, exes, vseed, idxq, outq, stop), daemon=True) for _ in range(jobs)]
    t0 = time.time()
    for p in ps:
        p.start()
    ended, recs, tot, err, errs = 0, [], {}, None, 0
    while ended < len(ps):
        try:
            r = outq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and outq.empty():
                err = err or "a worker vanished"
                break
            if time.time() - t0 > wall:
                stop.set()
            continue
        if "end" in r:
            ended += 1
            for k, v in r["tot"].items():
                tot[k] = tot.get(k, 0) + v
            tot["abnormal"] = tot.get("abnormal", 0) + r["abnormal"]
            continue
        if "error" in r and "i" in r:
            err = r["error"]
            errs += 1
            if errs > 20:
                stop.set()
            continue
        if "error" in r:
            ended += 1
            err = r["error"]
            stop.set()
            continue
        recs.append(r)
        if r.get("viol") and not keep_going:
            stop.set()
        if time.time() - t0 > wall:
            stop.set()
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.terminate()
    return recs, tot, err, time.time() - t0


def minimise(prop, sim, case, cls, seconds=45):
    """Fewer operations, fewer faults, fewer context switches, same kind of violation."""
    end = time.time() + seconds
    sigs, _ = sim.info(case["config"])

    def bad(c):
        try:
            vs, _ = prop.verify(sim, c)
        except Discard:
            return False
        except Exception:
            return False
        return any(v.cls == cls for v in vs)

    def with_ops(ops):
        return dict(case, ops=ops)

    def t_ops(ops):
        if not valid(ops, sigs):
            return False
        c = with_ops(ops)
        if bad(c):
            return True
        if case["opts"].get("mean") or case["opts"].get("psync"):
            for k in range(3):
                if time.time() > end:
                    return False
                c2 = dict(c, opts=dict(c["opts"], seed=seed_of("min", k)))
                if bad(c2):
                    case["opts"] = c2["opts"]
                    return True
        return False
    ops = ddmin(case["ops"], t_ops, end)
    case = with_ops(ops)
    # faults
    for j in range(len(case["ops"])):
        for key in ("f", "e"):
            fl = case["ops"][j].get(key)
            if not fl:
                continue
            for k in range(len(fl) - 1, -1, -1):
                o2 = dict(case["ops"][j], **{key: fl[:k] + fl[k + 1:]})
                c2 = with_ops(case["ops"][:j] + [o2] + case["ops"][j + 1:])
                if time.time() < end and bad(c2):
                    case, fl = c2, fl[:k] + fl[k + 1:]
            for k, f in enumerate(fl):
                if key == "f" and f[1] != f[0]:
                    f2 = [f[0], f[0]]
                    o2 = dict(case["ops"][j], f=fl[:k] + [f2] + fl[k + 1:])
                    c2 = with_ops(case["ops"][:j] + [o2] + case["ops"][j + 1:])
                    if time.time() < end and bad(c2):
                        case, fl = c2, o2["f"]
    # scheduling: first without preemption, then an explicit list of switches, shortened
    if case["opts"].get("mean") or case["opts"].get("psync") or case["opts"].get("pstatic") or case["opts"].get("pmp"):
        c2 = dict(case, opts=dict(case["opts"], mean=0, psync=0, pstatic=0, pmp=0))
        if bad(c2):
            case = c2
        if not prop.one_schedule:
            return case
        c3 = dict(case, plist=True)
        try:
            vs, info = prop.verify(sim, c3)
            sw = info["r"].sched
            c4 = dict(case, switches=sw)
            if len(sw) < 5000 and bad(c4):
                sw = ddmin(sw, lambda s: bad(dict(case, switches=s)), min(end + 20, time.time() + 25))
                case = dict(case, switches=sw)
        except Discard:
            pass
    return case


def write_replay(pid, exes, case, vs, path, vseed, i, h):
    """All that the simulated execution depends on; python3 -m simlib.replay FILE runs it again."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(property=pid, verif_seed=vseed, case_index=i, hash=h, violations=[dict(cls=v.cls, sig=v.sig, text=v.text) for v in vs], case=case), f, indent=1)


def main():
    pid = sys.argv[1]
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = int(os.environ.get("SIM_JOBS", "8"))
    t00 = time.time()
    cls = P.PROPS[pid]
    prop = cls()
    if tier == "thorough":
        cls.extra, cls.every = tuple(cls.deep), 3
    names = sorted(set(cls.configs) | set(cls.extra))
    try:
        exes = build.build(names, jobs=8, log=lambda s: print(s))
    except build.BuildError as e:
        print("the tree does not build under the simulator:\n" + str(e))
        return 3
    tb = time.time() - t00
    n = cls.quick if tier == "quick" else cls.thorough
    n = int(os.environ.get("SIM_CASES", n))
    wall = float(os.environ.get("SIM_WALL", "300" if tier == "quick" else "3300"))
    recs, tot, err, dt = explore(pid, exes, vseed, n, wall, jobs, keep_going=bool(os.environ.get("SIM_KEEP")))
    if err:
        print(err)
    bad = sorted([r for r in recs if r.get("viol")], key=lambda r: r["i"])
    rc, nv = 0, 0
    if os.environ.get("SIM_KEEP"):
        hist = {}
        for r in bad:
            for c, s, t in r["viol"][:1]:
                hist.setdefault((s, r["config"]), []).append((r["i"], t))
        for k, v in sorted(hist.items(), key=lambda kv: -len(kv[1])):
            print("%5d %s  e.g. #%d %s" % (len(v), k, v[0][0], v[0][1][:300]))
        disc = {}
        for r in recs:
            if r.get("discard"):
                disc[r["discard"]] = disc.get(r["discard"], 0) + 1
        print("discards:", disc)
    if err and not bad:
        return 3
    if bad:
        sim = Sim(exes)
        for b in bad[:10]:
            case = b["case"]
            # the gate: the same seed gives the same violation again, in another process
            if not confirm(prop, sim, case):
                print("note: case %d was not confirmed on re-execution and is not reported" % b["i"])
                continue
            if os.environ.get("SIM_KEEP"):
                break
            c0 = b["viol"][0][0]
            small = minimise(cls(), sim, json.loads(json.dumps(case)), c0)
            vs, info = cls().verify(sim, small)
            vs = [v for v in vs if v.cls == c0]
            if not vs:
                small, (vs, info) = case, cls().verify(sim, case)
            path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (pid, b["i"]))
            write_replay(pid, exes, small, vs, path, vseed, b["i"], info.get("hash"))
            print("%s" % vs[0].text[:1500])
            print("history: %s" % "; ".join("%d:%s(%s)%s" % (o["t"], o["op"], ",".join(o["a"]), " fail=%s" % o["f"] if o.get("f") else "") for o in small["ops"])[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc, nv = 1, 1
            break
        sim.close()
    known = {}
    for r in recs:
        for k in r.get("known", ()):
            known[k] = known.get(k, 0) + 1
    for k in known_findings():
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (pid, k["what"], known.get(k["id"], 0)))
    evidence(pid, cls, tier, vseed, recs, tot, dt, tb, time.time() - t00, nv, exes)
    return rc if rc or not err else 3


def evidence(pid, cls, tier, vseed, recs, tot, dt, tb, wall, nv, exes):
    done = [r for r in recs if not r.get("discard") and "hash" in r]
    nt = {r["hash"] for r in done if r.get("nontrivial")}
    fk = {}
    for r in done:
        for k, v in r.get("faults", {}).items():
            fk[k] = fk.get(k, 0) + v
    fk["preemption at an arbitrary point"] = tot.get("pre", 0)
    fk["forced hand-over (lock, guard, end of thread)"] = tot.get("forced", 0)
    fk["fresh memory filled with a pattern, freed memory recycled with stale content"] = tot.get("recycled", 0)
    samples = [dict(index=r["i"], config=r["sample"]["config"], opts=r["sample"]["opts"],
                    ops=["%d:%s %s%s" % (o["t"], o["op"], " ".join(o["a"]), (" fail=%s" % o["f"]) if o.get("f") else "") for o in r["sample"]["ops"]][:40]) for r in sorted(recs, key=lambda r: r["i"]) if r.get("sample")][:3]
    if not samples:
        samples = [dict(index=r["i"], config=r["config"]) for r in done[:3]]
    cov = dict(evaluations=len(done), distinct_nontrivial=len(nt), rule=cls.rule, samples=samples,
               discarded=len(recs) - len(done), simulated_processes=tot.get("runs", 0),
               simulated_processes_per_hour=int(tot.get("runs", 0) / max(dt, 1e-9) * 3600), cases_per_hour=int(len(done) / max(dt, 1e-9) * 3600), seeds="seed_of('case', %r, %d, i) for i in 0..%d" % (pid, vseed, max([r["i"] for r in recs] or [0])),
               simulated_steps=tot.get("steps", 0), simulated_cpu_seconds=tot.get("cpu", 0) / 1e9, faults_injected=fk,
               distinct_schedules_or_results=len({r["hash"] for r in done}), measure="hash over every scheduling decision, operation result, step and allocation count of the perturbed run",
               allocations=tot.get("alloc", 0), race_checks=tot.get("races", 0), mp_library_calls=tot.get("mp", 0), atomic_ops=tot.get("atom", 0),
               static_init_guards=tot.get("guards", 0), guard_waits=tot.get("gwaits", 0), lock_waits=tot.get("mwaits", 0), clock_reads=tot.get("clock", 0),
               configurations={k[5:]: v for k, v in tot.items() if k.startswith("runs_")},
               real_components=["all of libs/e_float/src of the working tree", "libs/math binding header", "GMP and MPFR (own allocator and default environment driven)", "libstdc++ streams, strings, containers"],
               simulated_components=["thread scheduler", "operator new/delete, malloc of the library", "static-initialisation guards, mutexes, call_once", "clocks", "stream devices", "disk (C09)"],
               abnormal_runs=tot.get("abnormal", 0), build_s=round(tb, 1))
    ev = dict(property=pid, tier=tier, seed=vseed, level=cls.level, coverage=cov, assumptions=cls.assumptions, wall_s=round(wall, 1), violations=nv)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases (%d distinct non-trivial, %d discarded), %d simulated processes, %.0f s exploring, %.0f s building" % (pid, len(done), len(nt), len(recs) - len(done), tot.get("runs", 0), dt, tb))


if __name__ == "__main__":
    sys.exit(main())
