#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (kept as a script so the text stays reviewable)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "e6f3c5c47657e892878cb13bd650c0207bcd2571"
T = "deterministic simulation with fault injection: "
N = {
 "C01": ("seeded preemptive scheduler over all library threads, happens-before race check on every memory access, comparison with the same calls run alone",
         "Seeded search, not exhaustive: a schedule-dependent fault outside the sampled interleavings is missed. Races are judged by happens-before over every instrumented access, so a race is found in any schedule in which both accesses occur. Sequential consistency is assumed for racy programs; GMP/MPFR internals are not instrumented but their per-thread default state is modelled and the memory they allocate is checked."),
 "C02": ("seeded order and interleaving of first uses of every shared object by 1-4 simulated threads with threads ending in between; identity, value and stability of every reference; deadlock, recursion and hang detection in the simulated static-initialisation guards",
         "Seeded search. Reference values come from a process that uses one constant alone; an object that is wrong in every order is not a C02 violation."),
 "C03": ("GMP/MPFR default precision and rounding mode and other numbers' precisions changed at seeded points by simulated foreign code, against the same history without the changes",
         "Seeded search. For the documented dependence of single numbers on an explicit precision() request, only numbers other than the requested one are judged."),
 "C04": ("allocation failures at seeded allocation indices (once, several, or from then on) inside every operation; outcome compared with the failure-free run, whole-process leak and heap-access checks",
         "Seeded search over allocation points. GMP and MPFR abort by contract when their own allocator fails, so for these back-ends only operator new fails."),
 "C05": ("allocation failures during first use and later use of constants, tables and caches, then memory restored; later results on any thread compared with a process in which nothing failed",
         "Seeded search over failure points and later histories."),
 "C06": ("seeded histories over reused, aliased, moved-from, swapped and reallocated variables on recycled poisoned memory; each operation compared with the same operation on freshly built operands of the same value in a fresh process",
         "Seeded search. Single thread."),
 "C07": ("simulated stream devices that stall, write short, fail or throw at a seeded byte; delivered bytes compared with the healthy run, stream state, flags and number compared before and after, then repair and rewrite",
         "Seeded search over values, formats and failure points. The healthy text itself is the oracle: its conformance to formatting rules is N06."),
 "C08": ("simulated stream devices that split, truncate, fail or throw; the same text delivered in one piece is the oracle",
         "Seeded search. Which texts are accepted is not judged, only that the outcome is a function of the delivered bytes."),
 "C09": ("simulated disk and process lifetimes: kill at a seeded operation or byte of a save, torn and lost writes, restart from the last intact save in new processes; byte-exact rewrite and decimal comparison with the uninterrupted run",
         "Seeded search. The resumed computation is compared to the library's precision less the error the program can amplify, estimated from the recorded values by an independent decimal error propagation."),
 "C10": ("user callbacks that throw, exhaust memory, re-enter the library or interleave with other threads at a seeded evaluation; call points, results, success status and leaks compared with the undisturbed run",
         "Seeded search. Quantities: trapezoid integration and Newton root finding over e_float and double."),
 "C11": ("simulated processor clock and wall clock with stalls and jumps; every reading compared with an exact model of the processor clock",
         "Seeded search. clock() is replaced by the simulated clock; its resolution is CLOCKS_PER_SEC."),
 "C12": ("the process's C locale and global C++ locale switched at seeded points, between and inside operations, by any simulated thread, against the same history in a process that keeps the classic locale",
         "Seeded search. Real setlocale and std::locale of this system's C and C++ libraries with four numeric locales generated by the machinery; only the numeric category is switched."),
 "C13": ("seeded blocks of work repeated in one process, by 1, 2 and 4 simulated threads, and over hundreds of arguments, with rounds in which allocations fail and callbacks throw; bytes held, steps and stack of each call are compared between rounds",
         "Seeded search over blocks of at most a few dozen operations repeated 5-40 times, or 60-400 calls with different arguments; slower growth than these show is missed. Effort is counted in instrumented accesses, atomics and GMP/MPFR calls; stack includes what the simulator's instrumentation adds to frames, hence generous bounds."),
 "C14": ("a simulated process life of which the operations before static initialisation, in destructors at exit and in destructors at thread end are part, with seeded scheduling and failing allocations; compared with the same operations in the middle of an ordinary process",
         "Seeded search. The program's static objects are initialised before the library's translation units (by constructor priority) and destroyed in the order the C++ runtime prescribes; process and thread ends are the real ones, run under the simulated scheduler."),
}
NA = {
 "N01": "A pure function of its operands: no schedule, fault, clock, I/O or history enters the statement, so a simulator has nothing to decide. Independence of results from schedule, history, environment and faults is decided by C01, C03, C05 and C06.",
 "N02": "A pure function of its argument; only an independent numerical oracle decides it, not simulation of an environment.",
 "N03": "A pure function of its argument; only an independent numerical oracle decides it, not simulation of an environment. (Whether caches, tables and first use change the value is C02, C05 and C06.)",
 "N04": "A pure predicate over two values; nothing nondeterministic enters it.",
 "N05": "A pure function of the converted value; nothing nondeterministic enters it.",
 "N06": "A pure function of value, flags, precision, width and fill. The parts that depend on the stream's device are C07, C08 and C09.",
 "N07": "A pure function of its argument; nothing nondeterministic enters it.",
 "N08": "An equation between two pure functions. The binding's dependence on history, aliasing and threads is part of C01 and C06.",
 "N09": "Pure functions of their input. What depends on the callbacks' behaviour and on shared tables is C10 and C02.",
}
def main():
    checks = []
    for i, (t, note) in N.items():
        cmd = "python3 -m simlib.check " + i
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "evidence_file": "evidence/%s.json" % i,
                       "technique": T + t, "level": "exploration",
                       "level_note": note + " Every verdict is a function of VERIF_SEED and the tree; a violation is reported only after the same case gave the same schedule hash and the same violation again in another process."})
    m = {"version": 1, "setup_cmd": "python3 -m simlib.build",
         "hooks": {"guard": "E_FLOAT_SIM_DIGITS10", "enable": "compiled with -DE_FLOAT_SIM_DIGITS10=N for the configurations whose precision differs from the default; everything else is interposed at compile and link time without changing /repo",
                   "source_commits": [HOOK]},
         "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "Replay a reported file with: python3 -m simlib.replay evidence/replay-<id>-<case>.json. Known findings and repaired defects: known_findings.txt. Design: DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
