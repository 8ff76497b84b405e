#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
S = "libs/e_float/src/"
EFX = S + "e_float/efx/e_float_efx.cpp"; GMP = S + "e_float/gmp/e_float_gmp.cpp"; MPFR = S + "e_float/mpfr/e_float_mpfr.cpp"
EFXH = S + "e_float/efx/e_float_efx.h"; GMPH = S + "e_float/gmp/e_float_gmp.h"; MPFRH = S + "e_float/mpfr/e_float_mpfr.h"
BASE = S + "e_float/e_float_base.cpp"; BASEH = S + "e_float/e_float_base.h"; CPLX = S + "e_float/e_float_complex.h"
CONST = S + "functions/constants/constants.cpp"; EF = S + "e_float/e_float.cpp"; EFH = S + "e_float/e_float.h"
PRIME = S + "functions/integer/prime.cpp"; PF = S + "functions/integer/prime_factor.cpp"; BERN = S + "functions/integer/bernoulli_b.cpp"
ZETA = S + "functions/zeta/zeta.cpp"; JPOW = S + "utility/util_power_j_pow_x.cpp"; TAB = S + "functions/tables/"
DYN = S + "utility/util_dynamic_array.h"; LEX = S + "utility/util_lexical_cast.h"; NUM = S + "utility/util_numeric_cast.h"
TRAP = S + "utility/util_trapezoid.h"; NR = S + "utility/util_find_root_newton_raphson.h"; FOP = S + "utility/util_function_operation.h"
TIM = S + "utility/util_timer.cpp"; BIND = "libs/math/include/boost/math/bindings/e_float.hpp"
ELEM = S + "functions/elementary/"; GAM = S + "functions/gamma/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Concurrent callers do not disturb each other",
 "When several threads use the library at the same time, each on its own numbers and all reading the same shared, unmodified numbers, every call returns exactly the value it returns when run alone, in every interleaving, for every back-end (EFX, GMP, MPFR). No call performs an unsynchronised access to memory another thread may be using: shared numbers are only read by const operations, and the library's internal scratch data, caches, tables and constants are either per-thread, immutable or synchronised.",
 ["schedules", "histories", "configurations"],
 "Every interleaving of 2-4 threads running any mix of arithmetic, elementary, special, integer, complex, conversion and text operations, including first uses; all three back-ends and, for EFX, precisions that use the FFT multiplication.",
 "The repository's tests are single-threaded programs: they execute no interleaving at all.",
 [EFX, GMP, MPFR, EFXH, GMPH, MPFRH, EF, BASE, CONST, PRIME, PF, BERN, ZETA, JPOW, TAB, ELEM, GAM, CPLX, BIND],
 [("function-local static constants (guarded initialisation)", CONST), ("integer-logarithm cache", JPOW), ("prime and prime-factor tables", PRIME + ", " + PF), ("back-end precision set-up", GMPH + ", " + MPFRH), ("value members only, no shared scratch in number objects", EFXH)],
 [("ln_data", "cache of logarithms of integers shared by all zeta evaluations", JPOW), ("primes / prime_factors_list", "lazily filled integer tables", PRIME + ", " + PF)],
 ["return values of every public function", "data races on library memory"])

prop("C02", "First use from any thread yields one complete, stable shared object",
 "Every mathematical constant, numeric limit and table entry that the library hands out by reference is, for every caller on every thread and for the life of the process, the same fully computed object with the same value, no matter which thread uses it first, in which order constants are first used, how many threads do so at once, or whether the thread that created it has since ended. Concurrent first uses always complete: no interleaving of first uses deadlocks, livelocks or recurses into an initialisation in progress.",
 ["schedules", "histories"],
 "Every order and interleaving of first uses of all constants, limits, tables and table-driven functions over 2-4 threads, with threads ending and new ones starting in between.",
 "Tests touch constants first from one thread in one fixed order; which initialisations nest or overlap under other orders is never exercised.",
 [CONST, EF, EFH, BASE, TAB, BERN, PRIME, PF, ZETA, EFX, GMP, MPFR],
 [("function-local statics", CONST), ("numeric_limits accessors returning references", EFH), ("tables of pointers to constant accessors", TAB)],
 None, ["address and value of every constant returned by reference", "progress of each first use"])

prop("C03", "Working precision belongs to the number, not to the environment",
 "Every number carries the full configured precision whichever thread creates or uses it and whatever happened before in the process: reducing the working precision of one number, or other code changing the GMP/MPFR default precision or default rounding mode at any moment on any thread, changes no result of operations on other numbers, on any back-end. Results therefore never depend on which thread, in which order, created the operands.",
 ["schedules", "histories", "configurations"],
 "Every placement, in time and over 1-4 threads, of foreign changes to the arithmetic libraries' global or per-thread defaults and of per-number precision reductions, between any operations of a session; all back-ends.",
 "Tests run in one thread in a process where nothing else touches the GMP/MPFR defaults, so they only ever see the state set by the first number created.",
 [GMP, GMPH, MPFR, MPFRH, EFX, EFXH],
 [("per-object precision at construction", GMPH + ", " + MPFRH), ("precision()", EFX + ", " + GMP + ", " + MPFR)],
 [("back-end default precision", "process-wide (GMP) or per-thread (MPFR) default used when a number is initialised", GMPH + ", " + MPFRH)],
 ["digits of results of every operation"])

prop("C04", "Memory exhaustion is always reported, never fatal or silent",
 "If the C++ allocator fails at any point inside any library operation, the operation either throws std::bad_alloc to its caller or completes with exactly the value it yields without the failure; it never terminates the process, corrupts memory, returns a wrong value or leaks. Numbers that the operation only reads keep their values, and a number it was writing can still be assigned to, used and destroyed.",
 ["fault_sequences", "histories", "configurations"],
 "Every allocation point of every public operation, failing once or from that point on, with cold or warm caches; EFX all memory, GMP/MPFR all memory obtained through operator new (the C libraries abort by their own contract).",
 "No test makes an allocation fail; the failure points run into the thousands per operation and each needs its own execution.",
 [EFX, EFXH, DYN, EF, EFH, BASE, BASEH, LEX, NUM, CONST, PF, PRIME, BERN, JPOW, CPLX, GMP, MPFR],
 [("owning limb array", DYN), ("exception propagation through text helpers", LEX + ", " + NUM), ("FFT work arrays", EFX)],
 None, ["exception type at the call", "values of operands after the call", "live heap blocks"],
 "E_FLOAT_SIM_DIGITS10 (build at other precisions)")

prop("C05", "After a failed operation the library recovers completely",
 "Once memory is available again after any number of failed operations, every library operation returns exactly the value it returns in a process where nothing ever failed: no constant, table, cache or limit is left missing, partial or wrong by an initialisation that was cut short, on the failing thread or on any other.",
 ["fault_sequences", "histories", "schedules"],
 "Every sequence of allocation failures placed inside first uses and later uses of constants, tables and caches, followed by any operations on the same or other threads.",
 "Needs a failure at a specific point of a lazy initialisation followed by later use; tests never inject one.",
 [CONST, PF, PRIME, BERN, JPOW, ZETA, EF, BASE, LEX, NUM, TAB, EFX, GMP, MPFR],
 [("guarded static initialisation is retried after an exception", CONST), ("cache filling", JPOW + ", " + PF + ", " + BERN)],
 None, ["values of all operations after the last fault"], "E_FLOAT_SIM_DIGITS10 (build at other precisions)")

prop("C06", "A number's value never depends on how it came to hold it",
 "Through any sequence of construction, copy, move, swap, self-assignment, assignment to reused or moved-from variables, compound operations with aliased operands, text input and container reallocation, each variable behaves as an independent value, and the result of an operation depends only on its operands' values: not on earlier calls, warm or cold caches, previous contents of the target or of recycled memory. This holds for real, complex and Boost-wrapped numbers on every back-end.",
 ["histories", "programs"],
 "Every sequence of operations over a set of variables, in one thread, with recycled heap and stack memory of arbitrary content.",
 "Tests evaluate fixed expressions mostly on fresh variables; the state space of histories (reuse, aliasing, moved-from objects, cache states) is unbounded.",
 [EFX, EFXH, DYN, GMP, GMPH, MPFR, MPFRH, EF, BASE, CPLX, BIND, JPOW, BERN, ZETA],
 [("copy/move/swap of the limb storage", DYN + ", " + EFXH), ("compound operators and aliasing checks", EFX + ", " + GMP + ", " + MPFR), ("text input into an existing number", BASE)],
 None, ["value of every variable after every step"])

prop("C07", "Output survives a failing sink",
 "When a number (real, complex) is written to a stream whose device stalls, accepts only part of the text, fails or throws at any byte, the bytes delivered are a prefix of exactly the text a healthy stream receives, and the failure is reported through the stream state or as the exception the stream is configured to throw, never as success. The number, and the stream's format flags, precision and fill, are unchanged, nothing leaks, and once the stream is repaired the same number prints completely and identically; a stream already in a failed state receives nothing.",
 ["fault_sequences", "inputs"],
 "Every device failure point and mode (end of device, short write, exception), every combination of format flags, precision, width and fill, with or without allocation failures, for any finite or non-finite number.",
 "Tests write to healthy in-memory streams only; no write ever fails.",
 [BASE, CPLX, EFX, GMP, MPFR, LEX], [("operator<<: format to a string, then one stream insertion", BASE), ("complex operator<<", CPLX)],
 None, ["bytes received by the device", "stream state, exception, format state"])

prop("C08", "Input is independent of delivery and never corrupts its target",
 "Reading numbers (real or complex) from a stream gives the same values and end state however the device splits the bytes into reads; when no number can be extracted because the device is at its end, fails, throws or was already failed, the stream reports it and the target keeps its value. Text cut off at any byte gives an outcome that depends only on the bytes delivered, never on the target's previous content, earlier reads or stale memory, and never crashes or leaks.",
 ["fault_sequences", "histories", "inputs"],
 "Every split of the input into device reads, every truncation point and device failure mode, with targets holding any previous value (finite, infinite, NaN, moved-from).",
 "Tests read complete, well-formed text from strings into fresh variables; delivery, truncation and device errors are never varied.",
 [BASE, CPLX, EFX, GMP, MPFR, NUM], [("operator>>", BASE), ("rd_string", EFX + ", " + GMP + ", " + MPFR), ("complex operator>>", CPLX)],
 None, ["value and stream state after every extraction"])

prop("C09", "A number saved as text survives crash and restart exactly",
 "A number written at max_digits10 or more significant digits and read back, by the same or a new process, is the same number to the saved digits: writing it again gives byte-identical text, for every finite value over the whole exponent range, zero, and real infinities and NaN, in scientific, fixed and default format. A computation that saves its state this way, is killed at any point (even in the middle of a save) and resumes from the last completely saved state any number of times ends with the result of the uninterrupted computation to the library's precision.",
 ["crash_points", "histories", "inputs"],
 "Every kill point (byte of device output or step), every number of restarts, torn or lost unsynchronised writes, any finite numbers, formats scientific/fixed/default, all back-ends.",
 "Tests compare printed text with fixed strings for a few values; none reads saved text back in a fresh process or after a torn write.",
 [BASE, EFX, GMP, MPFR, NUM, LEX, CPLX], [("digit generation with rounding", EFX + ", " + GMP + ", " + MPFR), ("format assembly", BASE), ("rd_string", EFX + ", " + GMP + ", " + MPFR)],
 None, ["text saved before and after restart", "final results"])

prop("C10", "Algorithms that call user code are transparent to its failures",
 "When the user function evaluated by the integration or root-finding algorithms throws at any evaluation, runs out of memory, re-enters the library (including the same algorithm) or is interleaved with other threads doing the same, the exception reaches the caller unchanged, nothing leaks, and a later run of the same or another solver object evaluates the function at the same points and returns exactly the undisturbed result and success status; a run that ended in an exception does not report success.",
 ["fault_sequences", "schedules", "histories"],
 "Every evaluation index at which the callback throws or re-enters, every nesting of algorithms and interleaving of up to 3 threads, element types e_float and double.",
 "No test or example runs a callback that fails or re-enters, nor two solvers at once.",
 [TRAP, NR, FOP, S + "utility/util_ranged_function_operation.h", S + "utility/util_function.h", S + "utility/util_find_root_base.h"],
 [("solver classes with virtual user function", TRAP + ", " + NR), ("success flag", FOP)],
 None, ["exception seen by the caller", "sequence of evaluation points", "result and success()"])

prop("C11", "The stopwatch reports processor time since its own start",
 "A timer's elapsed time is the processor time the process has consumed since that timer was constructed minus the timer's offset, at every reading, for any number of timers created, read and destroyed in any order on any thread. It never decreases, and stalls or jumps of the wall clock never change it.",
 ["schedules", "histories", "fault_sequences"],
 "Every sequence of clock advances, wall-clock jumps and stalls between constructions and readings of several timers.",
 "The timer is only used to print timings in tests; no test controls the clock it reads.",
 [TIM, S + "utility/util_timer.h"], [("get_sec / elapsed", TIM)], None, ["elapsed() against the simulated processor clock"])

prop("C12", "Numbers and their text do not depend on the process's locale",
 "The value of every operation and constant, and every text a number is written as, are the same whatever the C locale (setlocale) and the global C++ locale (std::locale::global) of the process are - any decimal point, thousands separator and grouping - whenever constants and tables are first used, and whichever moment or thread switches the locale, even in the middle of an operation. Text written under one locale reads back as the same number under any other, and a text that is not a number in the classic locale is not one under another.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "Every sequence of locale switches by any thread between and inside operations, with decimal points '.', ',' and multi-byte ones and with grouping; every operation, literal, text and stream, all back-ends and precisions.",
 "Every test runs in the classic C locale from start to end.",
 [BASE, EFX, GMP, MPFR, NUM, LEX, CONST, CPLX], [("conversion of numbers through streams and C library functions", LEX + ", " + NUM + ", " + EFX), ("GMP and MPFR text conversion, which follows the C locale", GMP + ", " + MPFR)],
 None, ["every operation's result, text and stream state"])

prop("C13", "Repeated work holds no more memory and costs no more",
 "A program that repeats the same work does not grow: the memory the library holds (constants, tables, caches, and what GMP or MPFR hold for it) stops growing once the work has been done, also when some rounds failed for lack of memory or by an exception out of a callback; calls of a function with ever different real arguments do not each add to what is held; threads that have ended leave nothing behind per thread; no call becomes dearer by having been made before; and the stack a call needs does not grow with the length of a text or the number of calls.",
 ["histories", "fault_sequences", "schedules", "configurations"],
 "Every block of operations repeated any number of times, with failures in any round; every function over any number of different real arguments; any number of threads started and ended; every back-end and precision.",
 "A test performs each call a few times in one thread and measures neither memory nor effort.",
 [EF, EFX, GMP, MPFR, CONST, TAB, GAM, ZETA, BERN, ELEM, NUM, LEX, TRAP, NR], [("constants, tables and memoisation", CONST + ", " + TAB + ", " + GAM + ", " + ZETA), ("limb memory and GMP/MPFR values", EFX + ", " + GMP + ", " + MPFR), ("text conversion buffers", NUM + ", " + LEX)],
 None, ["bytes held, steps and stack of every call in repeated work"])
prop("C14", "Usable before main(), in destructors at exit and at thread end",
 "Every operation, constant, table and stream operation gives its ordinary result wherever a program may run code: in the initialisation of the program's own static objects, whichever of them comes first and before any of the library's own were used; in destructors of the program's static objects at exit, also for objects made before the library's constants were first used by others; and in destructors of thread-local objects while a thread ends - on any thread, with any other thread's or the same thread's earlier use, and after earlier failures for lack of memory.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "Every operation executed before main(), in destructors of objects of static or thread storage duration, first used anywhere and used again in any of these places; 1-4 threads; every back-end and precision.",
 "Every test runs inside main() of a process whose static initialisation is complete, and tests nothing while the process or a thread ends.",
 [EF, EFX, GMP, MPFR, CONST, TAB, GAM, ZETA, BERN, ELEM, NUM, LEX], [("static objects and function-local statics of the library, their order and lifetime", CONST + ", " + TAB + ", " + EFX + ", " + GMP + ", " + MPFR), ("thread-local scratch values and caches", ELEM + ", " + GAM + ", " + ZETA)],
 None, ["results computed outside main()"])

# --- pure functions of their input: listed, not claimed -----------------------------------
def pure(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs", "configurations"], text, why, files, mech)
pure("N01", "Arithmetic is accurate to the configured digits",
 "Addition, subtraction, multiplication, division, reciprocal and square root of finite numbers return the exact result to at least digits10 significant decimal digits, or the documented special value on overflow, underflow or invalid operands.",
 "Every pair of operands, at every supported precision and back-end.", "Tests sample some hundreds of operand pairs at two precisions.",
 [EFX, GMP, MPFR], [("limb arithmetic, Newton iterations, FFT multiplication", EFX)])
pure("N02", "Elementary functions are accurate over their whole domain",
 "Roots, powers, exponentials, logarithms, trigonometric and hyperbolic functions and their inverses, of real arguments, agree with the mathematical function to the configured digits over the whole domain, up to a small tail of digits.",
 "Every argument in the domain, every precision and back-end.", "Tests compare tabulated arguments only.",
 [ELEM, EF], [("series, argument reduction, Newton", ELEM)])
pure("N03", "Special functions are accurate over their whole domain",
 "Gamma, Pochhammer, factorials, binomials, Bernoulli numbers, Riemann zeta and the hypergeometric series agree with the mathematical function to the configured digits.",
 "Every argument in the domain, every back-end.", "Tests compare tabulated arguments only.",
 [GAM, ZETA, BERN, TAB], [("recursions, asymptotic series and tables", GAM + ", " + ZETA + ", " + TAB)])
pure("N04", "Comparison is a consistent ordering by value",
 "Comparisons between numbers, and between numbers and built-in types, order finite values and infinities by mathematical value, and equality agrees with ordering.",
 "Every pair of values.", "Tests compare few pairs.", [EF, EFX, GMP, MPFR], [("cmp and relational operators", EF)])
pure("N05", "Conversions preserve value or saturate",
 "Conversion from built-in integers and floating-point types is exact, and conversion to them yields the nearest or truncated representable value, saturating outside the target's range.",
 "Every value of the built-in types and every number.", "Tests convert a handful of values.", [EFX, GMP, MPFR, EF], [("from_/extract_ functions", EFX + ", " + GMP + ", " + MPFR)])
pure("N06", "Formatting follows the iostream conventions",
 "The text produced for a number under any combination of format flags, precision, width and fill is the one the iostream rules prescribe for a floating-point type, correctly rounded.",
 "Every value and flag combination.", "Tests check fixed strings.", [BASE], [("wr_string", BASE)])
pure("N07", "Complex functions follow the standard library's conventions",
 "Complex arithmetic, elementary functions, gamma and zeta agree with the mathematical functions on the principal branches to the configured digits.",
 "Every argument.", "Tests compare tabulated arguments.", [CPLX, ELEM + "elementary_complex.cpp", GAM, ZETA], [("complex<e_float>", CPLX)])
pure("N08", "Boost binding results equal the native ones",
 "Every operation reached through the Boost.Multiprecision binding returns the value of the corresponding native operation, and Boost.Math functions instantiated with it are accurate to the configured digits.",
 "Every operation and argument.", "Tests run the Boost concept checks and some function values.", [BIND], [("eval_ functions", BIND)])
pure("N09", "Utility algorithms compute what they name",
 "Linear interpolation, series-expansion helpers, prime generation and factorisation, trapezoid integration and Newton root finding return the mathematically defined result for every valid input.",
 "Every input.", "Not directly tested, or for few inputs.", [PRIME, PF, S + "utility/util_interpolate.h", S + "utility/util_coefficient_expansion.h", S + "utility/util_alternating_sum.h", TRAP, NR], [("algorithms", S + "utility/")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
