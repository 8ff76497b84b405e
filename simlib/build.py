"""Builds the simulation executables from /repo's current working tree.

One executable per configuration (back-end x precision).  The library sources and the operations are compiled
with thread-sanitizer instrumentation but linked against our own runtime (sim/rt.cpp), which owns threads,
memory, locks, clocks and the GMP/MPFR environment.  Objects are cached under /verif/build by content.
"""
import os, re, sys, json, struct, hashlib, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "libs/e_float/src")
MATH = os.path.join(REPO, "libs/math/include")
SIM = os.path.join(VERIF, "sim")
COV = bool(os.environ.get("SIM_COV"))  # tools/coverage.py: which code the simulated processes reach
BUILD = os.path.join(VERIF, "build", "cov") if COV else os.path.join(VERIF, "build")
CXX = "/usr/bin/g++"

# name -> (back-end, precision or None for the shipped one)
CONFIGS = {
    "efx":      ("efx", None),
    "gmp":      ("gmp", None),
    "mpfr":     ("mpfr", None),
    "efx-30":   ("efx", 30),
    "gmp-30":   ("gmp", 30),
    "mpfr-30":  ("mpfr", 30),
    "efx-300":  ("efx", 300),
    "mpfr-300": ("mpfr", 300),
    "efx-1200": ("efx", 1200),
    "gmp-1200": ("gmp", 1200),
    "mpfr-1200": ("mpfr", 1200),
    "efx-6000": ("efx", 6000),
}
DEFS = {"efx": "E_FLOAT_TYPE_EFX", "gmp": "E_FLOAT_TYPE_GMP", "mpfr": "E_FLOAT_TYPE_MPFR"}
LIBS = {"efx": [], "gmp": ["-lgmp"], "mpfr": ["-lmpfr", "-lgmp"]}
OPS = ["core.cpp", "ops_real.cpp", "ops_cplx.cpp", "ops_boost.cpp", "ops_io.cpp", "ops_util.cpp"]
WRAP = ("memcpy memmove memset memcmp malloc free calloc realloc clock time clock_gettime gettimeofday timespec_get "
        "times getrusage sleep nanosleep usleep sched_yield pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock "
        "pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock pthread_once "
        "_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv "
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ "
        "_ZNSt8__detail15_List_node_base7_M_hookEPS0_").split()
MPRE = re.compile(r"^(__gmp|mpfr_|mpf_|mpz_|mpn_|mpq_|gmp_)")


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def lib_sources(mp):
    out = []
    for d, _, fs in os.walk(SRC):
        rel = os.path.relpath(d, SRC)
        part = rel.split(os.sep)
        if part[:1] == ["e_float"] and len(part) > 1 and part[1] in DEFS and part[1] != mp:
            continue
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def headers_digest():
    h = hashlib.sha256()
    for top in (SRC, MATH):
        files = []
        for d, _, fs in os.walk(top):
            for f in fs:
                if not f.endswith(".cpp"):
                    files.append(os.path.join(d, f))
        for f in sorted(files):
            h.update(os.path.relpath(f, top).encode() + b"\0" + _read(f) + b"\0")
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".h"):
            h.update(_read(os.path.join(SIM, f)))
    return h.hexdigest()


def tree_digest():
    h = hashlib.sha256(headers_digest().encode())
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                h.update(_read(os.path.join(d, f)))
    for f in sorted(os.listdir(SIM)):
        h.update(_read(os.path.join(SIM, f)))
    h.update(_read(os.path.abspath(__file__)))
    return h.hexdigest()[:24]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace")[-4000:])


def _compile(src, obj, flags):
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = "%s.%d.tmp.o" % (obj, os.getpid())
    _run([CXX] + flags + ["-c", src, "-o", tmp])
    os.replace(tmp, obj)
    return obj


def _kind(name):
    """(arguments written, arguments read): bit masks over the integer-register arguments that are numbers."""
    n = re.sub(r"^(__gmpf_|__gmp_|mpfr_|mpf_|gmp_)", "", name)
    if name.startswith(("__gmpz_", "__gmpn_", "__gmpq_", "mpn_", "mpz_", "mpq_")): return 0, 0
    if n == "sprintf": return 0, 4
    if re.search(r"printf|set_default|get_default|free_cache|free_str|get_emin|get_emax|set_emin|set_emax|memory|randinit|get_version", n): return 0, 0
    if n == "get_str": return 0, 16
    if n in ("get_d_2exp", "get_ld_2exp"): return 0, 2
    if n in ("sin_cos", "sinh_cosh", "modf"): return 3, 4
    if n == "swap": return 3, 0
    if n in ("cmp", "cmp3", "cmpabs", "eq", "greater_p", "greaterequal_p", "less_p", "lessequal_p", "equal_p", "unordered_p", "lessgreater_p"): return 0, 3
    if re.search(r"^(cmp_|get_|sgn|fits_)|_p$", n): return 0, 1
    if n in ("ui_div", "ui_sub", "ui_pow", "si_sub", "si_div", "d_sub", "d_div", "jn", "yn"): return 1, 4
    if n in ("set", "set4", "init_set", "set_z", "setsign"): return 1, 2
    if n.startswith(("set", "init", "clear", "inp_str", "strtofr", "const_")): return 1, 0
    if n in ("add", "sub", "mul", "div", "pow", "atan2", "hypot", "agm", "fmod", "remainder", "dim", "max", "min", "beta", "gamma_inc", "reldiff", "copysign"): return 1, 6
    return 1, 2


# Functions of the C and C++ libraries that use memory named by their arguments, which the instrumentation does not see.
_STR = r"^_ZN(K?)St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
_IOS = r"^_ZN(So|Si|Sd|St9basic_iosIcSt11char_traitsIcEE|St7__cxx1118basic_stringstreamI|St7__cxx1119basic_[io]stringstreamI|St14basic_iostreamI)"
_CSTR = {"strlen": 1, "strnlen": 1, "strcmp": 3, "strncmp": 3, "strchr": 1, "strrchr": 1, "strstr": 3, "strtod": 1, "strtold": 1, "strtol": 1, "strtoll": 1,
         "strtoul": 1, "strtoull": 1, "atoi": 1, "atol": 1, "atoll": 1, "atof": 1, "strcpy": 2, "strncpy": 2, "strcat": 2, "strdup": 1}
_CDST = ("sprintf", "snprintf", "vsprintf", "vsnprintf", "strcpy", "strncpy", "strcat")


def _text(n):
    """[(argument, bytes or 255 for a C string, written)] of a function that is called through a stub, None for other functions."""
    if MPRE.match(n):
        b = re.sub(r"^(__gmpf_|__gmp_|mpfr_|mpf_|gmp_)", "", n)
        if n.startswith(("__gmpz_", "__gmpn_", "__gmpq_", "mpn_", "mpz_", "mpq_")): return []
        if re.match(r"v?sn?printf$", b): return [(0, 1, 1)]
        if b == "get_str": return [(0, 1, 1), (1, 8, 1)]
        if b in ("get_d_2exp", "get_ld_2exp"): return [(0, 8, 1)]
        if b in ("set_str", "init_set_str", "strtofr"): return [(1, 255, 0)]
        return []
    m = re.match(_STR, n)
    if m:
        r = n[m.end():]
        if r.startswith(("9_M_create", "5_S_")): return None
        if m.group(1): return [(1 if r.startswith("6substr") else 0, 32, 0)]
        return [(0, 32, 1)]
    if re.match(_IOS, n): return [(0, 8, 1)]
    if n.startswith("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istream"): return [(0, 8, 1), (1, 32, 1)]
    if n.startswith("_ZSt7getlineIc"): return [(0, 8, 1), (1, 32, 1)]
    if n.startswith(("_ZSt16__ostream_insertIc", "_ZStlsIc", "_ZStlsISt11", "_ZStrsIc", "_ZStrsISt11")): return [(0, 8, 1)]
    k = [(i, 255, 0) for i in (0, 1) if _CSTR.get(n, 0) >> i & 1]
    if n in _CDST: k.append((0, 1, 1))
    return k or None


def _stubs(names, base, mp):
    names = sorted(names)
    with open(base + ".S", "w") as f:
        f.write(".text\n")
        for i, n in enumerate(names):
            f.write(f""".globl __sim_{n}
.type __sim_{n},@function
__sim_{n}:
  .cfi_startproc
  mov (%rsp), %r11
  push %rbp
  .cfi_def_cfa_offset 16
  .cfi_offset 6, -16
  mov %rsp, %rbp
  .cfi_def_cfa_register 6
  sub $208, %rsp
  and $-16, %rsp
  movq %rdi, 0(%rsp)
  movq %rsi, 8(%rsp)
  movq %rdx, 16(%rsp)
  movq %rcx, 24(%rsp)
  movq %r8, 32(%rsp)
  movq %r9, 40(%rsp)
  movq %rax, 48(%rsp)
  movups %xmm0, 64(%rsp)
  movups %xmm1, 80(%rsp)
  movups %xmm2, 96(%rsp)
  movups %xmm3, 112(%rsp)
  movups %xmm4, 128(%rsp)
  movups %xmm5, 144(%rsp)
  movups %xmm6, 160(%rsp)
  movups %xmm7, 176(%rsp)
  mov ${i}, %edi
  mov %rsp, %rsi
  mov %r11, %rdx
  call {'sim_mp_hook' if MPRE.match(n) else 'sim_std_hook'}
  movq 0(%rsp), %rdi
  movq 8(%rsp), %rsi
  movq 16(%rsp), %rdx
  movq 24(%rsp), %rcx
  movq 32(%rsp), %r8
  movq 40(%rsp), %r9
  movq 48(%rsp), %rax
  movups 64(%rsp), %xmm0
  movups 80(%rsp), %xmm1
  movups 96(%rsp), %xmm2
  movups 112(%rsp), %xmm3
  movups 128(%rsp), %xmm4
  movups 144(%rsp), %xmm5
  movups 160(%rsp), %xmm6
  movups 176(%rsp), %xmm7
  mov %rbp, %rsp
  pop %rbp
  .cfi_def_cfa 7, 8
  jmp *{n}@GOTPCREL(%rip)
  .cfi_endproc
""")
        f.write('.section .note.GNU-stack,"",@progbits\n')
    with open(base + ".c", "w") as f:
        f.write("const char* const sim_mp_names[] = { %s 0 };\n" % "".join('"%s", ' % n for n in names))
        f.write("const int sim_mp_count = %d;\n" % len(names))
        f.write("const unsigned char sim_mp_kind[] = { %s 0 };\n" % "".join("%d, " % (w | (r << 3)) for w, r in (_kind(n) if MPRE.match(n) else (0, 0) for n in names)))
        f.write("const unsigned char sim_text[][9] = { %s { 0 } };\n" % "".join("{ %s }, " % ", ".join("%d, %d, %d" % (a, k, w) for a, k, w in _text(n) + [(0, 0, 0)] * (3 - len(_text(n)))) for n in names))


def flags_for(mp, digits):
    fl = ["-m64", "-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-fsanitize=thread", "-w",
          "-D" + DEFS[mp], "-DE_FLOAT_TEST_REAL_IMAG_TESTS", "-I" + SRC, "-I" + MATH, "-I" + SIM]
    if digits:
        fl.append("-DE_FLOAT_SIM_DIGITS10=%d" % digits)
    if COV:
        fl.append("-fsanitize-coverage=trace-pc")
    return fl


def locales():
    """The C library's numeric locales of the simulation: name -> (decimal point, thousands separator, grouping)."""
    d = os.path.join(BUILD, "locale")
    for n, (dp, ts, gr) in {"sim_a": (",", ".", b"\3\3"), "sim_b": ("\u066b", "\u066c", b"\3\3"), "sim_c": (".", ",", b"\3")}.items():
        base, offs, buf = 32, [], b""
        for p in (dp.encode() + b"\0", ts.encode() + b"\0", gr + b"\0"):
            offs.append(base + len(buf))
            buf += p
        buf += b"\0" * (-(base + len(buf)) % 4)
        for p in (struct.pack("<I", ord(dp)), struct.pack("<I", ord(ts)), b"UTF-8\0"):
            offs.append(base + len(buf))
            buf += p
        t = struct.pack("<II6I", 0x20031114, 6, *offs) + buf
        f = os.path.join(d, n, "LC_NUMERIC")
        if not os.path.exists(f) or _read(f) != t:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f + ".%d" % os.getpid(), "wb") as o:
                o.write(t)
            os.replace(f + ".%d" % os.getpid(), f)
    return d


def build(names, jobs=8, log=None):
    """Returns {config name: path of executable}."""
    t0 = time.time()
    objdir = os.path.join(BUILD, "obj")
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(bindir, exist_ok=True)
    locales()
    hd = headers_digest()
    tree = tree_digest()
    out, todo = {}, {}
    for n in names:
        exe = os.path.join(bindir, "%s-%s" % (n, tree))
        out[n] = exe
        if not os.path.exists(exe):
            todo[n] = exe
    if not todo:
        return out
    cxxv = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE).stdout
    jobsl, objs = {}, {}
    rtflags = ["-m64", "-std=c++17", "-O2", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-w"]
    for n in todo:
        mp, dg = CONFIGS[n]
        fl = flags_for(mp, dg)
        objs[n] = []
        srcs = [(s, fl) for s in lib_sources(mp)] + [(os.path.join(SIM, s), fl) for s in OPS]
        srcs += [(os.path.join(SIM, "rt.cpp"), rtflags), (os.path.join(SIM, "backend.cpp"), rtflags + ["-D" + DEFS[mp]])]
        for s, f in srcs:
            inst = f is fl
            key = _sha(cxxv, hd if inst else _read(os.path.join(SIM, "rt.h")), " ".join(f), os.path.basename(s), _read(s))
            o = os.path.join(objdir, os.path.basename(s)[:-4] + "-" + key + ".o")
            jobsl[o] = (s, f)
            objs[n].append((o, inst))
    order = {"ops_boost.cpp": 0, "ops_real.cpp": 1, "ops_io.cpp": 2, "elementary_complex.cpp": 3, "ops_cplx.cpp": 2, "core.cpp": 2}
    items = sorted(jobsl.items(), key=lambda kv: (order.get(os.path.basename(kv[1][0]), 5), kv[0]))
    with ThreadPoolExecutor(jobs) as ex:
        for r in [ex.submit(_compile, s, o, f) for o, (s, f) in items]:
            r.result()

    def link(n):
        mp, _ = CONFIGS[n]
        d = tempfile.mkdtemp(prefix="link-", dir=BUILD)
        try:
            und = set()
            for o, inst in objs[n]:
                if inst:
                    r = subprocess.run(["nm", "-u", "-P", o], stdout=subprocess.PIPE, check=True).stdout.decode()
                    und |= {ln.split()[0] for ln in r.splitlines() if ln.strip()}
            mpn = sorted(s for s in und if _text(s) is not None)
            with open(os.path.join(d, "syms"), "w") as f:
                for s in WRAP:
                    f.write("%s __wrap_%s\n" % (s, s))
                for s in mpn:
                    f.write("%s __sim_%s\n" % (s, s))
            lo = []
            for i, (o, inst) in enumerate(objs[n]):
                if inst:
                    t = os.path.join(d, "%d.o" % i)
                    _run(["objcopy", "--redefine-syms", os.path.join(d, "syms"), o, t])
                    lo.append(t)
                else:
                    lo.append(o)
            _stubs(mpn, os.path.join(d, "stubs"), mp)
            _run(["/usr/bin/gcc", "-m64", "-c", os.path.join(d, "stubs.S"), "-o", os.path.join(d, "stubs.o")])
            _run(["/usr/bin/gcc", "-m64", "-fno-pie", "-c", os.path.join(d, "stubs.c"), "-o", os.path.join(d, "stubsc.o")])
            tmp = os.path.join(d, "exe")
            _run([CXX, "-no-pie"] + lo + [os.path.join(d, "stubs.o"), os.path.join(d, "stubsc.o")] + LIBS[mp] + ["-lpthread", "-o", tmp])
            os.replace(tmp, todo[n])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(jobs) as ex:
        for r in [ex.submit(link, n) for n in todo]:
            r.result()
    _prune(objdir, 1500 << 20)
    _prune(bindir, 1500 << 20)
    if log:
        log("built %s in %.1f s" % (", ".join(sorted(todo)), time.time() - t0))
    return out


def _prune(d, limit):
    fs = []
    for f in os.listdir(d):
        try:
            st = os.stat(os.path.join(d, f))
            fs.append((st.st_mtime, st.st_size, os.path.join(d, f)))
        except OSError:
            pass
    fs.sort(reverse=True)
    tot, now = 0, time.time()
    for m, s, p in fs:
        tot += s
        if tot > limit and now - m > 3600:
            try:
                os.unlink(p)
            except OSError:
                pass


if __name__ == "__main__":
    names = sys.argv[1:] or ["efx", "gmp", "mpfr"]
    t = time.time()
    try:
        for k, v in build(names, log=lambda s: print(s, file=sys.stderr)).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
