// Scenario reader, operation loop, snapshots and the fork server.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <clocale>
#include <locale>
#include <cmath>
#include <iomanip>
#include <sstream>
#include <new>
#include <typeinfo>
#include <exception>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "ops.h"

extern "C" void sim_backend_init();
extern "C" void sim_backend_thread_end();
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t); extern "C" void __libc_free(void*);

e_float* g_shared[NG];
cplx*    h_shared[NH];

const e_float& Ctx::in(int k) const { return (a[k].k == 'g') ? *g_shared[a[k].i] : *r[a[k].i]; }
const cplx&    Ctx::zin(int k) const { return (a[k].k == 'h') ? *h_shared[a[k].i] : *z[a[k].i]; }

static const OpDef* tabs[32]; static int tabn[32]; static int ntabs;
OpReg::OpReg(const OpDef* d, int n) { tabs[ntabs] = d; tabn[ntabs] = n; ++ntabs; }
const OpDef* find_op(const char* name)
{
  for(int t = 0; t < ntabs; ++t) for(int i = 0; i < tabn[t]; ++i) if(strcmp(tabs[t][i].name, name) == 0) return &tabs[t][i];
  return nullptr;
}

// ---------------------------------------------------------------- the process's locale
// Real locales: the C library's (an LC_NUMERIC made by simlib/build.py) and the C++ library's global one.
namespace
{
  struct Punct : std::numpunct<char>
  {
    char d, t; const char* g;
    Punct(char d_, char t_, const char* g_) : std::numpunct<char>(1), d(d_), t(t_), g(g_) { }
    char do_decimal_point() const override { return d; }
    char do_thousands_sep() const override { return t; }
    std::string do_grouping() const override { return g; }
  };
  const std::locale* cpp_locale[4];
  const char* const  c_locale[4] = { "C", "sim_a", "sim_b", "sim_c" };
  int loc_c, loc_cpp;
  void locale_apply(int c, int cpp)
  {
    if(cpp != loc_cpp) std::locale::global(cpp ? *cpp_locale[cpp] : std::locale::classic());   // the classic one also sets the C locale
    if((c != loc_c || cpp != loc_cpp) && setlocale(LC_NUMERIC, c_locale[c]) == nullptr) { rt::out("BAD locale\n"); rt::flush_and_exit(3); }
    loc_c = c; loc_cpp = cpp;
  }
  void locale_init()
  {
    static const Punct a('.', ',', "\3"), b(',', '.', "\3"), c('.', '\'', "\1\2");
    const Punct* const p[4] = { nullptr, &a, &b, &c };
    for(int i = 0; i < 4; ++i)
    {
      cpp_locale[i] = i ? new std::locale(std::locale::classic(), const_cast<Punct*>(p[i])) : &std::locale::classic();
      // the C++ library keeps what it found out about a locale from its first use
      std::stringstream s; s.imbue(*cpp_locale[i]);
      s << 1234567 << ' ' << 1234567u << ' ' << 1234567ll << ' ' << 1234567ull << ' ' << 1.5 << ' ' << 1.5L;
      int x; unsigned y; long long z; unsigned long long w; double d; long double e;
      s >> x >> y >> z >> w >> d >> e;
    }
  }
  // texts made by the harness itself are in the classic locale
  struct Neutral { int c, p; Neutral() : c(loc_c), p(loc_cpp) { if(c || p) locale_apply(0, 0); } ~Neutral() { if(c || p) locale_apply(c, p); } };
}
extern "C" void sim_set_locale(int what, int val) { locale_apply(what == 3 ? val & 3 : loc_c, what == 4 ? val & 3 : loc_cpp); }

// ---------------------------------------------------------------- text results
static void q_need(Ctx& c, size_t n) { if(c.qn + n + 1 > c.qcap) { c.qcap = (c.qn + n + 1) * 2; c.q = (char*) __libc_realloc(c.q, c.qcap); } }
void res(Ctx& c, const char* fmt, ...)
{
  rt::Quiet quiet; const Neutral neutral;
  va_list ap; va_start(ap, fmt); int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
  q_need(c, (size_t) n + 2);
  if(c.qn) c.q[c.qn++] = ' ';
  va_start(ap, fmt); vsnprintf(c.q + c.qn, (size_t) n + 1, fmt, ap); va_end(ap);
  c.qn += (size_t) n; c.q[c.qn] = 0;
}
void res_bytes(Ctx& c, const char* p, size_t n)
{
  rt::Quiet quiet;
  q_need(c, n * 3 + 2);
  if(c.qn) c.q[c.qn++] = ' ';
  c.q[c.qn++] = '"';
  for(size_t i = 0; i < n; ++i)
  {
    unsigned char ch = (unsigned char) p[i];
    if(ch > 32 && ch < 127 && ch != '%' && ch != '"') c.q[c.qn++] = (char) ch;
    else { static const char hx[] = "0123456789abcdef"; c.q[c.qn++] = '%'; c.q[c.qn++] = hx[ch >> 4]; c.q[c.qn++] = hx[ch & 15]; }
  }
  c.q[c.qn] = 0;
}
void res_real(Ctx& c, const e_float& x) { rt::Quiet quiet; const Neutral neutral; std::string o; render(o, x); res(c, "%s", o.c_str()); }
void res_cplx(Ctx& c, const cplx& x)    { rt::Quiet quiet; const Neutral neutral; std::string o; render(o, x); res(c, "%s", o.c_str()); }

void render(std::string& o, const e_float& x)
{
  if(!x.isfinite()) { o += x.isnan() ? "nan" : (x.isneg() ? "-inf" : "inf"); return; }
  if(x.iszero()) { o += "0"; return; }
  std::ostringstream os; os << std::scientific << std::setprecision(std::numeric_limits<e_float>::max_digits10) << x;
  const std::string t = os.str();
  const e_float y(t.c_str());
  const e_float d(x - y);
  o += t; o += '|';
  if(d.iszero()) { o += '0'; return; }
  std::ostringstream od; od << std::scientific << std::setprecision(24) << d;
  o += od.str();
}
void render(std::string& o, const cplx& x) { o += '('; render(o, x.real()); o += ','; render(o, x.imag()); o += ')'; }

// ---------------------------------------------------------------- scenario
struct Line { const OpDef* op; Arg a[10]; int na; };
struct Snap { char kind; int idx; void* p; char* text; size_t len; Snap* next; };
struct Rec
{
  char status; char what[160]; long allocs, fired, mp, stk; long long steps; bool ran;
  char* q; Snap* snaps; Snap* last;
};
struct Prog { Line* l; int n, cap; Rec* rec; };
static Prog progs[rt::MAXT];     // 0: shared-constant preparation, 1..4: callers
static Ctx  ctxs[rt::MAXT];
static bool opt_observe = true, opt_final = true;
static bool opt_early;   // thread 0's program runs before the library's (and the harness's) static initialisation
static bool opt_exit;    // the process ends with exit(): deferred operations run among the destructors of statics and thread_locals
static int  nthreads;
static struct { int tid, op; } skips[512]; static int nskip;
static bool skipped(int tid, int op) { for(int i = 0; i < nskip; ++i) if(skips[i].tid == tid && skips[i].op == op) return true; return false; }

static void unpct(char* s)
{
  char* d = s;
  for(; *s; ++s) { if(*s == '%' && s[1] && s[2]) { char h[3] = { s[1], s[2], 0 }; *d++ = (char) strtol(h, nullptr, 16); s += 2; } else *d++ = *s; }
  *d = 0;
}

static void parse_arg(Arg& a, char* t)
{
  memset(&a, 0, sizeof a);
  a.k = t[0];
  switch(t[0])
  {
    case 'i': a.n = strtoll(t + 1, nullptr, 10); a.u = (unsigned long long) a.n; break;
    case 'u': a.u = strtoull(t + 1, nullptr, 10); a.n = (long long) a.u; break;
    case 'd': a.d = strtod(t + 1, nullptr); break;
    case 'L': { size_t n = strlen(t + 1); char* s = (char*) __libc_malloc(n + 1); memcpy(s, t + 1, n + 1); unpct(s); a.s = s; a.len = strlen(s); } break;
    default: a.i = atoi(t + 1); break;
  }
}

static Snap* snap_add(Rec& rec, char kind, int idx, void* p)
{
  Snap* s = (Snap*) __libc_malloc(sizeof(Snap)); s->kind = kind; s->idx = idx; s->p = p; s->text = nullptr; s->len = 0; s->next = nullptr;
  if(rec.last) rec.last->next = s; else rec.snaps = s;
  rec.last = s; return s;
}
static void snap_var(Ctx& c, Rec& rec, char kind, int idx)
{
  void* p = nullptr;
  switch(kind)
  {
    case 'r': p = new e_float(*c.r[idx]); break;
    case 'z': p = new cplx(*c.z[idx]); break;
    case 's': p = new std::string(*c.s[idx]); break;
    case 'v': p = new std::vector<e_float>(*c.v[idx]); break;
    case 'b': p = boost_clone(c.b[idx]); break;
    case 'g': p = new e_float(*g_shared[idx]); break;
    case 'h': p = new cplx(*h_shared[idx]); break;
    default: return;
  }
  snap_add(rec, kind, idx, p);
}
static void snap_render(Snap* s)
{
  if(s->text) return;
  std::string o;
  switch(s->kind)
  {
    case 'r': case 'g': render(o, *(const e_float*) s->p); break;
    case 'z': case 'h': render(o, *(const cplx*) s->p); break;
    case 's': { const std::string& t = *(const std::string*) s->p; o = '"'; for(unsigned char ch : t) { if(ch > 32 && ch < 127 && ch != '%') o += (char) ch; else { char b[8]; snprintf(b, sizeof b, "%%%02x", ch); o += b; } } } break;
    case 'v': { o = '['; for(const e_float& x : *(const std::vector<e_float>*) s->p) { render(o, x); o += ' '; } if(o.size() > 1) o.pop_back(); o += ']'; } break;
    case 'b': boost_render(o, s->p); break;
    default: break;
  }
  s->len = o.size(); s->text = (char*) __libc_malloc(o.size() + 1); memcpy(s->text, o.data(), o.size());
  // release the snapshot
  switch(s->kind)
  {
    case 'r': case 'g': delete (e_float*) s->p; break;
    case 'z': case 'h': delete (cplx*) s->p; break;
    case 's': delete (std::string*) s->p; break;
    case 'v': delete (std::vector<e_float>*) s->p; break;
    case 'b': boost_del(s->p); break;
    default: break;
  }
}
static void snap_print(Snap* s) { snap_render(s); rt::out("\t%c%d=", s->kind, s->idx); rt::out_raw(s->text, s->len); rt::out_hash(s->text, s->len); __libc_free(s->text); }

// Give a failed operation's targets a known value again, through the library, without injected failures.
static void reset_targets(Ctx& c, const Line& l)
{
  for(int k = 0; k < l.na; ++k)
  {
    const Arg& a = l.a[k];
    switch(l.op->sig[k])
    {
      case 'R': case 'M': *c.r[a.i] = e_float("0.5"); c.r_moved[a.i] = false; break;
      case 'Z': case 'N': *c.z[a.i] = cplx(e_float("0.5"), e_float("0.25")); c.z_moved[a.i] = false; break;
      case 'S': c.s[a.i]->clear(); break;
      case 'V': c.v[a.i]->clear(); break;
      case 'B': case 'C': boost_reset(c.b[a.i]); c.b_moved[a.i] = false; break;
      default: break;
    }
  }
}

static void run_op(Ctx& c, const Line& l, int idx, Rec& rec)
{
  c.a = const_cast<Arg*>(l.a); c.na = l.na; c.qn = 0; c.q = nullptr; c.qcap = 0;
  rt::op_begin(idx, c.tid);
  rec.ran = true;
  rec.status = '?';
  if(skipped(c.tid, idx)) rec.status = 'A';
  else try { l.op->fn(c); rec.status = 'K'; }
  catch(const std::bad_alloc&)
  {
    if(rt::op_fired() == 0 && rt::op_full() > 0) { rec.status = 'E'; snprintf(rec.what, sizeof rec.what, "simulated memory exhausted"); }
    else rec.status = 'A';
  }
  catch(const std::exception& e) { rec.status = 'E'; int st; char* dm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); snprintf(rec.what, sizeof rec.what, "%s", dm ? dm : typeid(e).name()); if(dm) __libc_free(dm); }
  catch(...) { rec.status = 'E'; snprintf(rec.what, sizeof rec.what, "unknown"); }
  rt::op_end();
  rec.allocs = rt::op_allocs(); rec.fired = rt::op_fired(); rec.mp = rt::op_mpcalls(); rec.steps = rt::op_steps(); rec.stk = rt::op_stack();
  if(rec.status != 'K')
  {
    try { reset_targets(c, l); }
    catch(const std::exception& e) { rt::violation("unusable", "after a failed '%s' its target cannot be assigned: %s", l.op->name, e.what()); }
  }
  rt::Quiet q;
  rec.q = c.q; c.q = nullptr;
  for(int k = 0; k < l.na; ++k)
  {
    const char s = l.op->sig[k]; const Arg& a = l.a[k];
    if(s == 'R' || s == 'M') c.r_moved[a.i] = false;
    if(s == 'Z' || s == 'N') c.z_moved[a.i] = false;
    if(s == 'B' || s == 'C') c.b_moved[a.i] = false;
    if(s == 'Q') { if(a.k == 'r') c.r_moved[a.i] = true; else if(a.k == 'z') c.z_moved[a.i] = true; else if(a.k == 'b') c.b_moved[a.i] = true; } // moved from
  }
  if(opt_observe)
    for(int k = 0; k < l.na; ++k)
    {
      const char s = l.op->sig[k]; const Arg& a = l.a[k];
      if(strchr("RMZNSVBC", s) == nullptr) continue;
      if(a.k == 'r' && c.r_moved[a.i]) continue;
      if(a.k == 'z' && c.z_moved[a.i]) continue;
      if(a.k == 'b' && c.b_moved[a.i]) continue;
      snap_var(c, rec, a.k, a.i);
    }
}

static void make_vars(Ctx& c, int tid)
{
  rt::Quiet q;
  memset(&c, 0, sizeof c); c.tid = tid;
}
static void need_vars(Ctx& c, const Line& l)
{
  // variables come to life (default-constructed) at their first mention
  rt::Quiet q;
  for(int k = 0; k < l.na; ++k)
  {
    const Arg& a = l.a[k];
    if(a.k == 'r' && !c.r[a.i]) c.r[a.i] = new e_float();
    if(a.k == 'z' && !c.z[a.i]) c.z[a.i] = new cplx();
    if(a.k == 's' && !c.s[a.i]) c.s[a.i] = new std::string();
    if(a.k == 'v' && !c.v[a.i]) c.v[a.i] = new std::vector<e_float>();
    if(a.k == 'b' && !c.b[a.i]) c.b[a.i] = boost_new();
  }
}
static void drop_vars(Ctx& c)
{
  rt::Quiet q;
  for(int i = 0; i < NR; ++i) { delete c.r[i]; c.r[i] = nullptr; }
  for(int i = 0; i < NZ; ++i) { delete c.z[i]; c.z[i] = nullptr; }
  for(int i = 0; i < NS; ++i) { delete c.s[i]; c.s[i] = nullptr; }
  for(int i = 0; i < NV; ++i) { delete c.v[i]; c.v[i] = nullptr; }
  for(int i = 0; i < NB; ++i) { if(c.b[i]) boost_del(c.b[i]); c.b[i] = nullptr; }
  for(int i = 0; i < NW; ++i) { if(c.w[i]) timer_del(c.w[i]); c.w[i] = nullptr; }
}

namespace
{
  const OpDef defs[] __attribute__((init_priority(101))) =
  {
    { "at_exit", "i", [](Ctx&) { } },          // the next n operations run in a handler registered here with atexit()
    { "at_thread_exit", "i", [](Ctx&) { } },   // the next n operations run in the destructor of a thread_local made here
    { "held", "", [](Ctx& c) { rt::Quiet q; res(c, "%llu %llu", rt::held_bytes(false), rt::held_bytes(true)); } },                       // memory the library holds
    { "dropall", "", [](Ctx& c) { drop_vars(c); memset(c.r_moved, 0, sizeof c.r_moved); memset(c.z_moved, 0, sizeof c.z_moved); memset(c.b_moved, 0, sizeof c.b_moved); const Prog& p = progs[c.tid]; for(int i = 0; i < p.n; ++i) need_vars(c, p.l[i]); } } // the thread's variables are destroyed and made anew
  };
  OpReg reg __attribute__((init_priority(101)))(defs, (int) (sizeof defs / sizeof defs[0]));
}

// Deferred operations: what the destructor of an object of the user does that was constructed at this point.
struct Deferred { int t, i, n; };
static Deferred defer_exit[64]; static int ndefer_exit;
static Deferred defer_tls[rt::MAXT];
// What was seen is put into words before anything it takes can be destroyed.
static void settle(int t, int from, int to) { rt::Quiet q; const Neutral neutral; for(int i = from; i < to && i < progs[t].n; ++i) for(Snap* s = progs[t].rec[i].snaps; s; s = s->next) snap_render(s); }
static void run_deferred(const Deferred& d)
{
  for(int k = 0; k < d.n && d.i + k < progs[d.t].n; ++k) run_op(ctxs[d.t], progs[d.t].l[d.i + k], d.i + k, progs[d.t].rec[d.i + k]);
  settle(d.t, d.i, d.i + d.n);
}
static void exit_hook() { run_deferred(defer_exit[--ndefer_exit]); }
struct TlsHook { Deferred* d = nullptr; ~TlsHook() { if(d) { run_deferred(*d); rt::Quiet q; sim_backend_thread_end(); } } };
static thread_local TlsHook tls_hook;

static Rec final_rec[rt::MAXT];
static void run_prog(int t)
{
  Prog& p = progs[t]; Ctx& c = ctxs[t];
  make_vars(c, t);
  for(int i = 0; i < p.n; ++i) need_vars(c, p.l[i]);
  for(int i = 0; i < p.n; ++i)
  {
    run_op(c, p.l[i], i, p.rec[i]);
    const bool ex = !strcmp(p.l[i].op->name, "at_exit"), th = !strcmp(p.l[i].op->name, "at_thread_exit");
    if(!opt_exit || !(ex || th)) continue;
    settle(t, 0, i);
    rt::Quiet q;
    const Deferred d = { t, i + 1, (int) p.l[i].a[0].n };
    if(th) { defer_tls[t] = d; tls_hook.d = &defer_tls[t]; }
    else if(ndefer_exit < 64) { defer_exit[ndefer_exit++] = d; atexit(exit_hook); }
    i += d.n;
  }
  if(opt_exit) settle(t, 0, p.n);
  if(t > 0 && !opt_exit)
  {
    rt::Quiet q;
    if(opt_final)
    {
      for(int i = 0; i < NR; ++i) if(c.r[i] && !c.r_moved[i]) snap_var(c, final_rec[t], 'r', i);
      for(int i = 0; i < NZ; ++i) if(c.z[i] && !c.z_moved[i]) snap_var(c, final_rec[t], 'z', i);
      for(int i = 0; i < NS; ++i) if(c.s[i]) snap_var(c, final_rec[t], 's', i);
      for(int i = 0; i < NV; ++i) if(c.v[i]) snap_var(c, final_rec[t], 'v', i);
      for(int i = 0; i < NB; ++i) if(c.b[i] && !c.b_moved[i]) snap_var(c, final_rec[t], 'b', i);
    }
  }
}
static void thread_prog(void* p)
{
  const int t = (int) (intptr_t) p;
  run_prog(t);
  sim_backend_thread_end();
}

static void print_rec(int t, int i, Rec& r)
{
  if(!r.ran) return;
  rt::out("O %d %d %c %ld %ld %lld %ld %ld", t, i, r.status, r.allocs, r.fired, r.steps, r.mp, r.stk);
  if(r.status == 'E') { rt::out("\t!%s", r.what); rt::out_hash(r.what, strlen(r.what)); }
  if(r.q) { rt::out("\tq=%s", r.q); rt::out_hash(r.q, strlen(r.q)); __libc_free(r.q); r.q = nullptr; }
  for(Snap* s = r.snaps; s; s = s->next) snap_print(s);
  rt::out("\n");
  long long h[5] = { t, i, r.status, r.allocs, r.steps }; rt::out_hash((const char*) h, sizeof h);
}

static void finish()
{
  rt::Quiet q;
  locale_apply(0, 0);
  if(opt_final && !opt_exit)
  {
    for(int i = 0; i < NG; ++i) if(g_shared[i]) snap_var(ctxs[0], final_rec[0], 'g', i);
    for(int i = 0; i < NH; ++i) if(h_shared[i]) snap_var(ctxs[0], final_rec[0], 'h', i);
  }
  for(int t = 0; t <= nthreads; ++t)
  {
    for(int i = 0; i < progs[t].n; ++i) print_rec(t, i, progs[t].rec[i]);
    if(final_rec[t].snaps) { rt::out("F %d", t); for(Snap* s = final_rec[t].snaps; s; s = s->next) snap_print(s); rt::out("\n"); }
  }
  for(int t = 0; t <= nthreads; ++t) drop_vars(ctxs[t]);
  for(int i = 0; i < NG; ++i) { delete g_shared[i]; g_shared[i] = nullptr; }
  for(int i = 0; i < NH; ++i) { delete h_shared[i]; h_shared[i] = nullptr; }
  sim_backend_thread_end();
  rt::end_run();
}
static void last_hook() { finish(); rt::flush_and_exit(0); }

static void static_init();
static void main_prog(void*)
{
  if(opt_exit) { rt::Quiet q; atexit(last_hook); }
  if(!opt_early) static_init();
  // phase 0: shared constants, made by the main program
  run_prog(0);
  if(opt_early) static_init();
  {
    rt::Quiet q;
    Ctx& c = ctxs[0];
    for(int i = 0; i < NG; ++i) g_shared[i] = (i < NR && c.r[i] && !c.r_moved[i]) ? new e_float(*c.r[i]) : nullptr;
    for(int i = 0; i < NH; ++i) h_shared[i] = (i < NZ && c.z[i] && !c.z_moved[i]) ? new cplx(*c.z[i]) : nullptr;
  }
  for(int t = 1; t <= nthreads; ++t) rt::spawn(thread_prog, (void*) (intptr_t) t);
  rt::join_all();
  if(opt_exit) exit(0);
  finish();
}

static bool scenario_line(char* s)
{
  // returns false at "go"
  char* save = nullptr; char* t = strtok_r(s, " \n", &save);
  if(!t) return true;
  if(strcmp(t, "go") == 0) return false;
  if(strcmp(t, "opt") == 0)
  {
    while((t = strtok_r(nullptr, " \n", &save)))
    {
      char* e = strchr(t, '='); if(!e) continue; *e = 0; const char* v = e + 1;
      if(!strcmp(t, "seed")) rt::cfg.seed = strtoull(v, nullptr, 10);
      else if(!strcmp(t, "fill")) rt::cfg.fill = atoi(v);
      else if(!strcmp(t, "quar")) rt::cfg.quar = atoi(v);
      else if(!strcmp(t, "mean")) rt::cfg.mean = atof(v);
      else if(!strcmp(t, "psync")) rt::cfg.psync = atof(v);
      else if(!strcmp(t, "pstatic")) rt::cfg.pstatic = atof(v);
      else if(!strcmp(t, "pmp")) rt::cfg.pmp = atof(v);
      else if(!strcmp(t, "budget")) rt::cfg.budget = atoll(v);
      else if(!strcmp(t, "replay")) rt::cfg.replay = atoi(v) != 0;
      else if(!strcmp(t, "race")) rt::cfg.race = atoi(v) != 0;
      else if(!strcmp(t, "leak")) rt::cfg.leak = atoi(v) != 0;
      else if(!strcmp(t, "early")) opt_early = atoi(v) != 0;
      else if(!strcmp(t, "exit")) opt_exit = atoi(v) != 0;
      else if(!strcmp(t, "observe")) opt_observe = atoi(v) != 0;
      else if(!strcmp(t, "final")) opt_final = atoi(v) != 0;
      else if(!strcmp(t, "plist")) rt::cfg.plist = atoi(v) != 0;
      else if(!strcmp(t, "surv")) rt::cfg.surv = atoi(v) != 0;
      else if(!strcmp(t, "scribble")) rt::cfg.scribble = atoi(v);
    }
    return true;
  }
  if(strcmp(t, "F") == 0)
  {
    rt::Fault f; f.tid = atoi(strtok_r(nullptr, " \n", &save)); f.op = atoi(strtok_r(nullptr, " \n", &save));
    f.from = atol(strtok_r(nullptr, " \n", &save)); f.to = atol(strtok_r(nullptr, " \n", &save)); rt::add_fault(f); return true;
  }
  if(strcmp(t, "E") == 0)
  {
    rt::EnvFault f; f.tid = atoi(strtok_r(nullptr, " \n", &save)); f.op = atoi(strtok_r(nullptr, " \n", &save));
    f.at = atol(strtok_r(nullptr, " \n", &save)); f.what = atoi(strtok_r(nullptr, " \n", &save)); f.val = atol(strtok_r(nullptr, " \n", &save)); rt::add_env(f); return true;
  }
  if(strcmp(t, "P") == 0)
  {
    rt::Switch w; w.tid = atoi(strtok_r(nullptr, " \n", &save)); w.forced = atoi(strtok_r(nullptr, " \n", &save));
    w.step = atoll(strtok_r(nullptr, " \n", &save)); w.next = atoi(strtok_r(nullptr, " \n", &save)); rt::add_switch(w); return true;
  }
  if(strcmp(t, "K") == 0) // pretend that this operation failed before doing anything
  {
    if(nskip < 512) { skips[nskip].tid = atoi(strtok_r(nullptr, " \n", &save)); skips[nskip].op = atoi(strtok_r(nullptr, " \n", &save)); ++nskip; }
    return true;
  }
  int tid = atoi(t);
  if(tid < 0 || tid >= rt::MAXT) { rt::out("BAD tid\n"); rt::flush_and_exit(3); }
  if(tid > nthreads) nthreads = tid;
  char* name = strtok_r(nullptr, " \n", &save);
  const OpDef* od = name ? find_op(name) : nullptr;
  if(!od) { rt::out("BAD op %s\n", name ? name : "?"); rt::flush_and_exit(3); }
  Prog& p = progs[tid];
  if(p.n == p.cap) { p.cap = p.cap ? p.cap * 2 : 64; p.l = (Line*) __libc_realloc(p.l, sizeof(Line) * (size_t) p.cap); }
  Line& l = p.l[p.n]; memset((void*) &l, 0, sizeof l); l.op = od;
  while((t = strtok_r(nullptr, " \n", &save)) && l.na < 10) parse_arg(l.a[l.na++], t);
  if((int) strlen(od->sig) != l.na) { rt::out("BAD args %s\n", name); rt::flush_and_exit(3); }
  ++p.n;
  return true;
}

static void run_scenario(char* text)
{
  char* p = text;
  while(*p)
  {
    char* e = strchr(p, '\n'); if(e) *e = 0;
    bool more = scenario_line(p);
    if(!more || !e) break;
    p = e + 1;
  }
  for(int t = 0; t < rt::MAXT; ++t) { progs[t].rec = (Rec*) __libc_calloc((size_t) progs[t].n + 1, sizeof(Rec)); }
  rt::begin_run();
  sim_backend_init();
  rt::run_main(main_prog, nullptr);
  rt::flush_and_exit(0);
}

static ssize_t read_all_line(char** buf, size_t* cap) { return getline(buf, cap, stdin); }

static int serve(int argc, char** argv)
{
  if(argc > 1 && strcmp(argv[1], "--ops") == 0)
  {
    for(int t = 0; t < ntabs; ++t) for(int i = 0; i < tabn[t]; ++i) printf("%s %s\n", tabs[t][i].name, tabs[t][i].sig);
    printf("#digits %d %d\n", (int) std::numeric_limits<e_float>::digits10, (int) std::numeric_limits<e_float>::max_digits10);
    return 0;
  }
  locale_init();
  // Fork server: a scenario per request (lines up to "go"); each runs in a fresh child whose statics are cold.
  char* line = nullptr; size_t cap = 0; char* text = nullptr; size_t tn = 0, tcap = 0;
  for(;;)
  {
    ssize_t n = read_all_line(&line, &cap);
    if(n < 0) break;
    if(tn + (size_t) n + 1 > tcap) { tcap = (tn + (size_t) n + 1) * 2 + 4096; text = (char*) __libc_realloc(text, tcap); }
    memcpy(text + tn, line, (size_t) n + 1); tn += (size_t) n;
    if(strcmp(line, "go\n") == 0 || strcmp(line, "go") == 0)
    {
      fflush(stdout);
      pid_t pid = fork();
      if(pid == 0)
      {
        struct rlimit rl; rl.rlim_cur = 15; rl.rlim_max = 20; setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        alarm(150);
        run_scenario(text);
        _exit(0);
      }
      int st = 0;
      if(pid > 0) { while(waitpid(pid, &st, 0) < 0) { } }
      char b[64]; int m = snprintf(b, sizeof b, "#END %d\n", pid < 0 ? -1 : st);
      size_t o = 0; while(o < (size_t) m) { ssize_t w = write(1, b + o, (size_t) m - o); if(w <= 0) return 1; o += (size_t) w; }
      tn = 0;
    }
  }
  return 0;
}

// The server runs before the static initialisation of everything but the operation tables; a simulated process does that itself, on
// simulated thread 0, and so never returns from here.
typedef void (*InitFn)(int, char**, char**);
extern "C" InitFn __init_array_start[] __attribute__((visibility("hidden")));
extern "C" InitFn __init_array_end[] __attribute__((visibility("hidden")));
static int g_argc; static char** g_argv; static char** g_env;
__attribute__((constructor(102))) static void before_all(int argc, char** argv, char** env)
{
  g_argc = argc; g_argv = argv; g_env = env;
  const int r = serve(argc, argv);
  fflush(stdout); _exit(r);
}
static void static_init()
{
  bool after = false;
  for(InitFn* f = __init_array_start; f != __init_array_end; ++f)
  {
    if(after && *f) (*f)(g_argc, g_argv, g_env);
    if(*f == before_all) after = true;
  }
  if(!after) { rt::out("BAD init\n"); rt::flush_and_exit(3); }
}
int main() { return 98; }
