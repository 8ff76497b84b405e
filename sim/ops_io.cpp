// Streams over simulated devices, algorithms calling user code, the stopwatch.
#include <e_float/e_float.h>
#include <charconv>
#include <cstring>
#include <iomanip>
#include <istream>
#include <ostream>
#include <sstream>
#include <typeinfo>
#include <utility/util_trapezoid.h>
#include <utility/util_find_root_newton_raphson.h>
#include <utility/util_timer.h>
#include "ops.h"

extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_realloc(void*, size_t); extern "C" void __libc_free(void*);

namespace
{
  struct DevError { int id; };                       // what a device throws
  struct DevStdError : std::runtime_error { DevStdError() : std::runtime_error("device") { } };

  // ---- output device: accepts `limit` bytes, then behaves as `mode` says; buffered by `bsz` bytes
  class Sink : public std::streambuf
  {
  public:
    Sink(long lim, int m, int bsz, int chunk) : limit(lim), mode(m), chunk_(chunk), buf(nullptr), got(nullptr), n(0), cap(0), fails(0)
    {
      if(bsz > 0) { buf = (char*) __libc_malloc((size_t) bsz); setp(buf, buf + bsz); }
    }
    ~Sink() { __libc_free(buf); __libc_free(got); }
    long limit; int mode; int chunk_; char* buf; char* got; size_t n, cap; int fails;
    void repair() { limit = -1; if(buf) setp(pbase(), epptr()); }
    // device write; returns bytes accepted
    long dev(const char* p, long k)
    {
      rt::point();
      if(chunk_ > 0 && k > chunk_) k = chunk_;
      if(limit >= 0 && (long) n + k > limit)
      {
        long can = limit - (long) n; if(can < 0) can = 0;
        take(p, can); ++fails;
        if(mode == 1) throw DevError{ 7 };
        if(mode == 2) throw DevStdError();
        return can == 0 ? -1 : can;
      }
      take(p, k); return k;
    }
    void take(const char* p, long k)
    {
      if(n + (size_t) k + 1 > cap) { cap = (n + (size_t) k + 1) * 2; got = (char*) __libc_realloc(got, cap); }
      memcpy(got + n, p, (size_t) k); n += (size_t) k;
    }
    bool drain()
    {
      while(pptr() > pbase())
      {
        const long k = pptr() - pbase();
        const long w = dev(pbase(), k);
        if(w <= 0) return false;
        const long left = k - w; memmove(pbase(), pbase() + w, (size_t) left);
        setp(pbase(), epptr()); pbump((int) left);
      }
      return true;
    }
  protected:
    int_type overflow(int_type ch) override
    {
      if(buf) { if(!drain()) return traits_type::eof(); if(ch != traits_type::eof()) { *pptr() = (char) ch; pbump(1); } return traits_type::not_eof(ch); }
      if(ch == traits_type::eof()) return traits_type::not_eof(ch);
      char x = (char) ch; return dev(&x, 1) == 1 ? ch : traits_type::eof();
    }
    std::streamsize xsputn(const char* p, std::streamsize k) override
    {
      if(buf) return std::streambuf::xsputn(p, k);
      std::streamsize done = 0;
      while(done < k) { long w = dev(p + done, (long) (k - done)); if(w <= 0) break; done += w; }
      return done;
    }
    int sync() override { return (!buf || drain()) ? 0 : -1; }
  };

  void print_with(std::ostream& os, long long flags, int prec, int width, int fill)
  {
    os.flags((std::ios::fmtflags) 0);
    if(flags & 1)  os.setf(std::ios::scientific, std::ios::floatfield);
    if(flags & 2)  os.setf(std::ios::fixed, std::ios::floatfield);
    if(flags & 4)  os.setf(std::ios::showpos);
    if(flags & 8)  os.setf(std::ios::showpoint);
    if(flags & 16) os.setf(std::ios::uppercase);
    if(flags & 32) os.setf(std::ios::left, std::ios::adjustfield);
    if(flags & 64) os.setf(std::ios::right, std::ios::adjustfield);
    if(flags & 128) os.setf(std::ios::internal, std::ios::adjustfield);
    os.precision(prec); os.width(width); os.fill((char) fill);
  }

  // args: x, limit, mode, bufsize, chunk, exceptions mask(1 bad,2 fail), flags, prec*1000+width, prestate
  template<typename T> void sink_op(Ctx& c, const T& x)
  {
    Sink* sb; std::ostream* os;
    { rt::Quiet q; sb = new Sink((long) I(1), (int) I(2), (int) I(3), (int) I(4)); os = new std::ostream(sb); }
    struct Del { Sink* s; std::ostream* o; ~Del() { rt::Quiet q; delete o; delete s; } } del = { sb, os };
    const int pre = (int) I(8);
    if(pre & 1) os->setstate(std::ios::badbit);
    if(pre & 2) os->setstate(std::ios::failbit);
    if(pre & 4) os->setstate(std::ios::eofbit);
    if(pre == 0) os->exceptions((std::ios::iostate) (((I(5) & 1) ? std::ios::badbit : std::ios::goodbit) | ((I(5) & 2) ? std::ios::failbit : std::ios::goodbit)));
    const int prec = (int) (I(7) / 1000), width = (int) (I(7) % 1000);
    print_with(*os, I(6), prec, width, '*');
    const std::ios::fmtflags f0 = os->flags();
    const char* ex = "-"; bool oom = false;
    try { *os << x; if(pre == 0) os->flush(); }
    catch(const DevError&) { ex = "DevError"; }
    catch(const DevStdError&) { ex = "DevStdError"; }
    catch(const std::ios_base::failure&) { ex = "failure"; }
    catch(const std::bad_alloc&) { ex = "bad_alloc"; oom = true; }
    const int st1 = (int) os->rdstate();
    const size_t n1 = sb->n;
    const bool same = (os->flags() == f0) && (os->precision() == prec) && (os->fill() == '*');
    const long w1 = (long) os->width();
    { rt::Quiet q; res(c, "ex=%s st=%d same=%d w=%ld fails=%d", ex, st1, same ? 1 : 0, w1, sb->fails); res_bytes(c, sb->got, n1); }
    if(oom || ((st1 & std::ios::badbit) && rt::op_fired())) throw std::bad_alloc(); // the failure was reported
    // the device is repaired and the same number printed again
    { rt::Quiet q; os->exceptions(std::ios::goodbit); os->clear(); sb->repair(); sb->n = 0; }
    print_with(*os, I(6), prec, width, '*');
    *os << x; os->flush();
    if((os->rdstate() & std::ios::badbit) && rt::op_fired()) throw std::bad_alloc();
    { rt::Quiet q; res(c, "st=%d", (int) os->rdstate()); res_bytes(c, sb->got, sb->n); }
  }

  // ---- input device: delivers the text in chunks, ends or fails after `limit` bytes
  class Source : public std::streambuf
  {
  public:
    Source(const char* t, size_t n, long lim, int m, unsigned long long s, int maxc) : text(t), len(n), pos(0), limit(lim), mode(m), seed(s), maxchunk(maxc), fails(0) { setg(b + 8, b + 8, b + 8); }
    const char* text; size_t len, pos; long limit; int mode; unsigned long long seed; int maxchunk; int fails; char b[8 + 256];
    size_t consumed() const { return pos - (size_t) (egptr() - gptr()); }
  protected:
    int_type underflow() override
    {
      rt::point();
      if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
      size_t end = len; bool cut = false;
      if(limit >= 0 && (size_t) limit < end) { end = (size_t) limit; cut = true; }
      if(pos >= end)
      {
        if(cut) { ++fails; if(mode == 1) throw DevError{ 9 }; if(mode == 2) throw DevStdError(); }
        return traits_type::eof();
      }
      seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
      size_t k = 1 + (size_t) ((seed >> 33) % (unsigned long long) (maxchunk > 0 ? maxchunk : 1));
      if(k > 256) k = 256;
      if(k > end - pos) k = end - pos;
      size_t keep = (size_t) (egptr() - eback()); if(keep > 8) keep = 8;
      if(keep) memmove(b + 8 - keep, egptr() - keep, keep);
      memcpy(b + 8, text + pos, k); pos += k;
      setg(b + 8 - keep, b + 8, b + 8 + k);
      return traits_type::to_int_type(*gptr());
    }
  };

  void put(Ctx& c, const e_float& x) { res_real(c, x); }
  void put(Ctx& c, const cplx& x) { res_cplx(c, x); }

  // args: target, text, limit, mode, chunkseed, maxchunk, exceptions mask, reads, prestate
  template<typename T> void source_op(Ctx& c, T& x)
  {
    Source* sb; std::istream* is;
    { rt::Quiet q; sb = new Source(L(1), c.a[1].len, (long) I(2), (int) I(3), U(4), (int) I(5)); is = new std::istream(sb); }
    struct Del { Source* s; std::istream* i; ~Del() { rt::Quiet q; delete i; delete s; } } del = { sb, is };
    const int pre = (int) I(8);
    if(pre & 1) is->setstate(std::ios::badbit);
    if(pre & 2) is->setstate(std::ios::failbit);
    if(pre & 4) is->setstate(std::ios::eofbit);
    if(pre == 0) is->exceptions((std::ios::iostate) (((I(6) & 1) ? std::ios::badbit : std::ios::goodbit) | ((I(6) & 2) ? std::ios::failbit : std::ios::goodbit) | ((I(6) & 4) ? std::ios::eofbit : std::ios::goodbit)));
    for(int k = 0; k < (int) I(7); ++k)
    {
      const char* ex = "-"; bool oom = false; char other[96]; other[0] = 0;
      try { *is >> x; }
      catch(const DevError&) { ex = "DevError"; }
      catch(const DevStdError&) { ex = "DevStdError"; }
      catch(const std::ios_base::failure&) { ex = "failure"; }
      catch(const std::bad_alloc&) { ex = "bad_alloc"; oom = true; }
      catch(const std::exception& e) { snprintf(other, sizeof other, "%s", typeid(e).name()); ex = other; }
      if(oom || ((is->rdstate() & std::ios::badbit) && rt::op_fired())) throw std::bad_alloc(); // the failure was reported
      rt::Quiet q;
      res(c, "ex=%s st=%d n=%zu", ex, (int) is->rdstate(), sb->consumed());
      put(c, x);
    }
    rt::Quiet q;
    res(c, "fails=%d", sb->fails);
  }

  // ---- user functions for the algorithms
  struct Boom { int k; };
  struct Plan
  {
    int fn; long throw_at; int throw_kind; long reenter_at; int yield_every; bool deep; bool self; bool dbl; bool inner;
    long evals; unsigned long long h; Ctx* c; int thrown;
  };
  void note(Plan& p, const e_float& x)
  {
    rt::Quiet q; std::string o; render(o, x);
    for(char ch : o) { p.h ^= (unsigned char) ch; p.h *= 1099511628211ULL; }
  }
  e_float nested(Plan& p);
  void before(Plan& p, const e_float& x)
  {
    ++p.evals; note(p, x);
    if(p.yield_every > 0 && p.evals % p.yield_every == 0) rt::yield_now();
    if(p.evals == p.throw_at && !p.inner)
    {
      if(p.throw_kind == 0) throw Boom{ (int) p.evals };
      if(p.throw_kind == 1) throw std::bad_alloc();
      if(p.throw_kind == 2) throw std::string("user");
    }
    if(p.evals == p.reenter_at && p.deep) { const e_float t = nested(p); note(p, t); }
  }
  e_float value(int fn, const e_float& x)
  {
    switch(fn)
    {
      case 0: return x * x + 1;
      case 1: return ef::cos(x);
      case 2: return ef::exp(-x * x);
      case 3: return 1 / (1 + x * x);
      case 4: return (x * x * x - 2 * x) + 3;
      default: return ef::sqrt(1 + x);
    }
  }
  inline e_float to_ef(const e_float& x) { return x; }
  inline e_float to_ef(double x)         { return e_float(x); }
  template<typename T> T from_lit(const char* t);
  template<> e_float from_lit<e_float>(const char* t) { return e_float(t); }
  template<> double  from_lit<double>(const char* t)  { double d = 0; std::from_chars(t, t + strlen(t), d); return d; }
  template<typename T> T from_ef(const e_float& x);
  template<> e_float from_ef<e_float>(const e_float& x) { return x; }
  template<> double  from_ef<double>(const e_float& x)  { return ef::to_double(x); }
  double dvalue(int fn, double x)
  {
    switch(fn)
    {
      case 0: return x * x + 1;
      case 1: return ::cos(x);
      case 2: return ::exp(-x * x);
      case 3: return 1 / (1 + x * x);
      case 4: return (x * x * x - 2 * x) + 3;
      default: return ::sqrt(1 + x);
    }
  }
  inline e_float fvalue(int fn, const e_float& x) { return value(fn, x); }
  inline double  fvalue(int fn, double x)         { return dvalue(fn, x); }

  template<typename T>
  class Quad : public Util::RecursiveTrapezoidRule<T>
  {
  public:
    Quad(const T& lo, const T& hi, const T& tol, Plan& pl) : Util::RecursiveTrapezoidRule<T>(lo, hi, tol), p(pl) { }
    virtual ~Quad() { }
    static const T& tol0() { return Util::RecursiveTrapezoidRule<T>::my_tol(); }
  private:
    Plan& p;
    virtual T my_function(const T& x) const
    {
      before(p, to_ef(x));
      if(p.evals == p.reenter_at && p.self && !p.inner)
      {
        // the same object, from within itself
        p.inner = true; const long n = p.evals; const unsigned long long h = p.h;
        try { const T v = this->operation(); p.h = h; note(p, to_ef(v)); } catch(...) { p.inner = false; throw; }
        p.inner = false; p.evals = n;
      }
      return fvalue(p.fn, x);
    }
  };
  template<typename T>
  class Newton : public Util::FindRootNewtonRaphson<T>
  {
  public:
    Newton(const T& lo, const T& hi, const T& tol, const T& aa, Plan& pl) : Util::FindRootNewtonRaphson<T>(lo, hi, tol), a(aa), p(pl) { }
    virtual ~Newton() { }
  private:
    const T a; Plan& p;
    virtual void my_function_derivative(const T& x, T& f, T& d) const
    {
      // the outputs are written one after the other, with foreign work in between; x may be anything the algorithm owns
      const bool cube = (p.fn & 1) != 0;
      if(p.reenter_at >= 0 && (p.reenter_at & 1) == 0) { d = (cube ? T(3 * x * x) : T(2 * x)); }
      else                                            { f = (cube ? T(x * x * x - a) : T(x * x - a)); }
      before(p, to_ef(x));
      if(p.evals == p.reenter_at && p.self && !p.inner)
      {
        p.inner = true; const long n = p.evals; const unsigned long long h = p.h;
        try { const T v = this->operation(); p.h = h; note(p, to_ef(v)); } catch(...) { p.inner = false; throw; }
        p.inner = false; p.evals = n;
      }
      if(p.reenter_at >= 0 && (p.reenter_at & 1) == 0) { f = (cube ? T(x * x * x - a) : T(x * x - a)); }
      else                                            { d = (cube ? T(3 * x * x) : T(2 * x)); }
    }
    virtual T my_function(const T& x) const { return x; }
  };
  template<typename T>
  e_float nested_t(Plan& outer)
  {
    // another object of either algorithm (alternately), with element type T
    if(((outer.fn + outer.reenter_at) & 1) != 0)
    {
      Plan p = { (outer.fn + 1) % 2 * 3, -1, 0, -1, outer.yield_every, false, false, false, false, 0, 1469598103934665603ULL, outer.c, 0 };
      const Quad<T> qd(T(0), T(1), from_lit<T>("1e-2"), p);
      const e_float v = to_ef(qd.operation());
      return v + e_float((int) p.evals);
    }
    Plan p = { (outer.fn + 1) % 2, -1, 0, -1, outer.yield_every, false, false, false, false, 0, 1469598103934665603ULL, outer.c, 0 };
    const Newton<T> nr(from_lit<T>("0.125"), T(5), from_lit<T>("1e-4"), T(3), p);
    const e_float v = to_ef(nr.operation());
    return v + e_float((int) p.evals);
  }
  e_float nested(Plan& outer) { return outer.dbl ? nested_t<double>(outer) : nested_t<e_float>(outer); }

  template<typename S> void run_solver(Ctx& c, Plan& p, const S& s)
  {
    // a storm of runs that end in an exception after a few evaluations
    const Plan p0 = p;
    for(int k = 0; k < (int) (I(9) >> 4); ++k)
    {
      p.evals = 0; p.inner = false; p.reenter_at = -1; p.throw_at = 1 + k % 4; p.throw_kind = k / 4 % 3; 
      try { (void) s.operation(); } catch(const Boom&) { } catch(const std::string&) { } catch(const std::bad_alloc&) { if(rt::op_fired() > 0) throw; }
    }
    p.reenter_at = p0.reenter_at; p.throw_at = p0.throw_at; p.throw_kind = p0.throw_kind;

    for(int k = 0; k < (int) (I(9) & 15); ++k)
    {
      p.evals = 0; p.h = 1469598103934665603ULL; p.inner = false;
      const char* ex = "-"; bool oom = false;
      try { const e_float v = to_ef(s.operation()); R(0) = v; }
      catch(const Boom& b) { ex = (b.k == (int) p.throw_at) ? "Boom" : "Boom?"; }
      catch(const std::string& e) { ex = (e == "user") ? "string" : "string?"; }
      catch(const std::bad_alloc&) { ex = "bad_alloc"; oom = (rt::op_fired() > 0); }
      if(oom) throw std::bad_alloc();
      { rt::Quiet q; res(c, "ex=%s n=%ld h=%llx ok=%d", ex, p.evals, p.h, s.success() ? 1 : 0); if(ex[0] == '-') res_real(c, R(0)); }
      p.throw_at = -1; // later runs of the same object are undisturbed
    }
  }
  // args: R result, lo, hi, tolerance literal, fn, throw_at, throw_kind, reenter_at, yield_every, repeat
  // fn: function + 16 * (re-enter the same object) ; yield_every: + 16 * (nested algorithms of the other element type) ; repeat: + 16 * (runs before that end in an exception)
  template<typename T> Plan plan_of(Ctx& c)
  {
    const bool d = (sizeof(T) == sizeof(double));
    const Plan p = { (int) I(4) & 15, (long) I(5), (int) I(6), (long) I(7), (int) I(8) & 15, true, ((int) I(4) & 16) != 0, d != (((int) I(8) & 16) != 0), false, 0, 1469598103934665603ULL, &c, 0 };
    return p;
  }
  template<typename T> void quad_op(Ctx& c)
  {
    Plan p = plan_of<T>(c);
    const T tol = (strcmp(L(3), "default") == 0) ? Quad<T>::tol0() : from_lit<T>(L(3));
    const Quad<T> qd(from_ef<T>(X(1)), from_ef<T>(X(2)), tol, p);
    run_solver(c, p, qd);
  }
  template<typename T> void newton_op(Ctx& c)
  {
    Plan p = plan_of<T>(c);
    const Newton<T> nr(T(1) / 8, from_ef<T>(X(1)), from_lit<T>(L(3)), from_ef<T>(X(2)), p);
    run_solver(c, p, nr);
  }

  const OpDef defs[] __attribute__((init_priority(101))) =
  {
    { "sink", "riiiiiiii", [](Ctx& c) { sink_op(c, X(0)); } },
    { "zsink", "ziiiiiiii", [](Ctx& c) { sink_op(c, ZX(0)); } },
    { "source", "MLiiuiiii", [](Ctx& c) { source_op(c, R(0)); } },
    { "zsource", "NLiiuiiii", [](Ctx& c) { source_op(c, Z(0)); } },
    { "quad", "RrrLiiiiii", quad_op<e_float> },
    { "newton", "RrrLiiiiii", newton_op<e_float> },
    { "dquad", "RrrLiiiiii", quad_op<double> },
    { "dnewton", "RrrLiiiiii", newton_op<double> },
    { "t_new", "wd", [](Ctx& c) { void*& w = c.w[c.a[0].i]; { rt::Quiet q; if(w) timer_del(w); w = nullptr; } const long long a = rt::cpu_ns(); w = new Util::timer(D(1)); res(c, "%lld %lld", a, rt::cpu_ns()); } },
    { "t_read", "w", [](Ctx& c) { if(!c.w[c.a[0].i]) return; const long long a = rt::cpu_ns(); const double e = ((Util::timer*) c.w[c.a[0].i])->elapsed(); res(c, "%a %lld %lld", e, a, rt::cpu_ns()); } },
    { "t_del", "w", [](Ctx& c) { void*& w = c.w[c.a[0].i]; timer_del(w); w = nullptr; } },
    { "adv_cpu", "i", [](Ctx& c) { rt::adv_cpu(I(0)); } },
    { "adv_wall", "i", [](Ctx& c) { rt::adv_wall(I(0)); } }
  };
  OpReg reg __attribute__((init_priority(101)))(defs, (int) (sizeof defs / sizeof defs[0]));
}
void timer_del(void* p) { delete (Util::timer*) p; }
