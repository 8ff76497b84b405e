// Workload side: variables, operations and their registration.
#pragma once
#include "rt.h"
#include <cstdint>
#include <string>
#include <vector>
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>

typedef ef::complex<e_float> cplx;

enum { NR = 16, NZ = 8, NS = 8, NV = 4, NB = 8, NW = 4, NG = 8, NH = 4 };

struct Arg { char k; int i; long long n; unsigned long long u; double d; const char* s; size_t len; };

struct Ctx
{
  int tid;
  e_float* r[NR]; bool r_moved[NR];
  cplx*    z[NZ]; bool z_moved[NZ];
  std::string* s[NS];
  std::vector<e_float>* v[NV];
  void*    b[NB]; bool b_moved[NB];
  void*    w[NW];                       // timers
  Arg*     a; int na;                   // arguments of the current operation
  // text result of the current operation
  char*    q; size_t qn, qcap;
  const e_float& in(int k) const;       // argument k as a real input (own variable or shared constant)
  const cplx&    zin(int k) const;
};

extern e_float* g_shared[NG];
extern cplx*    h_shared[NH];

struct OpDef { const char* name; const char* sig; void (*fn)(Ctx&); };
struct OpReg { OpReg(const OpDef* d, int n); };
const OpDef* find_op(const char* name);

// text results (formatted in a harness section)
void res(Ctx& c, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void res_bytes(Ctx& c, const char* p, size_t n); // percent-encoded
void res_real(Ctx& c, const e_float& x);
void res_cplx(Ctx& c, const cplx& x);

// rendering of snapshots; caller is in a harness section
void render(std::string& o, const e_float& x);
void render(std::string& o, const cplx& x);

// Boost-wrapped numbers (ops_boost.cpp)
void* boost_new(); void boost_del(void*); void* boost_clone(const void*); void boost_render(std::string&, const void*); void boost_reset(void*);
// timers
void timer_del(void*);

#define R(k)  (*c.r[c.a[k].i])
#define X(k)  (c.in(k))
#define Z(k)  (*c.z[c.a[k].i])
#define ZX(k) (c.zin(k))
#define S(k)  (*c.s[c.a[k].i])
#define V(k)  (*c.v[c.a[k].i])
#define I(k)  (c.a[k].n)
#define U(k)  (c.a[k].u)
#define D(k)  (c.a[k].d)
#define L(k)  (c.a[k].s)
