// Simulator runtime: interface used by the workload (ops*.cpp) and the server (server.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt
{
  constexpr int MAXT = 5; // tid 0 = the main program, 1..4 = caller threads

  // One planned allocation failure: operation `op` of thread `tid`, allocations `from`..`to` (1-based).
  struct Fault    { int tid; int op; long from; long to; };
  // Foreign code changes the GMP/MPFR environment just before the `at`-th library call of that operation.
  struct EnvFault { int tid; int op; long at; int what; long val; };
  // A recorded or replayed scheduling decision: thread `tid` at its `step`-th point hands over to `next`.
  struct Switch   { int tid; int forced; long long step; int next; };

  struct Config
  {
    unsigned long long seed     = 1;
    int                fill     = 0xCB;   // pattern for fresh memory and stack
    int                quar     = 64;     // frees that pass before memory is reused
    double             mean     = 0;      // mean points between preemptions (0: never)
    double             psync    = 0;      // preempt at guard/lock/atomic points
    double             pstatic  = 0;      // preempt at writes to static storage
    double             pmp      = 0;      // preempt at GMP/MPFR calls
    long long          budget   = 0;      // step budget of the whole run (0: default)
    bool               replay   = false;  // follow the given switches, never draw
    bool               race     = true;
    bool               leak     = true;
    int                scribble = 1;
    bool               plist    = false;  // print the schedule
    bool               surv     = false;  // list the allocations of every operation that outlive it
  };

  extern Config cfg;

  // ---- program structure
  void begin_run();                                 // after the configuration has been read
  void add_fault(const Fault&);
  void add_env(const EnvFault&);
  void add_switch(const Switch&);
  void run_main(void (*fn)(void*), void* arg);      // run fn on simulated thread 0 (fixed stack)
  int  spawn(void (*fn)(void*), void* arg);         // from thread 0: create a parked caller thread
  void join_all();                                  // from thread 0: run all until they end
  void end_run();                                   // leak check, statistics, flush

  // ---- operations
  void op_begin(int op, int as);
  void op_end();
  long op_stack();    // stack it has used
  long op_allocs();   // allocations attempted by the current/last operation of this thread
  long op_fired();    // failures injected into it
  long op_full();     // requests beyond the simulated memory
  long op_mpcalls();
  long long op_steps();
  long long now_steps();

  // Harness section: no faults, no preemption, no race checks, no accounting.
  struct Quiet { Quiet(); ~Quiet(); };

  void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  void out_raw(const char* p, size_t n);
  void out_hash(const char* p, size_t n);   // contributes to the run's hash, is not printed
  void flush_and_exit(int code) __attribute__((noreturn));

  // preemption offered by harness code (callbacks)
  void point();
  void yield_now();

  // ---- simulated clocks (nanoseconds)
  void adv_cpu(long long ns);
  void adv_wall(long long ns);
  long long cpu_ns();

  int  cur_tid();
  bool is_live_ptr(const void*);
  unsigned long long live_blocks();
  unsigned long long held_bytes(bool mp); // memory the library's own allocations hold, or those GMP made for it
}
