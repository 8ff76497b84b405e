// Seams to the GMP/MPFR libraries (real code; only their allocator and environment are driven). Not instrumented.
#include <cstddef>
extern "C"
{
void* sim_gmp_alloc(size_t); void* sim_gmp_realloc(void*, size_t, size_t); void sim_gmp_free(void*, size_t);
#if defined(E_FLOAT_TYPE_GMP) || defined(E_FLOAT_TYPE_MPFR)
void __gmp_set_memory_functions(void* (*)(size_t), void* (*)(void*, size_t, size_t), void (*)(void*, size_t));
void __gmpf_set_default_prec(unsigned long);
void sim_set_gmp_default_prec(unsigned long p) { __gmpf_set_default_prec(p); }
#endif
#if defined(E_FLOAT_TYPE_MPFR)
void mpfr_set_default_prec(long); void mpfr_set_default_rounding_mode(int); void mpfr_free_cache(void); int mpfr_mp_memory_cleanup(void);
void sim_set_mpfr_default_prec(long p) { mpfr_set_default_prec(p); }
void sim_set_mpfr_default_rnd(int r) { mpfr_set_default_rounding_mode(r); }
#endif
void sim_backend_init()
{
#if defined(E_FLOAT_TYPE_GMP) || defined(E_FLOAT_TYPE_MPFR)
  __gmp_set_memory_functions(sim_gmp_alloc, sim_gmp_realloc, sim_gmp_free);
#endif
}
void sim_backend_thread_end()
{
#if defined(E_FLOAT_TYPE_MPFR)
  mpfr_free_cache();
#endif
}
}
