// Linked into the extension with -Wl,--wrap=...: the FFT library's allocation and
// planning entry points become fault points.  The transforms themselves are real.
#include "simrt.h"
#include <malloc.h>

extern "C" {
static __thread int depth;
#define WRAP_PLAN(name, PARAMS, ARGS)                       \
  void* __real_##name PARAMS;                               \
  void* __wrap_##name PARAMS {                              \
    if (depth == 0 && sim_fail_point(2)) return 0;          \
    ++depth;                                                \
    void* p = __real_##name ARGS;                           \
    --depth;                                                \
    if (depth == 0 && p) { ++sim_ctl.plans; ++sim_ctl.plan_calls; } \
    return p;                                               \
  }
WRAP_PLAN(fftw_plan_dft_r2c_1d, (int n, void* a, void* b, unsigned f), (n, a, b, f))
WRAP_PLAN(fftw_plan_dft_c2r_1d, (int n, void* a, void* b, unsigned f), (n, a, b, f))
WRAP_PLAN(fftw_plan_dft_r2c_2d, (int n, int m, void* a, void* b, unsigned f), (n, m, a, b, f))
WRAP_PLAN(fftw_plan_dft_c2r_2d, (int n, int m, void* a, void* b, unsigned f), (n, m, a, b, f))
WRAP_PLAN(fftw_plan_dft_r2c_3d, (int n, int m, int k, void* a, void* b, unsigned f), (n, m, k, a, b, f))
WRAP_PLAN(fftw_plan_dft_c2r_3d, (int n, int m, int k, void* a, void* b, unsigned f), (n, m, k, a, b, f))
WRAP_PLAN(fftw_plan_dft_r2c, (int r, const int* n, void* a, void* b, unsigned f), (r, n, a, b, f))
WRAP_PLAN(fftw_plan_dft_c2r, (int r, const int* n, void* a, void* b, unsigned f), (r, n, a, b, f))
WRAP_PLAN(fftw_plan_dft_1d, (int n, void* a, void* b, int s, unsigned f), (n, a, b, s, f))
WRAP_PLAN(fftw_plan_dft_2d, (int n, int m, void* a, void* b, int s, unsigned f), (n, m, a, b, s, f))
WRAP_PLAN(fftw_plan_dft_3d, (int n, int m, int k, void* a, void* b, int s, unsigned f), (n, m, k, a, b, s, f))
WRAP_PLAN(fftw_plan_dft, (int r, const int* n, void* a, void* b, int s, unsigned f), (r, n, a, b, s, f))

void __real_fftw_destroy_plan(void*);
void __wrap_fftw_destroy_plan(void* p) {
  if (p) --sim_ctl.plans;
  __real_fftw_destroy_plan(p);
}

void* __real_fftw_malloc(size_t);
void __real_fftw_free(void*);
// a header in front of every block records its size
void* __wrap_fftw_malloc(size_t n) {
  if (sim_fail_point(1)) return 0;
  char* p = static_cast<char*>(__real_fftw_malloc(n + 64));
  if (!p) return 0;
  *reinterpret_cast<size_t*>(p) = n;
  ++sim_ctl.fft_calls; ++sim_ctl.fft_blocks; sim_ctl.fft_bytes += n;
  sim_fill(p + 64, n);
  return p + 64;
}
void __wrap_fftw_free(void* q) {
  if (!q) return;
  char* p = static_cast<char*>(q) - 64;
  size_t n = *reinterpret_cast<size_t*>(p);
  --sim_ctl.fft_blocks; sim_ctl.fft_bytes -= n;
  sim_fill(q, n);
  __real_fftw_free(p);
}
}
