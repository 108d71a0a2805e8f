// Control block of the simulator runtime (see simrt.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
struct SimCtl {
  int64_t  in_op;          // 1 while a call into the extension is being simulated
  // faults
  int64_t  fail_at;        // fail allocation number fail_at of this op (1-based), 0 = never
  int64_t  fail_len;       // ... and the fail_len-1 following ones
  int64_t  kinds;          // bit0 operator new, bit1 fftw_malloc, bit2 FFT plan
  int64_t  fired;          // failures actually injected in this op
  int64_t  points;         // failure points passed in this op (of the enabled kinds)
  // heap contents
  int64_t  fill_mode;      // 0 none, 1 zeros, 2 0xff (NaN), 3 pseudo-random, 4 huge doubles
  uint64_t fill_state;
  // clock
  int64_t  clock_on;
  int64_t  clock_sec;
  int64_t  clock_nsec;
  int64_t  clock_reads;    // reads while in_op
  int64_t  clock_step_ns;  // advance per read
  // entropy
  uint64_t entropy_state;
  int64_t  entropy_reads;
  // accounting (always on)
  int64_t  new_blocks, new_bytes, fft_blocks, fft_bytes, plans;
  int64_t  new_calls, fft_calls, plan_calls;
  int64_t  kind_fired[3];
  int64_t  pid;            // what getpid() says inside a simulated call
};
extern struct SimCtl sim_ctl;
int  sim_fail_point(int kind);
void sim_fill(void* p, size_t n);
}
