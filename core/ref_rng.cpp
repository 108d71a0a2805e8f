// Reference model, random stream part.  Independent of /repo: written from the
// published dSFMT-19937 recurrence (Saito & Matsumoto) and the Marsaglia-Bray
// normal generator.  Used only as an oracle.
#include <cstdint>
#include <cmath>
#include <cstring>

namespace {
const int N = 191, POS = 117, SL = 19, SR = 12;
const uint64_t M1 = 0x000ffafffffffb3fULL, M2 = 0x000ffdfffc90fffdULL;

struct Dsfmt {
  uint64_t s[2 * (N + 1)];
  int idx;

  void seed(uint32_t v) {
    uint32_t w[4 * (N + 1)];
    w[0] = v;
    for (int i = 1; i < 4 * (N + 1); ++i)
      w[i] = 1812433253u * (w[i - 1] ^ (w[i - 1] >> 30)) + static_cast<uint32_t>(i);
    for (int i = 0; i < 2 * (N + 1); ++i)
      s[i] = static_cast<uint64_t>(w[2 * i]) | (static_cast<uint64_t>(w[2 * i + 1]) << 32);
    for (int i = 0; i < 2 * N; ++i)
      s[i] = (s[i] & 0x000FFFFFFFFFFFFFULL) | 0x3FF0000000000000ULL;
    uint64_t p = ((s[2 * N] ^ 0x90014964b32f4329ULL) & 0x3d84e1ac0dc82880ULL)
               ^ ((s[2 * N + 1] ^ 0x3b8d12ac548a7c7aULL) & 1ULL);
    if (__builtin_parityll(p) == 0)
      s[2 * N + 1] ^= 1;
    idx = 2 * N;
  }

  void refill() {
    uint64_t l0 = s[2 * N], l1 = s[2 * N + 1];
    for (int i = 0; i < N; ++i) {
      uint64_t t0 = s[2 * i], t1 = s[2 * i + 1];
      int j = (i + POS) % N;
      uint64_t a0 = l0, a1 = l1;
      l0 = (t0 << SL) ^ (a1 >> 32) ^ (a1 << 32) ^ s[2 * j];
      l1 = (t1 << SL) ^ (a0 >> 32) ^ (a0 << 32) ^ s[2 * j + 1];
      s[2 * i]     = (l0 >> SR) ^ (l0 & M1) ^ t0;
      s[2 * i + 1] = (l1 >> SR) ^ (l1 & M2) ^ t1;
    }
    s[2 * N] = l0; s[2 * N + 1] = l1;
    idx = 0;
  }
  uint64_t next() { if (idx >= 2 * N) refill(); return s[idx++]; }
  uint32_t u32() { return static_cast<uint32_t>(next()); }
  double open() { uint64_t u = next() | 1; double d; std::memcpy(&d, &u, 8); return d - 1.0; }
  double unif() { uint64_t u = next(); double d; std::memcpy(&d, &u, 8); return d - 1.0; }

  static double g(double x) {
    const double a = 17.49731196, b = 2.36785163, c = 2.15787544;
    double ax = std::fabs(x), r = a * std::exp(-x * x / 2.0);
    if (ax < 1.0)      r -= 2.0 * b * (3.0 - x * x) + c * (1.5 - ax);
    else if (ax < 1.5) r -= b * (3.0 - ax) * (3.0 - ax) + c * (1.5 - ax);
    else               r -= b * (3.0 - ax) * (3.0 - ax);
    return r;
  }

  double norm() {
    double u = unif();
    if (u < 0.8638) { double a = unif(), b = unif(), c = unif(); return 2.0 * (a + b + c) - 3.0; }
    if (u < 0.9745) { double a = unif(), b = unif(); return 1.5 * (a + b - 1.0); }
    if (u < 0.9973002039) {
      for (;;) { double a = unif(), b = unif(), x = 6.0 * a - 3.0; if (!(0.358 * b > g(x))) return x; }
    }
    for (;;) {
      double v1, v2, w;
      do { v1 = 2.0 * unif() - 1.0; v2 = 2.0 * unif() - 1.0; w = v1 * v1 + v2 * v2; } while (w >= 1.0);
      double c = std::sqrt((9.0 - 2.0 * std::log(w)) / w), s = c * v1, t = c * v2;
      if (std::fabs(s) <= 3.0 && std::fabs(t) <= 3.0) continue;
      return std::fabs(s) > 3.0 ? s : t;
    }
  }
};
}

extern "C" {
int      ref_size()                       { return sizeof(Dsfmt); }
void     ref_seed(Dsfmt* d, uint32_t v)   { d->seed(v); }
uint32_t ref_u32(Dsfmt* d)                { return d->u32(); }
double   ref_unif(Dsfmt* d)               { return d->unif(); }
void     ref_norm(Dsfmt* d, double* out, long n) { for (long i = 0; i < n; ++i) out[i] = d->norm(); }
}
