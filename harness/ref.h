// Independent reference arithmetic used by the harnesses (nothing here comes from the library).
#pragma once
#include "sa.h"
template <int M, uint64_t POLY> struct RF {
  static constexpr uint32_t Q = 1u << M, N = Q - 1;
  static uint32_t xt(uint32_t a) { a <<= 1; return (a ^ ((0 - (a >> M & 1)) & (uint32_t)POLY)); }
  static uint32_t mul(uint32_t a, uint32_t b) { uint32_t p = 0; for (int i = M - 1; i >= 0; --i) p = xt(p) ^ ((0 - (b >> i & 1)) & a); return p; }
  static uint32_t pow(uint32_t e) { uint32_t r = 1, x = 2; e %= N; for (; e; e >>= 1) { if (e & 1) r = mul(r, x); x = mul(x, x); } return r; }
  // value at the root of the polynomial whose leading coefficient comes first
  template <class T> static uint32_t at(const T *c, int n, uint32_t root) { uint32_t s = 0; for (int i = 0; i < n; ++i) s = mul(s, root) ^ (uint32_t)c[i]; return s; }
  // minimal polynomial of alpha^e over GF(2), bit i = coefficient of x^i
  static uint64_t minpoly(uint32_t e) {
    uint32_t c[M + 1] = {1}; int d = 0; uint32_t f = e % N;
    do { uint32_t r = pow(f); for (int i = d + 1; i > 0; --i) c[i] = c[i - 1] ^ mul(c[i], r); c[0] = mul(c[0], r); ++d; f = f * 2 % N; } while (f != e % N);
    uint64_t p = 0; for (int i = 0; i <= d; ++i) p |= (uint64_t)(c[i] & 1) << i; return p;
  }
};
static inline bool getbe(const uint8_t *p, int i) { return p[i >> 3] >> (7 - (i & 7)) & 1; }
