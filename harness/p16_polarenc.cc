#include "sa.h"
#include "simd.hh"
#include "polar_encoder.hh"
#include "sort.hh"
#include "polar_parity_aided.hh"
// information sets that are closed upwards (as the constructions of the library produce them) and arbitrary ones
enum { CLOSED, ARBITRARY, NONE, ALL };
static int popc(unsigned x) { int c = 0; for (; x; x &= x - 1) ++c; return c; }
static int make(uint32_t *frozen, int level, int kind, int t) {
  int n = 1 << level, K = 0; uint32_t s = 99 + t;
  for (int i = 0; i < (n + 31) / 32; ++i) frozen[i] = level < 5 ? 0xffffffffu << n : 0;
  for (int i = 0; i < n; ++i) { s = s * 1664525u + 1013904223u; bool info = kind == CLOSED ? 3 * popc(i) + (i * 4 >> level) >= t : kind == ARBITRARY ? (s >> 24) % 3 != 0 : kind == ALL; if (info) ++K; else frozen[i / 32] |= 1u << (i % 32); }
  return K;
}
static bool fz(const uint32_t *f, int i) { return f[i / 32] >> (i % 32) & 1; }
template <class T> static T pm(bool b) { return (T)(1 - 2 * (int)b); }
// codeword bit i is the product of the message bits at the positions containing i
static void transform(bool *x, int n) { for (int h = 1; h < n; h *= 2) for (int i = 0; i < n; i += 2 * h) for (int j = i; j < i + h; ++j) x[j] ^= x[j + h]; }
template <class T, int LEVEL> static void plain(int kind, int t) {
  const int N = 1 << LEVEL; uint32_t f[(N + 31) / 32]; int K = make(f, LEVEL, kind, t); bool u[N], m[N]; T msg[N], cw[N + 2];
  int c = 0; for (int i = 0; i < N; ++i) { u[i] = false; if (!fz(f, i)) { u[i] = m[c] = sa_bit("msg"); msg[c++] = pm<T>(u[i]); } }
  for (int i = c; i < N; ++i) msg[i] = 77;
  cw[0] = 55; cw[N + 1] = 66; sa_readonly(msg, sizeof msg); sa_readonly(f, sizeof f);
  CODE::PolarEncoder<T> e; e(cw + 1, msg, f, LEVEL);
  bool x[N]; for (int i = 0; i < N; ++i) x[i] = u[i]; transform(x, N);
  for (int i = 0; i < N; ++i) { T w = pm<T>(x[i]); sa_eq(&cw[1 + i], &w, sizeof w, "polar transform of message and frozen bits"); }
  CODE::PolarSysEnc<T> s; for (int i = 0; i < N; ++i) cw[1 + i] = 33; s(cw + 1, msg, f, LEVEL);
  sa_true(cw[0] == 55 && cw[N + 1] == 66, "nothing beside the codeword is written");
  if (kind != ARBITRARY) { c = 0; for (int i = 0; i < N; ++i) if (!fz(f, i)) { T w = pm<T>(m[c++]); sa_eq(&cw[1 + i], &w, sizeof w, "systematic: the message appears at the information positions"); } }
  for (int i = 0; i < N; ++i) { sa_true(cw[1 + i] == 1 || cw[1 + i] == (T)-1, "codeword values are plus or minus one"); x[i] = cw[1 + i] < 0; }
  transform(x, N); for (int i = 0; i < N; ++i) if (fz(f, i)) sa_true(!x[i], "systematic: frozen positions are zero");
}
// parity bits at every stride+1-th information position are the product of the message bits since the last one
template <class T, int LEVEL> static void parity(int kind, int t, int stride, int first) {
  const int N = 1 << LEVEL; uint32_t f[(N + 31) / 32]; make(f, LEVEL, kind, t); bool u[N]; T msg[N], cw[N + 2];
  int c = 0, left = first; bool acc = false; for (int i = 0; i < N; ++i) { u[i] = false; if (!fz(f, i)) { if (left) { u[i] = sa_bit("msg"); acc ^= u[i]; msg[c++] = pm<T>(u[i]); --left; } else { u[i] = acc; acc = false; left = stride; } } }
  for (int i = c; i < N; ++i) msg[i] = 77;
  cw[0] = 55; cw[N + 1] = 66; sa_readonly(msg, sizeof msg);
  CODE::PolarParityEncoder<T> e; e(cw + 1, msg, f, LEVEL, stride, first);
  transform(u, N); for (int i = 0; i < N; ++i) { T w = pm<T>(u[i]); sa_eq(&cw[1 + i], &w, sizeof w, "polar transform of message, parity and frozen bits"); }
  sa_true(cw[0] == 55 && cw[N + 1] == 66, "nothing beside the codeword is written");
}
ENTRY(p1) { plain<int8_t, 1>(ALL, 0); plain<int8_t, 1>(NONE, 0); plain<int8_t, 1>(CLOSED, 2); plain<int8_t, 2>(CLOSED, 4); plain<int8_t, 3>(CLOSED, 6); plain<int8_t, 3>(ARBITRARY, 1); plain<int8_t, 4>(CLOSED, 8); }
ENTRY(p5) { plain<int8_t, 5>(CLOSED, 9); plain<int8_t, 5>(ARBITRARY, 2); plain<int8_t, 5>(ALL, 0); plain<int8_t, 5>(NONE, 0); }
ENTRY(p6) { plain<int8_t, 6>(CLOSED, 11); plain<int8_t, 6>(ARBITRARY, 3); }
ENTRY(p8) { plain<int8_t, 8>(CLOSED, 14); plain<int8_t, 8>(ARBITRARY, 4); }
ENTRY(p10) { plain<int8_t, 10>(CLOSED, 16); }
ENTRY(p5i) { plain<int, 5>(CLOSED, 9); plain<int16_t, 6>(ARBITRARY, 8); }
ENTRY(q5) { parity<int8_t, 5>(CLOSED, 9, 3, 2); parity<int8_t, 5>(ARBITRARY, 2, 1, 1); parity<int8_t, 5>(ALL, 0, 7, 3); parity<int8_t, 5>(ARBITRARY, 3, 2, 0); parity<int8_t, 5>(CLOSED, 8, 40, 50); parity<int8_t, 5>(ALL, 0, 0, 4); parity<int8_t, 5>(ALL, 0, 0, 3); parity<int8_t, 5>(ARBITRARY, 6, 0, 1); parity<int8_t, 5>(ALL, 0, 2, 0); parity<int8_t, 5>(ALL, 0, 1, 1); }
ENTRY(q8) { parity<int8_t, 8>(CLOSED, 14, 31, 9); parity<int8_t, 8>(ARBITRARY, 5, 5, 5); }
ENTRY(q2) { parity<int8_t, 1>(ALL, 0, 1, 1); parity<int8_t, 2>(ALL, 0, 2, 1); parity<int8_t, 4>(ARBITRARY, 9, 1, 2); }
// several codewords side by side in the lanes of a vector
template <class T, int LEVEL> static void lanes(int kind, int t) {
  const int N = 1 << LEVEL, W = T::SIZE; typedef typename T::value_type V; uint32_t f[(N + 31) / 32]; make(f, LEVEL, kind, t); T msg[N], cw[N]; V m1[N], c1[N];
  int K = 0; for (int i = 0; i < N; ++i) if (!fz(f, i)) { for (int k = 0; k < W; ++k) msg[K].v[k] = k % 3 == 2 ? pm<V>(false) : pm<V>(sa_bit("msg")); ++K; }
  CODE::PolarEncoder<T> e; e(cw, msg, f, LEVEL); CODE::PolarEncoder<V> e1;
  for (int k = 0; k < W; ++k) { for (int i = 0; i < K; ++i) m1[i] = msg[i].v[k]; e1(c1, m1, f, LEVEL); for (int i = 0; i < N; ++i) sa_eq(&c1[i], &cw[i].v[k], sizeof(V), "every lane is encoded like a scalar"); }
  CODE::PolarSysEnc<T> s; s(cw, msg, f, LEVEL); CODE::PolarSysEnc<V> s1;
  for (int k = 0; k < W; ++k) { for (int i = 0; i < K; ++i) m1[i] = msg[i].v[k]; s1(c1, m1, f, LEVEL); for (int i = 0; i < N; ++i) sa_eq(&c1[i], &cw[i].v[k], sizeof(V), "every lane is encoded systematically like a scalar"); }
}
ENTRY(v32) { lanes<SIMD<int8_t, 32>, 5>(CLOSED, 9); }
ENTRY(v16) { lanes<SIMD<int8_t, 16>, 6>(CLOSED, 11); }
ENTRY(v4) { lanes<SIMD<int8_t, 4>, 5>(ARBITRARY, 4); }
ENTRY(v16w) { lanes<SIMD<int16_t, 16>, 5>(CLOSED, 9); lanes<SIMD<int32_t, 8>, 5>(CLOSED, 9); }
// long codes, most of the message fixed
template <int LEVEL> static void longcode(int kind, int t, int stride, int first) {
  const int N = 1 << LEVEL; static uint32_t f[N / 32]; static bool m[N], u[N]; static int8_t msg[N], cw[N]; int K = make(f, LEVEL, kind, t);
  for (int i = 0; i < K; ++i) { m[i] = (i * 2654435761u) >> 17 & 1; if (i == 0 || i == K / 3 || i == K - 1) m[i] = sa_bit("msg"); msg[i] = pm<int8_t>(m[i]); }
  CODE::PolarEncoder<int8_t> e; e(cw, msg, f, LEVEL); for (int i = 0, c = 0; i < N; ++i) u[i] = fz(f, i) ? false : m[c++]; transform(u, N); for (int i = 0; i < N; ++i) { int8_t w = pm<int8_t>(u[i]); sa_eq(&cw[i], &w, 1, "polar transform of a long message"); }
  CODE::PolarParityEncoder<int8_t> p; p(cw, msg, f, LEVEL, stride, first); bool acc = false; for (int i = 0, c = 0, left = first; i < N; ++i) { u[i] = false; if (!fz(f, i)) { if (left) { u[i] = m[c++]; acc ^= u[i]; --left; } else { u[i] = acc; acc = false; left = stride; } } } transform(u, N); for (int i = 0; i < N; ++i) { int8_t w = pm<int8_t>(u[i]); sa_eq(&cw[i], &w, 1, "polar transform of a long message with parity bits"); }
  CODE::PolarSysEnc<int8_t> s; s(cw, msg, f, LEVEL); for (int i = 0, c = 0; i < N; ++i) { u[i] = cw[i] < 0; if (!fz(f, i)) sa_eq(&cw[i], &msg[c++], 1, "systematic: a long message appears at the information positions"); } transform(u, N); for (int i = 0; i < N; ++i) if (fz(f, i)) sa_true(!u[i], "systematic: frozen positions are zero");
}
ENTRY(long12) { longcode<12>(CLOSED, 20, 300, 500); }
ENTRY(long16) { longcode<16>(CLOSED, 26, 40000, 33); longcode<16>(ALL, 0, 700, 66000); }
ENTRY(long17) { longcode<17>(CLOSED, 27, 31, 9); longcode<17>(ALL, 0, 66000, 33000); }
