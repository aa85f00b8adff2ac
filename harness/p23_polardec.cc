#include "sa.h"
#include "simd.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
enum { CLOSED, ARBITRARY, NONE, ALL, SPARSE }; // SPARSE: one bit of every (t & 255) differs from the others
static int popc(unsigned x) { int c = 0; for (; x; x &= x - 1) ++c; return c; }
static bool fz(const uint32_t *f, int i) { return f[i / 32] >> (i % 32) & 1; }
// ARBITRARY: every kind of aligned block occurs (all frozen, all free, mixed), of every size
static int make(uint32_t *frozen, int level, int kind, int t) {
  int n = 1 << level, K = 0; uint32_t s = 99 + t;
  for (int i = 0; i < (n + 31) / 32; ++i) frozen[i] = 0;
  for (int i = 0; i < n;) { s = s * 1664525u + 1013904223u; int len = 1 << ((s >> 20) % 6); if (i & (len - 1) || i + len > n) len = 1; bool b = s >> 28 & 1; for (int e = i + len; i < e; ++i) { bool info = kind == CLOSED ? 3 * popc(i) + (i * 4 >> level) >= t : kind == ARBITRARY ? b : kind == SPARSE ? (i % (t & 255) == (t >> 8 & 255)) != (t >> 16) : kind == ALL; if (info) ++K; else frozen[i / 32] |= 1u << (i % 32); } }
  return K;
}
struct Rng { uint32_t s; uint32_t operator()(uint32_t m) { s = s * 1664525u + 1013904223u; return (s >> 8) % m; } };
// plain successive cancellation with the library's number format: one decision after the other, no shortcuts
template <class T> struct Sat { static T add(T a, T b) { return a + b; } };
template <> struct Sat<int8_t> { static int8_t add(int8_t a, int8_t b) { int x = a + b; return (int8_t)(x > 127 ? 127 : x < -127 ? -127 : x); } };
template <class T> static T minsum(T a, T b) { T x = a < 0 ? (T)-a : a, y = b < 0 ? (T)-b : b, m = x < y ? x : y; return (a < 0) != (b < 0) ? (T)-m : m; }
static bool tie; // a likelihood of exactly zero says nothing about its bit: either decision is right
template <class T> static void sc(const T *y, int n, const uint32_t *f, int base, bool *u, bool *x) {
  bool any = false; for (int i = 0; i < n; ++i) any |= !fz(f, base + i);
  for (int i = 0; i < n; ++i) tie |= any && y[i] == 0;
  if (n == 1) { u[0] = fz(f, base) ? false : y[0] < 0; x[0] = u[0]; return; }
  T *z = (T *)__builtin_alloca(sizeof(T) * n / 2); int h = n / 2;
  for (int i = 0; i < h; ++i) z[i] = minsum(y[i], y[i + h]);
  sc(z, h, f, base, u, x);
  for (int i = 0; i < h; ++i) z[i] = Sat<T>::add(x[i] ? (T)-y[i] : y[i], y[i + h]);
  sc(z, h, f, base + h, u + h, x + h);
  for (int i = 0; i < h; ++i) x[i] ^= x[i + h];
}
// amplitudes fixed; errs of them inverted for certain, free more at spread positions inverted or not
// either the message or the error positions are unknown; the code is linear and the noise symmetric
template <class T, int LEVEL, int MAXM> static void cancel(int kind, int t, uint32_t seed, int lo, int span, int errs, int free, bool expect) {
  const int N = 1 << LEVEL; uint32_t f[(N + 31) / 32]; int K = make(f, LEVEL, kind, t); T msg[N], cw[N], y[N], out[N + 2]; bool u[N], x[N];
  for (int i = 0; i < K; ++i) msg[i] = (T)(1 - 2 * (int)(free ? i * i / 3 & 1 : sa_bit("msg")));
  CODE::PolarEncoder<T> e; e(cw, msg, f, LEVEL); Rng r{seed};
  bool flip[N]; for (int i = 0; i < N; ++i) flip[i] = false;
  for (int i = 0; i < errs; ++i) flip[r(N)] ^= true;
  for (int i = 0; i < free; ++i) flip[r(N)] ^= sa_bit("err");
  for (int i = 0; i < N; ++i) { T a = (T)(lo + (int)r(span)); a = flip[i] ? (T)-a : a; y[i] = cw[i] < 0 ? (T)-a : a; }
  static CODE::PolarDecoder<T, MAXM> d; for (int i = 0; i < N + 2; ++i) out[i] = 7; sa_readonly(y, sizeof y); sa_readonly(f, sizeof f);
  d(out + 1, y, f, LEVEL);
  tie = false; sc(y, N, f, 0, u, x); int c = 0;
  for (int i = 0; i < N; ++i) if (!fz(f, i)) { T w = tie ? out[1 + c] : (T)(1 - 2 * (int)u[i]); sa_eq(&out[1 + c], &w, sizeof w, "decisions of successive cancellation"); if (expect) sa_eq(&out[1 + c], &msg[c], sizeof w, "the sent message is recovered"); ++c; }
  sa_true(out[0] == 7 && out[1 + K] == 7, "only the message is written");
}
#define CAN(n, ...) ENTRY(n) { cancel<__VA_ARGS__>
CAN(clean5, int8_t, 5, 5)(CLOSED, 9, 1, 1, 127, 0, 0, true); }
CAN(clean5a, int8_t, 5, 6)(ARBITRARY, 1, 2, 1, 127, 0, 0, true); }
CAN(clean5b, int8_t, 5, 5)(ALL, 1, 2, 1, 127, 0, 0, true); }
CAN(clean5c, int8_t, 5, 8)(NONE, 1, 2, 1, 127, 0, 0, true); }
CAN(clean6, int8_t, 6, 6)(CLOSED, 11, 3, 1, 127, 0, 0, true); }
CAN(clean6a, int8_t, 6, 6)(ARBITRARY, 2, 3, 1, 127, 0, 0, true); }
CAN(clean6b, int8_t, 6, 6)(ALL, 2, 3, 1, 127, 0, 0, true); }
CAN(clean7, int8_t, 7, 7)(ARBITRARY, 3, 4, 1, 127, 0, 0, true); }
CAN(clean8, int8_t, 8, 8)(CLOSED, 14, 5, 1, 1, 0, 0, true); }
CAN(clean9, int8_t, 9, 9)(ARBITRARY, 4, 6, 127, 1, 0, 0, true); }
CAN(clean10, int8_t, 10, 11)(CLOSED, 16, 7, 1, 127, 0, 0, true); }
CAN(clean11, int8_t, 11, 11)(ARBITRARY, 5, 8, 1, 127, 0, 0, true); }
CAN(clean12, int8_t, 12, 12)(CLOSED, 18, 9, 100, 20, 0, 0, true); }
// message unknown, heavy fixed noise
CAN(heavy5, int8_t, 5, 5)(CLOSED, 9, 2110, 1, 127, 8, 0, false); }
CAN(heavy5a, int8_t, 5, 5)(ARBITRARY, 16, 2211, 1, 127, 8, 0, false); }
CAN(heavy6, int8_t, 6, 6)(CLOSED, 11, 2310, 1, 127, 15, 0, false); }
CAN(heavy7, int8_t, 7, 7)(CLOSED, 13, 2511, 1, 127, 30, 0, false); }
CAN(heavy5i, int, 5, 5)(CLOSED, 9, 31, 1, 100000, 8, 0, false); }
CAN(heavy5j, int, 5, 5)(ARBITRARY, 16, 32, 1, 100000, 8, 0, false); }
CAN(heavy6i, int, 6, 6)(CLOSED, 11, 33, 1, 100000, 16, 0, false); }
CAN(heavy6j, int, 6, 7)(ARBITRARY, 12, 34, 1, 100000, 20, 0, false); }
CAN(heavy7i, int, 7, 7)(CLOSED, 13, 35, 1, 100000, 30, 0, false); }
CAN(heavy7j, int, 7, 7)(ARBITRARY, 18, 36, 1, 100000, 30, 0, false); }
CAN(heavy8i, int, 8, 9)(CLOSED, 14, 37, 1, 100000, 60, 0, false); }
CAN(heavy8j, int, 8, 8)(ARBITRARY, 19, 38, 1, 100000, 60, 0, false); }
CAN(heavy9i, int, 9, 9)(CLOSED, 15, 39, 1, 100000, 100, 0, false); }
CAN(heavy9j, int, 9, 9)(ARBITRARY, 20, 40, 1, 100000, 100, 0, false); }
CAN(heavy10j, int, 10, 10)(ARBITRARY, 21, 41, 1, 100000, 200, 0, false); }
// message fixed, some signs unknown on top of fixed noise
CAN(noisy5, int8_t, 5, 5)(CLOSED, 9, 15, 1, 127, 3, 6, false); }
CAN(noisy5b, int8_t, 5, 5)(ARBITRARY, 16, 212, 1, 127, 5, 6, false); }
CAN(noisy5i, int, 5, 5)(CLOSED, 9, 1, 1, 100000, 3, 8, false); }
CAN(noisy5j, int, 5, 5)(ARBITRARY, 16, 2, 1, 100000, 5, 8, false); }
CAN(noisy6i, int, 6, 6)(CLOSED, 11, 4, 1, 100000, 6, 8, false); }
CAN(noisy6j, int, 6, 6)(ARBITRARY, 12, 5, 1, 100000, 12, 8, false); }
CAN(noisy7i, int, 7, 7)(CLOSED, 13, 6, 1, 100000, 20, 8, false); }
CAN(noisy7j, int, 7, 7)(ARBITRARY, 18, 7, 1, 100000, 30, 8, false); }
CAN(noisy8i, int, 8, 9)(CLOSED, 14, 8, 1, 100000, 40, 7, false); }
CAN(noisy8j, int, 8, 9)(ARBITRARY, 19, 9, 1, 100000, 50, 7, false); }
CAN(noisy9i, int, 9, 9)(CLOSED, 15, 10, 1, 100000, 90, 6, false); }
// all values around a few errors are repaired: sending is undone while the errors stay below half the distance
CAN(few5, int8_t, 5, 5)(CLOSED, 13, 14, 100, 10, 1, 4, false); }
// one free bit, or one frozen bit, in every block
#define SP(period, off, inv) (period | off << 8 | inv << 16)
CAN(first6, int, 6, 6)(SPARSE, SP(32, 0, 0), 101, 1, 100000, 20, 4, false); }
CAN(first7, int, 7, 7)(SPARSE, SP(32, 0, 0), 102, 1, 100000, 20, 4, false); }
CAN(first6b, int8_t, 6, 6)(SPARSE, SP(32, 0, 0), 103, 1, 60, 20, 4, false); }
CAN(second6, int, 6, 6)(SPARSE, SP(32, 1, 0), 104, 1, 100000, 20, 4, false); }
CAN(last6, int, 6, 6)(SPARSE, SP(32, 31, 0), 105, 1, 100000, 20, 4, false); }
CAN(half6, int, 6, 6)(SPARSE, SP(16, 0, 0), 106, 1, 100000, 20, 4, false); }
CAN(eight6, int, 6, 6)(SPARSE, SP(8, 0, 0), 107, 1, 100000, 20, 4, false); }
CAN(four6, int, 6, 6)(SPARSE, SP(4, 0, 0), 108, 1, 100000, 20, 4, false); }
CAN(two6, int, 6, 6)(SPARSE, SP(2, 0, 0), 109, 1, 100000, 20, 4, false); }
CAN(hole6, int, 6, 6)(SPARSE, SP(32, 31, 1), 110, 1, 100000, 6, 0, false); }
CAN(hole6a, int, 6, 6)(SPARSE, SP(32, 0, 1), 111, 1, 100000, 6, 0, false); }
CAN(hole6b, int8_t, 6, 6)(SPARSE, SP(16, 15, 1), 112, 1, 60, 6, 0, false); }
CAN(hole6c, int, 6, 6)(SPARSE, SP(8, 7, 1), 113, 1, 100000, 6, 0, false); }
CAN(hole6d, int, 6, 6)(SPARSE, SP(4, 3, 1), 114, 1, 100000, 6, 0, false); }
// vectors: every lane carries its own message and noise; the most negative value of 8-bit lanes counts as a certain minus
template <class V, int W, int LEVEL, int MAXM> static void lanes(int kind, int t, uint32_t seed, int lo, int span, int errs, bool expect, bool full) {
  typedef SIMD<V, W> TYPE; const int N = 1 << LEVEL; uint32_t f[(N + 31) / 32]; int K = make(f, LEVEL, kind, t); static TYPE msg[N], cw[N], y[N], out[N + 2]; bool u[N], x[N]; V lane[N];
  for (int i = 0; i < K; ++i) for (int k = 0; k < W; ++k) msg[i].v[k] = (V)(1 - 2 * (int)sa_bit("msg"));
  CODE::PolarEncoder<TYPE> e; e(cw, msg, f, LEVEL); Rng r{seed};
  for (int i = 0; i < N; ++i) for (int k = 0; k < W; ++k) { V a = (V)(lo + (int)r(span)); y[i].v[k] = cw[i].v[k] < 0 ? (V)(full && a == 127 ? -128 : -a) : a; }
  for (int j = 0; j < errs; ++j) for (int k = 0; k < W; ++k) { int i = r(N); y[i].v[k] = (V)-y[i].v[k]; }
  for (int i = 0; i < N + 2; ++i) for (int k = 0; k < W; ++k) out[i].v[k] = 7;
  static CODE::PolarDecoder<TYPE, MAXM> d; sa_readonly(y, sizeof y); sa_readonly(f, sizeof f); d(out + 1, y, f, LEVEL);
  for (int k = 0; k < W; ++k) { sa_true(out[0].v[k] == 7 && out[1 + K].v[k] == 7, "only the message is written"); int c = 0;
    if (expect) { for (; c < K; ++c) sa_eq(&out[1 + c].v[k], &msg[c].v[k], sizeof(V), "the sent message is recovered"); continue; }
    for (int i = 0; i < N; ++i) lane[i] = y[i].v[k];
    tie = false; sc(lane, N, f, 0, u, x);
    for (int i = 0; i < N; ++i) if (!fz(f, i)) { V w = tie ? out[1 + c].v[k] : (V)(1 - 2 * (int)u[i]); sa_eq(&out[1 + c].v[k], &w, sizeof w, "decisions of successive cancellation in every lane"); ++c; } }
  sa_writable(y); sa_writable(f);
}
#define LAN(n, ...) ENTRY(n) { lanes<__VA_ARGS__>
LAN(lanes5, int8_t, 32, 5, 5)(CLOSED, 9, 1, 127, 1, 0, true, true); }
LAN(lanes5a, int8_t, 16, 5, 5)(ARBITRARY, 1, 2, 1, 127, 0, true, true); }
LAN(lanes5b, int8_t, 64, 5, 5)(ALL, 1, 2, 120, 8, 0, true, true); }
LAN(lanes6, int8_t, 16, 6, 6)(CLOSED, 11, 3, 127, 1, 0, true, true); }
LAN(lanes6a, int8_t, 32, 6, 7)(ARBITRARY, 2, 3, 1, 127, 0, true, true); }
LAN(lanes7, int8_t, 32, 7, 7)(ARBITRARY, 3, 4, 127, 1, 0, true, true); }
LAN(lanes9, int8_t, 32, 9, 9)(CLOSED, 15, 5, 100, 28, 0, true, true); }
LAN(lanes6h, int8_t, 8, 6, 6)(CLOSED, 11, 2310, 1, 127, 15, false, false); }
LAN(lanes5h, int8_t, 32, 5, 5)(CLOSED, 9, 2110, 1, 127, 5, false, false); }
LAN(lanes7h, int8_t, 16, 7, 7)(CLOSED, 13, 77, 1, 127, 14, false, false); }
LAN(lanes5i, int16_t, 8, 5, 5)(CLOSED, 9, 21, 1, 500, 5, false, false); }
LAN(lanes6i, int32_t, 4, 6, 6)(ARBITRARY, 12, 21, 1, 50000, 15, false, false); }
LAN(lanes7i, int32_t, 8, 7, 7)(CLOSED, 13, 22, 1, 50000, 25, false, false); }
LAN(lanes6f, float, 4, 6, 6)(CLOSED, 11, 3, 1, 100, 0, true, false); }
LAN(lanes7f, float, 8, 7, 7)(ARBITRARY, 13, 3, 1, 100, 0, true, false); }
// every length the decoder offers: fixed words
template <class TYPE, int LEVEL, int MAXM> static void level(int kind, int t) {
  const int N = 1 << LEVEL; static uint32_t f[N / 32]; int K = make(f, LEVEL, kind, t); static TYPE msg[N], cw[N], out[N + 2]; static CODE::PolarDecoder<TYPE, MAXM> d; CODE::PolarEncoder<TYPE> e;
  for (int i = 0; i < K; ++i) msg[i] = (TYPE)(1 - 2 * (i * 7 / 3 + i / 64 & 1));
  for (int i = 0; i < N + 2; ++i) out[i] = 7;
  e(cw, msg, f, LEVEL); d(out + 1, cw, f, LEVEL); bool ok = true; for (int i = 0; i < K; ++i) ok &= out[1 + i] == msg[i];
  sa_true(ok, "the sent message is recovered"); sa_true(out[0] == 7 && out[1 + K] == 7, "only the message is written");
}
#define LEV(n) ENTRY(level##n) { level<int8_t, n, n < 16 ? n : 16>(n & 1 ? CLOSED : ARBITRARY, n + 8); }
LEV(5) LEV(6) LEV(7) LEV(8) LEV(9) LEV(10) LEV(11) LEV(12) LEV(13) LEV(14) LEV(15) LEV(16)
#if SA_TIER || defined(__AVX2__)
ENTRY(level17) { level<int8_t, 17, 17>(CLOSED, 22); }
ENTRY(level18) { level<int8_t, 18, 18>(CLOSED, 22); }
ENTRY(level19) { level<int8_t, 19, 20>(CLOSED, 24); }
ENTRY(level20) { level<int8_t, 20, 20>(CLOSED, 24); }
#endif
