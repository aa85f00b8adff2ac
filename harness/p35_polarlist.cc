#include "sa.h"
#include "simd.hh"
#include "polar_encoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
enum { CLOSED, ARBITRARY, FEW, TAIL, SPARSE }; // TAIL: the last bits are frozen; SPARSE: one bit of every (t & 255) differs from the others
static int popc(unsigned x) { int c = 0; for (; x; x &= x - 1) ++c; return c; }
static bool fz(const uint32_t *f, int i) { return f[i / 32] >> (i % 32) & 1; }
static int make(uint32_t *frozen, int level, int kind, int t) {
  int n = 1 << level, K = 0; uint32_t s = 99 + t;
  for (int i = 0; i < (n + 31) / 32; ++i) frozen[i] = 0;
  for (int i = 0; i < n;) { s = s * 1664525u + 1013904223u; int len = 1 << ((s >> 20) % 6); if (i & (len - 1) || i + len > n) len = 1; bool b = s >> 28 & 1; for (int e = i + len; i < e; ++i) { bool info = kind == CLOSED ? 3 * popc(i) + (i * 4 >> level) >= t : kind == ARBITRARY ? b : kind == SPARSE ? (i % (t & 255) == (t >> 8 & 255)) != (t >> 16) : kind == TAIL ? i % 3 != 1 && i >= n / 4 && i < n - t : i >= n - t; if (info) ++K; else frozen[i / 32] |= 1u << (i % 32); } }
  return K;
}
struct Rng { uint32_t s; uint32_t operator()(uint32_t m) { s = s * 1664525u + 1013904223u; return (s >> 8) % m; } };
static int mag(int a) { return a < 0 ? -a : a; }
static int minsum(int a, int b) { int x = mag(a), y = mag(b), m = x < y ? x : y; return (a < 0) != (b < 0) ? -m : m; }
// transform of the first part of a path: partial sums are computed anew for every bit and every path
static void transform(bool *x, int n) { for (int h = 1; h < n; h *= 2) for (int i = 0; i < n; i += 2 * h) for (int j = i; j < i + h; ++j) x[j] ^= x[j + h]; }
// eight bit soft values saturate: such words are not compared (the decoders skip frozen subtrees, the reference does not)
static bool saturates;
template <class V> static int sat(int x) { saturates |= sizeof(V) == 1 && mag(x) > 127; return x; }
template <class V> static int llr(const int *y, int n, int i, const bool *u) {
  if (n == 1) return y[0];
  int h = n / 2; int *z = (int *)__builtin_alloca(sizeof(int) * h);
  if (i < h) { for (int j = 0; j < h; ++j) z[j] = minsum(y[j], y[j + h]); return llr<V>(z, h, i, u); }
  bool *x = (bool *)__builtin_alloca(h); for (int j = 0; j < h; ++j) x[j] = u[j]; transform(x, h);
  for (int j = 0; j < h; ++j) z[j] = sat<V>((x[j] ? -y[j] : y[j]) + y[j + h]);
  return llr<V>(z, h, i - h, u + h);
}
static const int DEAD = 1 << 28;
// textbook list decoding: after every bit the L best distinct paths survive; tie: some decision is a toss-up
template <class V, int N, int L> struct List {
  bool u[L][N]; int metric[L]; int paths; bool tie;
  void run(const int *y, const uint32_t *f, bool parity, int stride, int first) {
    static bool v[2 * L][N]; static int m[2 * L]; paths = 1; metric[0] = 0; tie = false; saturates = false; bool acc[L], nacc[2 * L]; int count = first; acc[0] = false;
    for (int i = 0; i < N; ++i) {
      if (fz(f, i)) { for (int p = 0; p < paths; ++p) { int l = llr<V>(y, N, i, u[p]); tie |= false; if (l < 0) metric[p] -= l; u[p][i] = false; } continue; }
      bool check = parity && count == 0; int q = 0;
      for (int p = 0; p < paths; ++p) { int l = llr<V>(y, N, i, u[p]); tie |= l == 0;
        for (int b = 0; b < (check ? 1 : 2); ++b) { bool bit = check ? acc[p] : b; for (int j = 0; j < i; ++j) v[q][j] = u[p][j]; v[q][i] = bit; m[q] = metric[p] + (bit != (l < 0) ? mag(l) : 0); nacc[q] = check ? false : acc[p] ^ bit; ++q; } }
      if (parity) { if (check) count = stride; else --count; }
      for (int k = 0; k < q && k < L; ++k) { // selection: the k-th best
        int best = k; 
        for (int j = k + 1; j < q; ++j) { bool less = m[j] < m[k]; tie |= m[j] == m[k];
          int a = less ? m[j] : m[k], c = less ? m[k] : m[j]; m[k] = a; m[j] = c;
          bool na = less ? nacc[j] : nacc[k], nc = less ? nacc[k] : nacc[j]; nacc[k] = na; nacc[j] = nc;
          for (int t = 0; t <= i; ++t) { bool x = less ? v[j][t] : v[k][t], z = less ? v[k][t] : v[j][t]; v[k][t] = x; v[j][t] = z; } }
        (void)best; metric[k] = m[k]; acc[k] = nacc[k]; for (int t = 0; t <= i; ++t) u[k][t] = v[k][t];
      }
      paths = q < L ? q : L;
    }
    tie |= saturates;
    for (int k = 0; k < paths; ++k) for (int j = k + 1; j < paths; ++j) { // frozen bits behind the last message bit may change the order
      bool less = metric[j] < metric[k]; tie |= metric[j] == metric[k]; int a = less ? metric[j] : metric[k], c = less ? metric[k] : metric[j]; metric[k] = a; metric[j] = c;
      for (int t = 0; t < N; ++t) { bool x = less ? u[j][t] : u[k][t], z = less ? u[k][t] : u[j][t]; u[k][t] = x; u[j][t] = z; } }
  }
};
template <class V, int L, int LEVEL, int MAXM> static void list(int kind, int t, uint32_t seed, int lo, int span, int errs, int free, int expect, bool parity, int stride, int first) {
  typedef SIMD<V, L> TYPE; const int N = 1 << LEVEL; uint32_t f[(N + 31) / 32]; int K = make(f, LEVEL, kind, t);
  int M = 0; { int c = first; for (int i = 0; i < N; ++i) if (!fz(f, i)) { if (parity && c == 0) c = stride; else { ++M; --c; } } } (void)K;
  static V msg[N], cw[N], y[N]; static int yi[N]; static TYPE out[N + 2]; int rank[L + 2];
  for (int i = 0; i < M; ++i) msg[i] = (V)(1 - 2 * (int)(free ? i * i / 3 & 1 : sa_bit("msg")));
  if (parity) { CODE::PolarParityEncoder<V> e; e(cw, msg, f, LEVEL, stride, first); } else { CODE::PolarEncoder<V> e; e(cw, msg, f, LEVEL); }
  Rng r{seed}; bool flip[N]; for (int i = 0; i < N; ++i) flip[i] = false;
  for (int i = 0; i < errs; ++i) flip[r(N)] ^= true;
  for (int i = 0; i < free; ++i) flip[r(N)] ^= sa_bit("err");
  for (int i = 0; i < N; ++i) { V a = (V)(lo + (int)r(span)); a = flip[i] ? (V)-a : a; y[i] = cw[i] < 0 ? (V)-a : a; yi[i] = sat<V>(y[i]); }
  for (int i = 0; i < N + 2; ++i) for (int k = 0; k < L; ++k) out[i].v[k] = 7;
  for (int k = 0; k < L + 2; ++k) rank[k] = -5;
  sa_readonly(y, sizeof y); sa_readonly(f, sizeof f);
  static TYPE again[N]; // the ranks are optional and a decoder can be used again
  if (parity) { static CODE::PolarParityDecoder<TYPE, MAXM> d; d(rank + 1, out + 1, y, f, LEVEL, stride, first); if (LEVEL < 7) d(nullptr, again, y, f, LEVEL, stride, first); }
  else { static CODE::PolarListDecoder<TYPE, MAXM> d; d(rank + 1, out + 1, y, f, LEVEL); if (LEVEL < 7) d(nullptr, again, y, f, LEVEL); }
  if (LEVEL < 7) for (int c = 0; c < M; ++c) sa_eq(&again[c], &out[1 + c], sizeof(TYPE), "same result without ranks and on reuse");
  sa_writable(y); sa_writable(f);
  for (int k = 0; k < L; ++k) sa_true(out[0].v[k] == 7 && out[1 + M].v[k] == 7, "only the message is written");
  sa_true(rank[0] == -5 && rank[L + 1] == -5 && rank[1] == 0, "ranks start at zero and stay in place");
  for (int k = 1; k < L; ++k) sa_true(rank[1 + k] == rank[k] || rank[1 + k] == rank[k] + 1, "ranks count distinct metrics");
  if (expect) for (int c = 0; c < M; ++c) sa_eq(&out[1 + c].v[0], &msg[c], sizeof(V), "the sent message is the best path");
  if (expect < 2) {
    static List<V, N, L> ref; ref.run(yi, f, parity, stride, first);
    for (int k = 0; k < ref.paths; ++k) { int c = 0, cnt = first;
      int wr = (int)(k > 0) + (k > 0 ? rank[k] : 0); wr = ref.tie ? rank[1 + k] : wr; sa_eq(&rank[1 + k], &wr, sizeof wr, "distinct metrics have distinct ranks");
      for (int i = 0; i < N; ++i) if (!fz(f, i)) { if (parity && cnt == 0) { cnt = stride; continue; } --cnt;
        V w = ref.tie ? out[1 + c].v[k] : (V)(1 - 2 * (int)ref.u[k][i]); sa_eq(&out[1 + c].v[k], &w, sizeof w, "survivors of list decoding in order of their metric"); ++c; } }
  }
}
#define L(n, ...) ENTRY(n) { list<__VA_ARGS__>
L(clean5, int8_t, 4, 5, 5)(CLOSED, 9, 1, 1, 127, 0, 0, 2, false, 0, 0); }
L(clean5w, int8_t, 32, 5, 5)(CLOSED, 12, 1, 40, 80, 0, 0, 2, false, 0, 0); }
L(clean6, int8_t, 4, 6, 6)(CLOSED, 11, 2, 10, 100, 0, 0, 2, false, 0, 0); }
L(clean7, int8_t, 4, 7, 8)(ARBITRARY, 18, 3, 10, 100, 0, 0, 2, false, 0, 0); }
L(clean8, int8_t, 2, 8, 8)(CLOSED, 16, 4, 10, 100, 0, 0, 2, false, 0, 0); }
L(clean9, int8_t, 2, 9, 9)(CLOSED, 17, 5, 10, 100, 0, 0, 2, false, 0, 0); }
L(list5, int32_t, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 0, 0, false, 0, 0); }
L(list5a, int32_t, 4, 5, 6)(ARBITRARY, 16, 12, 1, 20000, 4, 0, 0, false, 0, 0); }
L(list5b, int32_t, 8, 5, 5)(ARBITRARY, 17, 13, 1, 20000, 6, 0, 0, false, 0, 0); }
L(list5f, int32_t, 4, 5, 5)(FEW, 6, 14, 1, 20000, 6, 0, 0, false, 0, 0); }
L(list6, int32_t, 4, 6, 6)(CLOSED, 13, 15, 1, 10000, 6, 0, 0, false, 0, 0); }
L(list6a, int32_t, 2, 6, 6)(ARBITRARY, 12, 16, 1, 10000, 10, 0, 0, false, 0, 0); }
L(list7, int32_t, 2, 7, 7)(ARBITRARY, 18, 16, 1, 5000, 20, 0, 0, false, 0, 0); }
L(noisy5, int32_t, 2, 5, 5)(CLOSED, 12, 21, 1, 20000, 4, 4, 0, false, 0, 0); }
L(noisy5a, int32_t, 4, 5, 5)(FEW, 6, 22, 1, 20000, 4, 4, 0, false, 0, 0); }
L(parclean5, int8_t, 4, 5, 5)(CLOSED, 9, 1, 1, 127, 0, 0, 2, true, 3, 2); }
L(parclean6, int8_t, 4, 6, 6)(CLOSED, 11, 2, 10, 100, 0, 0, 2, true, 3, 2); }
L(parclean7, int8_t, 2, 7, 7)(CLOSED, 13, 2, 10, 100, 0, 0, 2, true, 3, 2); }
L(parlist5, int32_t, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 0, 0, true, 3, 2); }
L(parlist5a, int32_t, 4, 5, 6)(ARBITRARY, 16, 12, 1, 20000, 6, 0, 0, true, 3, 2); }
L(parlist6, int32_t, 4, 6, 6)(CLOSED, 13, 15, 1, 10000, 10, 0, 0, true, 3, 2); }
L(parnoisy5, int32_t, 2, 5, 5)(CLOSED, 12, 21, 1, 20000, 4, 4, 0, true, 3, 2); }
L(parbclean5, int8_t, 4, 5, 5)(CLOSED, 9, 1, 1, 127, 0, 0, 2, true, 1, 1); }
L(parbclean6, int8_t, 4, 6, 6)(CLOSED, 11, 2, 10, 100, 0, 0, 2, true, 1, 1); }
L(parbclean7, int8_t, 2, 7, 7)(CLOSED, 13, 2, 10, 100, 0, 0, 2, true, 1, 1); }
L(parblist5, int32_t, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 0, 0, true, 1, 1); }
L(parblist5a, int32_t, 4, 5, 6)(ARBITRARY, 16, 12, 1, 20000, 6, 0, 0, true, 1, 1); }
L(parblist6, int32_t, 4, 6, 6)(CLOSED, 13, 15, 1, 10000, 10, 0, 0, true, 1, 1); }
L(parbnoisy5, int32_t, 2, 5, 5)(CLOSED, 12, 21, 1, 20000, 4, 4, 0, true, 1, 1); }
L(parcclean5, int8_t, 4, 5, 5)(CLOSED, 9, 1, 1, 127, 0, 0, 2, true, 5, 7); }
L(parcclean6, int8_t, 4, 6, 6)(CLOSED, 11, 2, 10, 100, 0, 0, 2, true, 5, 7); }
L(parcclean7, int8_t, 2, 7, 7)(CLOSED, 13, 2, 10, 100, 0, 0, 2, true, 5, 7); }
L(parclist5, int32_t, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 0, 0, true, 5, 7); }
L(parclist5a, int32_t, 4, 5, 6)(ARBITRARY, 16, 12, 1, 20000, 6, 0, 0, true, 5, 7); }
L(parclist6, int32_t, 4, 6, 6)(CLOSED, 13, 15, 1, 10000, 10, 0, 0, true, 5, 7); }
L(parcnoisy5, int32_t, 2, 5, 5)(CLOSED, 12, 21, 1, 20000, 4, 4, 0, true, 5, 7); }
L(wide5, int32_t, 8, 5, 5)(CLOSED, 12, 31, 1, 20000, 6, 0, 0, false, 0, 0); }
L(wide5p, int32_t, 8, 5, 5)(CLOSED, 12, 32, 1, 20000, 6, 0, 0, true, 3, 3); }
L(wide6, int32_t, 8, 6, 6)(CLOSED, 13, 33, 1, 10000, 12, 0, 0, false, 0, 0); }
L(wide6p, int32_t, 8, 6, 6)(CLOSED, 13, 34, 1, 10000, 12, 0, 0, true, 4, 9); }
L(deep8, int32_t, 2, 8, 8)(ARBITRARY, 19, 35, 1, 3000, 40, 0, 0, false, 0, 0); }
L(deep7p, int32_t, 2, 7, 8)(ARBITRARY, 18, 36, 1, 5000, 20, 0, 0, true, 4, 9); }
L(deep8p, int32_t, 2, 8, 8)(CLOSED, 16, 36, 1, 3000, 40, 0, 0, true, 4, 9); }
L(noisy6, int32_t, 4, 6, 6)(CLOSED, 13, 37, 1, 10000, 8, 6, 0, false, 0, 0); }
L(noisy6p, int32_t, 4, 6, 6)(CLOSED, 13, 38, 1, 10000, 8, 6, 0, true, 3, 5); }
L(one5, int32_t, 1, 5, 5)(CLOSED, 12, 41, 1, 20000, 6, 0, 0, false, 0, 0); }
L(wide5c, int8_t, 16, 5, 5)(CLOSED, 13, 42, 1, 127, 0, 0, 2, false, 0, 0); }
L(wide7, int8_t, 4, 7, 8)(CLOSED, 15, 43, 40, 60, 0, 0, 2, false, 0, 0); }
L(wide8, int8_t, 4, 8, 8)(CLOSED, 16, 43, 40, 60, 0, 0, 2, false, 0, 0); }
L(deep10, int8_t, 2, 10, 11)(CLOSED, 20, 43, 40, 60, 0, 0, 2, false, 0, 0); }
L(deep11p, int8_t, 2, 11, 11)(CLOSED, 22, 44, 40, 60, 0, 0, 2, true, 31, 7); }
// the scale of the soft values does not matter
L(loud5, int32_t, 4, 5, 5)(CLOSED, 9, 11, 300000, 700000, 4, 0, 0, false, 0, 0); }
L(loud5a, int32_t, 8, 5, 6)(ARBITRARY, 16, 12, 1, 1000000, 4, 0, 0, false, 0, 0); }
L(loud6, int32_t, 4, 6, 6)(CLOSED, 13, 37, 100000, 300000, 8, 6, 0, false, 0, 0); }
L(loud5p, int32_t, 4, 5, 5)(CLOSED, 9, 11, 300000, 700000, 6, 0, 0, true, 3, 2); }
L(loud5pa, int32_t, 8, 5, 5)(ARBITRARY, 16, 12, 1, 1000000, 4, 0, 0, true, 2, 0); }
L(loud6p, int32_t, 4, 6, 6)(CLOSED, 13, 38, 100000, 300000, 8, 6, 0, true, 3, 5); }
L(real5, float, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 3, 0, false, 0, 0); }
L(real5l, float, 4, 5, 5)(CLOSED, 9, 11, 50000, 150000, 4, 0, 0, false, 0, 0); }
L(real5p, float, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 3, 0, true, 3, 2); }
L(real5pl, float, 4, 5, 5)(CLOSED, 9, 11, 50000, 150000, 4, 0, 0, true, 3, 2); }
// parity bits come first, or no message bits at all
L(firstp5, int32_t, 4, 5, 5)(CLOSED, 9, 11, 1, 20000, 4, 2, 0, true, 3, 0); }
L(firstp6, int8_t, 8, 6, 6)(CLOSED, 11, 2, 10, 100, 0, 0, 2, true, 5, 0); }
L(firstpp5, int32_t, 4, 5, 5)(ARBITRARY, 16, 13, 1, 20000, 4, 2, 0, true, 0, 1); }
L(none5, int32_t, 4, 5, 5)(FEW, 0, 13, 1, 20000, 4, 2, 0, false, 0, 0); }
L(none6, int8_t, 4, 6, 6)(FEW, 0, 13, 1, 100, 4, 2, 2, false, 0, 0); }
L(nonep5, int32_t, 4, 5, 5)(FEW, 0, 13, 1, 20000, 4, 2, 0, true, 3, 2); }
L(onlyp5, int32_t, 4, 5, 5)(FEW, 6, 13, 1, 20000, 4, 2, 0, true, 0, 0); }
// frozen bits at the end change the order once more
L(tail5, int32_t, 4, 5, 5)(TAIL, 3, 11, 1, 20000, 8, 0, 0, false, 0, 0); }
L(tail5a, int32_t, 4, 5, 6)(TAIL, 9, 12, 1, 20000, 8, 2, 0, false, 0, 0); }
L(tail5b, int32_t, 8, 5, 5)(TAIL, 16, 13, 1, 20000, 8, 2, 0, false, 0, 0); }
L(tail6, int32_t, 4, 6, 6)(TAIL, 33, 14, 1, 10000, 12, 0, 0, false, 0, 0); }
L(tail5f, float, 4, 5, 5)(TAIL, 5, 15, 1, 20000, 8, 0, 0, false, 0, 0); }
L(tailp5, int32_t, 4, 5, 5)(TAIL, 3, 11, 1, 20000, 8, 0, 0, true, 3, 2); }
L(tailp5a, int32_t, 8, 5, 5)(TAIL, 9, 12, 1, 20000, 8, 2, 0, true, 2, 0); }
L(tailp6, int32_t, 4, 6, 6)(TAIL, 20, 14, 1, 10000, 12, 0, 0, true, 4, 3); }
L(tailc6, int8_t, 4, 6, 6)(TAIL, 20, 14, 10, 100, 0, 0, 2, true, 4, 3); }
// eight bit soft values, none of them saturated: the penalties of a path are not limited to eight bits
L(sat5, int8_t, 4, 5, 5)(TAIL, 16, 16230, 1, 60, 12, 0, 0, false, 0, 0); }
L(sat5a, int8_t, 4, 5, 5)(TAIL, 20, 2700, 1, 60, 12, 0, 0, false, 0, 0); }
L(sat5b, int8_t, 4, 5, 6)(FEW, 2, 198, 1, 60, 12, 0, 0, false, 0, 0); }
L(sat5c, int8_t, 8, 5, 5)(FEW, 3, 1055, 1, 60, 12, 0, 0, false, 0, 0); }
L(sat5d, int8_t, 4, 5, 5)(TAIL, 16, 63, 1, 30, 12, 0, 0, false, 0, 0); }
L(sat5e, int8_t, 4, 5, 5)(TAIL, 20, 10, 1, 30, 12, 0, 0, false, 0, 0); }
L(sat5f, int8_t, 8, 5, 5)(FEW, 3, 53, 1, 30, 12, 0, 0, false, 0, 0); }
L(sat6, int8_t, 4, 6, 6)(TAIL, 40, 925, 1, 30, 24, 0, 0, false, 0, 0); }
L(sat6a, int8_t, 4, 6, 6)(TAIL, 44, 24527, 1, 30, 24, 0, 0, false, 0, 0); }
L(satp5, int8_t, 4, 5, 5)(TAIL, 20, 15567, 1, 60, 12, 0, 0, true, 2, 1); }
L(satp5a, int8_t, 4, 5, 5)(TAIL, 16, 12428, 1, 60, 12, 0, 0, true, 2, 1); }
L(satp5b, int8_t, 2, 5, 5)(CLOSED, 12, 29, 1, 30, 6, 0, 0, true, 3, 2); }
L(satp6, int8_t, 4, 6, 6)(TAIL, 40, 6083, 1, 30, 24, 0, 0, true, 2, 1); }
// one free bit, or one frozen bit, in every block
#define SP(period, off, inv) (period | off << 8 | inv << 16)
L(first6, int32_t, 4, 6, 6)(SPARSE, SP(32, 0, 0), 15, 1, 10000, 10, 2, 0, false, 0, 0); }
L(first7, int32_t, 4, 7, 7)(SPARSE, SP(32, 0, 0), 16, 1, 5000, 20, 2, 0, false, 0, 0); }
L(second6, int32_t, 4, 6, 6)(SPARSE, SP(32, 1, 0), 17, 1, 10000, 10, 2, 0, false, 0, 0); }
L(last6, int32_t, 4, 6, 7)(SPARSE, SP(32, 31, 0), 18, 1, 10000, 10, 2, 0, false, 0, 0); }
L(half6, int32_t, 2, 6, 6)(SPARSE, SP(16, 0, 0), 19, 1, 10000, 8, 2, 0, false, 0, 0); }
L(eight6, int32_t, 4, 6, 6)(SPARSE, SP(8, 0, 0), 20, 1, 10000, 8, 2, 0, false, 0, 0); }
L(four5, int32_t, 4, 5, 5)(SPARSE, SP(4, 0, 0), 21, 1, 10000, 6, 2, 0, false, 0, 0); }
L(hole5, int32_t, 2, 5, 5)(SPARSE, SP(32, 31, 1), 22, 1, 10000, 4, 0, 0, false, 0, 0); }
L(hole5a, int32_t, 2, 5, 5)(SPARSE, SP(16, 15, 1), 23, 1, 10000, 4, 0, 0, false, 0, 0); }
L(hole5b, int32_t, 2, 5, 5)(SPARSE, SP(32, 0, 1), 24, 1, 10000, 4, 0, 0, false, 0, 0); }
L(lonep6, int32_t, 4, 6, 6)(SPARSE, SP(32, 0, 0), 25, 1, 10000, 10, 2, 0, true, 1, 0); }
L(lonep7, int32_t, 4, 7, 7)(SPARSE, SP(32, 0, 0), 26, 1, 5000, 20, 2, 0, true, 3, 1); }
L(lastp6, int32_t, 4, 6, 7)(SPARSE, SP(32, 31, 0), 27, 1, 10000, 10, 2, 0, true, 3, 1); }
L(eightp6, int32_t, 4, 6, 6)(SPARSE, SP(8, 0, 0), 28, 1, 10000, 8, 2, 0, true, 3, 1); }
L(fourp5, int32_t, 4, 5, 5)(SPARSE, SP(4, 0, 0), 29, 1, 10000, 6, 2, 0, true, 3, 1); }
L(holep5, int32_t, 2, 5, 5)(SPARSE, SP(32, 0, 1), 30, 1, 10000, 4, 0, 0, true, 7, 1); }
// every length the decoders offer: fixed words, every lane
template <int W, int LEVEL, int MAXM> static void level(int kind, int t, bool parity) {
  typedef SIMD<int8_t, W> TYPE; const int N = 1 << LEVEL; static uint32_t f[N / 32]; int K = make(f, LEVEL, kind, t), M = 0; const int stride = 31, first = 17;
  { int c = first; for (int i = 0; i < N; ++i) if (!fz(f, i)) { if (parity && c == 0) c = stride; else { ++M; --c; } } } (void)K;
  static int8_t msg[N], cw[N], y[N]; static TYPE out[N + 2]; int rank[W];
  for (int i = 0; i < M; ++i) msg[i] = (int8_t)(1 - 2 * (i * 7 / 3 + i / 64 & 1));
  if (parity) { CODE::PolarParityEncoder<int8_t> e; e(cw, msg, f, LEVEL, stride, first); } else { CODE::PolarEncoder<int8_t> e; e(cw, msg, f, LEVEL); }
  Rng r{(uint32_t)t}; for (int i = 0; i < N; ++i) y[i] = (int8_t)(cw[i] * (int)(60 + r(60)));
  for (int i = 0; i < N + 2; ++i) for (int k = 0; k < W; ++k) out[i].v[k] = 7;
  if (parity) { static CODE::PolarParityDecoder<TYPE, MAXM> d; d(rank, out + 1, y, f, LEVEL, stride, first); } else { static CODE::PolarListDecoder<TYPE, MAXM> d; d(rank, out + 1, y, f, LEVEL); }
  bool ok = true, clean = true, pm = true; for (int i = 0; i < M; ++i) for (int k = 0; k < W; ++k) { if (!k) ok &= out[1 + i].v[k] == msg[i]; pm &= out[1 + i].v[k] == 1 || out[1 + i].v[k] == -1; }
  for (int k = 0; k < W; ++k) clean &= out[0].v[k] == 7 && out[1 + M].v[k] == 7;
  sa_true(ok, "the sent message is the best path"); sa_true(clean, "only the message is written"); sa_true(pm, "every lane holds decided bits"); sa_true(rank[0] == 0, "ranks start at zero and stay in place");
}
#define LEV(n) ENTRY(level##n) { level<4, n, n < 14 ? n : 14>(n & 1 ? CLOSED : ARBITRARY, n + 10, false); } ENTRY(plevel##n) { level<4, n, n < 13 ? 13 : n>(n & 1 ? ARBITRARY : CLOSED, n + 10, true); }
LEV(5) LEV(6) LEV(7) LEV(8) LEV(9) LEV(10) LEV(11)
#if SA_TIER || defined(__AVX2__)
LEV(12) LEV(13) LEV(14)
ENTRY(level15) { level<2, 15, 16>(CLOSED, 25, false); }
ENTRY(level16) { level<2, 16, 16>(CLOSED, 26, false); }
ENTRY(plevel15) { level<2, 15, 16>(CLOSED, 25, true); }
ENTRY(plevel16) { level<2, 16, 16>(CLOSED, 26, true); }
#endif
