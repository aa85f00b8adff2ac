#include "sa.h"
#include "osd.hh"
#include "ref.h"
// every combination of signs over fixed reliabilities, any generator matrix of full rank
template <int N, int K> struct Ref25 {
  int8_t cw[1 << K][N]; int base[K];
  void make(const int8_t *g, const int *order) {
    for (int m = 0; m < 1 << K; ++m) for (int i = 0; i < N; ++i) { int s = 0; for (int j = 0; j < K; ++j) s ^= (m >> j & 1) & g[N * j + i]; cw[m][i] = (int8_t)s; }
    // most reliable independent positions (order lists positions from the most reliable on)
    uint32_t piv[K]; int rank = 0;
    for (int o = 0; o < N && rank < K; ++o) { uint32_t col = 0; for (int j = 0; j < K; ++j) col |= (uint32_t)(g[N * j + order[o]] & 1) << j;
      for (int r = 0; r < rank; ++r) { uint32_t top = piv[r] & (0u - piv[r]); if (col & top) col ^= piv[r]; }
      if (col) { piv[rank] = col; base[rank++] = order[o]; } }
  }
};
template <int N, int K> static void systematic(int8_t *g, uint32_t poly, bool sys) {
  for (int i = 0; i < N * K; ++i) g[i] = 0;
  for (int j = 0; j < K; ++j) for (int i = 0; i <= N - K; ++i) g[N * j + j + i] = poly >> (N - K - i) & 1;
  if (sys) for (int k = K - 1; k; --k) for (int j = 0; j < k; ++j) if (g[N * j + k]) for (int i = 0; i < N; ++i) g[N * j + i] ^= g[N * k + i];
}
template <int N> static void softs(int8_t *s, uint32_t signs, const int *order, int lo, int step) { int mag[N]; for (int i = 0; i < N; ++i) mag[order[i]] = lo + step * (N - 1 - i); for (int i = 0; i < N; ++i) s[i] = (int8_t)(signs >> i & 1 ? -mag[i] : mag[i]); }
template <int N, int K, int O> static void osd(const int8_t *g, const int *order, int lo, int step, uint32_t mask = ~0u, uint32_t fixed = 0) {
  static Ref25<N, K> r; r.make(g, order);
  int8_t s[N]; uint32_t signs = ((uint32_t)sa_word("signs", N) & mask) ^ fixed; softs<N>(s, signs, order, lo, step);
  static CODE::OrderedStatisticsDecoder<N, K, O> d; uint8_t hard[(N + 7) / 8] = {};
  sa_readonly(s, N); sa_readonly(g, N * K); bool unique = d(hard, s, g); sa_writable(s); sa_writable(g);
  int best = -128 * N; uint32_t word = 0; bool tie = false;
  for (int m = 0; m < 1 << K; ++m) { int dis = 0, met = 0; uint32_t w = 0; for (int k = 0; k < K; ++k) dis += (r.cw[m][r.base[k]] ^ (int)(signs >> r.base[k])) & 1; for (int i = 0; i < N; ++i) { met += r.cw[m][i] ? -s[i] : s[i]; w |= (uint32_t)r.cw[m][i] << i; }
    bool in = dis <= O, gt = in && met > best, eq = in && met == best; word = gt ? w : word; best = gt ? met : best; tie = gt ? false : tie || eq; }
  uint32_t got = 0; for (int i = 0; i < N; ++i) got |= (uint32_t)(hard[i / 8] >> (7 - i % 8) & 1) << i;
  sa_true(unique == !tie, "reports whether the best codeword is unique");
  sa_true(tie || got == word, "best codeword reachable from the most reliable positions");
}
static const int up15[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, dn15[] = {14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, mx15[] = {7, 0, 11, 3, 14, 9, 5, 1, 12, 6, 2, 13, 10, 4, 8}, my15[] = {4, 9, 0, 2, 13, 7, 5, 14, 3, 1, 12, 6, 8, 10, 11};
static const int up7[] = {0, 1, 2, 3, 4, 5, 6}, mx7[] = {3, 0, 6, 1, 4, 2, 5};
static int8_t G[32 * 32];
ENTRY(o7) { systematic<7, 4>(G, 0b1011, true); osd<7, 4, 0>(G, up7, 20, 7); osd<7, 4, 1>(G, mx7, 20, 7); osd<7, 4, 2>(G, mx7, 1, 1); }
ENTRY(o7b) { systematic<7, 4>(G, 0b1011, false); osd<7, 4, 3>(G, mx7, 20, 7); osd<7, 4, 4>(G, up7, 10, 0); }
ENTRY(o7z) { systematic<7, 4>(G, 0b1101, true); osd<7, 4, 1>(G, up7, 0, 0); osd<7, 4, 0>(G, mx7, 0, 1); osd<7, 4, 4>(G, mx7, 127, 0); }
ENTRY(o15_5a) { systematic<15, 5>(G, 0b10100110111, true); osd<15, 5, 1>(G, up15, 50, 3); }
ENTRY(o15_5b) { systematic<15, 5>(G, 0b10100110111, true); osd<15, 5, 2>(G, dn15, 1, 1); }
ENTRY(o15_5c) { systematic<15, 5>(G, 0b10100110111, false); osd<15, 5, 3>(G, mx15, 99, 2); }
ENTRY(o15_5d) { systematic<15, 5>(G, 0b10100110111, false); osd<15, 5, 5>(G, my15, 7, 0); }
ENTRY(o15_5e) { systematic<15, 5>(G, 0b10100110111, true); osd<15, 5, 0>(G, my15, 1, 1); }
ENTRY(o15_7a) { systematic<15, 7>(G, 0b111010001, true); osd<15, 7, 1>(G, mx15, 50, 3); }
ENTRY(o15_7b) { systematic<15, 7>(G, 0b111010001, true); osd<15, 7, 2>(G, my15, 1, 3); }
ENTRY(o15_7c) { systematic<15, 7>(G, 0b111010001, true); osd<15, 7, 4>(G, up15, 1, 1); }
ENTRY(o15_7d) { systematic<15, 7>(G, 0b111010001, false); osd<15, 7, 6>(G, dn15, 1, 1, 0x3fff); }
ENTRY(o15_5f) { systematic<15, 5>(G, 0b10100110111, true); osd<15, 5, 0>(G, up15, 20, 1); osd<15, 5, 0>(G, mx15, 11, 1); }
ENTRY(o15_5g) { systematic<15, 5>(G, 0b10100110111, true); osd<15, 5, 1>(G, mx15, 8, 1); }
// lists: the L best of the reachable codewords, best first, equal ranks exactly for equal likelihood
template <int N, int K, int O, int L> static void osld(const int8_t *g, const int *order, int lo, int step, uint32_t mask = ~0u, uint32_t fixed = 0) {
  static Ref25<N, K> r; r.make(g, order); const int B = (N + 7) / 8;
  int8_t s[N]; uint32_t signs = ((uint32_t)sa_word("signs", N) & mask) ^ fixed; softs<N>(s, signs, order, lo, step);
  static CODE::OrderedStatisticsListDecoder<N, K, O, L> d; uint8_t hard[B * L] = {}; int rank[L];
  sa_readonly(s, N); sa_readonly(g, N * K); d(rank, hard, s, g); sa_writable(s); sa_writable(g);
  uint32_t w[L]; int met[L], dis[L]; bool cw[L];
  for (int l = 0; l < L; ++l) { w[l] = 0; met[l] = 0; dis[l] = 0; cw[l] = false; for (int i = 0; i < N; ++i) { uint32_t b = hard[B * l + i / 8] >> (7 - i % 8) & 1; w[l] |= b << i; met[l] += b ? -s[i] : s[i]; } for (int k = 0; k < K; ++k) dis[l] += (w[l] ^ signs) >> r.base[k] & 1; }
  for (int l = 0; l + 1 < L; ++l) sa_true(met[l] >= met[l + 1], "list is ordered by likelihood");
  sa_true(rank[0] == 0, "first rank is zero");
  for (int l = 0; l + 1 < L; ++l) sa_true(rank[l + 1] == rank[l] + (met[l] != met[l + 1]), "rank grows exactly where the likelihood falls");
  for (int l = 0; l < L; ++l) sa_true(dis[l] <= O, "listed word is reachable from the most reliable positions");
  for (int m = 0; m < 1 << K; ++m) { uint32_t c = 0; int e = 0, v = 0; for (int i = 0; i < N; ++i) { c |= (uint32_t)r.cw[m][i] << i; v += r.cw[m][i] ? -s[i] : s[i]; } for (int k = 0; k < K; ++k) e += (r.cw[m][r.base[k]] ^ (int)(signs >> r.base[k])) & 1;
    bool in = false, dup = false; for (int l = 0; l < L; ++l) { bool here = w[l] == c; dup |= in && here; in |= here; cw[l] |= here; }
    sa_true(!dup, "no codeword is listed twice"); sa_true(in || e > O || v <= met[L - 1], "no likelier codeword is left out"); }
  for (int l = 0; l < L; ++l) sa_true(cw[l], "every listed word is a codeword");
}
ENTRY(l7) { systematic<7, 4>(G, 0b1011, true); osld<7, 4, 1, 2>(G, up7, 20, 7); osld<7, 4, 2, 4>(G, mx7, 20, 7); osld<7, 4, 1, 5>(G, mx7, 1, 1); }
ENTRY(l7b) { systematic<7, 4>(G, 0b1011, false); osld<7, 4, 4, 16>(G, mx7, 20, 7); }
ENTRY(l7c) { systematic<7, 4>(G, 0b1101, false); osld<7, 4, 0, 1>(G, mx7, 3, 1); osld<7, 4, 3, 4>(G, up7, 0, 1); }
ENTRY(l15_5a) { systematic<15, 5>(G, 0b10100110111, true); osld<15, 5, 1, 4>(G, up15, 50, 3, 0x1fff); }
ENTRY(l15_5b) { systematic<15, 5>(G, 0b10100110111, true); osld<15, 5, 2, 3>(G, mx15, 1, 1, 0x3ffe); }
ENTRY(l15_5c) { systematic<15, 5>(G, 0b10100110111, false); osld<15, 5, 2, 8>(G, my15, 1, 1, 0x7fe, 0x4001); }
ENTRY(l15_7) { systematic<15, 7>(G, 0b111010001, true); osld<15, 7, 1, 4>(G, my15, 40, 3, 0xfff, 0x5000); }
// the extreme soft value counts as the largest magnitude
ENTRY(extreme) { systematic<15, 5>(G, 0b10100110111, true); static Ref25<15, 5> r; int8_t s[15]; uint32_t e = (uint32_t)sa_word("signs", 14); for (int i = 0; i < 14; ++i) s[i] = (int8_t)(e >> i & 1 ? -20 - 7 * i : 20 + 7 * i); s[14] = -128; static CODE::OrderedStatisticsDecoder<15, 5, 5> d; static CODE::OrderedStatisticsListDecoder<15, 5, 5, 2> l; uint8_t a[2] = {}, b[4] = {}; int rank[2]; bool u = d(a, s, G); l(rank, b, s, G);
  r.make(G, dn15); int best = -10000, tie = 0; uint32_t word = 0; for (int m = 0; m < 32; ++m) { int met = 0; uint32_t w = 0; for (int i = 0; i < 15; ++i) { int v = s[i] < -127 ? -127 : s[i]; met += r.cw[m][i] ? -v : v; w |= (uint32_t)r.cw[m][i] << (15 - i); } bool gt = met > best, eq = met == best; tie = gt ? 0 : tie | eq; word = gt ? w : word; best = gt ? met : best; }
  sa_true(u == !tie, "reports whether the best codeword is unique"); sa_true(tie || (uint32_t)(a[0] << 8 | a[1]) == word, "most likely codeword when every position is tried"); sa_true(tie || (uint32_t)(b[0] << 8 | b[1]) == word, "most likely codeword heads the list"); sa_true((rank[1] == 0) == (bool)tie, "equal ranks exactly on a tie"); }
// several extreme values anywhere in the reliability order, low orders: they rank as the largest magnitude (equal ones by position)
template <int N, int K, int O, int L> static void edge(const int8_t *g, std::initializer_list<int> ext, int lo, int step, uint32_t mask, uint32_t fixed) {
  int order[N], c = 0; bool e[N]; for (int i = 0; i < N; ++i) e[i] = false; for (int x : ext) e[x] = true;
  for (int i = 0; i < N; ++i) if (e[i]) order[c++] = i;
  for (int i = N - 1; i >= 0; --i) if (!e[i]) order[c++] = i; // upper positions next
  static Ref25<N, K> r; r.make(g, order); int8_t s[N], v[N]; uint32_t signs = ((uint32_t)sa_word("signs", N) & mask) ^ fixed;
  for (int i = 0; i < N; ++i) { int m = lo + step * i; if (e[i]) signs |= 1u << i; s[i] = e[i] ? (int8_t)-128 : (int8_t)(signs >> i & 1 ? -m : m); v[i] = e[i] ? (int8_t)-127 : s[i]; }
  static CODE::OrderedStatisticsDecoder<N, K, O> d; static CODE::OrderedStatisticsListDecoder<N, K, O, L> l; uint8_t a[(N + 7) / 8] = {}, b[(N + 7) / 8 * L] = {}; int rank[L];
  sa_readonly(s, N); bool u = d(a, s, g); l(rank, b, s, g); sa_writable(s);
  int best = -128 * N; uint32_t word = 0; bool tie = false;
  for (int m = 0; m < 1 << K; ++m) { int dis = 0, met = 0; uint32_t w = 0; for (int k = 0; k < K; ++k) dis += (r.cw[m][r.base[k]] ^ (int)(signs >> r.base[k])) & 1; for (int i = 0; i < N; ++i) { met += r.cw[m][i] ? -v[i] : v[i]; w |= (uint32_t)r.cw[m][i] << i; }
    bool in = dis <= O, gt = in && met > best, eq = in && met == best; word = gt ? w : word; best = gt ? met : best; tie = gt ? false : tie || eq; }
  uint32_t x = 0, y = 0; for (int i = 0; i < N; ++i) { x |= (uint32_t)(a[i / 8] >> (7 - i % 8) & 1) << i; y |= (uint32_t)(b[i / 8] >> (7 - i % 8) & 1) << i; }
  sa_true(u == !tie, "reports whether the best codeword is unique"); sa_true(tie || x == word, "best codeword reachable from the most reliable positions"); sa_true(tie || y == word, "the best reachable codeword heads the list"); sa_true(L == 1 || (rank[L > 1] == 0) == tie, "equal ranks exactly on a tie");
}
ENTRY(edge0a) { systematic<15, 5>(G, 0b10100110111, true); edge<15, 5, 0, 1>(G, {0, 3}, 10, 3, 0x7fff, 0); }
ENTRY(edge0b) { systematic<15, 5>(G, 0b10100110111, false); edge<15, 5, 0, 1>(G, {1, 6, 9}, 60, 4, 0x7fff, 0); }
ENTRY(edge0c) { systematic<7, 4>(G, 0b1011, true); edge<7, 4, 0, 1>(G, {0}, 40, 14, 0x7f, 0); edge<7, 4, 0, 1>(G, {2, 3}, 1, 1, 0x7f, 0); edge<7, 4, 0, 1>(G, {0, 1, 2}, 1, 1, 0x7f, 0); }
ENTRY(edge1a) { systematic<15, 5>(G, 0b10100110111, true); edge<15, 5, 1, 2>(G, {0, 3}, 10, 3, 0x7fff, 0); }
ENTRY(edge1b) { systematic<7, 4>(G, 0b1101, false); edge<7, 4, 1, 2>(G, {0}, 40, 14, 0x7f, 0); edge<7, 4, 1, 2>(G, {1, 4}, 1, 1, 0x7f, 0); edge<7, 4, 2, 2>(G, {1, 4}, 1, 1, 0x7f, 0); }
ENTRY(edge2) { systematic<15, 7>(G, 0b111010001, true); edge<15, 7, 2, 2>(G, {2, 5, 11}, 30, 5, 0x3ff, 0x1000); }
ENTRY(l15_7o6) { systematic<15, 7>(G, 0b111010001, true); osld<15, 7, 6, 3>(G, mx15, 40, 3, 0x3f, 0x5400); }
// longer codes: every message, a handful of errors within half the distance
template <int N, int K, int O, int L> static void sent(std::initializer_list<int> polys, uint32_t seed, int lo, int span, std::initializer_list<int> errs) {
  static int8_t g[N * K]; CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(g, true, polys);
  const int B = (N + 7) / 8; int8_t s[N]; uint8_t cw[B] = {};
  for (int j = 0; j < K; ++j) { bool m = sa_bit("msg"); for (int i = 0; i < N; ++i) cw[i / 8] ^= (uint8_t)((m & g[N * j + i]) << (7 - i % 8)); }
  for (int i = 0; i < N; ++i) { seed = seed * 1664525u + 1013904223u; int v = lo + (int)((seed >> 8) % (uint32_t)span); bool e = false; for (int x : errs) e ^= x == i; s[i] = (int8_t)(((cw[i / 8] >> (7 - i % 8) & 1) ^ e) ? -v : v); }
  static CODE::OrderedStatisticsDecoder<N, K, O> d; uint8_t h[B] = {}; sa_readonly(s, N); bool u = d(h, s, g);
  sa_true(u, "the sent codeword is the only best one"); sa_eq(h, cw, B, "the sent codeword is found");
  static CODE::OrderedStatisticsListDecoder<N, K, O, L> l; uint8_t hl[B * L] = {}; int rank[L]; l(rank, hl, s, g); sa_writable(s);
  sa_true(rank[0] == 0 && (L == 1 || rank[L > 1] == 1), "the sent codeword is the only best one"); sa_eq(hl, cw, B, "the sent codeword heads the list");
}
ENTRY(s31) { typedef RF<5, 0b100101> R; sent<31, 16, 1, 2>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}, 1, 60, 20, {3, 17}); }
ENTRY(s31b) { typedef RF<5, 0b100101> R; sent<31, 16, 2, 8>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}, 7, 60, 10, {0, 30}); }
ENTRY(s31c) { typedef RF<5, 0b100101> R; sent<31, 16, 3, 4>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}, 9, 60, 10, {2, 9, 20}); }
ENTRY(s63) { typedef RF<6, 0b1000011> R; sent<63, 39, 2, 4>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5), (int)R::minpoly(7)}, 3, 60, 40, {62, 11}); }
#define P127 {0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}
ENTRY(s127) { sent<127, 64, 1, 4>(P127, 5, 40, 50, {}); }
ENTRY(s127b) { sent<127, 64, 1, 1>(P127, 11, 1, 127, {5}); }
#if SA_TIER
ENTRY(s127c) { sent<127, 64, 2, 4>(P127, 12, 80, 20, {5, 90}); }
#endif
// lengths beyond a byte: a random code, every message, errors in the least reliable half
template <int N, int K, int O, int L> static void wide(uint32_t seed, int lo, int span, std::initializer_list<int> errs) {
  static int8_t g[N * K]; const int B = (N + 7) / 8; int8_t s[N]; uint8_t cw[B] = {};
  for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) { seed = seed * 1664525u + 1013904223u; g[N * j + i] = i < K ? i == j : (int8_t)(seed >> 27 & 1); }
  for (int j = 0; j < K; ++j) { bool m = sa_bit("msg"); for (int i = 0; i < N; ++i) cw[i / 8] ^= (uint8_t)((m & g[N * j + i]) << (7 - i % 8)); }
  for (int i = 0; i < N; ++i) { seed = seed * 1664525u + 1013904223u; int v = lo + (int)((seed >> 8) % (uint32_t)span); bool e = false; for (int x : errs) e ^= x == i; s[i] = (int8_t)(((cw[i / 8] >> (7 - i % 8) & 1) ^ e) ? -v : v); }
  static CODE::OrderedStatisticsDecoder<N, K, O> d; uint8_t h[B] = {}; sa_readonly(s, N); bool u = d(h, s, g);
  sa_true(u, "the sent codeword is the only best one"); sa_eq(h, cw, B, "the sent codeword is found");
  static CODE::OrderedStatisticsListDecoder<N, K, O, L> l; uint8_t hl[B * L] = {}; int rank[L]; l(rank, hl, s, g); sa_writable(s);
  sa_true(rank[0] == 0 && rank[L - 1] >= 1, "the sent codeword is the only best one"); sa_eq(hl, cw, B, "the sent codeword heads the list");
}
ENTRY(w200) { wide<200, 12, 1, 4>(1, 20, 100, {3, 130, 199}); }
ENTRY(w300) { wide<300, 14, 2, 3>(2, 20, 100, {0, 17, 140, 255, 256, 299}); }
