#include "sa.h"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
// erasure probability of a bit channel, straight from the definition: each bit of the index (from the top) says which half it is in
static double channel(double pe, int i, int level) { for (int b = level - 1; b >= 0; --b) pe = i >> b & 1 ? pe * pe : pe * (2 - pe); return pe; }
static bool below(double a, double b) { return a < b - 1e-9 * b; } // clearly smaller
// threshold construction: frozen where clearly above, free where clearly below; nothing else is touched
template <int LEVEL> static void threshold(double pe, double th) {
  const int N = 1 << LEVEL, W = (N + 31) / 32; uint32_t f[W + 2], old[W + 2]; sa_bits(old, sizeof old, "old bits"); memcpy(f, old, sizeof f);
  CODE::PolarFreezer fr; int K = fr(f + 1, LEVEL, pe, th), free = 0;
  for (int i = 0; i < N; ++i) { uint32_t b = f[1 + i / 32] >> i % 32 & 1; double p = channel(pe, i, LEVEL); if (below(th, p)) sa_true(b == 1, "unreliable bits are frozen"); if (below(p, th)) sa_true(b == 0, "reliable bits carry information"); free += !b; }
  sa_true(K == free, "returns the number of information bits");
  sa_eq(&f[0], &old[0], 4, "nothing in front of the set is written"); sa_eq(&f[W + 1], &old[W + 1], 4, "nothing behind the set is written");
  for (int i = N; i < 32 * W; ++i) { uint32_t x = f[W] >> i % 32 & 1, y = old[W] >> i % 32 & 1; sa_eq(&x, &y, 4, "bits beyond the length keep their value"); }
}
// K best channels: exactly K are free, none of them clearly worse than a frozen one
template <int LEVEL, int MAXM> static void best(int K, double pe) {
  const int N = 1 << LEVEL, W = (N + 31) / 32; uint32_t f[W + 2], old[W + 2]; sa_bits(old, sizeof old, "old bits"); memcpy(f, old, sizeof f); static CODE::PolarCodeConst0<MAXM> c;
  if (pe > 0) c(f + 1, LEVEL, K, pe); else c(f + 1, LEVEL, K);
  pe = pe > 0 ? pe : std::exp(-1.); int free = 0; double worst = 0, good = 1;
  for (int i = 0; i < N; ++i) { uint32_t b = f[1 + i / 32] >> i % 32 & 1; double p = channel(pe, i, LEVEL); free += !b; if (b) { if (p < good) good = p; } else if (p > worst) worst = p; }
  sa_true(free == K, "as many information bits as asked for"); sa_true(!below(good, worst), "the most reliable bits are chosen");
  sa_eq(&f[0], &old[0], 4, "nothing in front of the set is written"); sa_eq(&f[W + 1], &old[W + 1], 4, "nothing behind the set is written");
  for (int i = N; i < 32 * W; ++i) { uint32_t x = f[W] >> i % 32 & 1, y = old[W] >> i % 32 & 1; sa_eq(&x, &y, 4, "bits beyond the length keep their value"); }
}
// sequences: every index once, least reliable first; prefixes are the frozen sets of the direct construction
template <int LEVEL, int MAXM> static void sequence(double pe) {
  const int N = 1 << LEVEL; static int s[N + 2]; static uint8_t seen[N]; if (LEVEL < 10) sa_bits(s, sizeof s, "old sequence"); int a = s[0], b = s[N + 1]; memset(seen, 0, sizeof seen); static CODE::PolarSeqConst0<MAXM> c;
  if (pe > 0) c(s + 1, LEVEL, pe); else c(s + 1, LEVEL);
  pe = pe > 0 ? pe : std::exp(-1.); bool once = true, order = true;
  for (int i = 0; i < N; ++i) { if (s[1 + i] < 0 || s[1 + i] >= N || seen[s[1 + i]]++) { once = false; break; } }
  sa_true(once, "every index occurs exactly once");
  if (once) for (int i = 1; i < N; ++i) order &= !below(channel(pe, s[i], LEVEL), channel(pe, s[1 + i], LEVEL));
  sa_true(order, "indices are in ascending order of reliability"); sa_eq(&s[0], &a, 4, "nothing in front of the sequence is written"); sa_eq(&s[N + 1], &b, 4, "nothing behind the sequence is written");
}
ENTRY(th0) { threshold<0>(0.5, 0.4); threshold<0>(0.5, 0.6); threshold<1>(0.5, 0.5); threshold<2>(0.3, 0.2); threshold<3>(0.5, 0.5); threshold<4>(0.5, 0.9); }
ENTRY(th5) { threshold<5>(0.5, 0.5); threshold<5>(0.1, 0.0001); threshold<5>(0.9, 0.99); threshold<5>(0.5, 0); threshold<5>(0.5, 1); }
ENTRY(th6) { threshold<6>(0.5, 0.5); threshold<7>(0.25, 0.01); threshold<8>(0.3, 0.1); }
ENTRY(th10) { threshold<10>(0.5, 0.5); threshold<10>(0.4, 1e-9); threshold<11>(0.75, 0.999); }
ENTRY(th13) { threshold<13>(0.3, 0.1); }
ENTRY(defaults) { const int N = 256; uint32_t f[8], g[8]; for (int i = 0; i < 8; ++i) f[i] = 0x12345678u * i, g[i] = ~f[i]; CODE::PolarFreezer fr; int a = fr(f, 8), b = fr(g, 8, 0.5, 0.5); sa_true(a == b, "returns the number of information bits"); sa_eq(f, g, sizeof f, "old content and history do not matter"); (void)N; }
ENTRY(best0) { for (int K = 0; K <= 1; ++K) best<0, 4>(K, 0.3); for (int K = 0; K <= 2; ++K) best<1, 1>(K, 0.3); for (int K = 0; K <= 4; ++K) best<2, 3>(K, 0.5); for (int K = 0; K <= 8; ++K) best<3, 3>(K, 0.2); }
ENTRY(best4) { for (int K = 0; K <= 16; ++K) best<4, 5>(K, 0.4); }
ENTRY(best5) { for (int K = 0; K <= 32; ++K) best<5, 5>(K, -1); }
ENTRY(best6) { for (int K = 0; K <= 64; K += 7) best<6, 6>(K, 0.5); best<6, 8>(64, 0.5); best<6, 8>(1, 0.01); best<6, 8>(63, 0.99); }
ENTRY(best8) { for (int K = 0; K <= 256; K += 32) best<8, 8>(K, 0.3); best<8, 8>(255, 0.6); best<8, 8>(1, 0.6); }
ENTRY(best11) { best<11, 11>(1024, -1); best<11, 12>(1500, 0.2); best<11, 12>(3, 0.8); }
ENTRY(best14) { best<14, 14>(8192, 0.5); }
ENTRY(seq0) { sequence<0, 2>(0.3); sequence<1, 1>(0.3); sequence<2, 2>(0.5); sequence<3, 5>(0.1); sequence<4, 4>(0.7); sequence<5, 5>(-1); }
ENTRY(seq6) { sequence<6, 6>(-1); sequence<7, 8>(0.5); sequence<8, 8>(0.05); }
ENTRY(seq10) { sequence<10, 10>(-1); sequence<11, 12>(0.4); }
ENTRY(seq14) { sequence<14, 14>(-1); }
// a construction object can be used again for other lengths
ENTRY(reuse) { static CODE::PolarCodeConst0<9> a, b; static CODE::PolarSeqConst0<9> c, d; uint32_t x[16], y[16]; static int s[512], t[512]; memset(x, 0, sizeof x); memset(y, 255, sizeof y);
  a(x, 9, 300, 0.7); a(x, 6, 20, 0.4); b(y, 6, 20, 0.4); sa_eq(x, y, 8, "old content and history do not matter");
  c(s, 9, 0.9); c(s, 7, 0.4); d(t, 7, 0.4); sa_eq(s, t, 128 * sizeof(int), "old content and history do not matter"); }
ENTRY(th17) { threshold<17>(0.5, 0.5); }
ENTRY(best17) { best<17, 17>(70000, 0.5); }
ENTRY(seq17) { sequence<17, 17>(-1); }
// probabilities that are exact in binary: a channel at the threshold still carries information
template <int LEVEL> static void equal(double pe) { const int N = 1 << LEVEL, W = (N + 31) / 32; for (int at = 0; at < N; ++at) { double th = channel(pe, at, LEVEL); uint32_t f[W]; for (int i = 0; i < W; ++i) f[i] = 0; CODE::PolarFreezer fr; int K = fr(f, LEVEL, pe, th), want = 0; for (int i = 0; i < N; ++i) { bool b = channel(pe, i, LEVEL) > th; want += !b; sa_true((f[i / 32] >> i % 32 & 1) == b, "frozen exactly where the erasure probability exceeds the threshold"); } sa_true(K == want, "returns the number of information bits"); } }
ENTRY(equal) { equal<0>(0.5); equal<1>(0.5); equal<2>(0.5); equal<3>(0.5); equal<4>(0.5); equal<2>(0.25); }
