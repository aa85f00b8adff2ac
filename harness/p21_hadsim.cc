#include "sa.h"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
static bool par(uint32_t x) { bool p = false; for (int i = 0; i < 20; ++i) p ^= x >> i & 1; return p; }
// the message with the strictly largest correlation, minus one on a tie
template <int K, bool HAD> static int best_msg(const int8_t *c) {
  const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; int best = -1000000, word = -1;
  for (int m = 0; m < 1 << K; ++m) { int s = 0; for (int i = 0; i < N; ++i) s += par((uint32_t)m & (uint32_t)(HAD ? i | N : i + 1)) ? -c[i] : c[i]; bool gt = s > best, eq = s == best; word = gt ? m : eq ? -1 : word; best = gt ? s : best; }
  return word;
}
template <int K, bool HAD> static void run(const int8_t *c) {
  const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; int8_t copy[N]; for (int i = 0; i < N; ++i) copy[i] = c[i];
  sa_readonly(copy, N); int got; if (HAD) { CODE::HadamardDecoder<K> d; got = d(copy); } else { CODE::SimplexDecoder<K> d; got = d(copy); }
  int want = best_msg<K, HAD>(c); sa_eq(&got, &want, sizeof got, "message of the largest correlation, failure on a tie"); sa_writable(copy);
}
// bits[i] free bits for value i, spread over the int8 range by lo + step * x
template <int K, bool HAD> static void grid(int bits, int lo, int step, int firstfree, int nfree, uint32_t rest) {
  const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; int8_t c[N];
  for (int i = 0; i < N; ++i) { if (i >= firstfree && i < firstfree + nfree) { int x = (int)sa_word("soft", bits); c[i] = (int8_t)(lo + step * x); } else { rest = rest * 1664525u + 1013904223u; c[i] = (int8_t)(rest >> 24); } }
  run<K, HAD>(c);
}
// transmitted message free, amplitudes (negative ones are errors) fixed
template <int K, bool HAD> static void sent(uint32_t seed, int lo, int span) {
  const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; int8_t c[N]; int msg = (int)sa_word("msg", K);
  if (HAD) { CODE::HadamardEncoder<K> e; e(c, msg); } else { CODE::SimplexEncoder<K> e; e(c, msg); }
  for (int i = 0; i < N; ++i) { seed = seed * 1664525u + 1013904223u; int a = lo + (int)((seed >> 8) % (uint32_t)span); c[i] = (int8_t)(c[i] * a); }
  run<K, HAD>(c);
}
ENTRY(h2) { grid<2, true>(8, -128, 1, 0, 2, 0); }
ENTRY(h3) { grid<3, true>(4, -8, 1, 0, 4, 0); }
ENTRY(h3x) { grid<3, true>(4, -128, 17, 0, 4, 0); }
ENTRY(h3y) { grid<3, true>(8, -128, 1, 0, 2, 5); grid<3, true>(8, -128, 1, 1, 2, 6); grid<3, true>(8, -128, 1, 2, 2, 7); }
ENTRY(h4) { grid<4, true>(2, -1, 1, 0, 8, 0); }
ENTRY(h4x) { grid<4, true>(2, -128, 85, 0, 8, 0); }
ENTRY(h4y) { grid<4, true>(4, -8, 1, 0, 4, 1); grid<4, true>(4, -8, 1, 4, 4, 2); grid<4, true>(4, -128, 17, 2, 4, 3); }
ENTRY(h5) { grid<5, true>(1, -1, 2, 0, 14, 1); grid<5, true>(1, -1, 2, 2, 14, 1); }
ENTRY(h5x) { grid<5, true>(2, -3, 2, 0, 7, 3); grid<5, true>(2, -128, 85, 8, 7, 3); }
ENTRY(h6) { grid<6, true>(1, -128, 255, 7, 10, 9); grid<6, true>(1, -1, 2, 20, 10, 9); }
ENTRY(h7) { grid<7, true>(1, -128, 255, 7, 7, 9); }
ENTRY(s2) { grid<2, false>(5, -16, 1, 0, 3, 0); }
ENTRY(s2x) { grid<2, false>(8, -128, 1, 0, 2, 4); grid<2, false>(8, -128, 1, 1, 2, 4); }
ENTRY(s2y) { grid<2, false>(4, -128, 17, 0, 3, 4); }
ENTRY(s3) { grid<3, false>(2, -1, 1, 0, 7, 4); }
ENTRY(s3x) { grid<3, false>(2, -128, 85, 0, 7, 4); }
ENTRY(s3y) { grid<3, false>(4, -8, 1, 0, 4, 4); grid<3, false>(4, -8, 1, 3, 4, 4); }
ENTRY(s4) { grid<4, false>(1, -1, 2, 0, 15, 4); }
ENTRY(s4x) { grid<4, false>(2, -1, 1, 0, 7, 4); grid<4, false>(2, -128, 85, 8, 7, 5); }
ENTRY(s5) { grid<5, false>(1, -1, 2, 0, 11, 4); grid<5, false>(1, -128, 255, 20, 11, 4); }
ENTRY(s6) { grid<6, false>(1, -1, 2, 30, 8, 4); }
template <bool HAD> static void sents(int which) {
  const int lo[6] = {1, 0, -20, -60, -127, 127}, sp[6] = {1, 128, 100, 188, 255, 1};
  for (int n = 0; n < 6; ++n) { if (which == 0) sent<2, HAD>(n, lo[n], sp[n]); if (which == 1) sent<3, HAD>(n, lo[n], sp[n]); if (which == 2) sent<4, HAD>(n, lo[n], sp[n]); if (which == 3) sent<5, HAD>(n, lo[n], sp[n]); if (which == 4) sent<6, HAD>(n, lo[n], sp[n]); }
}
ENTRY(hs) { for (int w = 0; w < 5; ++w) sents<true>(w); }
ENTRY(ss) { for (int w = 0; w < 5; ++w) sents<false>(w); }
ENTRY(hs7) { sent<7, true>(1, -20, 100); sent<7, true>(2, 127, 1); sent<8, true>(1, 1, 1); sent<8, true>(2, 127, 1); }
ENTRY(ss7) { sent<7, false>(1, -20, 100); sent<7, false>(2, 127, 1); }
// mostly erased words: all values zero except a few free ones (zero included)
template <int K, bool HAD> static void sparse(int a, int b, int c0, int bits, int lo) {
  const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; int8_t c[N];
  for (int i = 0; i < N; ++i) { c[i] = 0; if (i == a % N || i == b % N || i == c0 % N) c[i] = (int8_t)(lo + (int)sa_word("soft", bits)); }
  run<K, HAD>(c);
}
template <int K, bool HAD> static void sparses() { const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; sparse<K, HAD>(0, 1, N - 1, 2, -1); sparse<K, HAD>(N / 2, N / 2, N / 2, 4, -8); sparse<K, HAD>(0, N / 3, N - 2, 1, 0); }
ENTRY(hz) { sparses<2, true>(); sparses<3, true>(); sparses<4, true>(); sparses<5, true>(); sparses<6, true>(); sparses<7, true>(); }
ENTRY(sz) { sparses<2, false>(); sparses<3, false>(); sparses<4, false>(); sparses<5, false>(); sparses<6, false>(); sparses<7, false>(); }
// long codes: errors in less than half of the minimum distance, every value as loud as it gets
template <int K, bool HAD> static void loud(int msg, int nfree, int errors, int a, int b) {
  const int N = HAD ? 1 << (K - 1) : (1 << K) - 1; static int8_t c[N];
  for (int t = 0; t < nfree; ++t) msg ^= sa_bit("msg") << (t * (K - 1) / (nfree > 1 ? nfree - 1 : 1));
  for (int i = 0; i < N; ++i) { bool neg = par((uint32_t)msg & (uint32_t)(HAD ? i | N : i + 1)); bool wrong = i * 7 % N < errors; c[i] = (int8_t)((neg ? -1 : 1) * (wrong ? -a : b)); if (b == 127 && neg != wrong) c[i] = wrong ? -127 : -128; }
  int got; if (HAD) { CODE::HadamardDecoder<K> d; got = d(c); } else { CODE::SimplexDecoder<K> d; got = d(c); }
  sa_eq(&got, &msg, sizeof got, "few errors in a loud word are corrected");
}
ENTRY(hl) { loud<8, true>(0x95, 2, 20, 127, 127); loud<9, true>(0x0f3, 2, 40, 100, 127); loud<9, true>(0x1f3, 0, 0, 127, 127); loud<10, true>(0x000, 0, 0, 127, 127); loud<10, true>(0x355, 0, 60, 127, 127); loud<11, true>(0x123, 0, 200, 127, 127); loud<12, true>(0xfff, 0, 100, 127, 127); }
ENTRY(sl) { loud<7, false>(0x45, 2, 20, 127, 127); loud<8, false>(0xf3, 2, 40, 100, 127); loud<8, false>(0x80, 0, 0, 127, 127); loud<9, false>(0x001, 0, 0, 127, 127); loud<9, false>(0x155, 0, 60, 127, 127); loud<10, false>(0x323, 0, 200, 127, 127); loud<11, false>(0x7ff, 0, 100, 127, 127); }
