#include "sa.h"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
// up to 16 codewords: maximum likelihood, ties reported
template <int N, int K, int G, int T> static int ml(const int8_t *soft) {
  CODE::ShortBCHCodeEncoder<N, K, G> e; int32_t best = INT32_MIN, second = INT32_MIN; int word = -1;
  for (int m = 0; m < 1 << K; ++m) { int cw = e(m), met = 0; for (int i = 0; i < N; ++i) met += cw >> i & 1 ? -soft[i] : soft[i]; if (met > best) { second = best; best = met; word = cw; } else if (met > second) second = met; }
  return best == second ? -1 : word;
}
template <int N, int K, int G, int T> static void free(int bits, int scale, int off, int from, int step) {
  CODE::ShortBCHCodeDecoder<N, K, G, T> d; int8_t s[N];
  int left = 16 / bits;
  for (int i = 0; i < N; ++i) s[i] = (int8_t)(i % 2 ? 3 + i : -5 - i);
  for (int i = from % N, n = 0; n < left && n < N; ++n, i = (i + step) % N) s[i] = (int8_t)((int)sa_word("soft", bits) * scale + off);
  sa_readonly(s, N); int o = d(s), w = ml<N, K, G, T>(s); sa_writable(s);
  sa_eq(&o, &w, sizeof o, "most likely codeword, or failure on a tie");
}
ENTRY(m7a) { free<7, 4, 0b1011, 1>(2, 85, -128, 0, 1); }
ENTRY(m7b) { free<7, 4, 0b1011, 1>(2, 1, -1, 0, 1); }
ENTRY(m7c) { free<7, 4, 0b1011, 1>(3, 36, -126, 2, 3); }
ENTRY(m7d) { free<7, 4, 0b1011, 1>(8, 1, -128, 6, 4); }
ENTRY(m7e) { free<7, 1, 0b1111111, 3>(2, 1, -2, 0, 1); free<7, 1, 0b1111111, 3>(4, 17, -128, 3, 1); }
ENTRY(m15a) { free<15, 4, 0b111100010011 ^ 0b1100, 1>(1, 2, -1, 0, 1); }
ENTRY(m15b) { free<15, 4, 0b111101011001, 3>(1, 2, -1, 0, 1); }
ENTRY(m15c) { free<15, 4, 0b111101011001, 3>(2, 60, -90, 3, 2); }
ENTRY(m15d) { free<15, 2, 0b11011011011011, 3>(1, 100, -50, 0, 1); }
// more codewords: a codeword seen without errors decodes whatever the reliabilities are
template <int N, int K, int G, int T> static void noiseless() {
  static CODE::ShortBCHCodeDecoder<N, K, G, T> d; new (&d) CODE::ShortBCHCodeDecoder<N, K, G, T>();
  CODE::ShortBCHCodeEncoder<N, K, G> e; int cw = e((int)sa_word("msg", K)); int8_t s[N];
  const int mags[4][3] = {{1, 0, 0}, {127, 0, 0}, {1, 5, 3}, {100, -3, 0}};
  for (auto m : mags) { for (int i = 0; i < N; ++i) { int v = m[0] + m[1] * (i % 8) + m[2] * (i % 3); s[i] = (int8_t)(cw >> i & 1 ? -v : v); } sa_readonly(s, N); int o = d(s); sa_writable(s); sa_eq(&o, &cw, sizeof o, "noiseless codeword decodes to itself"); }
}
ENTRY(n15_5) { noiseless<15, 5, 0b10100110111, 3>(); }
ENTRY(n15_7) { noiseless<15, 7, 0b111010001, 2>(); }
ENTRY(n15_11) { noiseless<15, 11, 0b10011, 1>(); }
ENTRY(n7_4) { noiseless<7, 4, 0b1011, 1>(); }
ENTRY(n23) { noiseless<23, 12, 0b101011100011, 3>(); }
ENTRY(n31) { noiseless<31, 16, 0b1000111110101111, 3>(); }
// more than 16 codewords: every combination of signs over fixed reliabilities; the result is the best of what the hard
// decision finds after inverting any of the T least reliable values (order[] lists positions from the least reliable on)
template <int N, int K, int G, int T> static void chase(const int *order, int lo, int step) {
  static CODE::ShortBCHCodeDecoder<N, K, G, T> d; new (&d) CODE::ShortBCHCodeDecoder<N, K, G, T>();
  uint32_t cw = (uint32_t)sa_word("signs", N); int8_t s[N]; int mag[N];
  for (int i = 0; i < N; ++i) mag[order[i]] = lo + step * i;
  for (int i = 0; i < N; ++i) s[i] = (int8_t)(cw >> i & 1 ? -mag[i] : mag[i]);
  sa_readonly(s, N); int o = d(s); sa_writable(s);
  int best = -1, word = -1; bool tie = false;
  for (int j = 0; j < 1 << T; ++j) { uint32_t f = 0; for (int i = 0; i < T; ++i) f |= (uint32_t)(j >> i & 1) << order[i]; int c = d((int)(cw ^ f)); int met = 0; for (int i = 0; i < N; ++i) met += (c >> i ^ (int)(cw >> i)) & 1 ? -mag[i] : mag[i];
    bool have = c >= 0, gt = have && met > best, eq = have && met == best && c != word; word = gt ? c : word; best = gt ? met : best; tie = gt ? false : tie || eq; }
  int want = tie ? -1 : word;
  sa_eq(&o, &want, sizeof o, "best codeword reachable by inverting the least reliable values");
}
static const int up15[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, dn15[] = {14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, mx15[] = {7, 0, 11, 3, 14, 9, 5, 1, 12, 6, 2, 13, 10, 4, 8}, my15[] = {4, 9, 0, 2, 13, 7, 5, 14, 3, 1, 12, 6, 8, 10, 11};
ENTRY(c15_5u) { chase<15, 5, 0b10100110111, 3>(up15, 50, 3); }
ENTRY(c15_5d) { chase<15, 5, 0b10100110111, 3>(dn15, 50, 3); }
ENTRY(c15_5x) { chase<15, 5, 0b10100110111, 3>(mx15, 60, 4); }
ENTRY(c15_5y) { chase<15, 5, 0b10100110111, 3>(my15, 99, 2); }
ENTRY(c15_7u) { chase<15, 7, 0b111010001, 2>(up15, 50, 3); }
ENTRY(c15_7d) { chase<15, 7, 0b111010001, 2>(dn15, 99, 2); }
ENTRY(c15_7x) { chase<15, 7, 0b111010001, 2>(mx15, 50, 3); }
ENTRY(c15_11u) { chase<15, 11, 0b10011, 1>(up15, 50, 3); }
ENTRY(c15_11x) { chase<15, 11, 0b10011, 1>(my15, 50, 3); }
