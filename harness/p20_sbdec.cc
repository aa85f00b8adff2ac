#include "sa.h"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
static int weight(uint32_t x) { int w = 0; for (int i = 0; i < 31; ++i) w += x >> i & 1; return w; }
template <int N, int K, uint32_t G> static bool member(uint32_t r) { for (int i = K - 1; i >= 0; --i) r ^= (0 - (r >> (i + N - K) & 1)) & (G << i); return r == 0; }
// every received word: the codeword within the radius, or minus one when there is none
template <int N, int K, int G, int T> static void all() {
  CODE::ShortBCHCodeDecoder<N, K, G, T> d; const int P = N - K;
  int in = (int)sa_word("received", N); int out = d(in);
  int32_t want = -1;
  for (int m = 0; m < 1 << K; ++m) { uint32_t c = (uint32_t)m << P; for (int i = K - 1; i >= 0; --i) if (c >> (i + P) & 1) c ^= (uint32_t)G << i; c |= 0; c = (uint32_t)m << P | (c & ((1u << P) - 1)); bool near = weight(c ^ (uint32_t)in) <= T; want = near ? (int32_t)c : want; }
  sa_eq(&out, &want, sizeof out, "nearest codeword within the radius, else failure");
}
ENTRY(h7_4) { all<7, 4, 0b1011, 1>(); }
ENTRY(h7_4b) { all<7, 4, 0b1101, 1>(); }
ENTRY(h7_1) { all<7, 1, 0b1111111, 3>(); }
ENTRY(h15_11) { all<15, 11, 0b10011, 1>(); }
ENTRY(h15_7) { all<15, 7, 0b111010001, 2>(); }
ENTRY(h15_5) { all<15, 5, 0b10100110111, 3>(); }
ENTRY(h15_5t2) { all<15, 5, 0b10100110111, 2>(); }
ENTRY(h15_5t1) { all<15, 5, 0b10100110111, 1>(); }
// longer codes: every message, every pattern of up to T errors (one position free, the others fixed)
template <int N, int K, int G, int T> static void patterns(int a, int b) {
  static CODE::ShortBCHCodeDecoder<N, K, G, T> d; new (&d) CODE::ShortBCHCodeDecoder<N, K, G, T>();
  CODE::ShortBCHCodeEncoder<N, K, G> e; int cw = e((int)sa_word("msg", K));
  int o0 = d(cw); sa_eq(&o0, &cw, sizeof cw, "codeword decodes to itself");
  for (int c = 0; c < N; ++c) { int err = 1 << c; if (T >= 2 && a >= 0) err |= 1 << a; if (T >= 3 && b >= 0) err |= 1 << b; int o = d(cw ^ err); sa_eq(&o, &cw, sizeof cw, "errors within the radius are corrected"); }
}
#define G23 (23, 12, 0b101011100011, 3)
ENTRY(g23a) { patterns<23, 12, 0b101011100011, 3>(22, 21); patterns<23, 12, 0b101011100011, 3>(-1, -1); }
ENTRY(g23b) { patterns<23, 12, 0b101011100011, 3>(0, 11); patterns<23, 12, 0b101011100011, 3>(5, -1); }
ENTRY(g23c) { patterns<23, 12, 0b110001110101, 3>(0, 12); patterns<23, 12, 0b110001110101, 3>(17, 3); }
ENTRY(b31) { patterns<31, 16, 0b1000111110101111, 3>(30, 16); }
ENTRY(b31b) { patterns<31, 16, 0b1000111110101111, 3>(0, 14); }
ENTRY(b31c) { patterns<31, 16, 0b1000111110101111, 3>(15, -1); }
// all patterns of three errors for the all-zero codeword of the perfect code; linearity is covered above
template <int N, int K, int G, int T> static void zero() {
  CODE::ShortBCHCodeDecoder<N, K, G, T> d; uint32_t err = (uint32_t)sa_word("err", 12) << (N - 12);
  int o = d((int)err); int w = weight(err);
  sa_true(!(w <= T) || o == 0, "errors within the radius are corrected");
  sa_true(o == -1 || member<N, K, (uint32_t)G>((uint32_t)o), "result is a codeword or failure");
  sa_true(o == -1 || weight((uint32_t)o ^ err) <= T, "result is within the radius");
}
ENTRY(z23) { zero<23, 12, 0b101011100011, 3>(); }
ENTRY(z23b) { zero<23, 12, 0b110001110101, 3>(); }
ENTRY(z31) { zero<31, 16, 0b1000111110101111, 3>(); }
