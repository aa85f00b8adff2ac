#include "sa.h"
#include "interleave.hh"
#include "permute.hh"
// input independence: the data are symbols, so equality holds for every content
template <int SIZE, int ORDER, class T> static void inter() {
  T in[SIZE], out[SIZE], back[SIZE];
  sa_bits(in, sizeof in, "in"); sa_bits(out, sizeof out, "old out"); sa_bits(back, sizeof back, "old back");
  sa_readonly(in, sizeof in);
  CODE::Interleave<SIZE, ORDER>(out, in);
  CODE::Deinterleave<SIZE, ORDER>(back, out);
  sa_eq(back, in, sizeof in, "deinterleaving undoes interleaving");
  CODE::Deinterleave<SIZE, ORDER>(out, in);
  CODE::Interleave<SIZE, ORDER>(back, out);
  sa_eq(back, in, sizeof in, "interleaving undoes deinterleaving");
  // block structure: neighbours at the output come from different segments
  CODE::Interleave<SIZE, ORDER>(out, in);
  for (int i = 0; i < SIZE / ORDER; ++i) for (int j = 0; j < ORDER; ++j) sa_eq(&out[ORDER * i + j], &in[i + j * (SIZE / ORDER)], sizeof(T), "output walks the segments in turn");
}
template <int SIZE, class T> static void shuffle() {
  T a[SIZE], b[SIZE];
  sa_bits(a, sizeof a, "a"); memcpy(b, a, sizeof a);
  CODE::FisherYatesShuffle<SIZE> s; CODE::ReverseFisherYatesShuffle<SIZE> r;
  s(a); r(a);
  sa_eq(a, b, sizeof a, "reverse shuffle undoes the shuffle");
  r(a); s(a);
  sa_eq(a, b, sizeof a, "shuffle undoes the reverse shuffle");
  s(a); memcpy(b, a, sizeof a); r(a); s(a);
  sa_eq(a, b, sizeof a, "the shuffle is the same permutation every time");
}
template <int SIZE, class T> static void bitrev() {
  T a[SIZE], b[SIZE];
  sa_bits(a, sizeof a, "a"); memcpy(b, a, sizeof a);
  CODE::BitReversalPermute<SIZE>(a);
  for (int i = 0; i < SIZE; ++i) { int r = 0; for (int k = 1, j = i; k < SIZE; k <<= 1, j >>= 1) r = (r << 1) | (j & 1); sa_eq(&a[r], &b[i], sizeof(T), "element moves to its bit-reversed index"); }
  CODE::BitReversalPermute<SIZE>(a);
  sa_eq(a, b, sizeof a, "applying it twice restores the array");
}
ENTRY(inter) { inter<1, 1, uint8_t>(); inter<6, 2, uint8_t>(); inter<6, 3, uint16_t>(); inter<12, 4, uint32_t>(); inter<15, 5, uint8_t>(); inter<16, 1, uint8_t>(); inter<16, 16, uint8_t>(); inter<60, 6, uint8_t>(); inter<64, 8, uint64_t>(); }
ENTRY(shuffle_a) { shuffle<2, uint8_t>(); shuffle<3, uint8_t>(); shuffle<7, uint32_t>(); shuffle<16, uint8_t>(); }
ENTRY(shuffle_b) { shuffle<100, uint16_t>(); }
ENTRY(shuffle_c) { shuffle<257, uint8_t>(); }
ENTRY(bitrev_a) { bitrev<1, uint8_t>(); bitrev<2, uint8_t>(); bitrev<4, uint16_t>(); bitrev<8, uint8_t>(); bitrev<16, uint32_t>(); bitrev<64, uint8_t>(); }
ENTRY(bitrev_b) { bitrev<256, uint8_t>(); }
// large arrays: labels tell the elements apart
template <int SIZE> static void big() {
  static uint32_t a[SIZE]; static uint8_t seen[SIZE]; static CODE::FisherYatesShuffle<SIZE> s; static CODE::ReverseFisherYatesShuffle<SIZE> r;
  for (int i = 0; i < SIZE; ++i) a[i] = i;
  s(a); bool once = true, back = true, moved = false;
  for (int i = 0; i < SIZE; ++i) { moved |= a[i] != (uint32_t)i; if (a[i] >= SIZE || seen[a[i]]++) once = false; }
  sa_true(once, "every element occurs exactly once"); sa_true(moved, "large arrays are rearranged");
  r(a); for (int i = 0; i < SIZE; ++i) back &= a[i] == (uint32_t)i;
  sa_true(back, "reverse shuffle undoes the shuffle");
}
ENTRY(big300) { big<300>(); }
ENTRY(big4096) { big<4096>(); }
ENTRY(big33000) { big<33000>(); }
ENTRY(big66000) { big<66000>(); }
template <int SIZE, int ORDER> static void bigint() {
  static uint32_t a[SIZE], b[SIZE], c[SIZE]; for (int i = 0; i < SIZE; ++i) a[i] = i;
  CODE::Interleave<SIZE, ORDER>(b, a); CODE::Deinterleave<SIZE, ORDER>(c, b); bool ok = true, pos = true;
  for (int i = 0; i < SIZE; ++i) { ok &= c[i] == (uint32_t)i; pos &= b[i] == (uint32_t)(i / ORDER + i % ORDER * (SIZE / ORDER)); }
  sa_true(ok, "deinterleaving undoes interleaving"); sa_true(pos, "output walks the segments in turn");
}
ENTRY(bigint64800) { bigint<64800, 8>(); }
ENTRY(bigint66000) { bigint<66000, 300>(); }
ENTRY(bigbitrev) { const int N = 1 << 16; static uint32_t a[N]; for (int i = 0; i < N; ++i) a[i] = i; CODE::BitReversalPermute<N>(a); bool ok = true; for (int i = 0; i < N; ++i) { uint32_t r = 0; for (int k = 0; k < 16; ++k) r |= (uint32_t)(i >> k & 1) << (15 - k); ok &= a[i] == r; } sa_true(ok, "element moves to its bit-reversed index"); }
#if SA_TIER
ENTRY(shuffle_d) { shuffle<2048, uint8_t>(); }
ENTRY(bitrev_c) { bitrev<2048, uint8_t>(); }
ENTRY(inter_d) { inter<2048, 16, uint8_t>(); }
#endif
ENTRY(hugebitrev) { const int N = 1 << 18; static uint32_t a[N]; for (int i = 0; i < N; ++i) a[i] = i; CODE::BitReversalPermute<N>(a); bool ok = true; for (int i = 0; i < N; ++i) { uint32_t r = 0; for (int b = 0; b < 18; ++b) r |= (i >> b & 1u) << (17 - b); ok &= a[i] == r; } sa_true(ok, "every element is at the bit-reversed index"); }
