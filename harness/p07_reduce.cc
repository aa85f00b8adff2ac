#include "sa.h"
#include "exclusive_reduce.hh"
template <int N, class T, class OP> static void reduce(OP op, const char *label) {
  T in[N], out[N + 2], want[N];
  sa_bits(in, sizeof in, "in"); sa_bits(out, sizeof out, "old");
  T g0 = out[0], g1 = out[N + 1];
  sa_readonly(in, sizeof in);
  CODE::exclusive_reduce(in, out + 1, N, op);
  for (int i = 0; i < N; ++i) { bool first = true; T acc = T(); for (int j = 0; j < N; ++j) if (j != i) { acc = first ? in[j] : op(acc, in[j]); first = false; } want[i] = acc; }
  for (int i = 0; i < N; ++i) sa_eq(&out[1 + i], &want[i], sizeof(T), label);
  sa_eq(&out[0], &g0, sizeof(T), "nothing before the output is written");
  sa_eq(&out[N + 1], &g1, sizeof(T), "nothing after the output is written");
}
template <class T> struct Xor { T operator()(T a, T b) { return a ^ b; } };
ENTRY(xor) { reduce<2, uint8_t>(Xor<uint8_t>(), "xor of all others"); reduce<3, uint8_t>(Xor<uint8_t>(), "xor of all others"); reduce<4, uint32_t>(Xor<uint32_t>(), "xor of all others"); reduce<7, uint64_t>(Xor<uint64_t>(), "xor of all others"); reduce<20, uint16_t>(Xor<uint16_t>(), "xor of all others"); reduce<33, uint8_t>(Xor<uint8_t>(), "xor of all others"); }
// minimum, as in the check node update: every small value combination
template <int N, int W> static void mins() {
  int8_t in[N], out[N];
  for (int i = 0; i < N; ++i) in[i] = (int8_t)sa_word("m", W);
  CODE::exclusive_reduce(in, out, N, [](int8_t a, int8_t b) { return a < b ? a : b; });
  for (int i = 0; i < N; ++i) { int8_t w = 127; for (int j = 0; j < N; ++j) if (j != i) w = w < in[j] ? w : in[j]; sa_eq(&out[i], &w, 1, "minimum of all others"); }
}
ENTRY(min2) { mins<2, 7>(); }
ENTRY(min3) { mins<3, 4>(); }
ENTRY(min4) { mins<4, 3>(); }
ENTRY(min5) { mins<5, 2>(); }
ENTRY(min6) { mins<6, 2>(); }
template <int N, int W> static void ands() { uint8_t in[N], out[N]; for (int i = 0; i < N; ++i) in[i] = (uint8_t)sa_word("in", W) * 37; CODE::exclusive_reduce(in, out, N, [](uint8_t a, uint8_t b) { return (uint8_t)(a & b); }); for (int i = 0; i < N; ++i) { uint8_t w = 255; for (int j = 0; j < N; ++j) if (j != i) w &= in[j]; sa_eq(&out[i], &w, 1, "and of all others"); } }
ENTRY(and2) { ands<2, 8>(); }
ENTRY(and3) { ands<3, 5>(); }
ENTRY(and8) { ands<8, 2>(); }
ENTRY(and13) { ands<13, 1>(); }
// sums modulo 256: integer addition is associative and commutative but has no inverse trick to hide behind
template <int N, int W> static void sums() { uint8_t in[N], out[N]; for (int i = 0; i < N; ++i) in[i] = (uint8_t)sa_word("in", W) << (8 - W); CODE::exclusive_reduce(in, out, N, [](uint8_t a, uint8_t b) { return (uint8_t)(a + b); }); for (int i = 0; i < N; ++i) { uint8_t w = 0; for (int j = 0; j < N; ++j) if (j != i) w += in[j]; sa_eq(&out[i], &w, 1, "sum of all others"); } }
ENTRY(sum4) { sums<4, 4>(); }
ENTRY(sum7) { sums<7, 2>(); }
// many elements
template <int N> static void many() {
  static uint32_t in[N], out[N]; uint32_t all = 0; for (int i = 0; i < N; ++i) { in[i] = (uint32_t)i * 2654435761u; if (i < 3 || i > N - 3 || i % 257 == 0) in[i] = (uint32_t)sa_word("in", 8); all ^= in[i]; }
  CODE::exclusive_reduce(in, out, N, Xor<uint32_t>()); bool ok = true; for (int i = 0; i < N; ++i) { uint32_t w = all ^ in[i]; if (i < 4 || i > N - 4 || i % 251 == 0 || i % 256 == 0) sa_eq(&out[i], &w, 4, "xor of all others among many"); }
  for (int i = 0; i < N; ++i) in[i] = 7 + i; in[N / 2] = (uint32_t)sa_word("in", 3); CODE::exclusive_reduce(in, out, N, [](uint32_t a, uint32_t b) { return a < b ? a : b; });
  for (int i = 0; i < N; ++i) { uint32_t w = i == N / 2 ? 7 : in[N / 2] < (i ? 7u : 8u) ? in[N / 2] : i ? 7u : 8u; sa_eq(&out[i], &w, 4, "minimum of all others among many"); }
}
ENTRY(many300) { many<300>(); }
ENTRY(many40000) { many<40000>(); }
ENTRY(many70000) { many<70000>(); }
