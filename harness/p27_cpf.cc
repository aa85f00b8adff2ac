#include "sa.h"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
typedef CODE::PrimeField<uint32_t, 257> P8;
typedef CODE::PrimeField<uint64_t, 65537> P16;
// data: FREE leading values of each block free in BITS bits at the top or bottom, the rest fixed
template <class PF, class IO, int MAXL, int CNT, int LEN> static void rt(IO *data, const int *ids) {
  CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAXL> c;
  IO blocks[CNT * LEN], subs[CNT], id[CNT], out[LEN];
  for (int i = 0; i < CNT; ++i) id[i] = (IO)ids[i];
  sa_readonly(data, sizeof(IO) * CNT * LEN);
  for (int i = 0; i < CNT; ++i) { int s = c.encode(data, blocks + LEN * i, ids[i], LEN, CNT); sa_true(s >= 0 && s < (int)PF::P - 1, "substitute fits the storage type"); subs[i] = (IO)s; }
  sa_readonly(blocks, sizeof blocks); sa_readonly(subs, sizeof subs); sa_readonly(id, sizeof id);
  for (int i = 0; i < CNT; ++i) { sa_bits(out, sizeof out, "old"); c.decode(out, blocks, subs, id, i, LEN, CNT); sa_eq(out, data + LEN * i, sizeof out, "data block rebuilt from the coded blocks"); }
  sa_writable(data); sa_writable(blocks); sa_writable(subs); sa_writable(id);
}
#define FREE8(i) data[i] = (uint8_t)sa_word("data", 8)
ENTRY(one) { const int ids[] = {1, 2, 64, 126, 127}; for (int x : ids) { uint8_t data[1]; FREE8(0); int id[] = {x}; rt<P8, uint8_t, 255, 1, 1>(data, id); } }
ENTRY(one2) { const int ids[] = {1, 100, 127}; for (int x : ids) { uint8_t data[2]; FREE8(0); FREE8(1); int id[] = {x}; rt<P8, uint8_t, 16, 1, 2>(data, id); } }
ENTRY(two) { uint8_t data[2]; FREE8(0); FREE8(1); int id[] = {2, 127}; rt<P8, uint8_t, 255, 2, 1>(data, id); }
ENTRY(twob) { uint8_t data[2]; FREE8(0); FREE8(1); int id[] = {77, 3}; rt<P8, uint8_t, 1, 2, 1>(data, id); }
ENTRY(three) { uint8_t data[3] = {}; FREE8(0); data[1] = 200; FREE8(2); int id[] = {3, 50, 127}; rt<P8, uint8_t, 255, 3, 1>(data, id); }
ENTRY(four) { uint8_t data[4] = {255, 0, 9, 128}; FREE8(3); FREE8(0); int id[] = {126, 4, 125, 60}; rt<P8, uint8_t, 255, 4, 1>(data, id); }
ENTRY(seven) { uint8_t data[7] = {255, 1, 2, 255, 0, 17, 99}; FREE8(4); int id[] = {120, 121, 7, 9, 8, 127, 50}; rt<P8, uint8_t, 255, 7, 1>(data, id); }
ENTRY(many) { uint8_t data[20]; int id[20]; for (int i = 0; i < 20; ++i) { data[i] = (uint8_t)(255 - i % 3); id[i] = 127 - 5 * i; } FREE8(7); rt<P8, uint8_t, 255, 20, 1>(data, id); }
ENTRY(most) { uint8_t data[63]; int id[63]; for (int i = 0; i < 63; ++i) { data[i] = (uint8_t)(255 - i % 2); id[i] = 127 - i; } rt<P8, uint8_t, 255, 63, 1>(data, id); sa_reach("largest block count"); }
// full length blocks use up nearly all values: which one is left over depends on the free value
template <int N> static void full(int skip, int x) { uint8_t data[N]; for (int i = 0, v = 0; i < N; ++i, ++v) { if (v == skip) ++v; data[i] = (uint8_t)v; } FREE8(N / 2); int id[] = {x}; rt<P8, uint8_t, N, 1, N>(data, id); }
ENTRY(full255) { full<255>(0, 1); }
ENTRY(full255b) { full<255>(255, 100); }
ENTRY(full255c) { full<255>(7, 31); }
ENTRY(full200) { full<200>(0, 127); }
// identifiers free
template <int CNT, int BITS> static void anyids(const uint8_t *data) {
  CODE::CauchyPrimeFieldErasureCoding<P8, uint8_t, 4> c;
  uint8_t id[CNT], blocks[CNT], subs[CNT]; for (int i = 0; i < CNT; ++i) { id[i] = (uint8_t)(128 - (1 << BITS) + sa_word("id", BITS)); sa_assume(id[i] >= CNT); }
  for (int i = 0; i < CNT; ++i) for (int j = 0; j < i; ++j) sa_assume(id[i] != id[j]);
  for (int i = 0; i < CNT; ++i) subs[i] = (uint8_t)c.encode(data, blocks + i, id[i], 1, CNT);
  for (int i = 0; i < CNT; ++i) { uint8_t o; c.decode(&o, blocks, subs, id, i, 1, CNT); sa_eq(&o, data + i, 1, "data block rebuilt whichever blocks arrived"); }
}
ENTRY(ids1) { uint8_t d[] = {255}; anyids<1, 7>(d); uint8_t e[] = {1}; anyids<1, 7>(e); }
ENTRY(ids1d) { uint8_t d[1]; d[0] = (uint8_t)sa_word("data", 8); anyids<1, 7>(d); }
ENTRY(ids2) { uint8_t d[] = {255, 3}; anyids<2, 7>(d); uint8_t e[] = {0, 254}; anyids<2, 7>(e); }
ENTRY(ids3) { uint8_t d[] = {255, 3, 200}; anyids<3, 5>(d); }
ENTRY(ids5) { uint8_t d[] = {255, 255, 254, 0, 77}; anyids<5, 3>(d); }
// 16-bit storage
ENTRY(w1) { const int ids[] = {1, 32767}; for (int x : ids) { uint16_t data[1] = {(uint16_t)sa_word("data", 16)}; int id[] = {x}; rt<P16, uint16_t, 4, 1, 1>(data, id); } }
ENTRY(w2) { uint16_t data[2] = {(uint16_t)sa_word("data", 16), 65535}; int id[] = {2, 32767}; rt<P16, uint16_t, 1, 2, 1>(data, id); }
ENTRY(w3) { uint16_t data[3] = {65535, (uint16_t)sa_word("data", 16), 65534}; int id[] = {20000, 32767, 3}; rt<P16, uint16_t, 1024, 3, 1>(data, id); }
ENTRY(wmany) { uint16_t data[12]; int id[12]; for (int i = 0; i < 12; ++i) { data[i] = (uint16_t)(65535 - i % 3); id[i] = 32767 - 11 * i; } rt<P16, uint16_t, 2, 12, 1>(data, id); }
// coded blocks that use up all small values and the reserved one: the substitute must be an unused value
template <class PF, class IO, int LEN> static void usedup(uint32_t id, uint32_t top, int swap) {
  static CODE::CauchyPrimeFieldErasureCoding<PF, IO, LEN> c; static IO data[LEN], blk[LEN], out[LEN]; IO ids[1] = {(IO)id}, sub[1];
  int n = 0; data[n++] = (IO)(PF::P - id); // becomes the reserved value: -id / id
  for (uint32_t v = 0; v < top; ++v) { uint64_t d = (uint64_t)v * id % PF::P; if (d == PF::P - 1) continue; data[n++] = (IO)d; }
  while (n < LEN) { data[n] = data[n - 1]; ++n; }
  std::swap(data[0], data[swap]);
  int s = c.encode(data, blk, (int)id, LEN, 1); sa_true(s >= 0 && s < (int)PF::P - 1, "substitute fits the storage type"); sub[0] = (IO)s;
  c.decode(out, blk, sub, ids, 0, LEN, 1); bool ok = true; for (int i = 0; i < LEN; ++i) ok &= out[i] == data[i]; sa_true(ok, "data block rebuilt from the coded blocks");
}
ENTRY(used8) { usedup<P8, uint8_t, 128>(1, 127, 0); usedup<P8, uint8_t, 129>(1, 128, 128); usedup<P8, uint8_t, 240>(77, 238, 5); usedup<P8, uint8_t, 255>(127, 254, 100); usedup<P8, uint8_t, 255>(3, 200, 254); }
ENTRY(used16a) { usedup<P16, uint16_t, 255>(1, 254, 0); usedup<P16, uint16_t, 256>(5, 255, 255); usedup<P16, uint16_t, 257>(1, 256, 3); usedup<P16, uint16_t, 258>(32767, 257, 257); usedup<P16, uint16_t, 300>(2, 299, 7); }
ENTRY(used16b) { usedup<P16, uint16_t, 5000>(9, 4999, 4097); }
ENTRY(used16c) { usedup<P16, uint16_t, 33000>(1, 32900, 32999); }
ENTRY(used16d) { usedup<P16, uint16_t, 65535>(1, 65534, 1); }
// long blocks with a few unknown values in them
template <class PF, class IO, int LEN, int CNT> static void longer(const int *ids, int at, int bits) {
  static IO data[LEN * CNT], blk[LEN * CNT], out[LEN]; IO id[CNT], sub[CNT]; static CODE::CauchyPrimeFieldErasureCoding<PF, IO, LEN> c; uint32_t s = 5;
  for (int i = 0; i < LEN * CNT; ++i) { s = s * 1664525u + 1013904223u; data[i] = (IO)(s >> 9); }
  data[at] ^= (IO)sa_word("data", bits);
  for (int i = 0; i < CNT; ++i) { id[i] = (IO)ids[i]; int x = c.encode(data, blk + LEN * i, ids[i], LEN, CNT); sa_true(x >= 0 && x < (int)PF::P - 1, "substitute fits the storage type"); sub[i] = (IO)x; }
  for (int i = 0; i < CNT; ++i) { c.decode(out, blk, sub, id, i, LEN, CNT); sa_eq(out, data + LEN * i, sizeof out, "data block rebuilt from the coded blocks"); }
}
ENTRY(longer8) { int id[] = {3, 126, 50}; longer<P8, uint8_t, 200, 3>(id, 333, 8); }
ENTRY(longer16) { int id[] = {3, 32126, 500}; longer<P16, uint16_t, 300, 3>(id, 777, 12); }
// the largest numbers of blocks: products and sums are reduced in time; every block is extreme
template <class PF, class IO, int CNT> static void deepest(int first, int step, IO base, int only) {
  static IO data[CNT], blk[CNT], id[CNT], sub[CNT]; IO o; static CODE::CauchyPrimeFieldErasureCoding<PF, IO, 1> c;
  for (int i = 0; i < CNT; ++i) { data[i] = (IO)(base - i % 2); id[i] = (IO)(first - step * i); }
  for (int i = 0; i < CNT; ++i) sub[i] = (IO)c.encode(data, blk + i, id[i], 1, CNT);
  bool ok = true; for (int i = 0; i < CNT; i += only) { c.decode(&o, blk, sub, id, i, 1, CNT); ok &= o == data[i]; }
  sa_true(ok, "data block rebuilt from the coded blocks");
}
ENTRY(deep8) { deepest<P8, uint8_t, 63>(127, 1, 255, 1); }
ENTRY(deep8b) { deepest<P8, uint8_t, 64>(127, 1, 255, 3); }
ENTRY(deep16) { deepest<P16, uint16_t, 150>(32767, 1, 65535, 13); }
ENTRY(deep16b) { deepest<P16, uint16_t, 150>(32767, 200, 65535, 13); }
