#include "sa.h"
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
typedef CODE::GaloisField<4, 0b10011, uint8_t> G4;
typedef CODE::GaloisField<8, 0b100011101, uint8_t> G8;
typedef CODE::GaloisField<16, 0b10001000000001011, uint16_t> G16;
// all data free, block identifiers fixed: any block_cnt distinct blocks give every data block back
template <class GF, int CNT, int LEN, int FREE = GF::M> static void roundtrip(const int *ids, int align, int off) {
  typedef typename GF::value_type T;
  const size_t B = LEN * sizeof(T);
  char *data = (char *)sa_alloc(B * CNT + off, align, "data") + off, *blocks = (char *)sa_alloc(B * CNT + off, align, "blocks") + off, *out = (char *)sa_alloc(B + off, align, "out") + off;
  for (int i = 0; i < CNT * LEN; ++i) { T v = (T)sa_word("data", FREE); if (FREE < GF::M) v = i & 1 ? (T)(v << (GF::M - FREE) | 0x35) : (T)(v | 0xa500); memcpy(data + i * sizeof(T), &v, sizeof v); }
  GF inst; CODE::CauchyReedSolomonErasureCoding<GF> enc, dec;
  T id[CNT]; for (int i = 0; i < CNT; ++i) id[i] = (T)ids[i];
  sa_readonly(data, B * CNT);
  for (int i = 0; i < CNT; ++i) enc.encode((const void *)data, (void *)(blocks + B * i), ids[i], (int)B, CNT);
  sa_readonly(blocks, B * CNT); sa_readonly(id, sizeof id);
  for (int i = 0; i < CNT; ++i) { sa_bits(out, B, "old"); dec.decode((void *)out, (const void *)blocks, id, i, (int)B, CNT); sa_eq(out, data + B * i, B, "data block rebuilt from the coded blocks"); }
}
#define RT(n, GF, CNT, LEN, AL, OFF, ...) ENTRY(n) { const int ids[] = {__VA_ARGS__}; static_assert(sizeof ids == CNT * sizeof(int), ""); roundtrip<GF, CNT, LEN>(ids, AL, OFF); }
RT(g4_1, G4, 1, 3, 32, 0, 15)
RT(g4_2, G4, 2, 5, 32, 0, 15, 2)
RT(g4_5, G4, 5, 2, 32, 0, 9, 5, 15, 7, 14)
RT(g4_8, G4, 8, 1, 32, 0, 8, 9, 10, 11, 12, 13, 14, 15)
RT(g8_1, G8, 1, 64, 32, 0, 255)
RT(g8_1s, G8, 1, 7, 32, 0, 1)
RT(g8_2, G8, 2, 32, 32, 0, 2, 255)
RT(g8_3, G8, 3, 96, 32, 0, 200, 3, 77)
RT(g8_3s, G8, 3, 33, 32, 0, 200, 3, 77)
RT(g8_3u, G8, 3, 32, 32, 1, 200, 3, 77)
RT(g8_3h, G8, 3, 48, 16, 16, 200, 3, 77)
RT(g8_7, G8, 7, 32, 32, 0, 250, 8, 7, 101, 255, 30, 31)
RT(g8_12, G8, 12, 4, 32, 0, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23)
#if defined(__SSE4_1__) || defined(__ARM_NEON)
RT(g16_1, G16, 1, 32, 32, 0, 65535)
RT(g16_2, G16, 2, 32, 32, 0, 65535, 2)
#else
RT(g16_1, G16, 1, 5, 32, 0, 65535)
RT(g16_2, G16, 2, 4, 32, 0, 65535, 2)
#endif
ENTRY(g16_2s) { const int ids[] = {40000, 3}; roundtrip<G16, 2, 5, 8>(ids, 32, 0); }
#if defined(__SSE4_1__) || defined(__ARM_NEON)
RT(g16_3, G16, 3, 64, 32, 0, 1000, 257, 32768)
#else
RT(g16_3, G16, 3, 5, 32, 0, 1000, 257, 32768)
#endif
ENTRY(g16_3u) { const int ids[] = {1000, 257, 32768}; roundtrip<G16, 3, 16, 5>(ids, 32, 2); }
// many blocks, long blocks
ENTRY(g8_128) { int ids[128]; for (int i = 0; i < 128; ++i) ids[i] = 128 + (i * 37 & 127); roundtrip<G8, 128, 1, 1>(ids, 32, 0); }
ENTRY(g16_20) { int ids[20]; for (int i = 0; i < 20; ++i) ids[i] = 65535 - i * i * 160; roundtrip<G16, 20, 1, 1>(ids, 32, 0); }
ENTRY(g8_long) { const int ids[] = {129, 2}; roundtrip<G8, 2, 1027, 1>(ids, 32, 3); }
ENTRY(g16_long) { const int ids[] = {129, 2}; roundtrip<G16, 2, 777, 1>(ids, 32, 0); }
// identifiers free, data a basis vector (the code is linear in the data: see above)
template <class GF, int CNT, int BITS> static void anyids(int base) {
  typedef typename GF::ValueType V; typedef typename GF::value_type T;
  GF inst; CODE::CauchyReedSolomonErasureCoding<GF> enc, dec;
  T id[CNT]; for (int i = 0; i < CNT; ++i) { id[i] = (T)(base + sa_word("id", BITS)); sa_assume(id[i] >= CNT && id[i] <= V::N); }
  for (int i = 0; i < CNT; ++i) for (int j = 0; j < i; ++j) sa_assume(id[i] != id[j]);
  for (int k = 0; k < CNT; ++k) {
    T data[CNT], blocks[CNT]; for (int i = 0; i < CNT; ++i) data[i] = i == k;
    for (int i = 0; i < CNT; ++i) enc.encode((const T *)data, blocks + i, id[i], 1, CNT);
    for (int i = 0; i < CNT; ++i) { T o; dec.decode(&o, (const T *)blocks, (const T *)id, i, 1, CNT); sa_eq(&o, &data[i], sizeof(T), "data block rebuilt whichever blocks arrived"); }
  }
}
#ifdef __AVX2__
ENTRY(ids4_1) { anyids<G4, 1, 4>(0); }
ENTRY(ids4_2) { anyids<G4, 2, 4>(0); }
ENTRY(ids4_3) { anyids<G4, 3, 4>(0); }
ENTRY(ids4_4) { anyids<G4, 4, 4>(0); }
ENTRY(ids4_5) { anyids<G4, 5, 3>(8); }
ENTRY(ids8_1) { anyids<G8, 1, 8>(0); }
ENTRY(ids8_2) { anyids<G8, 2, 8>(0); }
ENTRY(ids8_5) { anyids<G8, 5, 3>(5); }
ENTRY(ids16_1) { anyids<G16, 1, 16>(0); }
#endif
// one coder object decodes block 0 first, then others, for one set after another: a fresh object agrees
ENTRY(reuse) {
  G8 inst; CODE::CauchyReedSolomonErasureCoding<G8> used, fresh1;
  uint8_t data[3], blk[3], o1, o2; sa_bits(data, 3, "data");
  uint8_t ia[] = {10, 20, 30}, ib[] = {40, 5, 60};
  for (int i = 0; i < 3; ++i) used.encode(data, blk + i, ia[i], 1, 3);
  for (int i = 0; i < 3; ++i) { used.decode(&o1, blk, ia, i, 1, 3); sa_eq(&o1, data + i, 1, "data block rebuilt by a reused coder"); }
  for (int i = 0; i < 3; ++i) used.encode(data, blk + i, ib[i], 1, 3);
  for (int i = 2; i >= 0; --i) { used.decode(&o1, blk, ib, i, 1, 3); sa_eq(&o1, data + i, 1, "data block rebuilt by a reused coder"); }
  fresh1.decode(&o2, blk, ib, 1, 1, 3); sa_eq(&o2, data + 1, 1, "data block rebuilt by a fresh coder");
}
// blocks of more than 65536 bytes, only a few symbols free
template <class GF, int BYTES> static void bigblock(int align) {
  typedef typename GF::value_type T; const int n = BYTES / sizeof(T), CNT = 2;
  char *data = (char *)sa_alloc(BYTES * CNT, align, "data"), *blocks = (char *)sa_alloc(BYTES * CNT, align, "blocks"), *out = (char *)sa_alloc(BYTES, align, "out");
  T *d = (T *)data; for (int i = 0; i < n * CNT; ++i) d[i] = (T)(i * 40503u >> 4); for (int i : {0, 100, n / 2, n - 1, n, n + n / 3}) d[i] = (T)sa_word("data", GF::M);
  GF inst; CODE::CauchyReedSolomonErasureCoding<GF> enc, dec; T id[2] = {200, 77};
  for (int i = 0; i < CNT; ++i) enc.encode((const void *)data, (void *)(blocks + BYTES * i), id[i], BYTES, CNT);
  for (int i = 0; i < CNT; ++i) { dec.decode((void *)out, (const void *)blocks, id, i, BYTES, CNT); sa_eq(out, data + BYTES * i, BYTES, "long data block rebuilt from the coded blocks"); }
}
ENTRY(g8_big) { bigblock<G8, 66016>(32); }
ENTRY(g16_big) { bigblock<G16, 66048>(32); }
ENTRY(g8_bigu) { bigblock<G8, 65543>(32); }
