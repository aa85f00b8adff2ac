#include "ref.h"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
template <int NR, int FCR, int M, int POLY, class T> static void enc(std::initializer_list<int> lens) {
  typedef CODE::GaloisField<M, POLY, T> GF; typedef RF<M, (uint64_t)POLY> R; GF inst;
  typedef CODE::ReedSolomonEncoder<NR, FCR, GF> E; E e;
  static_assert(E::K == (1 << M) - 1 - NR && E::N == (1 << M) - 1, "");
  for (int len : lens) {
    T *data = (T *)sa_alloc(sizeof(T) * len, sizeof(T), "data"); for (int i = 0; i < len; ++i) data[i] = (T)sa_word("data", M);
    T par[NR + 2]; sa_bits(par, sizeof par, "old"); T g0 = par[0], g1 = par[NR + 1];
    sa_readonly(data, sizeof(T) * len);
    if (len == E::K) e(data, par + 1); else e(data, par + 1, len);
    T *code = (T *)sa_alloc(sizeof(T) * (len + NR), sizeof(T), "code"); for (int i = 0; i < len; ++i) code[i] = data[i]; for (int i = 0; i < NR; ++i) code[len + i] = par[1 + i];
    for (int r = 0; r < NR; ++r) { uint32_t v = R::at(code, len + NR, R::pow(FCR + r)), z = 0; sa_eq(&v, &z, 4, "codeword vanishes at the designed roots"); }
    for (int i = 0; i < NR; ++i) sa_true((uint32_t)par[1 + i] < R::Q, "parity symbols are field elements");
    sa_eq(&par[0], &g0, sizeof(T), "nothing before the parity is written"); sa_eq(&par[NR + 1], &g1, sizeof(T), "nothing after the parity is written");
  }
}
ENTRY(r7) { enc<1, 0, 3, 0b1011, uint8_t>({6, 3, 1}); enc<2, 1, 3, 0b1011, uint8_t>({5, 2}); enc<4, 0, 3, 0b1011, uint8_t>({3, 1}); enc<5, 2, 3, 0b1011, uint8_t>({2, 1}); }
ENTRY(r15) { enc<4, 0, 4, 0b10011, uint8_t>({11, 10, 1}); enc<4, 1, 4, 0b10011, uint8_t>({11, 5}); enc<3, 1, 4, 0b10011, uint8_t>({12, 7}); enc<6, 14, 4, 0b10011, uint8_t>({9}); }
ENTRY(r15b) { enc<10, 1, 4, 0b10011, uint8_t>({5, 4}); enc<14, 1, 4, 0b10011, uint8_t>({1}); enc<2, 7, 4, 0b10011, uint16_t>({13}); }
ENTRY(r31) { enc<8, 1, 5, 0b100101, uint8_t>({23, 4}); }
ENTRY(r63) { enc<12, 0, 6, 0b1000011, uint8_t>({51}); }
ENTRY(r255_16) { enc<16, 0, 8, 0b100011101, uint8_t>({239}); }
ENTRY(r255_32) { enc<32, 1, 8, 0b100011101, uint8_t>({100}); }
ENTRY(r255_16s) { enc<16, 0, 8, 0b100011101, uint8_t>({188, 1}); }
ENTRY(r255_2) { enc<2, 112, 8, 0b100011101, uint8_t>({253}); enc<1, 0, 8, 0b100011101, uint8_t>({254}); }
// the leading zeros of a shortened code change nothing
ENTRY(shorten) {
  typedef CODE::GaloisField<8, 0b100011101, uint8_t> GF; GF inst; CODE::ReedSolomonEncoder<8, 3, GF> e;
  uint8_t a[20], b[12], p[8], q[8]; for (int i = 0; i < 8; ++i) a[i] = 0; for (int i = 0; i < 12; ++i) a[8 + i] = b[i] = (uint8_t)sa_word("data", 8);
  e(a, p, 20); e(b, q, 12); sa_eq(p, q, 8, "leading zeros do not change the parity");
}
// large field: few free bits per symbol
ENTRY(r65535) {
  typedef CODE::GaloisField<16, 0b10001000000001011, uint16_t> GF; typedef RF<16, 0b10001000000001011> R; GF inst;
  CODE::ReedSolomonEncoder<4, 1, GF> e; uint16_t code[9]; for (int i = 0; i < 5; ++i) code[i] = (uint16_t)(sa_word("data", 3) << (3 * i) ^ 0x1234 * (i & 1));
  e(code, code + 5, 5);
  for (int r = 0; r < 4; ++r) { uint32_t v = R::at(code, 9, R::pow(1 + r)), z = 0; sa_eq(&v, &z, 4, "codeword vanishes at the designed roots"); }
}
ENTRY(r65535c) {
  typedef CODE::GaloisField<16, 0b10001000000001011, uint16_t> GF; typedef RF<16, 0b10001000000001011> R; GF inst;
  CODE::ReedSolomonEncoder<32, 1, GF> e; uint16_t code[52]; for (int i = 0; i < 20; ++i) code[i] = (uint16_t)(i * 40503 + 77); code[2] = (uint16_t)(sa_word("data", 10) << 6 | 5);
  e(code, code + 20, 20);
  for (int r = 0; r < 32; ++r) { uint32_t v = R::at(code, 52, R::pow(1 + r)), z = 0; sa_eq(&v, &z, 4, "codeword vanishes at the designed roots"); }
}
