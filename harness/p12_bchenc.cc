#include "ref.h"
#include "bitman.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
template <int N, int K> static void remainder(const uint8_t *data, const uint8_t *parity, int len, std::initializer_list<int> polys) {
  const int NP = N - K;
  uint8_t gen[NP + 1] = {1}; int deg = 0;
  for (int m : polys) { int d = 31 - __builtin_clz(m); uint8_t t[NP + 1] = {}; for (int i = 0; i <= deg; ++i) if (gen[i]) for (int j = 0; j <= d; ++j) if (m >> j & 1) t[i + j] ^= 1; deg += d; for (int i = 0; i <= NP; ++i) gen[i] = t[i]; }
  uint8_t r[NP] = {};  // r[i] = coefficient of x^i
  for (int i = 0; i < len; ++i) { uint8_t f = (uint8_t)getbe(data, i) ^ r[NP - 1]; for (int j = NP - 1; j > 0; --j) r[j] = r[j - 1] ^ (gen[j] & f); r[0] = gen[0] & f; }
  uint8_t want[(NP + 7) / 8] = {};
  for (int i = 0; i < NP; ++i) want[i / 8] |= (uint8_t)(r[NP - 1 - i] << (7 - i % 8));
  sa_eq(parity, want, (NP + 7) / 8, "parity is the remainder by the generator, unused bits zero");
}
template <int N, int K> static void enc(std::initializer_list<int> polys, std::initializer_list<int> lens) {
  const int NP = N - K;
  CODE::BoseChaudhuriHocquenghemEncoder<N, K> e(polys);
  for (int len : lens) {
    uint8_t data[(K + 7) / 8]; sa_bits(data, sizeof data, "data");
    const int P = (NP + 7) / 8;
    uint8_t par[P + 2]; sa_bits(par, sizeof par, "old"); uint8_t g0 = par[0], g1 = par[P + 1];
    sa_readonly(data, sizeof data);
    if (len == K) e(data, par + 1); else e(data, par + 1, len);
    sa_writable(data);
    remainder<N, K>(data, par + 1, len, polys);
    sa_eq(&par[0], &g0, 1, "nothing before the parity is written"); sa_eq(&par[P + 1], &g1, 1, "nothing after the parity is written");
  }
}
// consecutive powers of the primitive element are roots of every codeword
template <int M, int POLY, int FCR, int ROOTS, int N, int K> static void roots(std::initializer_list<int> polys) {
  typedef RF<M, POLY> R;
  CODE::BoseChaudhuriHocquenghemEncoder<N, K> e(polys);
  uint8_t data[(K + 7) / 8], par[(N - K + 7) / 8]; sa_bits(data, sizeof data, "data");
  e(data, par);
  uint8_t code[N]; for (int i = 0; i < K; ++i) code[i] = getbe(data, i); for (int i = 0; i < N - K; ++i) code[K + i] = getbe(par, i);
  for (int r = 0; r < ROOTS; ++r) { uint32_t v = R::at(code, N, R::pow(FCR + r)), z = 0; sa_eq(&v, &z, 4, "codeword vanishes at the designed roots"); }
}
template <int ROOTS, int FCR, int K, int M, int POLY, class T> static void reference(std::initializer_list<int> polys, std::initializer_list<int> lens) {
  typedef CODE::GaloisField<M, POLY, T> GF; typedef typename GF::ValueType V; GF inst;
  const int N = GF::N, NP = N - K;
  CODE::BoseChaudhuriHocquenghemEncoderReference<ROOTS, FCR, K, GF> ref(polys);
  CODE::BoseChaudhuriHocquenghemEncoder<N, K> e(polys);
  for (int len : lens) {
    uint8_t data[(K + 7) / 8], par[(NP + 7) / 8]; sa_bits(data, sizeof data, "data"); e(data, par, len);
    V d[K], p[NP]; for (int i = 0; i < K; ++i) d[i] = V((T)getbe(data, i)); sa_bits(p, sizeof p, "old");
    sa_readonly(d, sizeof d); ref(d, p, len); sa_writable(d);
    for (int i = 0; i < NP; ++i) { T b = (T)getbe(par, i); sa_eq(&p[i], &b, sizeof(T), "symbol-wise encoder agrees with the bit-wise one"); }
  }
}
ENTRY(b15_5) { enc<15, 5>({0b10011, 0b11111, 0b00111}, {5, 4, 1}); roots<4, 0b10011, 1, 6, 15, 5>({0b10011, 0b11111, 0b00111}); reference<6, 1, 5, 4, 0b10011, uint8_t>({0b10011, 0b11111, 0b00111}, {5, 3, 1}); }
ENTRY(b15_7) { enc<15, 7>({0b10011, 0b11111}, {7, 6, 1}); roots<4, 0b10011, 1, 4, 15, 7>({0b10011, 0b11111}); reference<4, 1, 7, 4, 0b10011, uint8_t>({0b10011, 0b11111}, {7, 2}); }
ENTRY(b15_11) { enc<15, 11>({0b10011}, {11, 8, 9, 1}); roots<4, 0b10011, 1, 2, 15, 11>({0b10011}); reference<2, 1, 11, 4, 0b10011, uint8_t>({0b10011}, {11, 5}); }
ENTRY(b15_10) { enc<15, 10>({0b10011, 0b11}, {10, 7}); roots<4, 0b10011, 0, 3, 15, 10>({0b11, 0b10011}); }
ENTRY(b7_4) { enc<7, 4>({0b1011}, {4, 3, 2, 1}); enc<7, 6>({0b11}, {6, 1}); enc<7, 1>({0b1011, 0b1101}, {1}); }
ENTRY(b31) { typedef RF<5, 0b100101> R; enc<31, 16>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}, {16, 15, 9, 8, 7}); roots<5, 0b100101, 1, 6, 31, 16>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}); }
ENTRY(b63) { typedef RF<6, 0b1000011> R; enc<63, 39>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5), (int)R::minpoly(7)}, {39, 33, 1}); }
ENTRY(b127_64) { enc<127, 64>({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}, {64, 63, 17}); }
ENTRY(b127_64r) { roots<7, 0b10001001, 1, 20, 127, 64>({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}); }
ENTRY(b127_64s) { reference<20, 1, 64, 7, 0b10001001, uint8_t>({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}, {64, 20}); }
ENTRY(b255) { typedef RF<8, 0b100011101> R; const int a = (int)R::minpoly(1), b = (int)R::minpoly(3), c = (int)R::minpoly(5); enc<255, 231>({a, b, c}, {231, 200}); roots<8, 0b100011101, 1, 6, 255, 231>({a, b, c}); }
// long codes, shortened to a few hundred free bits
ENTRY(b65535) { enc<65535, 65343>({0b10000000000101101, 0b10000000101110011, 0b10000111110111101, 0b10101101001010101, 0b10001111100101111, 0b11111011110110101, 0b11010111101100101, 0b10111001101100111, 0b10000111010100001, 0b10111010110100111, 0b10011101000101101, 0b10001101011100011}, {300}); }
ENTRY(b16383) { enc<16383, 16215>({0b100000000101011, 0b100100101010001, 0b100011101000111, 0b101010000010101, 0b110101011100011, 0b111010100110001, 0b101101110111001, 0b101101110010111, 0b110100010100001, 0b110110110010001, 0b111110011100111, 0b110100111000101}, {333}); }
