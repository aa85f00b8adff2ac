#include "ref.h"
#include "hadamard_encoder.hh"
#include "simplex_encoder.hh"
#include "short_bch_code_encoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "osd.hh"
static bool par(uint32_t x) { bool p = false; for (int i = 0; i < 20; ++i) p ^= x >> i & 1; return p; }
template <int K> static void hadamard() {
  const int N = 1 << (K - 1);
  CODE::HadamardEncoder<K> e; int msg = (int)sa_word("msg", K);
  int8_t code[N + 2]; sa_bits(code, sizeof code, "old"); int8_t g0 = code[0], g1 = code[N + 1];
  e(code + 1, msg);
  for (int i = 0; i < N; ++i) { int8_t w = (int8_t)(1 - 2 * par((uint32_t)msg & (uint32_t)(i | N))); sa_eq(&code[1 + i], &w, 1, "Hadamard code value is the sign of the masked parity"); }
  sa_eq(&code[0], &g0, 1, "nothing before the code is written"); sa_eq(&code[N + 1], &g1, 1, "nothing after the code is written");
}
template <int K> static void simplex() {
  const int N = (1 << K) - 1;
  CODE::SimplexEncoder<K> e; int msg = (int)sa_word("msg", K);
  int8_t code[N + 2]; sa_bits(code, sizeof code, "old"); int8_t g0 = code[0], g1 = code[N + 1];
  e(code + 1, msg);
  for (int i = 0; i < N; ++i) { int8_t w = (int8_t)(1 - 2 * par((uint32_t)msg & (uint32_t)(i + 1))); sa_eq(&code[1 + i], &w, 1, "Simplex code value is the sign of the masked parity"); }
  sa_eq(&code[0], &g0, 1, "nothing before the code is written"); sa_eq(&code[N + 1], &g1, 1, "nothing after the code is written");
}
ENTRY(had2) { hadamard<2>(); hadamard<3>(); hadamard<4>(); }
ENTRY(had5) { hadamard<5>(); hadamard<6>(); }
ENTRY(had7) { hadamard<7>(); }
ENTRY(had8) { hadamard<8>(); }
ENTRY(had9) { hadamard<9>(); }
ENTRY(sim2) { simplex<2>(); simplex<3>(); simplex<4>(); }
ENTRY(sim5) { simplex<5>(); simplex<6>(); }
ENTRY(sim7) { simplex<7>(); }
ENTRY(sim8) { simplex<8>(); }
template <int N, int K, int G> static void shortbch() {
  const int P = N - K;
  CODE::ShortBCHCodeEncoder<N, K, G> e; int msg = (int)sa_word("msg", K);
  int cw = e(msg);
  int up = cw >> P; sa_eq(&up, &msg, sizeof up, "message occupies the upper bits");
  uint32_t r = (uint32_t)cw; for (int i = K - 1; i >= 0; --i) r ^= (0 - (r >> (i + P) & 1)) & ((uint32_t)G << i);
  uint32_t z = 0; sa_eq(&r, &z, 4, "codeword is a multiple of the generator");
  int8_t code[N + 2]; sa_bits(code, sizeof code, "old"); int8_t g0 = code[0], g1 = code[N + 1];
  int cw2 = e(code + 1, msg); sa_eq(&cw, &cw2, sizeof cw, "both forms give the same codeword");
  for (int i = 0; i < N; ++i) { int8_t w = (int8_t)(cw >> i & 1 ? -1 : 1); sa_eq(&code[1 + i], &w, 1, "code value is minus one for a set bit"); }
  sa_eq(&code[0], &g0, 1, "nothing before the code is written"); sa_eq(&code[N + 1], &g1, 1, "nothing after the code is written");
}
ENTRY(sb7_4) { shortbch<7, 4, 0b1011>(); }
ENTRY(sb15) { shortbch<15, 5, 0b10100110111>(); shortbch<15, 7, 0b111010001>(); shortbch<15, 11, 0b10011>(); }
ENTRY(sb23) { shortbch<23, 12, 0b101011100011>(); shortbch<23, 12, 0b110001110101>(); }
ENTRY(sb31_16) { shortbch<31, 16, 0b1000111110101111>(); }
ENTRY(sb16_5) { shortbch<16, 5, 0b101001101110 ^ 0b1000>(); }
// generator matrix times message
template <int N, int K> static void linear(int col) {
  CODE::LinearEncoder<N, K> e; int8_t gm[N * K]; for (int i = 0; i < N * K; ++i) gm[i] = i % N == col ? (int8_t)sa_word("gen", 1) : (int8_t)(i * i / 3 & 1);
  uint8_t msg[(K + 7) / 8], cw[(N + 7) / 8]; sa_bits(msg, sizeof msg, "msg"); sa_bits(cw, sizeof cw, "old");
  sa_readonly(gm, sizeof gm); sa_readonly(msg, sizeof msg);
  e(cw, msg, gm);
  for (int i = 0; i < N; ++i) { bool w = false; for (int j = 0; j < K; ++j) w ^= getbe(msg, j) & (gm[N * j + i] & 1); bool g = getbe(cw, i); sa_eq(&g, &w, 1, "codeword bit is the product with the generator column"); }
  sa_writable(gm); sa_writable(msg);
}
ENTRY(lin) { linear<1, 1>(0); linear<5, 3>(1); linear<9, 4>(8); linear<8, 8>(-1); linear<8, 5>(0); linear<17, 2>(15); linear<17, 6>(3); linear<70, 40>(-1); }
// generator matrices of BCH codes
template <int N, int K> static void genmat(std::initializer_list<int> polys) {
  static int8_t a[N * K], b[N * K]; int8_t gp[N - K + 1];
  sa_bits(a, sizeof a, "old"); sa_bits(b, sizeof b, "old"); sa_bits(gp, sizeof gp, "old");
  CODE::BoseChaudhuriHocquenghemGenerator<N, K>::poly(gp, polys);
  CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(a, false, polys);
  CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(b, true, polys);
  for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) { int8_t w = i >= j && i <= j + N - K ? gp[i - j] : 0; sa_eq(&a[N * j + i], &w, 1, "rows of the plain matrix are shifts of the generator polynomial"); }
  for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) { int8_t w = i == j; sa_eq(&b[N * j + i], &w, 1, "systematic matrix starts with the identity"); }
  CODE::LinearEncoder<N, K> le; CODE::BoseChaudhuriHocquenghemEncoder<N, K> be(polys);
  uint8_t msg[(K + 7) / 8], cw[(N + 7) / 8], p[(N - K + 7) / 8]; sa_bits(msg, sizeof msg, "msg");
  le(cw, msg, b); be(msg, p);
  for (int i = 0; i < N; ++i) { bool g = getbe(cw, i), w = i < K ? getbe(msg, i) : getbe(p, i - K); sa_eq(&g, &w, 1, "systematic matrix encodes like the BCH encoder"); }
  le(cw, msg, a); uint8_t d[(K + 7) / 8] = {}; for (int i = 0; i < K; ++i) d[i / 8] |= (uint8_t)(getbe(cw, i) << (7 - i % 8)); be(d, p);
  for (int i = K; i < N; ++i) { bool g = getbe(cw, i), w = getbe(p, i - K); sa_eq(&g, &w, 1, "plain matrix generates the same code"); }
}
ENTRY(gen15) { genmat<15, 5>({0b10011, 0b11111, 0b00111}); }
ENTRY(gen15b) { genmat<15, 7>({0b10011, 0b11111}); }
ENTRY(gen15c) { genmat<15, 11>({0b10011}); }
ENTRY(gen7) { genmat<7, 4>({0b1011}); genmat<7, 1>({0b1011, 0b1101}); }
ENTRY(gen31) { typedef RF<5, 0b100101> R; genmat<31, 16>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}); }
ENTRY(gen127) { genmat<127, 64>({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011}); }
