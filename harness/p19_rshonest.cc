#include "ref.h"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
typedef uint8_t B;
// every syndrome: the received word is a fixed codeword plus free symbols at NR positions
template <int NR, int FCR, int M, int POLY> struct H {
  typedef CODE::GaloisField<M, POLY, B> GF; typedef RF<M, (uint64_t)POLY> R; GF inst; CODE::ReedSolomonEncoder<NR, FCR, GF> enc; CODE::ReedSolomonDecoder<NR, FCR, GF> dec;
  static const int N = (1 << M) - 1, K = N - NR;
  void run(int len, std::initializer_list<int> pos, std::initializer_list<int> era = {}, std::initializer_list<int> bits = {}) {
    B *w = (B *)sa_alloc(len, 1, "data"), *o = (B *)sa_alloc(len + NR, 1, "received"), *n = (B *)sa_alloc(len + NR, 1, "result"); B par[NR + 2];
    for (int i = 0; i < len; ++i) w[i] = (B)((i * 11 + 7) & N);
    enc(w, par + 1, len); par[0] = 201; par[NR + 1] = 202;
    int k = 0; for (int p : pos) { int b = (int)bits.size() > k ? bits.begin()[k] : M; ++k; B e = (B)sa_word("error", b); if (p < len) w[p] ^= e; else par[1 + p - len] ^= e; }
    for (int i = 0; i < len + NR; ++i) o[i] = i < len ? w[i] : par[1 + i - len];
    B loc[NR + 1]; int ne = 0; for (int p : era) loc[ne++] = (B)p;
    int r = dec(w, par + 1, ne ? loc : nullptr, ne, len);
    int changed = 0; for (int i = 0; i < len + NR; ++i) { n[i] = i < len ? w[i] : par[1 + i - len]; changed += n[i] != o[i]; sa_true(n[i] < R::Q, "result symbols are field elements"); }
    sa_true(r >= -1 && r <= NR, "the result is minus one or a count");
    sa_true(r >= 0 || changed == 0, "a failed decoding leaves the word untouched");
    sa_true(r < 0 || changed == r, "the returned count is the number of changed symbols");
    bool cw = true; for (int i = 0; i < NR; ++i) cw &= R::at(n, len + NR, R::pow(FCR + i)) == 0;
    sa_true(r < 0 || cw, "a successful decoding yields a codeword");
    sa_true(par[0] == 201 && par[NR + 1] == 202, "nothing outside the word is written");
  }
};
#define P3 0b1011
#define P4 0b10011
#define P5 0b100101
ENTRY(h7_1) { H<1, 0, 3, P3> h; h.run(6, {0, 5, 6}); h.run(2, {0, 1, 2}); }
ENTRY(h7_2) { H<2, 1, 3, P3> h; h.run(5, {5, 6}); h.run(5, {0, 3, 6}); h.run(2, {2, 3}); h.run(5, {5, 6}, {2}); h.run(5, {5, 6}, {2, 4}); h.run(3, {3, 4}, {1}); }
ENTRY(h7_3) { H<3, 0, 3, P3> h; h.run(4, {4, 5, 6}); h.run(2, {2, 3, 4}); h.run(4, {4, 5, 6}, {1}); h.run(4, {4, 5, 6}, {0, 6}); }
ENTRY(h7_4) { H<4, 1, 3, P3> h; h.run(3, {3, 4, 5, 6}); h.run(1, {1, 2, 3, 4}); }
ENTRY(h7_4e) { H<4, 0, 3, P3> h; h.run(3, {3, 4, 5, 6}, {0}); h.run(3, {3, 4, 5, 6}, {1, 5}); h.run(2, {2, 3, 4, 5}, {0, 1, 4}); }
ENTRY(h7_5) { H<5, 2, 3, P3> h; h.run(2, {2, 3, 4, 5, 6}); }
ENTRY(h15_2) { H<2, 0, 4, P4> h; h.run(13, {13, 14}); h.run(5, {5, 6}); h.run(13, {0, 6, 14}); h.run(9, {9, 10}, {3}); }
ENTRY(h15_3) { H<3, 1, 4, P4> h; h.run(12, {12, 13, 14}); h.run(6, {6, 7, 8}); h.run(12, {12, 13, 14}, {0}); }
ENTRY(h15_4) { H<4, 0, 4, P4> h; h.run(11, {11, 12, 13, 14}); }
ENTRY(h15_4s) { H<4, 1, 4, P4> h; h.run(5, {5, 6, 7, 8}, {}, {4, 4, 4, 3}); h.run(8, {8, 9, 10, 11}, {2}, {4, 4, 4, 3}); }
ENTRY(h15_6) { H<6, 1, 4, P4> h; h.run(9, {9, 10, 11, 12, 13, 14}, {}, {2, 2, 2, 2, 2, 2}); h.run(9, {0, 3, 7, 12, 14}, {}, {3, 3, 3, 3, 3}); }
ENTRY(h31_2) { H<2, 1, 5, P5> h; h.run(29, {29, 30}); h.run(10, {10, 11}); }
ENTRY(h31_4) { H<4, 0, 5, P5> h; h.run(27, {27, 28, 29, 30}, {}, {4, 3, 4, 3}); }
