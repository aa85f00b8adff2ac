#include "ref.h"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bm_patterns.h"
#define POLY3 0b1011
#define POLY4 0b10011
#define POLY5 0b100101
#define POLY6 0b1000011
#define POLY7 0b10001001
#define POLY8 0b100011101
#define POLY16 0b10001000000001011
#define POLY16B 0b10000000000101101
// err: positions of symbol errors; era: erased positions (both index data then parity)
template <int NR, int FCR, int M, int POLY, class T> struct D {
  typedef CODE::GaloisField<M, POLY, T> GF; GF inst; CODE::ReedSolomonEncoder<NR, FCR, GF> enc; CODE::ReedSolomonDecoder<NR, FCR, GF> dec;
  static const int N = (1 << M) - 1, K = N - NR;
  // free bits per erroneous symbol: every magnitude, or a few bits shifted into place, or (negative) only in the first one
  void run(int len, std::initializer_list<int> err, std::initializer_list<int> era, int msgbits = M, int magbits = M, int eramag = -1) {
    T *code = (T *)sa_alloc(sizeof(T) * len, sizeof(T), "data"), *sent = (T *)sa_alloc(sizeof(T) * (len + NR), sizeof(T), "sent"); T par[NR];
    for (int i = 0; i < len; ++i) code[i] = msgbits == 0 ? (T)((i * 73 + 5) & N) : (T)sa_word("data", msgbits);
    enc(code, par, len);
    for (int i = 0; i < len + NR; ++i) sent[i] = i < len ? code[i] : par[i - len];
    T loc[NR]; for (int i = 0; i < NR; ++i) loc[i] = 0;
    int ne = 0, corrections = 0, n = 0;
    for (int p : err) { T m = magbits <= 0 ? (T)((p * 5 + 3 & N) | 1) : (T)0; if (magbits < 0 && n == 0) m = (T)((1 << -magbits) | sa_word("magnitude", -magbits)); if (magbits > 0) m = (T)(sa_word("magnitude", magbits) << (magbits == M ? 0 : (n * 5) % (M - magbits))); ++n; corrections += m != 0; if (msgbits) sa_assume(m != 0); if (p < len) code[p] ^= m; else par[p - len] ^= m; }
    for (int p : era) { loc[ne++] = (T)p; int b = eramag < 0 ? magbits : eramag; T m = b < 0 && n == 0 ? (T)((1 << -b) | sa_word("erased", -b)) : b <= 0 ? (T)(p * 5 + 3 & N) : (T)(sa_word("erased", b) << (b == M ? 0 : (n * 3) % (M - b))); ++n; corrections += m != 0; if (msgbits && b > 0) sa_assume(m != 0); if (p < len) code[p] ^= m; else par[p - len] ^= m; }
    int r = ne ? (len == K ? dec(code, par, loc, ne) : dec(code, par, loc, ne, len)) : (len == K ? dec(code, par) : dec(code, par, nullptr, 0, len));
    sa_eq(code, sent, sizeof(T) * len, "data is restored"); sa_eq(par, sent + len, sizeof(T) * NR, "parity is restored");
    sa_eq(&r, &corrections, sizeof r, "the number of corrected symbols is returned");
  }
  // error position free too
  void anywhere(int len, int nerr, std::initializer_list<int> more, bool era = false) {
    T *code = (T *)sa_alloc(sizeof(T) * len, sizeof(T), "data"), *sent = (T *)sa_alloc(sizeof(T) * (len + NR), sizeof(T), "sent"); T par[NR];
    for (int i = 0; i < len; ++i) code[i] = (T)((i * 29 + 3) & N);
    enc(code, par, len);
    for (int i = 0; i < len + NR; ++i) sent[i] = i < len ? code[i] : par[i - len];
    T loc[NR]; int ne = 0; T mag[4], pos[4]; int corrections = 0;
    for (int e = 0; e < nerr; ++e) { pos[e] = (T)sa_word("position", M); sa_assume(pos[e] < len + NR); if (e) sa_assume(pos[e] != pos[e - 1]); mag[e] = (T)sa_word("magnitude", M); corrections += mag[e] != 0; }
    for (int i = 0; i < len + NR; ++i) for (int e = 0; e < nerr; ++e) { T m = i == pos[e] ? mag[e] : (T)0; if (i < len) code[i] ^= m; else par[i - len] ^= m; }
    if (era) { for (int e = 0; e < nerr; ++e) loc[ne++] = pos[e]; }
    int k = 0; for (int p : more) { loc[ne++] = (T)p; T m = (T)(17 * ++k & N); corrections += m != 0; if (p < len) code[p] ^= m; else par[p - len] ^= m; if (era) for (int e = 0; e < nerr; ++e) sa_assume(pos[e] != p); else for (int e = 0; e < nerr; ++e) sa_assume(pos[e] != p); }
    int r = dec(code, par, ne ? loc : nullptr, ne, len);
    sa_eq(code, sent, sizeof(T) * len, "data is restored"); sa_eq(par, sent + len, sizeof(T) * NR, "parity is restored");
    sa_eq(&r, &corrections, sizeof r, "the number of corrected symbols is returned");
  }
};
typedef uint8_t B;
ENTRY(c7) { D<2, 0, 3, POLY3, B> d; d.run(5, {}, {}); d.run(5, {0}, {}); d.run(5, {4}, {}); d.run(5, {6}, {}); d.run(3, {0}, {}); d.run(5, {}, {0, 6}); d.run(2, {}, {1, 3}); }
ENTRY(c7b) { D<4, 1, 3, POLY3, B> d; d.run(3, {0, 6}, {}); d.run(3, {2, 3}, {}); d.run(2, {0, 1}, {}); d.run(3, {1}, {2, 5}); d.run(3, {}, {0, 1, 2, 3}); d.run(1, {0, 3}, {}); }
ENTRY(a7) { D<2, 1, 3, POLY3, B> d; d.anywhere(5, 1, {}); d.anywhere(2, 1, {}); d.anywhere(5, 1, {2}, true); }
ENTRY(a7b) { D<4, 0, 3, POLY3, B> d; d.anywhere(3, 2, {}); }
ENTRY(a15) { D<4, 1, 4, POLY4, B> d; d.anywhere(11, 1, {}); d.anywhere(6, 1, {3, 8}); }
ENTRY(c15) { D<4, 0, 4, POLY4, B> d; d.run(11, {}, {}); d.run(11, {0, 14}, {}); d.run(11, {3, 4}, {}); d.run(7, {0, 10}, {}); d.run(11, {5}, {0, 12}); d.run(11, {}, {1, 9, 10, 14}); d.run(7, {6}, {0, 8}); }
ENTRY(c15b) { D<6, 3, 4, POLY4, B> d; d.run(9, {0, 7, 14}, {}); d.run(9, {1, 2, 3}, {}); d.run(5, {0, 4, 10}, {}); d.run(9, {8, 9}, {0, 11}, 4, 4, 2); }
ENTRY(c15c) { { D<3, 0, 4, POLY4, B> d; d.run(12, {7}, {}); d.run(12, {7}, {9}); d.run(12, {}, {0, 13, 14}); } { D<5, 1, 4, POLY4, B> f; f.run(10, {0, 12}, {}); f.run(10, {0, 3}, {14}); } }
ENTRY(c15d) { D<6, 3, 4, POLY4, B> d; d.run(9, {0, 7, 14}, {}, 0); d.run(9, {1, 2, 3}, {}, 0); d.run(5, {0, 4, 10}, {}, 0); d.run(9, {8, 9}, {0, 11}, 0, 4, 2); }
ENTRY(c255) { D<16, 0, 8, POLY8, B> d; d.run(239, {0}, {}); d.run(239, {254}, {}); }
ENTRY(c255a) { D<16, 0, 8, POLY8, B> d; d.run(239, {0, 254}, {}); }
ENTRY(c255b) { D<16, 1, 8, POLY8, B> d; d.run(100, {0, 99}, {}); }
ENTRY(c255c) { D<16, 1, 8, POLY8, B> d; d.run(100, {0, 20, 40, 60, 80, 90, 99, 115}, {}, 8, 1); }
ENTRY(c255d) { D<16, 1, 8, POLY8, B> d; d.run(100, {0, 20, 40, 60, 80, 90, 99, 115}, {}, 0, 1); }
ENTRY(c31) { D<4, 1, 5, POLY5, B> d; for (int i = 1; i < 31; ++i) d.run(27, {0, i}, {}, 1, 2); }
ENTRY(c31b) { D<4, 0, 5, POLY5, B> d; for (int i = 5; i < 31; i += 3) d.run(27, {i - 4, i}, {}, 5, 5); }
// full power of a long code
ENTRY(p255a) { D<32, 1, 8, POLY8, B> d; d.run(223, {0, 1, 17, 40, 63, 64, 100, 128, 140, 160, 180, 200, 222, 223, 240, 254}, {}, 0, -4); }
ENTRY(p255b) { D<32, 0, 8, POLY8, B> d; d.run(150, {}, {0, 1, 2, 3, 4, 5, 6, 7, 20, 21, 22, 23, 24, 25, 26, 27, 60, 61, 62, 63, 64, 90, 91, 92, 148, 149, 150, 151, 152, 170, 180, 181}, 0, -4); }
ENTRY(p255c) { D<32, 1, 8, POLY8, B> d; d.run(223, {8, 33, 77, 129, 130, 201, 224, 253}, {0, 5, 9, 12, 34, 60, 76, 78, 128, 131, 200, 202, 222, 223, 250, 254}, 0, -4); }
// the largest field
ENTRY(w65535a) { static D<8, 1, 16, POLY16, uint16_t> d; d.run(300, {3}, {}, 0, -4); d.run(300, {3, 305}, {}, 0, -4); d.run(65527, {65534}, {}, 0, -4); }
ENTRY(w65535b) { static D<8, 1, 16, POLY16, uint16_t> d; d.run(300, {5, 100, 301}, {}, 0, -4); d.run(300, {100}, {0, 299, 307, 17}, 0, -4); }
ENTRY(w65535c) { static D<6, 0, 16, POLY16B, uint16_t> d; d.run(40000, {0, 40005, 20000}, {}, 0, -4); }
// every path of the Berlekamp-Massey iteration, at full power
template <int NR, int FCR, int POLY> static void paths(int from, int to)
{
  D<NR, FCR, 4, POLY, B> d; enum { K = 15 - NR };
  for (int t = from; t < to; ++t) {
    const unsigned char *p = bm_patterns[t]; int v = p[0], e = p[1]; B code[K], par[NR], loc[NR], sent[15];
    for (int i = 0; i < K; ++i) code[i] = (B)((t * 7 + i * 3) & 15);
    d.enc(code, par);
    for (int i = 0; i < 15; ++i) sent[i] = i < K ? code[i] : par[i - K];
    for (int i = 0; i < v + e; ++i) { int q = p[2 + 2 * i]; B m = p[3 + 2 * i]; if (q < K) code[q] ^= m; else par[q - K] ^= m; if (i >= v) loc[i - v] = (B)q; }
    int r = e ? d.dec(code, par, loc, e) : d.dec(code, par), n = 0; for (int i = 0; i < v + e; ++i) n += p[3 + 2 * i] != 0;
    sa_eq(code, sent, K, "data is restored"); sa_eq(par, sent + K, NR, "parity is restored"); sa_eq(&r, &n, sizeof r, "the number of corrected symbols is returned");
  }
}
ENTRY(paths_a) { paths<14, 1, POLY4>(0, 54); }
ENTRY(paths_b) { paths<14, 1, POLY4>(54, 107); }
ENTRY(paths_c) { paths<14, 9, POLY4>(0, 107); }
ENTRY(paths_d) { paths<14, 0, POLY4>(0, 107); }
// consecutive roots that start far from one
ENTRY(f15) { D<6, 9, 4, POLY4, B> d; d.run(9, {0, 7, 14}, {}, 0); d.run(9, {1, 2}, {5}, 0); d.run(5, {0}, {4, 10, 9, 2}, 0, 4, 0); }
ENTRY(f15b) { D<5, 5, 4, POLY4, B> d; d.run(10, {0, 12}, {}, 0); d.run(10, {}, {0, 3, 4, 11, 14}, 0, -3); d.run(6, {2}, {10, 1, 7}, 0); }
ENTRY(f255) { D<32, 112, 8, POLY8, B> d; d.run(223, {0, 17, 63, 100, 128, 160, 200, 222, 254}, {}, 0, -4); d.run(223, {3, 4, 77, 129, 130, 131, 201, 224, 230, 231, 253}, {}, 0, -4); }
ENTRY(f255b) { D<16, 120, 8, POLY8, B> d; d.run(100, {0, 9, 99, 101, 115}, {}, 0, -4); d.run(100, {1}, {0, 2, 3, 50, 51, 52, 98, 99, 100, 114, 115}, 0, -4); d.run(239, {254}, {}, 0, 8); }
// odd numbers of errors and erasures
ENTRY(p255d) { D<32, 1, 8, POLY8, B> d; d.run(223, {0, 1, 17, 40, 63, 64, 100, 128, 140, 160, 180, 200, 222, 240, 254}, {}, 0, -4); d.run(223, {9, 10, 11, 50, 90, 91, 170, 223, 245}, {}, 0, -4); }
ENTRY(p255e) { D<32, 0, 8, POLY8, B> d; d.run(223, {}, {0, 1, 2, 3, 4, 5, 6, 7, 20, 21, 22, 23, 24, 25, 26, 27, 60, 61, 62, 63, 64, 90, 91, 92, 148, 149, 150, 151, 152, 170, 254}, 0, -4); d.run(223, {77, 240}, {1, 3, 5, 7, 9, 11, 13, 15, 17}, 0, -4); }
