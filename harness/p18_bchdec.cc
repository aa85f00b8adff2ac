#include "ref.h"
#include "bitman.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
static void flip(uint8_t *p, int i) { p[i >> 3] ^= (uint8_t)(128 >> (i & 7)); }
static bool at(const uint8_t *d, const uint8_t *p, int len, int i) { return i < len ? getbe(d, i) : getbe(p, i - len); }
template <int ROOTS, int FCR, int K, int M, int POLY, class T> struct D {
  typedef CODE::GaloisField<M, POLY, T> GF; GF inst; typedef RF<M, (uint64_t)POLY> R;
  static const int N = (1 << M) - 1, NP = N - K, DB = (K + 7) / 8, PB = (NP + 7) / 8;
  CODE::BoseChaudhuriHocquenghemEncoder<N, K> enc; CODE::BoseChaudhuriHocquenghemDecoder<ROOTS, FCR, K, GF> dec;
  D(std::initializer_list<int> polys) : enc(polys) {}
  // free message, fixed error pattern
  void sent(int len, std::initializer_list<int> err, std::initializer_list<int> era = {}, std::initializer_list<int> hit = {}) {
    uint8_t *data = (uint8_t *)sa_alloc(DB, 1, "data"), *par = (uint8_t *)sa_alloc(PB, 1, "parity"), d0[DB], p0[PB]; sa_bits(data, DB, "data");
    enc(data, par, len); for (int i = 0; i < DB; ++i) d0[i] = data[i]; for (int i = 0; i < PB; ++i) p0[i] = par[i];
    int n = 0; for (int p : err) { ++n; if (p < len) flip(data, p); else flip(par, p - len); }
    for (int p : hit) { ++n; if (p < len) flip(data, p); else flip(par, p - len); }
    T loc[ROOTS]; int ne = 0; for (int p : era) loc[ne++] = (T)p;
    int r = ne ? (len == K ? dec(data, par, loc, ne) : dec(data, par, loc, ne, len)) : len == K ? dec(data, par) : dec(data, par, nullptr, 0, len);
    sa_eq(data, d0, DB, "data is restored"); sa_eq(par, p0, PB, "parity is restored"); sa_eq(&r, &n, sizeof n, "the number of corrected bits is returned");
  }
  // every flip pattern over the given positions
  void received(int len, std::initializer_list<int> pos, int t, std::initializer_list<int> era = {}, uint8_t fill = 0x5a) {
    uint8_t data[DB + 2], par[PB + 2], d0[DB + 2], p0[PB + 2], sd[DB], sp[PB]; for (int i = 0; i < DB + 2; ++i) data[i] = (uint8_t)(fill + 29 * i); for (int i = 0; i < PB + 2; ++i) par[i] = 77;
    enc(data + 1, par + 1, len); for (int i = 0; i < DB; ++i) sd[i] = data[1 + i]; for (int i = 0; i < PB; ++i) sp[i] = par[1 + i];
    int weight = 0; for (int p : pos) { bool e = sa_bit("error"); bool erased = false; for (int q : era) erased |= p == q; if (!erased) weight += e; uint8_t *b = p < len ? data + 1 + p / 8 : par + 1 + (p - len) / 8; int s = p < len ? p % 8 : (p - len) % 8; *b ^= (uint8_t)((e ? 128 : 0) >> s); }
    for (int i = 0; i < DB + 2; ++i) d0[i] = data[i]; for (int i = 0; i < PB + 2; ++i) p0[i] = par[i];
    T loc[ROOTS]; int ne = 0; for (int p : era) loc[ne++] = (T)p;
    int r = dec(data + 1, par + 1, ne ? loc : nullptr, ne, len);
    bool dsame = true, restored = true; int changed = 0; uint8_t cw[N] = {};
    for (int i = 0; i < DB + 2; ++i) dsame &= data[i] == d0[i]; for (int i = 0; i < PB + 2; ++i) dsame &= par[i] == p0[i];
    for (int i = 0; i < len + NP; ++i) { bool a = at(data + 1, par + 1, len, i); cw[i] = a; changed += a != at(d0 + 1, p0 + 1, len, i); restored &= a == at(sd, sp, len, i); }
    bool ok = true; for (int i = 0; i < ROOTS; ++i) ok &= R::at(cw, len + NP, R::pow(FCR + i)) == 0;
    sa_true(r >= -1 && r <= ROOTS, "the result is minus one or a count");
    sa_true(r >= 0 || dsame, "a failed decoding leaves the word untouched");
    sa_true(r < 0 || ok, "a successful decoding yields a codeword");
    sa_true(r < 0 || changed == r, "the returned count is the number of changed bits");
    bool in = 2 * weight + ne <= t; (void)in;
    sa_true(!(2 * weight + ne <= t) || (r >= 0 && restored), "errors within the capability are corrected");
    bool edges = data[0] == d0[0] && data[DB + 1] == d0[DB + 1] && par[0] == p0[0] && par[PB + 1] == p0[PB + 1];
    for (int i = len; i < DB * 8; ++i) edges &= getbe(data + 1, i) == getbe(d0 + 1, i); for (int i = NP; i < PB * 8; ++i) edges &= getbe(par + 1, i) == getbe(p0 + 1, i);
    sa_true(edges, "bits outside the word are not written");
  }
};
#define B15_5 D<6, 1, 5, 4, 0b10011, uint8_t> d({0b10011, 0b11111, 0b00111})
#define B15_7 D<4, 1, 7, 4, 0b10011, uint8_t> d({0b10011, 0b11111})
#define B15_11 D<2, 1, 11, 4, 0b10011, uint8_t> d({0b10011})
#define ALL15 {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
ENTRY(w15_5) { B15_5; d.received(5, ALL15, 6); }
ENTRY(w15_7) { B15_7; d.received(7, ALL15, 4); }
ENTRY(w15_11) { B15_11; d.received(11, ALL15, 2); }
ENTRY(w15_10) { D<3, 0, 10, 4, 0b10011, uint8_t> d({0b10011, 0b11}); d.received(10, ALL15, 3); }
ENTRY(w15_4) { D<7, 0, 4, 4, 0b10011, uint8_t> d({0b10011, 0b11111, 0b00111, 0b11}); d.received(4, ALL15, 7); }
ENTRY(w15_5s) { B15_5; d.received(3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 6); d.received(1, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, 6); }
ENTRY(w15_7s) { B15_7; d.received(4, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 4); }
ENTRY(w15_11s) { B15_11; d.received(8, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 2); }
ENTRY(e15_5) { B15_5; d.received(5, ALL15, 6, {0, 9}); }
ENTRY(e15_5b) { B15_5; d.received(5, ALL15, 6, {1, 4, 5, 14}); d.received(3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 6, {2, 12}); }
ENTRY(e15_7) { B15_7; d.received(7, ALL15, 4, {3}); }
ENTRY(s15) { { B15_5; d.sent(5, {}); d.sent(5, {0, 7, 14}); d.sent(4, {3, 4, 13}); d.sent(5, {2}, {0, 1, 5, 6}, {1}); } { B15_7; d.sent(7, {6, 7}); d.sent(3, {0, 10}); } { B15_11; d.sent(11, {10}); d.sent(1, {0}); } }
ENTRY(s127) { D<20, 1, 64, 7, 0b10001001, uint8_t> d({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011});
  d.sent(64, {}); d.sent(64, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}); d.sent(64, {0, 13, 26, 39, 52, 63, 64, 80, 100, 126}); d.sent(40, {0, 39, 40, 102}); d.sent(64, {5}, {0, 9, 18, 27, 36, 45, 54, 63, 72, 81, 90, 99, 108, 117, 126, 1, 2, 3}, {0, 18, 63, 126}); }
ENTRY(w127) { D<20, 1, 64, 7, 0b10001001, uint8_t> d({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011});
  d.received(64, {0, 20, 40, 63, 64, 90, 110, 126}, 20); }
ENTRY(s255) { const int a = (int)RF<8, 0b100011101>::minpoly(1), b = (int)RF<8, 0b100011101>::minpoly(3), c = (int)RF<8, 0b100011101>::minpoly(5); D<6, 1, 231, 8, 0b100011101, uint8_t> d({a, b, c}); d.sent(231, {0, 128, 254}); d.sent(200, {199, 200, 223}); d.sent(231, {7, 8}); d.sent(231, {230}); }
ENTRY(w255) { const int a = (int)RF<8, 0b100011101>::minpoly(1), b = (int)RF<8, 0b100011101>::minpoly(3), c = (int)RF<8, 0b100011101>::minpoly(5); D<6, 1, 231, 8, 0b100011101, uint8_t> d({a, b, c}); d.received(60, {0, 7, 30, 59, 60, 75, 83}, 6); }
// symbol-wise decoder
template <int ROOTS, int FCR, int K, int M, int POLY> static void reference(std::initializer_list<int> polys, int len, int t, std::initializer_list<int> pos, std::initializer_list<int> era = {}) {
  typedef CODE::GaloisField<M, POLY, uint8_t> GF; typedef RF<M, (uint64_t)POLY> R; typedef typename GF::ValueType V; GF inst; const int N = GF::N, NP = N - K;
  CODE::BoseChaudhuriHocquenghemEncoderReference<ROOTS, FCR, K, GF> enc(polys); CODE::BoseChaudhuriHocquenghemDecoderReference<ROOTS, FCR, K, GF> dec;
  V d[K], p[NP], d0[K], p0[NP], sd[K], sp[NP]; for (int i = 0; i < len; ++i) d[i] = V(i * 5 % 3 == 1);
  enc(d, p, len); for (int i = 0; i < len; ++i) sd[i] = d[i]; for (int i = 0; i < NP; ++i) sp[i] = p[i];
  int w = 0; for (int q : pos) { bool e = sa_bit("error"), erased = false; for (int z : era) erased |= z == q; w += e & !erased; if (q < len) d[q].v ^= (uint8_t)e; else p[q - len].v ^= (uint8_t)e; }
  for (int i = 0; i < len; ++i) d0[i] = d[i]; for (int i = 0; i < NP; ++i) p0[i] = p[i];
  typename GF::IndexType loc[ROOTS]; int ne = 0; for (int z : era) loc[ne++] = typename GF::IndexType((uint8_t)z); int hit = 0; for (int i = 0; i < len; ++i) hit += d[i].v != sd[i].v; for (int i = 0; i < NP; ++i) hit += p[i].v != sp[i].v;
  int r = dec(d, p, ne ? loc : nullptr, ne, len); bool same = true, restored = true; uint8_t cw[N]; for (int i = 0; i < len; ++i) cw[i] = d[i].v; for (int i = 0; i < NP; ++i) cw[len + i] = p[i].v; bool ok = true; for (int i = 0; i < ROOTS; ++i) ok &= R::at(cw, len + NP, R::pow(FCR + i)) == 0;
  int changed = 0; for (int i = 0; i < len; ++i) changed += d[i].v != d0[i].v; for (int i = 0; i < NP; ++i) changed += p[i].v != p0[i].v; sa_true(r < 0 || (ok && changed == r), "a successful decoding yields a codeword and the number of changed bits"); for (int i = 0; i < len; ++i) same &= d[i].v == d0[i].v, restored &= d[i].v == sd[i].v; for (int i = 0; i < NP; ++i) same &= p[i].v == p0[i].v, restored &= p[i].v == sp[i].v;
  sa_true(r >= 0 || same, "a failed decoding leaves the word untouched"); sa_true(!(2 * w + ne <= t) || (r == hit && restored), "errors within the capability are corrected");
}
ENTRY(r15) { reference<6, 1, 5, 4, 0b10011>({0b10011, 0b11111, 0b00111}, 5, 6, ALL15); }
ENTRY(r15b) { reference<4, 1, 7, 4, 0b10011>({0b10011, 0b11111}, 5, 4, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}); }
ENTRY(r15e) { reference<6, 1, 5, 4, 0b10011>({0b10011, 0b11111, 0b00111}, 5, 6, ALL15, {0, 9}); reference<6, 1, 5, 4, 0b10011>({0b10011, 0b11111, 0b00111}, 3, 6, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, {2, 12}); }
ENTRY(r15c) { reference<4, 1, 7, 4, 0b10011>({0b10011, 0b11111}, 7, 4, ALL15, {3}); reference<4, 1, 7, 4, 0b10011>({0b10011, 0b11111}, 2, 4, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 4, 9}); }
// the long codes of the satellite standard, shortened
ENTRY(w16383) { static D<24, 1, 16215, 14, 0b100000000101011, uint16_t> d({0b100000000101011, 0b100100101000001, 0b100011001000111, 0b101010110010001, 0b110101101010101, 0b110001110001001, 0b110110011100101, 0b100111100100001, 0b100011000001111, 0b101101001001001, 0b101100000010001, 0b110010111101111});
  d.received(200, {0, 77, 200, 367}, 24); d.received(100, {99, 100, 267}, 24, {0, 99}); }
ENTRY(w65535) { static D<24, 1, 65343, 16, 0b10000000000101101, uint16_t> d({0b10000000000101101, 0b10000000101110011, 0b10000111110111101, 0b10101101001010101, 0b10001111100101111, 0b11111011110110101, 0b11010111101100101, 0b10111001101100111, 0b10000111010100001, 0b10111010110100111, 0b10011101000101101, 0b10001101011100011});
  d.received(300, {0, 491, 300}, 24); }
