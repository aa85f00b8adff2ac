#include "sa.h"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
// arithmetic of a field on unknown operands against the definition, whatever other fields exist or existed
template <int M, int POLY, class T> struct F {
  typedef CODE::GaloisField<M, POLY, T> GF; typedef typename GF::ValueType V; typedef typename GF::IndexType I;
  alignas(64) unsigned char room[sizeof(GF)]; GF *f;
  void make() { for (size_t i = 0; i < sizeof room; ++i) room[i] = 0xa5; f = new (room) GF(); }
  void drop() { f->~GF(); for (size_t i = 0; i < sizeof room; ++i) room[i] = 0x5a; }
  static uint32_t mul(uint32_t a, uint32_t b) { uint32_t p = 0; for (int i = M - 1; i >= 0; --i) { p <<= 1; if (p >> M & 1) p ^= (uint32_t)POLY; p ^= (0 - (b >> i & 1)) & a; } return p; }
  static void good() {
    V a((T)sa_word("a", M)), b((T)sa_word("b", M)), c((T)sa_word("c", M)); V p = a * b; T w = (T)mul(a.v, b.v); sa_eq(&p.v, &w, sizeof w, "products follow this field's polynomial");
    T x = (T)sa_word("x", M); sa_assume(x != 0); V n(x); V r = rcp(n); sa_true(mul(r.v, x) == 1, "reciprocals follow this field's polynomial"); sa_true(value(index(n)) == n, "index and value belong together");
    V q = fma(a, b, c); w = (T)(mul(a.v, b.v) ^ c.v); sa_eq(&q.v, &w, sizeof w, "sums of products follow this field's polynomial");
  }
};
typedef F<3, 0b1011, uint8_t> A3; typedef F<3, 0b1101, uint8_t> B3; typedef F<4, 0b10011, uint8_t> A4; typedef F<4, 0b11001, uint8_t> B4; typedef F<4, 0b10011, uint16_t> C4; typedef F<4, 0b10011, uint32_t> D4; typedef F<8, 0b100011101, uint8_t> A8; typedef F<8, 0b100101011, uint8_t> B8; typedef F<5, 0b100101, uint8_t> A5; typedef F<5, 0b101001, uint16_t> B5;
// one after the other
template <class X> static void again() { static X x; x.make(); X::good(); x.drop(); x.make(); X::good(); x.drop(); static X y; y.make(); X::good(); y.drop(); }
ENTRY(again) { again<A3>(); again<A4>(); again<C4>(); again<B5>(); }
ENTRY(again8) { again<A8>(); }
// side by side, ending in either order, and coming back
template <class X, class Y> static void pair() {
  static X x; static Y y; x.make(); X::good(); y.make(); X::good(); Y::good();
  x.drop(); Y::good(); x.make(); X::good(); Y::good(); y.drop(); X::good(); y.make(); y.drop(); X::good(); x.drop(); y.make(); Y::good(); y.drop();
}
ENTRY(polynomials) { pair<A3, B3>(); pair<A4, B4>(); }
ENTRY(types) { pair<A4, C4>(); pair<C4, D4>(); }
ENTRY(widths) { pair<A3, A4>(); pair<A4, A5>(); pair<A5, B5>(); }
ENTRY(wide) { pair<A8, B8>(); }
ENTRY(wide2) { pair<A4, A8>(); }
ENTRY(three) { static A3 a; static A4 b; static A8 c; a.make(); b.make(); c.make(); A3::good(); A4::good(); A8::good(); b.drop(); A3::good(); A8::good(); a.drop(); A8::good(); b.make(); A4::good(); A8::good(); c.drop(); A4::good(); }
// objects of the field type on the stack and as members
struct Both { A4::GF f; B4::GF g; };
ENTRY(members) { { Both x; A4::good(); B4::good(); } { A4::GF f; A4::good(); { B4::GF g; B4::good(); A4::good(); } A4::good(); } B4::GF h; B4::good(); }
// codes over two fields at once: the tables a coder prepared outlive and ignore other fields
ENTRY(coders) {
  typedef A4::GF G; typedef A8::GF H; static A8 o; uint8_t d[11], p[4], want[15]; sa_bits(want, 15, "ignored"); A4 s; s.make();
  CODE::ReedSolomonEncoder<4, 1, G> e; CODE::ReedSolomonDecoder<4, 1, G> dec; for (int i = 0; i < 11; ++i) want[i] = d[i] = (uint8_t)sa_word("data", 4);
  e(d, p); for (int i = 0; i < 4; ++i) want[11 + i] = p[i];
  o.make(); { CODE::ReedSolomonEncoder<8, 0, H> e8; CODE::ReedSolomonDecoder<8, 0, H> d8; uint8_t x[247], y[8]; for (int i = 0; i < 247; ++i) x[i] = (uint8_t)(i * 31); e8(x, y); x[7] ^= 9; y[2] ^= 99; d8(x, y); }
  uint8_t q[4]; e(d, q); sa_eq(q, p, 4, "an encoder is not disturbed by another field"); o.drop(); e(d, q); sa_eq(q, p, 4, "an encoder is not disturbed by another field");
  d[3] ^= 5; p[1] ^= 11; int r = dec(d, p); sa_true(r == 2, "a decoder is not disturbed by another field"); sa_eq(d, want, 11, "a decoder is not disturbed by another field"); sa_eq(p, want + 11, 4, "a decoder is not disturbed by another field");
}
