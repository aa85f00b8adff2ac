#include "sa.h"
#include "galois_field.hh"
// reference: carry-less product reduced by the defining polynomial
template <int M, uint64_t POLY> static uint32_t refmul(uint32_t a, uint32_t b) {
  uint32_t p = 0;
  for (int i = M - 1; i >= 0; --i) { p <<= 1; if (p >> M & 1) p ^= (uint32_t)POLY; p ^= (0 - (b >> i & 1)) & a; }
  return p;
}
template <int M, uint64_t POLY> static uint32_t refpow(uint32_t e) { uint32_t a = 1; for (int i = 0; i < M; ++i) { uint32_t x = 2; for (int j = 0; j < i; ++j) x = refmul<M, POLY>(x, x); if (e >> i & 1) a = refmul<M, POLY>(a, x); } return a; }
template <int M, int POLY, class T> struct F {
  typedef CODE::GaloisField<M, POLY, T> GF;
  typedef typename GF::ValueType V;
  typedef typename GF::IndexType I;
  static V v(const char *n) { return V((T)sa_word(n, M)); }
  static V nz(const char *n) { T x = (T)sa_word(n, M); sa_assume(x != 0); return V(x); }
  static I ix(const char *n) { T x = (T)sa_word(n, M); sa_assume(x < I::modulus()); return I(x); }
  static uint32_t mul(uint32_t a, uint32_t b) { return refmul<M, (uint64_t)POLY>(a, b); }
  static uint32_t pw(uint32_t e) { return refpow<M, (uint64_t)POLY>(e); }
};
template <int M, int POLY, class T> static void ring() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V;
  V a = X::v("a"), b = X::v("b");
  sa_true((uint32_t)(int)(a * b) == X::mul(a.v, b.v), "product is the polynomial product");
  sa_true((a + b).v == (T)(a.v ^ b.v), "sum is the bitwise sum");
  sa_true((a - b) == a + b && -a == a, "difference equals sum");
  V c(a); c *= b; V d(a); d += b;
  sa_true(c == a * b, "compound product"); sa_true(d == a + b, "compound sum");
  sa_true(bool(a) == (a.v != 0), "truth of a value"); sa_true((a == b) == (a.v == b.v) && (a != b) == (a.v != b.v), "equality");
}
template <int M, int POLY, class T> static void inverse() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V;
  V a = X::nz("a");
  V r = rcp(a);
  sa_true(X::mul(a.v, r.v) == 1, "reciprocal times value is one");
  sa_true(value(index(a)) == a, "value of index");
  sa_true(rcp(index(a)).i < index(a).modulus() && value(rcp(index(a))) == r, "reciprocal of index");
  sa_true(X::pw(index(a).i) == a.v, "index is the discrete logarithm");
}
template <int M, int POLY, class T> static void quotient() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V;
  V a = X::v("a"), b = X::nz("b");
  V q = a / b;
  sa_true(X::mul(q.v, b.v) == a.v, "quotient times divisor");
}
template <int M, int POLY, class T> static void indices() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V; typedef typename X::I I;
  I i = X::ix("i"), j = X::ix("j");
  uint32_t n = (1u << M) - 1;
  sa_true((uint32_t)(i * j).i == ((uint32_t)i.i + j.i) % n, "indices multiply by adding");
  sa_true((uint32_t)(i / j).i == ((uint32_t)i.i + n - j.i) % n, "indices divide by subtracting");
  sa_true((uint32_t)rcp(i).i == (n - i.i) % n, "index reciprocal negates");
  I c(i); c *= j; I d(i); d /= j;
  sa_true(c.i == (i * j).i && d.i == (i / j).i, "compound index operators");
}
template <int M, int POLY, class T> static void mixed() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V; typedef typename X::I I;
  V a = X::v("a"); I i = X::ix("i");
  V x = value(i);
  sa_true(i * a == x * a && a * i == a * x, "index times value");
  sa_true(a / i == a / x, "value divided by index");
  V c(a); c *= i; sa_true(c == a * x, "compound value by index");
}
template <int M, int POLY, class T> static void mixed2() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V; typedef typename X::I I;
  V a = X::nz("a"); I i = X::ix("i");
  sa_true(i / a == value(i) / a, "index divided by value");
}
template <int M, int POLY, class T> static void fmas(uint32_t cc) {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V; typedef typename X::I I;
  { V a = X::v("a"), b = X::v("b"), c(M <= 5 ? (T)sa_word("c", M) : (T)cc); sa_true(fma(a, b, c).v == (T)(X::mul(a.v, b.v) ^ c.v), "fused multiply-add of values"); }
  { I i = X::ix("i"), j = X::ix("j"); V c(M <= 5 ? (T)sa_word("c", M) : (T)cc); sa_true(fma(i, j, c) == value(i) * value(j) + c, "fused multiply-add of indices"); }
  { I i = X::ix("i"); V b = X::v("b"), c(M <= 5 ? (T)sa_word("c", M) : (T)cc); sa_true(fma(i, b, c) == value(i) * b + c, "fused multiply-add of index and value"); sa_true(fma(b, i, c) == value(i) * b + c, "fused multiply-add of value and index"); }
}
#define FIELD(n, M, P, T) \
  ENTRY(ring##n) { ring<M, P, T>(); } ENTRY(inv##n) { inverse<M, P, T>(); } ENTRY(quot##n) { quotient<M, P, T>(); } ENTRY(idx##n) { indices<M, P, T>(); } \
  ENTRY(mix##n) { mixed<M, P, T>(); } ENTRY(mixb##n) { mixed2<M, P, T>(); } ENTRY(fma##n) { fmas<M, P, T>((1 << (M - 1)) - 2); }
FIELD(3, 3, 0b1011, uint8_t)
FIELD(4, 4, 0b10011, uint8_t)
FIELD(4w, 4, 0b10011, uint16_t)
FIELD(5, 5, 0b100101, uint8_t)
FIELD(6, 6, 0b1000011, uint8_t)
FIELD(7, 7, 0b10001001, uint8_t)
FIELD(8, 8, 0b100011101, uint8_t)
// large fields: one operand free, the other from a list that includes the extremes
template <int M, int POLY, class T> static void large() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V; typedef typename X::I I;
  uint32_t n = (1u << M) - 1;
  const uint32_t vs[] = {0, 1, 2, 3, 1u << (M - 1), (1u << (M - 1)) + 1, n - 1, n, 0x1234 & n};
  for (uint32_t x : vs) {
    V a = X::v("a"), b((T)x);
    sa_true((a * b).v == X::mul(a.v, x) && (b * a) == a * b, "product is the polynomial product");
    sa_true(fma(a, b, V((T)0x35)).v == (T)(X::mul(a.v, x) ^ 0x35), "fused multiply-add of values");
    if (x) sa_true(X::mul((a / b).v, x) == a.v, "quotient times divisor");
  }
  const uint32_t is[] = {0, 1, 2, n / 2, n / 2 + 1, n - 2, n - 1};
  for (uint32_t x : is) {
    I i = X::ix("i"), j((T)x);
    sa_true((uint32_t)(i * j).i == ((uint32_t)i.i + x) % n && (uint32_t)(j * i).i == ((uint32_t)i.i + x) % n, "indices multiply by adding");
    sa_true((uint32_t)(i / j).i == ((uint32_t)i.i + n - x) % n && (uint32_t)(j / i).i == (x + n - i.i) % n, "indices divide by subtracting");
  }
}
template <int M, int POLY, class T> static void largeinv() {
  typedef F<M, POLY, T> X; typename X::GF inst; typedef typename X::V V; typedef typename X::I I;
  V a = X::nz("a");
  sa_true(value(index(a)) == a && index(a).i < I::modulus(), "value of index");
  sa_true(rcp(rcp(a)) == a && a * rcp(a) == V(1), "reciprocal times value is one");
  I i = X::ix("i"); uint32_t n = (1u << M) - 1;
  sa_true((uint32_t)rcp(i).i == (n - i.i) % n, "index reciprocal negates");
  I one((T)1); sa_true(value(i * one).v == X::mul(value(i).v, 2), "next power is times x");
}
ENTRY(large14) { large<14, 0b100000000101011, uint16_t>(); }
ENTRY(large16) { large<16, 0b10001000000001011, uint16_t>(); }
ENTRY(large16b) { large<16, 0b10000000000101101, uint16_t>(); }
ENTRY(linv14) { largeinv<14, 0b100000000101011, uint16_t>(); }
ENTRY(linv15) { largeinv<15, 0b1000000000101101, uint16_t>(); }
ENTRY(linv16) { largeinv<16, 0b10001000000001011, uint16_t>(); }
// the table-free reference field
template <int M, int64_t POLY, class T> static void refring() {
  typedef CODE::GaloisFieldReference<M, POLY, T> R;
  R a((T)sa_word("a", M)), b((T)sa_word("b", M));
  sa_true((a * b).v == (T)refmul<M, (uint64_t)POLY>(a.v, b.v), "table-free product is the polynomial product");
  sa_true((a + b).v == (T)(a.v ^ b.v) && (a - b).v == (T)(a.v ^ b.v) && (-a).v == a.v, "table-free sum and difference");
  R c(a); c *= b; R d(a); d += b; sa_true(c == a * b && d == a + b && !(c != a * b), "table-free compound operators");
}
template <int M, int64_t POLY, class T> static void refinv() {
  typedef CODE::GaloisFieldReference<M, POLY, T> R;
  R b((T)sa_word("b", M)); sa_assume(b.v != 0);
  R r = rcp(b);
  sa_true(r.v <= R::N && refmul<M, (uint64_t)POLY>(b.v, r.v) == 1, "table-free reciprocal");
  R a((T)(0x5a5a & ((1 << M) - 1))); sa_true(refmul<M, (uint64_t)POLY>((a / b).v, b.v) == a.v, "table-free quotient");
}
ENTRY(rring3) { refring<3, 0b1011, uint8_t>(); }
ENTRY(rring4) { refring<4, 0b10011, uint8_t>(); }
ENTRY(rring8) { refring<8, 0b100011101, uint8_t>(); }
ENTRY(rring8w) { refring<8, 0b100011101, uint16_t>(); }
ENTRY(rinv3) { refinv<3, 0b1011, uint8_t>(); }
ENTRY(rinv4) { refinv<4, 0b10011, uint8_t>(); }
ENTRY(rinv8) { refinv<8, 0b100011101, uint8_t>(); }
ENTRY(rinv8w) { refinv<8, 0b100011101, uint16_t>(); }
ENTRY(rinv12) { refinv<12, 0b1000001010011, uint16_t>(); }
// 32-bit reference field: multiplication by any constant is linear in the other factor
ENTRY(rring32) {
  typedef CODE::GaloisFieldReference<32, (int64_t)0b100000000010000000000000000000111, uint32_t> R;
  const uint32_t vs[] = {0, 1, 2, 3, 0x80000000u, 0xffffffffu, 0x12345678u, 0x87654321u};
  for (uint32_t x : vs) { R a((uint32_t)sa_word("a", 32)), b(x); uint64_t p = 0; for (int i = 31; i >= 0; --i) { p <<= 1; p ^= (0 - (p >> 32 & 1)) & 0b100000000010000000000000000000111ull; if (x >> i & 1) p ^= a.v; } uint32_t w = (uint32_t)p, g = (a * b).v; sa_eq(&g, &w, 4, "table-free product is the polynomial product"); }
}
