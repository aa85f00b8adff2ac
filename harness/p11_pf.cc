#include "sa.h"
#include "prime_field.hh"
// operands below P: one case per value of the top bit of each operand keeps every case within 16 free bits
template <class T, T P> struct X {
  typedef CODE::PrimeField<T, P> PF;
  static void two(T a, T b) {
    PF x(a), y(b);
    sa_true((x + y)() == (a + b) % P, "sum modulo the prime");
    sa_true((x - y)() == (a + P - b) % P, "difference modulo the prime");
    sa_true((x * y)() == a * b % P, "product modulo the prime");
    PF c(x); c += y; PF d(x); d -= y; PF e(x); e *= y;
    sa_true(c == x + y && d == x - y && e == x * y && !(c != x + y), "compound operators");
    sa_true(reduce(add(x, y)) == x + y && reduce(sub(x, y)) == x - y && reduce(mul(x, y)) == x * y, "delayed reduction");
    sa_true((x == y) == (a == b) && (x != y) == (a != b), "equality");
  }
  static void quot(T a, T b) {
    PF x(a), y(b);
    PF q = x / y; sa_true(q() < P && q() * b % P == a, "quotient times divisor");
    PF f(x); f /= y; sa_true(f == q, "compound quotient"); sa_true(reduce(div(x, y)) == q, "delayed quotient");
  }
  static void one(T a) {
    PF x(a);
    sa_true((-x)() == (P - a) % P && reduce(neg(x)) == -x, "negation modulo the prime");
    T s = a, e = 1; for (int k = 1; k < 6; ++k) { e = e * s % P; sa_true(pow(x, (T)k)() == e, "power"); }
    sa_true(pow(x, (T)0)() == 1, "zeroth power is one");
  }
  static void inv(T a) { sa_assume(a != 0); PF r = rcp(PF(a)); sa_true(r() > 0 && r() < P && r() * a % P == 1, "reciprocal times value is one"); }
};
typedef X<uint32_t, 257> A;
static uint32_t b8(const char *n) { return (uint32_t)sa_word(n, 8); }
ENTRY(two257) { A::two(b8("a"), b8("b")); }
ENTRY(two257b) { A::two(256, b8("b")); A::two(b8("a"), 256); A::two(256, 256); }
ENTRY(quot257) { uint32_t b = b8("b"); sa_assume(b != 0); A::quot(b8("a"), b); }
ENTRY(quot257b) { uint32_t b = b8("b"); sa_assume(b != 0); A::quot(256, b); A::quot(b8("a"), 256); A::quot(256, 256); }
ENTRY(one257) { A::one(b8("a")); A::one(256); }
ENTRY(inv257) { A::inv(b8("a")); A::inv(256); }
typedef X<uint64_t, 65537> B;
static uint64_t b16(const char *n) { return sa_word(n, 16); }
ENTRY(two65537) { B::two(b16("a"), 65536); B::two(65536, b16("b")); B::two(65536, 65536); }
ENTRY(two65537b) { const uint64_t v[] = {0, 1, 2, 3, 32768, 32769, 65535, 12345}; for (uint64_t x : v) B::two(b16("a"), x); }
ENTRY(two65537c) { const uint64_t v[] = {0, 1, 2, 255, 32768, 32769, 65535, 54321}; for (uint64_t x : v) B::two(x, b16("b")); }
ENTRY(two65537d) { uint64_t hi = sa_word("ah", 8), bl = sa_word("bh", 8); B::two(hi << 8 | 0x80, bl << 8 | 0xff); }
ENTRY(one65537) { B::one(65536); B::one(b16("a")); }
ENTRY(inv65537) { B::inv(b16("a")); }
ENTRY(inv65537b) { B::inv(65536); uint64_t b = b16("b"); sa_assume(b != 0); B::quot(65536, b); }
ENTRY(small) {
  uint32_t a = (uint32_t)sa_word("a", 4), b = (uint32_t)sa_word("b", 4); sa_assume(a < 13 && b < 13); X<uint32_t, 13>::two(a, b); X<uint32_t, 13>::one(a);
  sa_assume(b != 0); X<uint32_t, 13>::quot(a, b); X<uint32_t, 13>::inv(b);
  uint64_t c = sa_word("c", 1), d = 1; X<uint64_t, 2>::two(c, d); X<uint64_t, 2>::quot(c, d); X<uint64_t, 2>::one(c);
}
// primes which nearly fill half of their type: a window of free bits in the middle, at the ends and next to the prime
template <class T, T P> static void wide(int n) {
  typedef X<T, P> W; const T fix[] = {0, 1, 2, P - 1, P - 2, P / 2, P / 2 + 1, (T)(P / 3)};
  T a = (T)sa_word("a", 8), b = (T)sa_word("b", 8); const int m = (n - 8) / 2;
  for (int k = 0; k < 3; ++k) { T x = k == 0 ? a : k == 1 ? (T)(a << m | 5) : (T)(P - 1 - a), y = k == 0 ? (T)(P - 1 - b) : k == 1 ? (T)(b << (n - 9)) : (T)(b << m); W::two(x, y); W::one(x); }
  for (T f : fix) { W::two(a, f); W::two(f, P - 1 - b); W::one(f); W::two(f, f); }
}
template <class T, T P> static void wideinv(int n) { typedef X<T, P> W; T a = (T)sa_word("a", 6), b = (T)sa_word("b", 6); sa_assume(b != 0); W::inv(b); W::inv(P - b); W::inv(b << (n - 7)); W::quot(a << 5, b); W::quot(P - 1 - a, P - b); W::quot(0, b); W::quot(b << 3, P - 1); }
ENTRY(wide65521) { wide<uint32_t, 65521>(16); }
ENTRY(wide65521b) { wideinv<uint32_t, 65521>(16); }
ENTRY(wide31) { wide<uint64_t, 2147483647>(31); }
ENTRY(wide31b) { wideinv<uint64_t, 2147483647>(31); }
ENTRY(wide32) { wide<uint64_t, 4294967291>(32); }
ENTRY(wide32b) { wideinv<uint64_t, 4294967291>(32); }
ENTRY(wide16in64) { wide<uint64_t, 40961>(16); }
// any exponent
ENTRY(power) {
  typedef CODE::PrimeField<uint32_t, 257> PF; typedef CODE::PrimeField<uint64_t, 65537> QF; uint32_t a = b8("a"), m = (uint32_t)sa_word("m", 8);
  uint32_t e = 1; for (int k = 7; k >= 0; --k) { e = e * e % 257; if (m >> k & 1) e = e * a % 257; }
  sa_true(pow(PF(a), m)() == e, "any power"); sa_true(pow(PF(a), (uint32_t)(m + 256))() == (a ? e : 0), "powers repeat");
  uint64_t c = a << 8 | 1, f = 1; for (int k = 15; k >= 0; --k) { f = f * f % 65537; if ((m << 5 | 9) >> k & 1) f = f * c % 65537; }
  sa_true(pow(QF(c), (uint64_t)(m << 5 | 9))() == f, "any power of the large prime");
}
