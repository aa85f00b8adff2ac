#include "sa.h"
#include "mls.hh"
// maximal period of the register for primitive polynomials, by the order of the step matrix
template <int POLY, int DEG> static void period() {
  CODE::MLS m(POLY);
  unsigned r = sa_word("reg", DEG);
  m.reset(r);
  uint8_t before[sizeof m];
  memcpy(before, &m, sizeof m);
  m();
  sa_maxperiod(before, &m, sizeof m, DEG, "register visits every non-zero state");
}
// output stream: equals the recurrence given by the polynomial
template <int POLY, int DEG> static void recur() {
  CODE::MLS m(POLY);
  unsigned r = sa_word("reg", DEG);
  m.reset(r);
  bool s[3 * DEG];
  for (int i = 0; i < 3 * DEG; ++i) s[i] = m();
  // the first DEG outputs: top bit first, feedback as for a Galois register
  // every window satisfies sum_{k} poly_k * s[i+DEG-k... ] = 0
  for (int i = 0; i + DEG < 3 * DEG; ++i) {
    bool x = false;
    for (int k = 0; k <= DEG; ++k) if ((POLY >> k) & 1) x ^= s[i + k];
    sa_true(!x, "output obeys the linear recurrence of the polynomial");
  }
}
// distinct states give distinct output windows: the DEG outputs determine the register
template <int POLY, int DEG> static void observable() {
  CODE::MLS a(POLY);
  a.reset(0);
  bool any = false;
  for (int i = 0; i < DEG; ++i) any |= a();
  sa_true(!any, "zero register stays silent");
}
#define ALL(n, P, D) ENTRY(period##n) { period<P, D>(); } ENTRY(recur##n) { recur<P, D>(); } ENTRY(zero##n) { observable<P, D>(); }
ALL(3, 0b1011, 3)
ALL(4, 0b10011, 4)
ALL(5, 0b100101, 5)
ALL(6, 0b1000011, 6)
ALL(7, 0b10001001, 7)
ALL(8, 0b100011101, 8)
ALL(9, 0b1000010001, 9)
ALL(10, 0b10000001001, 10)
ALL(11, 0b100000000101, 11)
ALL(12, 0b1000001010011, 12)
ALL(15, 0b1000000000000011, 15)
ALL(16, 0b10001000000001011, 16)
ALL(17, 0b100000000000001001, 17)
ALL(20, 0b100000000000000001001, 20)
ALL(23, 0b100000000000000000100001, 23)
ENTRY(defaults) {
  CODE::MLS a, b(0b100000000000000001001), c(0b100000000000000001001, 77);
  c();
  c.reset();
  for (int i = 0; i < 64; ++i) { bool x = a(), y = b(), z = c(); sa_true(x == y, "default polynomial"); sa_true(x == z, "reset returns to the first output"); }
}
// bad(): true exactly for the polynomials whose register does not reach every non-zero state
static bool primitive(int poly, int deg) {
  // independent: order of x modulo poly is 2^deg-1
  unsigned r = 1; int n = 0;
  do { r <<= 1; if (r >> deg & 1) r ^= poly; ++n; } while (r != 1 && n < (1 << deg) && r);
  return r == 1 && n == (1 << deg) - 1;
}
template <int DEG> static void bad() {
  for (int p = (1 << DEG) | 1; p < (2 << DEG); p += 2) {
    CODE::MLS m(p);
    sa_true(m.bad() == !primitive(p, DEG), "bad() flags exactly the non-primitive polynomials");
  }
}
ENTRY(bad2) { bad<2>(); }
ENTRY(bad3) { bad<3>(); }
ENTRY(bad4) { bad<4>(); }
ENTRY(bad5) { bad<5>(); }
ENTRY(bad6) { bad<6>(); }
ENTRY(bad7) { bad<7>(); }
ENTRY(bad8) { bad<8>(); }
ENTRY(bad10) { for (int p : {0b10000001001, 0b10000000001, 0b11111111111, 0b10000001111}) { CODE::MLS m(p); sa_true(m.bad() == !primitive(p, 10), "bad() flags exactly the non-primitive polynomials"); } }
// the verdict does not depend on the non-zero register the check starts from, nor on what happened before
template <int DEG> static void badfrom() {
  for (int p = (1 << DEG) | 1; p < (2 << DEG); p += 2) for (int r = 1; r < 1 << DEG; ++r) { CODE::MLS m(p); m.reset(1 + r * 7 % ((1 << DEG) - 1)); sa_true(m.bad(r) == !primitive(p, DEG), "the verdict is the same from every start register"); }
  CODE::MLS z((1 << DEG) | 3); sa_true(z.bad(0), "the zero register never is a sequence");
}
ENTRY(badfrom2) { badfrom<2>(); }
ENTRY(badfrom3) { badfrom<3>(); }
ENTRY(badfrom4) { badfrom<4>(); }
ENTRY(badfrom5) { badfrom<5>(); }
template <int POLY, int DEG> static void badany() { CODE::MLS m(POLY); int r = (int)sa_word("start", DEG); sa_assume(r != 0); sa_true(m.bad(r) == !primitive(POLY, DEG), "the verdict is the same from every start register"); }
ENTRY(badany6) { badany<0b1000011, 6>(); }
ENTRY(badany6b) { badany<0b1000001, 6>(); }
ENTRY(badany8) { badany<0b100011101, 8>(); }
ENTRY(badany8b) { badany<0b100000011, 8>(); }
// reset with any register continues the one cycle: equals running on from there, and constructor argument = reset argument
ENTRY(resetto) { const int P = 0b100011101; unsigned r = sa_word("reg", 8); CODE::MLS a(P, (int)r), b(P), c(P); b.reset((int)r); for (int i = 0; i < 9; ++i) c(); c.reset((int)r); for (int i = 0; i < 40; ++i) { bool x = a(), y = b(), z = c(); sa_true(x == y && x == z, "the sequence follows the register it was set to"); } }
ENTRY(bad1) { { CODE::MLS m(0b11); sa_true(!m.bad(), "the register of degree one is one all the time"); } { CODE::MLS m(0b10); sa_true(m.bad(), "a register without feedback runs empty"); } for (int d = 2; d < 8; ++d) { CODE::MLS m(1 << d | 2); sa_true(m.bad(), "a register without feedback to its end is no maximum length sequence"); } }
