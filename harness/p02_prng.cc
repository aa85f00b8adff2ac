#include "sa.h"
#include "xorshift.hh"
// one step is a bijective GF(2)-linear map of maximal order on the non-zero states
template <class G, int NB, int STATE> static void period(const char *label) {
  G g;
  sa_bits(&g, STATE, "state");
  uint8_t before[sizeof(G)];
  memcpy(before, &g, sizeof(G));
  g();
  sa_maxperiod(before, &g, sizeof(G), NB, label);
}
ENTRY(x32) { period<CODE::Xorshift32, 32, 4>("32-bit generator visits every non-zero state"); }
ENTRY(x64) { period<CODE::Xorshift64, 64, 8>("64-bit generator visits every non-zero state"); }
ENTRY(x128) { period<CODE::Xorshift128, 128, 16>("128-bit generator visits every non-zero state"); }
template <class G> static void again(const char *label) {
  G a, b;
  sa_bits(&b, sizeof(G), "any history");
  b.reset();
  for (int i = 0; i < 40; ++i) {
    auto x = a(), y = b();
    sa_eq(&x, &y, sizeof x, label);
  }
  sa_eq(&a, &b, sizeof(G), label);
}
ENTRY(reset32) { again<CODE::Xorshift32>("reset reproduces the default sequence"); }
ENTRY(reset64) { again<CODE::Xorshift64>("reset reproduces the default sequence"); }
ENTRY(reset128) { again<CODE::Xorshift128>("reset reproduces the default sequence"); }
ENTRY(resetwow) { again<CODE::Xorwow>("reset reproduces the default sequence"); }
ENTRY(xwow) {
  // linear part symbolic through the public constructor, counter part constant
  CODE::Xorwow g(sa_any<uint32_t>("x"), sa_any<uint32_t>("y"), sa_any<uint32_t>("z"), sa_any<uint32_t>("w"), sa_any<uint32_t>("v"), 0);
  uint8_t before[sizeof(g)];
  memcpy(before, &g, sizeof(g));
  g();
  sa_maxperiod(before, &g, sizeof(g), 160, "160-bit part visits every non-zero state");
  CODE::Xorwow c(0, 0, 0, 0, 0, 0);
  uint32_t inc = c(), last = inc;
  sa_true(inc & 1, "counter step is odd, so the counter visits every value");
  for (int i = 0; i < 16; ++i) { uint32_t n = c(); sa_true(n - last == inc, "counter advances by a constant step"); last = n; }
}
template <class G> static void range(const char *label) {
  G g; sa_bits(&g, sizeof g, "state");
  typename G::result_type r = g(), lo = G::min(), hi = G::max(), all = ~(typename G::result_type)0, z = 0;
  sa_eq(&lo, &z, sizeof lo, label);
  sa_eq(&hi, &all, sizeof hi, label);
  (void)r;
}
ENTRY(range) { range<CODE::Xorshift32>("advertised range"); range<CODE::Xorshift64>("advertised range"); range<CODE::Xorshift128>("advertised range"); range<CODE::Xorwow>("advertised range"); }
// the word a generator returns is all of its state: every non-zero word comes exactly once in a period
template <class G> static void whole() { G g, h; sa_bits(&g, sizeof g, "state"); auto y = g(); h.reset(y); for (int i = 0; i < 4; ++i) { auto a = g(), b = h(); sa_eq(&a, &b, sizeof a, "the returned word is the state"); } }
ENTRY(whole) { whole<CODE::Xorshift32>(); whole<CODE::Xorshift64>(); }
