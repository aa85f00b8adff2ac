#include "sa.h"
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include "simd.hh"
#include "polar_helper.hh"
using CODE::PolarHelper;
static int clampi(int x) { return x < -127 ? -127 : x > 127 ? 127 : x; }
static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int mag(int x) { return x < -127 ? 127 : x < 0 ? -x : x; }
// a saturated sum: exact inside of -127..127, the end of the range outside (either of the two most negative numbers)
static bool satsum(int r, int s) { return r == clampi(s) || (s < -127 && r == -128); }
// plain numbers: every operand of eight bits
ENTRY(byte_unary) {
  typedef PolarHelper<int8_t> H; int8_t a = sa_any<int8_t>("a");
  sa_true(H::one() == 1 && H::zero() == 0, "one and zero"); sa_true(H::signum(a) == sgn(a), "signum"); sa_true(H::qabs(a) == mag(a), "qabs");
}
ENTRY(byte_binary) {
  typedef PolarHelper<int8_t> H; int8_t a = sa_any<int8_t>("a"), b = sa_any<int8_t>("b");
  sa_true(H::qmin(a, b) == (a < b ? a : b), "qmin"); sa_true(H::qadd(a, b) == clampi(a + b), "qadd");
  int m = mag(a) < mag(b) ? mag(a) : mag(b); sa_true(H::prod(a, b) == sgn(a) * sgn(b) * m, "prod");
  for (int h = -1; h <= 1; ++h) { int8_t hard = (int8_t)h; bool in = a >= -127; sa_true(!in | (H::qmul(a, hard) == a * h), "qmul by a hard decision"); sa_true(!in | (H::qmul(hard, a) == a * h), "qmul of a hard decision"); }
  for (int h = -1; h <= 1; ++h) { bool in = a >= -127; sa_true(!in | (H::madd((int8_t)h, a, b) == clampi(h * a + b)), "madd"); }
}
ENTRY(byte_madd) { // general factors
  typedef PolarHelper<int8_t> H; int8_t a = sa_any<int8_t>("a"), c = sa_any<int8_t>("c");
  const int f[6] = {-128, -127, -2, 2, 5, 127}; for (int i = 0; i < 6; ++i) sa_true(H::madd(a, (int8_t)f[i], c) == clampi(a * f[i] + c), "madd with any factor");
}
template <typename F> static void quants() {
  typedef PolarHelper<int8_t> H; int x = (int)sa_word("eighths", 12) - 2048; F in = (F)x / 8; // -256 to 256
  int r = H::quant(in); int fl = (x + 4096) / 8 - 512, frac = (x + 4096) % 8; int lo = clampi(fl), hi = clampi(fl + 1), want = clampi(fl + (frac > 4));
  sa_true(frac == 4 ? (r == lo) | (r == hi) : r == want, "quant rounds to the nearest number and saturates");
}
ENTRY(quant_float) { quants<float>(); }
ENTRY(quant_double) { quants<double>(); }
ENTRY(quant_far) {
  typedef PolarHelper<int8_t> H; const float v[8] = {1e3f, -1e3f, 1e9f, -1e9f, 1e38f, -1e38f, 127.5f, -127.5f}; int s = (int)sa_word("which", 3);
  float in = 0; for (int i = 0; i < 8; ++i) in = s == i ? v[i] : in; sa_true(H::quant(in) == (in > 0 ? 127 : -127), "far values saturate");
}
// vectors of eight bit numbers
template <int W> static void bytes() {
  typedef SIMD<int8_t, W> T; typedef PolarHelper<T> H; T a, b; sa_bits(a.v, W, "a"); sa_bits(b.v, W, "b");
  T o = H::one(), z = H::zero(), s = H::signum(a), q = H::qabs(a), d = H::qadd(a, b), p = H::prod(a, b);
  for (int i = 0; i < W; ++i) { int x = a.v[i], y = b.v[i], m = mag(x) < mag(y) ? mag(x) : mag(y);
    sa_true(o.v[i] == 1 && z.v[i] == 0, "one and zero"); sa_true(s.v[i] == sgn(x), "signum"); sa_true(q.v[i] == mag(x), "qabs"); sa_true(satsum(d.v[i], x + y), "qadd"); sa_true(p.v[i] == sgn(x) * sgn(y) * m, "prod"); }
  T h; for (int k = 0; k < 3; ++k) { for (int i = 0; i < W; ++i) h.v[i] = (int8_t)((i + k) % 3 - 1);
    T e = H::qmul(a, h), g = H::madd(h, a, b);
    for (int i = 0; i < W; ++i) { int x = a.v[i], y = b.v[i], f = h.v[i]; sa_true((x < -127) | (e.v[i] == x * f), "qmul by a hard decision"); sa_true((x < -127) | (satsum(g.v[i], f * x + y) & (g.v[i] >= -127)), "madd"); sa_true((x >= -127) | satsum(g.v[i], f * -127 + y) | satsum(g.v[i], f * -128 + y), "madd of the most negative number"); } }
  T u; for (int i = 0; i < W; ++i) { int x = (int)sa_word("hard", 2) - 1; u.v[i] = (int8_t)(x > 1 ? 1 : x); } for (int i = 0; i < W; ++i) h.v[i] = (int8_t)(i % 3 - 1);
  T e = H::qmul(h, u), f = H::qmul(u, h); for (int i = 0; i < W; ++i) { sa_true(e.v[i] == h.v[i] * u.v[i], "qmul of hard decisions"); sa_true(f.v[i] == h.v[i] * u.v[i], "qmul of hard decisions"); }
}
ENTRY(bytes4) { bytes<4>(); }
ENTRY(bytes16) { bytes<16>(); }
ENTRY(bytes32) { bytes<32>(); }
ENTRY(bytes64) { bytes<64>(); }
// other number formats calculate without saturation
static const int SC[16] = {0, 1, -1, 2, -2, 3, -5, 7, -8, 12, -13, 40, -41, 100, -99, 127};
template <typename V> static V pick(const char *name) { int s = (int)sa_word(name, 4); V r = 0; for (int i = 0; i < 16; ++i) r = s == i ? (V)((V)SC[i] / (V)((V)0.5 > (V)0 ? 4 : 1)) : r; return r; }
template <typename V> static V absv(V a) { return a < 0 ? -a : a; }
template <typename V> static V product(V a, V b) { V m = absv(a) < absv(b) ? absv(a) : absv(b); return (a < 0) != (b < 0) ? -m : m; }
template <typename V> static void plain() {
  typedef PolarHelper<V> H; V a = pick<V>("a"), b = pick<V>("b"), c = pick<V>("c");
  sa_true(H::one() == 1 && H::zero() == 0, "one and zero"); sa_true(H::signum(a) == sgn((a > 0) - (a < 0)), "signum"); sa_true(H::qabs(a) == absv(a), "qabs"); sa_true(H::quant(a) == a, "quant");
  sa_true(H::qmin(a, b) == (a < b ? a : b), "qmin"); sa_true(H::qadd(a, b) == a + b, "qadd"); sa_true(H::qmul(a, b) == a * b, "qmul"); sa_true(H::prod(a, b) == product(a, b), "prod"); sa_true(H::madd(a, b, c) == a * b + c, "madd");
}
ENTRY(plain_float) { plain<float>(); }
ENTRY(plain_double) { plain<double>(); }
ENTRY(plain_int) { plain<int>(); plain<int16_t>(); }
template <typename V, int W> static void wide() {
  typedef SIMD<V, W> T; typedef PolarHelper<T> H; T a, b, c; for (int i = 0; i < W; ++i) { a.v[i] = pick<V>("a"); b.v[i] = pick<V>("b"); c.v[i] = (V)SC[(i * 7 + 3) % 16]; }
  T o = H::one(), z = H::zero(), s = H::signum(a), q = H::qabs(a), n = H::qmin(a, b), d = H::qadd(a, b), u = H::qmul(a, b), p = H::prod(a, b), m = H::madd(a, b, c);
  for (int i = 0; i < W; ++i) { V x = a.v[i], y = b.v[i], w = c.v[i];
    sa_true(o.v[i] == 1 && z.v[i] == 0, "one and zero"); sa_true(s.v[i] == sgn((x > 0) - (x < 0)), "signum"); sa_true(q.v[i] == absv(x), "qabs"); sa_true(n.v[i] == (x < y ? x : y), "qmin"); sa_true(d.v[i] == x + y, "qadd"); sa_true(u.v[i] == x * y, "qmul"); sa_true(p.v[i] == product(x, y), "prod"); sa_true(m.v[i] == x * y + w, "madd"); }
}
ENTRY(floats) { wide<float, 4>(); wide<float, 8>(); wide<float, 16>(); wide<float, 32>(); }
ENTRY(doubles) { wide<double, 2>(); wide<double, 4>(); wide<double, 16>(); }
ENTRY(shorts) { wide<int16_t, 8>(); wide<int16_t, 16>(); wide<int16_t, 32>(); }
ENTRY(ints) { wide<int32_t, 4>(); wide<int32_t, 8>(); wide<int32_t, 32>(); }
