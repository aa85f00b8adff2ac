#include "sa.h"
#include "simd.hh"
#include <cstring>
#include <type_traits>
// Every operation of every vector type acts on each lane like the scalar definition below, whatever backend was selected.
template <class U> struct Sg; template <> struct Sg<uint8_t> { typedef int8_t S; }; template <> struct Sg<uint16_t> { typedef int16_t S; }; template <> struct Sg<uint32_t> { typedef int32_t S; }; template <> struct Sg<uint64_t> { typedef int64_t S; };
template <int B> struct Un; template <> struct Un<1> { typedef uint8_t U; }; template <> struct Un<2> { typedef uint16_t U; }; template <> struct Un<4> { typedef uint32_t U; }; template <> struct Un<8> { typedef uint64_t U; };
template <class V> using U_ = typename Un<sizeof(V)>::U;
template <class D, class S> static D bits(S s) { static_assert(sizeof(D) == sizeof(S), ""); D d; __builtin_memcpy(&d, &s, sizeof d); return d; }
template <class V> static U_<V> mask(bool b) { return (U_<V>)-(U_<V>)b; }
template <class V> static constexpr V lowest() { return (V)((U_<V>)1 << (sizeof(V) * 8 - 1)); }
template <class V> static V wrapadd(V a, V b) { return (V)((U_<V>)((U_<V>)a + (U_<V>)b)); }
template <class V> static V wrapsub(V a, V b) { return (V)((U_<V>)((U_<V>)a - (U_<V>)b)); }
template <class V> static V wrapmul(V a, V b) { return (V)((U_<V>)((uint64_t)(U_<V>)a * (uint64_t)(U_<V>)b)); }
template <class V> static V wrapneg(V a) { return (V)((U_<V>)(0 - (U_<V>)a)); }
static bool isneg(float a) { return bits<uint32_t>(a) >> 31; }
static bool isneg(double a) { return bits<uint64_t>(a) >> 63; }
// Window t of the unknown inputs: a few bits of every lane are unknown, the others follow a pattern common to all operands.
template <class T> static void window(T &a, int t, const char *name) {
  typedef U_<typename T::value_type> U; const int N = sizeof(U) * 8; U var = 0, bg = t % 3 == 0 ? (U)0 : t % 3 == 1 ? (U)~(U)0 : (U)0xB6C9D2A53E71958Cull;
  int pos[4][6] = { {0, 1, N / 2 - 1, N / 2, N - 2, N - 1}, {0, 7, 8, N - 3, N - 2, N - 1}, {0, 1, 2, 3, 4, N - 1}, {N - 6, N - 5, N - 4, N - 3, N - 2, N - 1} };
  for (int k = 0; k < 6; ++k) var |= (U)1 << pos[t / 3][k];
  for (int i = 0; i < T::SIZE; ++i) { U x; sa_bits(&x, sizeof x, name); x = (x & var) | (bg & ~var); __builtin_memcpy(&a.v[i], &x, sizeof x); }
}
static const int WINDOWS = 12;
template <class T> static void fill(T &a, const char *name) { sa_bits(&a.v[0], sizeof(a.v[0]) * T::SIZE, name); }
// lane by lane comparison
#define LANES(R, E) do { auto r = R; for (int i = 0; i < W; ++i) { typename decltype(r)::value_type w = E; sa_eq(&r.v[i], &w, sizeof w, #R); } } while (0)
#define A a.v[i]
#define B b.v[i]
#define C c.v[i]
template <class V, int W> static void logic() { // V unsigned
  typedef SIMD<V, W> T; typedef typename Sg<V>::S S; T a, b, c; fill(a, "a"); fill(b, "b"); fill(c, "c"); SIMD<S, W> s; fill(s, "s");
  LANES(vnot(a), (V)~A); LANES(vorr(a, b), (V)(A | B)); LANES(vand(a, b), (V)(A & B)); LANES(veor(a, b), (V)(A ^ B)); LANES(vbic(a, b), (V)(A & ~B)); LANES(vbsl(a, b, c), (V)((A & B) | (~A & C)));
  LANES(vsigned(a), (S)A); LANES(vunsigned(s), (V)s.v[i]); LANES(vmask(s), (V)s.v[i]);
  LANES(vzero<T>(), (V)0); V x; sa_bits(&x, sizeof x, "x"); LANES(vdup<T>(x), x); S y; sa_bits(&y, sizeof y, "y"); typedef SIMD<S, W> TS; LANES(vdup<TS>(y), y); LANES(vzero<TS>(), (S)0);
  LANES((vreinterpret<TS, T>(a)), (S)A); LANES((vreinterpret<T, TS>(s)), (V)s.v[i]);
}
template <class V, int W> static void shuffle(uint32_t seed) {
  typedef SIMD<V, W> T; typedef U_<V> U; T a; fill(a, "a"); SIMD<U, W> p;
  sa_true(T::SIZE == W && sizeof a.v == W * sizeof(V) && std::is_same<typename T::value_type, V>::value && std::is_same<typename T::uint_type, U>::value, "number and types of the lanes");
  for (int t = 0; t < 5; ++t) { for (int i = 0; i < W; ++i) { seed = seed * 1664525u + 1013904223u; p.v[i] = t == 0 ? i : t == 1 ? W - 1 - i : t == 2 ? (i + 1) % W : t == 3 ? (i + W / 2) % W : (seed >> 8) % W; }
    T r = vshuf(a, p); for (int i = 0; i < W; ++i) sa_eq(&r.v[i], &a.v[(int)p.v[i]], sizeof(V), "vshuf(a, p)"); }
  for (int k = 0; k < W; ++k) { for (int i = 0; i < W; ++i) p.v[i] = k; T r = vshuf(a, p); for (int i = 0; i < W; ++i) sa_eq(&r.v[i], &a.v[k], sizeof(V), "vshuf(a, broadcast)"); }
}
template <class T, class V> static void input(T &a, T &b, int t) { if (sizeof(V) == 1) { fill(a, "a"); fill(b, "b"); } else { window(a, t, "a"); window(b, t, "b"); } }
template <class V, int W> static void arith() { // V signed; 8 bit types: all bits unknown, wider ones: windows
  typedef SIMD<V, W> T; typedef U_<V> U; T a, b;
  for (int t = 0; t < (sizeof(V) == 1 ? 1 : WINDOWS); ++t) {
  input<T, V>(a, b, t);
  LANES(vadd(a, b), wrapadd<V>(A, B)); LANES(vsub(a, b), wrapsub<V>(A, B)); LANES(vmul(a, b), wrapmul<V>(A, B));
  LANES(vneg(a), wrapneg<V>(A)); LANES(vabs(a), (V)(A < 0 ? wrapneg<V>(A) : A)); LANES(vqabs(a), (V)(A == lowest<V>() ? (V)~lowest<V>() : A < 0 ? wrapneg<V>(A) : A));
  LANES(vcgtz(a), mask<V>(A > 0)); LANES(vceqz(a), mask<V>(A == 0)); LANES(vcltz(a), mask<V>(A < 0)); LANES(vclez(a), mask<V>(A <= 0));
  LANES(vcgt(a, b), mask<V>(A > B)); LANES(vceq(a, b), mask<V>(A == B)); SIMD<U, W> ua = vunsigned(a), ub = vunsigned(b); LANES(vcgt(ua, ub), mask<V>(ua.v[i] > ub.v[i]));
  LANES(vmin(a, b), (V)(B < A ? B : A)); LANES(vmax(a, b), (V)(A < B ? B : A));
  LANES(vsignum(a), (V)(A > 0 ? 1 : A < 0 ? -1 : 0)); LANES(vsign(a, b), (V)(B > 0 ? A : B < 0 ? wrapneg<V>(A) : 0));
  V lo = sizeof(V) == 1 ? -31 : -1000, hi = sizeof(V) == 1 ? 31 : 500; LANES(vclamp(a, lo, hi), (V)(A < lo ? lo : A > hi ? hi : A));
  lo = lowest<V>() + 1, hi = (V)~lowest<V>() / 2; LANES(vclamp(a, lo, hi), (V)(A < lo ? lo : A > hi ? hi : A));
  }
}
template <class V, int W> static void satur() {
  typedef SIMD<V, W> T; typedef U_<V> U; T a, b; const int mx = (V)~lowest<V>(), mn = lowest<V>();
  auto cl = [=](int x) { return (V)(x < mn ? mn : x > mx ? mx : x); };
  for (int t = 0; t < (sizeof(V) == 1 ? 1 : WINDOWS); ++t) {
  input<T, V>(a, b, t);
  LANES(vqadd(a, b), cl((int)A + (int)B)); LANES(vqsub(a, b), cl((int)A - (int)B)); SIMD<U, W> ua = vunsigned(a), ub = vunsigned(b); LANES(vqsub(ua, ub), (U)(ua.v[i] < ub.v[i] ? 0 : ua.v[i] - ub.v[i]));
  }
}
template <class V, int W> static void real() {
  typedef SIMD<V, W> T; typedef U_<V> U; T a, b; fill(a, "a"); fill(b, "b"); const U sb = (U)1 << (sizeof(V) * 8 - 1);
  LANES(vadd(a, b), A + B); LANES(vsub(a, b), A - B); LANES(vmul(a, b), A * B);
  LANES(vneg(a), bits<V>(bits<U>(A) ^ sb)); LANES(vabs(a), bits<V>((U)(bits<U>(A) & ~sb))); LANES(vmask(a), bits<U>(A));
  LANES(vcopysign(a, b), bits<V>((U)((bits<U>(A) & ~sb) | (bits<U>(B) & sb)))); LANES(vzero<T>(), (V)0); V x; sa_bits(&x, sizeof x, "x"); LANES(vdup<T>(x), x);
}
// finite numbers around zero, one and the largest ones; zeros of both signs count as equal
template <class V, int W> static void order() {
  typedef SIMD<V, W> T; typedef U_<V> U; const int N = sizeof(V) * 8, M = sizeof(V) == 4 ? 23 : 52; T a, b;
  U bg[4] = {0, (U)(sizeof(V) == 4 ? 127 : 1023) << M, (U)(sizeof(V) == 4 ? 0x5CC9D2A5u : 0x5CC9D2A53E71958Cull), (U)(sizeof(V) == 4 ? 246 : 2038) << M};
  for (int t = 0; t < 4; ++t) {
    U var = (U)1 << (N - 1) | (U)1 << (M + 2) | (U)1 << (M + 1) | (U)1 << M | (U)1 << (M - 1) | (U)1;
    for (int i = 0; i < W; ++i) for (int o = 0; o < 2; ++o) { U x; sa_bits(&x, sizeof x, o ? "b" : "a"); x = (x & var) | (bg[t] & ~var); __builtin_memcpy(o ? &b.v[i] : &a.v[i], &x, sizeof x); }
#define REAL(R, E) do { auto r = R; for (int i = 0; i < W; ++i) { V w = E; sa_true(r.v[i] == w, #R); } } while (0)
    LANES(vcgtz(a), mask<V>(A > 0)); LANES(vceqz(a), mask<V>(A == 0)); LANES(vcltz(a), mask<V>(A < 0)); LANES(vclez(a), mask<V>(A <= 0));
    LANES(vcgt(a, b), mask<V>(A > B)); LANES(vceq(a, b), mask<V>(A == B));
    REAL(vmin(a, b), B < A ? B : A); REAL(vmax(a, b), A < B ? B : A); REAL(vclamp(a, (V)-1, (V)1.5), A < (V)-1 ? (V)-1 : A > (V)1.5 ? (V)1.5 : A);
    REAL(vsignum(a), (V)(A > 0 ? 1 : A < 0 ? -1 : 0)); REAL(vsign(a, b), B > 0 ? A : B < 0 ? -A : (V)0);
  }
}
#define INTS(S, U, N) ENTRY(logic##U##N) { logic<U, N>(); } ENTRY(shuf##U##N) { shuffle<U, N>(N); } ENTRY(shuf##S##N) { shuffle<S, N>(N + 1); } ENTRY(arith##S##N) { arith<S, N>(); }
#define SATS(S, N) ENTRY(satur##S##N) { satur<S, N>(); }
#define REALS(F, N) ENTRY(shuf##F##N) { shuffle<F, N>(N + 2); } ENTRY(real##F##N) { real<F, N>(); } ENTRY(order##F##N) { order<F, N>(); }
INTS(int8_t, uint8_t, 16) INTS(int16_t, uint16_t, 8) INTS(int32_t, uint32_t, 4) INTS(int64_t, uint64_t, 2) SATS(int8_t, 16) SATS(int16_t, 8) REALS(float, 4) REALS(double, 2)
INTS(int8_t, uint8_t, 32) INTS(int16_t, uint16_t, 16) INTS(int32_t, uint32_t, 8) INTS(int64_t, uint64_t, 4) SATS(int8_t, 32) SATS(int16_t, 16) REALS(float, 8) REALS(double, 4)
INTS(int8_t, uint8_t, 64) INTS(int16_t, uint16_t, 32) INTS(int32_t, uint32_t, 16) INTS(int64_t, uint64_t, 8) SATS(int8_t, 64) SATS(int16_t, 32) REALS(float, 16) REALS(double, 8)
INTS(int8_t, uint8_t, 48) INTS(int16_t, uint16_t, 24) INTS(int32_t, uint32_t, 12) INTS(int64_t, uint64_t, 6) SATS(int8_t, 48) SATS(int16_t, 24) REALS(float, 12) REALS(double, 6)
INTS(int8_t, uint8_t, 5) INTS(int16_t, uint16_t, 3) INTS(int32_t, uint32_t, 7) INTS(int64_t, uint64_t, 1) SATS(int8_t, 5) SATS(int16_t, 3) REALS(float, 7) REALS(double, 1)
