#include "sa.h"
#include "simd.hh"
#include "bitman.hh"
#include "crc.hh"
#include "mls.hh"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_decoder.hh"
#include "osd.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#include "sort.hh"
#include "ref.h"
#include "ldpc_tables.h"
// An object with a past, a copy of it and a new object must answer alike.
// past(object): other uses, with fixed contents; now(object, out): the use in question, with unknown contents
struct Rng { uint32_t s; uint32_t operator()(uint32_t m) { s = s * 1664525u + 1013904223u; return (s >> 8) % m; } };
template <class O, class P, class N> static void alike(O *used, O *fresh, O *copy, size_t n, P past, N now) {
  uint8_t *a = (uint8_t *)sa_alloc(n, 32, "used"), *b = (uint8_t *)sa_alloc(n, 32, "fresh"), *c = (uint8_t *)sa_alloc(n, 32, "copy");
  for (size_t i = 0; i < n; ++i) a[i] = b[i] = c[i] = 0;
  past(*used); if (copy) { new (copy) O(*used); now(*copy, c); } now(*used, a); now(*fresh, b);
  sa_eq(a, b, n, "a used object answers like a new one");
  if (copy) { sa_eq(c, b, n, "a copy answers like a new object"); now(*used, c); sa_eq(c, b, n, "asking again gives the same answer"); }
}
typedef uint8_t B;
template <int M> struct Poly; template <> struct Poly<3> { enum { P = 0b1011 }; }; template <> struct Poly<4> { enum { P = 0b10011 }; }; template <> struct Poly<5> { enum { P = 0b100101 }; }; template <> struct Poly<8> { enum { P = 0b100011101 }; };
// Reed Solomon: the past has clean words, correctable and hopeless ones, erasures, shortened words; result of the decoder and both parts of the word count
template <int NR, int FCR, int M> static void rs(int len, int nera, int errs, int free, uint32_t seed) {
  typedef CODE::GaloisField<M, Poly<M>::P, B> GF; GF inst; const int N = (1 << M) - 1, K = N - NR;
  static CODE::ReedSolomonEncoder<NR, FCR, GF> eu, ef, ec; new (&eu) decltype(eu)(); new (&ef) decltype(ef)();
  static CODE::ReedSolomonDecoder<NR, FCR, GF> u, f, c; new (&u) decltype(u)(); new (&f) decltype(f)();
  B data[K], word[N]; Rng r{seed}; for (int i = 0; i < K; ++i) data[i] = i % 5 == 2 ? (B)sa_word("data", M) : (B)r(N + 1);
  alike(&eu, &ef, &ec, NR, [&](auto &e) { B d[K], p[NR]; Rng q{7}; for (int i = 0; i < K; ++i) d[i] = (B)q(N + 1); e(d, p); e(d, p, K - 1); e(d, p, 1); }, [&](auto &e, B *o) { e(data, o, len); });
  for (int i = 0; i < len; ++i) word[i] = i < 2 ? data[2] : (B)r(N + 1); ef(word, word + len, len);
  for (int i = 0; i < free; ++i) word[(i * 5 + 1) % (len + NR)] ^= (B)sa_word("error", i ? 2 : M);
  for (int i = 0; i < errs; ++i) word[r(len + NR)] ^= (B)(1 + r(N));
  alike(&u, &f, &c, N + 4, [&](auto &d) {
    B w[N], e[NR]; Rng q{99};
    for (int t = 0; t < 12; ++t) { int len = t % 3 ? K : K - (int)q(K), ne = t % 4 < 2 ? 0 : (int)q(NR + 1); for (int i = 0; i < len; ++i) w[i] = (B)q(N + 1); { CODE::ReedSolomonEncoder<NR, FCR, GF> n; n(w, w + len, len); }
      for (int i = 0; i < (t & 1 ? N : t / 2); ++i) w[q(len + NR)] ^= (B)q(N + 1);
      for (int i = 0; i < ne; ++i) { e[i] = (B)(i * (len + NR) / NR); w[e[i]] = (B)q(N + 1); }
      d(w, w + len, ne ? e : nullptr, ne, len); }
  }, [&](auto &d, B *o) { B e[NR]; for (int i = 0; i < len + NR; ++i) o[i] = word[i]; for (int i = 0; i < nera; ++i) e[i] = (B)(i * 2); int n = nera ? d(o, o + len, e, nera, len) : d(o, o + len, nullptr, 0, len); memcpy(o + N, &n, 4); });
}
ENTRY(rs7) { rs<2, 0, 3>(5, 0, 0, 2, 1); rs<4, 1, 3>(3, 1, 0, 2, 2); rs<4, 1, 3>(2, 0, 3, 1, 3); }
ENTRY(rs15) { rs<4, 0, 4>(11, 0, 0, 2, 1); rs<4, 0, 4>(11, 2, 0, 1, 2); rs<6, 1, 4>(5, 0, 4, 1, 3); }
ENTRY(rs15b) { rs<6, 3, 4>(9, 3, 1, 1, 4); rs<5, 1, 4>(10, 0, 2, 1, 5); rs<8, 1, 4>(7, 0, 0, 2, 6); }
ENTRY(rs31) { rs<8, 1, 5>(20, 2, 2, 1, 7); rs<8, 1, 5>(23, 0, 9, 1, 8); }
ENTRY(rs255) { rs<16, 0, 8>(200, 4, 4, 1, 9); }
// binary BCH codes
template <int NR, int FCR, int M, int MSG> static void bch(std::initializer_list<int> polys, int len, int nera, int errs, int free, uint32_t seed) {
  typedef CODE::GaloisField<M, Poly<M>::P, B> GF; GF inst; const int N = (1 << M) - 1, NP = N - MSG, BD = (MSG + 7) / 8, BP = (NP + 7) / 8;
  typedef CODE::BoseChaudhuriHocquenghemEncoder<N, MSG> E; E eu(polys), ef(polys), ec(polys);
  static CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, MSG, GF> u, f, c; new (&u) decltype(u)(); new (&f) decltype(f)();
  B data[BD], w[BD], p[BP]; sa_bits(data, BD, "data");
  alike(&eu, &ef, &ec, BP, [&](auto &e) { B d[BD], p[BP]; for (int i = 0; i < BD; ++i) d[i] = (B)(i * 77 + 1); for (int i = 0; i < BP; ++i) p[i] = 0; e(d, p); e(d, p, MSG - 2); }, [&](auto &e, B *o) { e(data, o, len); });
  Rng r{seed}; for (int i = 0; i < BD; ++i) w[i] = (B)r(256); for (int i = 0; i < BP; ++i) p[i] = 0; ef(w, p, len);
  auto flip = [&](int at, bool b) { if (at < len) CODE::xor_be_bit(w, at, b); else CODE::xor_be_bit(p, at - len, b); };
  for (int i = 0; i < free; ++i) flip((i * 5 + 1) % (len + NP), sa_bit("error"));
  for (int i = 0; i < errs; ++i) flip((int)r(len + NP), true);
  alike(&u, &f, &c, BD + BP + 4, [&](auto &d) {
    B w[BD], p[BP]; B e[NR]; Rng q{99};
    for (int t = 0; t < 10; ++t) { int len = t % 3 ? MSG : MSG - (int)q(MSG - 1), ne = t % 4 < 2 ? 0 : (int)q(NR + 1); for (int i = 0; i < BD; ++i) w[i] = t % 5 ? (B)q(256) : 0; for (int i = 0; i < BP; ++i) p[i] = t % 5 ? (B)q(256) : 0;
      if (t % 5 == 0) w[0] ^= 0x40; for (int i = 0; i < ne; ++i) e[i] = (B)(i * (len + NP) / NR); d(w, p, ne ? e : nullptr, ne, len); }
  }, [&](auto &d, B *o) { B e[NR]; for (int i = 0; i < BD; ++i) o[i] = w[i]; for (int i = 0; i < BP; ++i) o[BD + i] = p[i]; for (int i = 0; i < nera; ++i) e[i] = (B)(i * 2); int n = nera ? d(o, o + BD, e, nera, len) : d(o, o + BD, nullptr, 0, len); memcpy(o + BD + BP, &n, 4); });
}
ENTRY(bch15) { bch<4, 1, 4, 7>({0b10011, 0b11111}, 7, 0, 0, 6, 1); bch<4, 1, 4, 7>({0b10011, 0b11111}, 5, 2, 0, 4, 2); }
ENTRY(bch15b) { bch<6, 1, 4, 5>({0b10011, 0b11111, 0b111}, 5, 0, 3, 5, 3); bch<6, 1, 4, 5>({0b10011, 0b11111, 0b111}, 4, 3, 1, 4, 4); }
ENTRY(bch31) { typedef RF<5, 0b100101> R; bch<6, 1, 5, 16>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}, 16, 0, 1, 4, 5); bch<6, 1, 5, 16>({(int)R::minpoly(1), (int)R::minpoly(3), (int)R::minpoly(5)}, 12, 0, 5, 3, 6); }
// short codes
template <int N, int K, int G, int T> static void sbch(int free) {
  static CODE::ShortBCHCodeDecoder<N, K, G, T> u, f, c; new (&u) decltype(u)(); new (&f) decltype(f)(); int in = (int)sa_word("received", free) << (N - free); int8_t s[N]; for (int i = 0; i < N; ++i) s[i] = (int8_t)(20 + 11 * i * i % 97);
  for (int i = 0; i < 8 && i < N; ++i) s[i * 3 % N] = (int8_t)(sa_bit("sign") ? -s[i * 3 % N] : s[i * 3 % N]);
  alike(&u, &f, &c, 8, [&](auto &d) { Rng q{3}; for (int t = 0; t < 6; ++t) { int8_t s[N]; for (int i = 0; i < N; ++i) s[i] = (int8_t)q(256); d(s); d((int)q(1 << N)); } }, [&](auto &d, B *o) { int a = d(in), b = d(s); memcpy(o, &a, 4); memcpy(o + 4, &b, 4); });
}
ENTRY(sbch7) { sbch<7, 4, 0b1011, 1>(7); }
ENTRY(sbch15) { sbch<15, 5, 0b10100110111, 3>(12); }
ENTRY(sbch23) { sbch<23, 12, 0b101011100011, 3>(8); }
template <class D, int N> static void ml() {
  static D u, f, c; new (&u) D(); new (&f) D(); int8_t s[N]; for (int i = 0; i < N; ++i) s[i] = (int8_t)(i * 37 % 101 - 50); for (int i = 0; i < 9 && i < N; ++i) s[i * 5 % N] = (int8_t)(sa_bit("sign") ? -77 + i : 77 - i);
  alike(&u, &f, &c, 4, [&](auto &d) { Rng q{3}; for (int t = 0; t < 4; ++t) { int8_t s[N]; for (int i = 0; i < N; ++i) s[i] = (int8_t)q(256); d(s); } }, [&](auto &d, B *o) { int a = d(s); memcpy(o, &a, 4); });
}
ENTRY(hadamard) { ml<CODE::HadamardDecoder<2>, 2>(); ml<CODE::HadamardDecoder<3>, 4>(); ml<CODE::HadamardDecoder<4>, 8>(); ml<CODE::HadamardDecoder<5>, 16>(); ml<CODE::HadamardDecoder<6>, 32>(); ml<CODE::HadamardDecoder<7>, 64>(); }
ENTRY(simplex) { ml<CODE::SimplexDecoder<2>, 3>(); ml<CODE::SimplexDecoder<3>, 7>(); ml<CODE::SimplexDecoder<4>, 15>(); ml<CODE::SimplexDecoder<5>, 31>(); ml<CODE::SimplexDecoder<6>, 63>(); }
// ordered statistics
template <int N, int K> static void gen(int8_t *g, uint32_t poly) { for (int i = 0; i < N * K; ++i) g[i] = 0; for (int j = 0; j < K; ++j) for (int i = 0; i <= N - K; ++i) g[N * j + j + i] = poly >> (N - K - i) & 1; }
template <int N, int K, int O, int L> static void osd(uint32_t poly, uint32_t poly2, int free) {
  static CODE::OrderedStatisticsDecoder<N, K, O> u, f, c; static CODE::OrderedStatisticsListDecoder<N, K, O, L> lu, lf, lc; new (&u) decltype(u)(); new (&f) decltype(f)(); new (&lu) decltype(lu)(); new (&lf) decltype(lf)();
  static int8_t g[N * K], h[N * K]; gen<N, K>(g, poly); gen<N, K>(h, poly2); int8_t s[N]; Rng r{5}; for (int i = 0; i < N; ++i) { int m = 1 + (int)r(126); s[i] = (int8_t)((i < free ? sa_bit("sign") : r(2)) ? -m : m); }
  const int W = (N + 7) / 8;
  alike(&u, &f, &c, W + 1, [&](auto &d) { Rng q{3}; for (int t = 0; t < 4; ++t) { int8_t s[N]; B o[W] = {}; for (int i = 0; i < N; ++i) s[i] = t == 2 ? 0 : (int8_t)q(256); d(o, s, t & 1 ? g : h); } }, [&](auto &d, B *o) { o[W] = d(o, s, g); });
  alike(&lu, &lf, &lc, L * (W + 4), [&](auto &d) { Rng q{3}; for (int t = 0; t < 4; ++t) { int8_t s[N]; B o[W * L] = {}; int k[L]; for (int i = 0; i < N; ++i) s[i] = t == 2 ? 0 : (int8_t)q(256); d(k, o, s, t & 1 ? g : h); } }, [&](auto &d, B *o) { int k[L]; d(k, o, s, g); memcpy(o + W * L, k, sizeof k); });
}
ENTRY(osd7) { osd<7, 4, 1, 3>(0b1011, 0b1101, 7); osd<7, 4, 4, 4>(0b1101, 0b1011, 7); }
ENTRY(osd15) { osd<15, 5, 1, 4>(0b10100110111, 0b11101100101, 11); }
ENTRY(osd15b) { osd<15, 7, 2, 2>(0b111010001, 0b100010111, 10); }
ENTRY(osd31) { osd<31, 16, 1, 4>(0b1000111110101111, 0b1111010111110001, 8); }
// LDPC
template <class T, int BETA> static void ldpc(uint32_t seed, int errs, int free, int trials) {
  const int K = T::K, R = T::N - T::K; static CODE::LDPCDecoder<T, BETA> u, f, c; new (&u) decltype(u)(); new (&f) decltype(f)(); static CODE::LDPCEncoder<T> eu, ef, ec; new (&eu) decltype(eu)(); new (&ef) decltype(ef)();
  static int8_t d[T::N], y[T::N]; for (int i = 0; i < K; ++i) d[i] = (int8_t)(1 - 2 * (int)(i % 3 ? i % 7 == 3 : sa_bit("data")));
  alike(&eu, &ef, &ec, R, [&](auto &e) { static int8_t d[T::K], p[T::N - T::K]; Rng q{5}; for (int t = 0; t < 2; ++t) { for (int i = 0; i < T::K; ++i) d[i] = (int8_t)(1 - 2 * (int)q(2)); e(d, p); } }, [&](auto &e, B *o) { e(d, (int8_t *)o); });
  for (int i = 0; i < K; ++i) d[i] = 1; ef(d, d + K); Rng r{seed}; for (int i = 0; i < T::N; ++i) y[i] = (int8_t)(d[i] * (int)(1 + r(90)));
  for (int i = 0; i < errs; ++i) { int at = r(T::N); y[at] = (int8_t)-y[at]; }
  for (int i = 0; i < free; ++i) { int at = (i * 31 + 7) % T::N; y[at] = (int8_t)(sa_bit("error") ? -y[at] : y[at]); }
  alike(&u, &f, &c, T::N + 4, [&](auto &x) { static int8_t y[T::N]; Rng q{11}; for (int t = 0; t < 3; ++t) { for (int i = 0; i < T::N; ++i) y[i] = t == 1 ? 1 : (int8_t)(t ? q(256) : q(9) ? 20 : -30); x(y, y + T::K, t == 0 ? 1 : 3); } }, [&](auto &x, B *o) { memcpy(o, y, T::N); int n = x((int8_t *)o, (int8_t *)o + K, trials); memcpy(o + T::N, &n, 4); });
}
ENTRY(ldpcA) { ldpc<TA, 0>(3, 10, 2, 3); }
ENTRY(ldpcB) { ldpc<TB, 0>(4, 20, 2, 3); }
ENTRY(ldpcC) { ldpc<TC, 1>(5, 10, 2, 3); }
ENTRY(ldpcG) { ldpc<TG, 2>(6, 40, 2, 3); }
// polar codes: the past has longer and shorter words and other frozen sets
static int frozen(uint32_t *f, int level, uint32_t seed, uint32_t den) { int n = 1 << level, K = 0; Rng r{seed}; for (int i = 0; i < (n + 31) / 32; ++i) f[i] = 0; for (int i = 0; i < n;) { int len = 1 << r(6); if (i & (len - 1) || i + len > n) len = 1; bool b = r(den) == 0; for (int e = i + len; i < e; ++i) if (b) f[i / 32] |= 1u << (i % 32); else ++K; } return K; }
template <class V> static void noise(V *y, int n, uint32_t seed, int span) { Rng r{seed}; for (int i = 0; i < n; ++i) { int m = 1 + (int)r(span); y[i] = (V)(r(3) == 0 ? -m : m); } }
template <class V, int LEVEL, int MAXM> static void polar(uint32_t seed, int span, int free) {
  const int N = 1 << LEVEL; static CODE::PolarDecoder<V, MAXM> u, f, c; new (&u) decltype(u)(); new (&f) decltype(f)(); static uint32_t fz[N / 32]; frozen(fz, LEVEL, seed, 2); static V y[N]; noise(y, N, seed + 1, span);
  for (int i = 0; i < free; ++i) { int at = (i * 13 + 3) % N; V n = (V)-y[at]; y[at] = sa_bit("sign") ? n : y[at]; }
  alike(&u, &f, &c, sizeof(V) * N, [&](auto &d) { static uint32_t g[1 << MAXM]; static V y[1 << MAXM], o[1 << MAXM]; for (int l = 5; l <= MAXM; ++l) { frozen(g, l, l * 7, 2 + l % 2); noise(y, 1 << l, l, span); d(o, y, g, l); } }, [&](auto &d, B *o) { d((V *)o, y, fz, LEVEL); });
}
ENTRY(polar5) { polar<int8_t, 5, 6>(1, 127, 5); polar<int, 5, 6>(2, 10000, 5); }
ENTRY(polar6) { polar<int8_t, 6, 8>(3, 127, 4); polar<int, 6, 7>(4, 10000, 5); }
ENTRY(polar7) { polar<int8_t, 7, 7>(5, 127, 3); polar<int, 8, 8>(6, 10000, 4); }
template <class V, int L, int LEVEL, int MAXM, bool PAR> static void list(uint32_t seed, int span, int free) {
  typedef SIMD<V, L> TYPE; const int N = 1 << LEVEL; typedef typename std::conditional<PAR, CODE::PolarParityDecoder<TYPE, MAXM>, CODE::PolarListDecoder<TYPE, MAXM>>::type D; static D u, f, c; new (&u) D(); new (&f) D();
  static uint32_t fz[N / 32]; frozen(fz, LEVEL, seed, 2); static V y[N]; noise(y, N, seed + 1, span);
  for (int i = 0; i < free; ++i) { int at = (i * 13 + 3) % N; V n = (V)-y[at]; y[at] = sa_bit("sign") ? n : y[at]; }
  auto call = [&](auto &d, int *k, TYPE *o, const V *y, const uint32_t *g, int l, int a, int b) { if constexpr (PAR) d(k, o, y, g, l, a, b); else { (void)a; (void)b; d(k, o, y, g, l); } };
  alike(&u, &f, &c, sizeof(TYPE) * N + 4 * L, [&](auto &d) { static uint32_t g[1 << MAXM]; static V y[1 << MAXM]; static TYPE o[1 << MAXM]; int k[L]; for (int l = 5; l <= MAXM; ++l) { frozen(g, l, l * 7, 2 + l % 2); noise(y, 1 << l, l, span); call(d, k, o, y, g, l, l, 2 * l); } }, [&](auto &d, B *o) { static TYPE m[N]; int k[L]; for (int i = 0; i < N; ++i) for (int j = 0; j < L; ++j) m[i].v[j] = 7; call(d, k, m, y, fz, LEVEL, 3, 2); memcpy(o, m, sizeof m); memcpy(o + sizeof m, k, sizeof k); });
}
ENTRY(list5) { list<int8_t, 4, 5, 6, false>(2, 127, 3); list<int32_t, 4, 5, 6, false>(2, 10000, 3); }
ENTRY(list6) { list<int32_t, 2, 6, 7, false>(3, 10000, 3); list<int8_t, 8, 6, 6, false>(4, 127, 1); }
ENTRY(parity5) { list<int8_t, 4, 5, 6, true>(2, 127, 3); list<int32_t, 4, 5, 6, true>(2, 10000, 3); }
ENTRY(parity6) { list<int32_t, 2, 6, 7, true>(3, 10000, 3); list<int8_t, 8, 6, 6, true>(4, 127, 1); }
ENTRY(list7) { list<int8_t, 2, 7, 9, false>(4, 127, 2); list<int8_t, 2, 7, 9, true>(4, 127, 2); }
ENTRY(polarenc) { static CODE::PolarEncoder<int8_t> u, f, c; static CODE::PolarSysEnc<int8_t> su, sf, sc; static CODE::PolarParityEncoder<int8_t> pu, pf, pc; static uint32_t fz[2], g[8]; frozen(fz, 6, 5, 2); frozen(g, 8, 6, 2); static int8_t m[256], o2[256]; for (int i = 0; i < 256; ++i) m[i] = (int8_t)(1 - 2 * (int)(i < 64 ? sa_bit("msg") : i % 3 == 0));
  alike(&u, &f, &c, 64, [&](auto &e) { e(o2, m, g, 8); }, [&](auto &e, B *o) { e((int8_t *)o, m, fz, 6); }); alike(&su, &sf, &sc, 64, [&](auto &e) { e(o2, m, g, 8); }, [&](auto &e, B *o) { e((int8_t *)o, m, fz, 6); }); alike(&pu, &pf, &pc, 64, [&](auto &e) { e(o2, m, g, 8, 5, 3); }, [&](auto &e, B *o) { e((int8_t *)o, m, fz, 6, 4, 7); }); }
// erasure codes: other identifiers, other numbers of blocks, decoding in another order; the identifiers in question are unknown
ENTRY(crs) {
  typedef CODE::GaloisField<8, 0b100011101, uint8_t> G; G inst; static CODE::CauchyReedSolomonErasureCoding<G> u, f, c; B data[3] = {1, 200, 77}, ids[3], blk[3]; ids[0] = (B)(8 + sa_word("id", 3)); ids[1] = (B)(100 + sa_word("id", 2)); ids[2] = 255;
  for (int i = 0; i < 3; ++i) f.encode((const B *)data, blk + i, ids[i], 1, 3);
  auto past = [&](auto &x) { B d[5] = {9, 8, 7, 6, 5}, b[5], o, id[5] = {10, 9, 101, 255, 77}; for (int i = 0; i < 5; ++i) x.encode((const B *)d, b + i, id[i], 1, 5); for (int i = 4; i >= 2; --i) x.decode(&o, (const B *)b, (const B *)id, i, 1, 5); x.decode(&o, (const B *)b, (const B *)id, 0, 1, 3); };
  alike(&u, &f, &c, 3, past, [&](auto &x, B *o) { for (int i = 2; i >= 0; --i) x.decode(o + i, (const B *)blk, (const B *)ids, i, 1, 3); });
  alike(&u, &f, &c, 3, past, [&](auto &x, B *o) { for (int i = 0; i < 3; ++i) x.encode((const B *)data, o + i, ids[i], 1, 3); });
}
// the same blocks arrive in another order, or one of them is replaced, between two decodings
ENTRY(crsmix) {
  typedef CODE::GaloisField<8, 0b100011101, uint8_t> G; G inst; static CODE::CauchyReedSolomonErasureCoding<G> u, f, c; B data[2], ida[2] = {7, 9}, idb[2] = {9, 7}, idc[2] = {7, 200}, a[2], b[2], e[2]; data[0] = (B)sa_word("data", 8); data[1] = (B)sa_word("data", 8);
  for (int i = 0; i < 2; ++i) { f.encode((const B *)data, a + i, ida[i], 1, 2); f.encode((const B *)data, b + i, idb[i], 1, 2); f.encode((const B *)data, e + i, idc[i], 1, 2); }
  alike(&u, &f, &c, 6, [&](auto &x) { B o; x.decode(&o, (const B *)a, (const B *)ida, 1, 1, 2); }, [&](auto &x, B *o) { x.decode(o, (const B *)b, (const B *)idb, 1, 1, 2); x.decode(o + 1, (const B *)e, (const B *)idc, 1, 1, 2); x.decode(o + 2, (const B *)a, (const B *)ida, 1, 1, 2); x.decode(o + 3, (const B *)e, (const B *)idc, 0, 1, 2); x.decode(o + 4, (const B *)b, (const B *)idb, 1, 1, 2); x.decode(o + 5, (const B *)a, (const B *)ida, 0, 1, 2); });
  B o[2]; u.decode(o, (const B *)e, (const B *)idc, 0, 1, 2); u.decode(o + 1, (const B *)e, (const B *)idc, 1, 1, 2); sa_eq(o, data, 2, "the data is rebuilt whatever was decoded before");
}
template <class PF, class IO> static void cpf(int hi) {
  static CODE::CauchyPrimeFieldErasureCoding<PF, IO, 8> u, f, c; IO data[6] = {1, 200, 77, 255, 0, 3}, ids[3], blk[6], sub[3]; ids[0] = (IO)(8 + sa_word("id", 2)); ids[1] = (IO)(100 + sa_word("id", 2)); ids[2] = (IO)hi; data[1] = (IO)sa_word("data", 3);
  for (int i = 0; i < 3; ++i) sub[i] = (IO)f.encode(data, blk + 2 * i, ids[i], 2, 3);
  auto past = [&](auto &x) { IO d[5] = {9, 8, 7, 6, 5}, b[5], s[5], o, id[5] = {10, 9, 101, (IO)hi, 77}; for (int i = 0; i < 5; ++i) s[i] = (IO)x.encode(d, b + i, id[i], 1, 5); for (int i = 4; i >= 2; --i) x.decode(&o, b, s, id, i, 1, 5); };
  alike(&u, &f, &c, 6 * sizeof(IO), past, [&](auto &x, B *o) { for (int i = 2; i >= 0; --i) x.decode((IO *)o + 2 * i, blk, sub, ids, i, 2, 3); });
  alike(&u, &f, &c, 9 * sizeof(IO), past, [&](auto &x, B *o) { for (int i = 0; i < 3; ++i) ((IO *)o)[6 + i] = (IO)x.encode(data, (IO *)o + 2 * i, ids[i], 2, 3); });
}
ENTRY(cpf8) { cpf<CODE::PrimeField<uint32_t, 257>, uint8_t>(127); }
ENTRY(cpf16) { cpf<CODE::PrimeField<uint64_t, 65537>, uint16_t>(32767); }
// long blocks whose elements take the first substitutes, then short ones
template <class PF, class IO> static void cpflong(int len) {
  static CODE::CauchyPrimeFieldErasureCoding<PF, IO, 40> u, f, c; IO data[40]; for (int i = 0; i < 40; ++i) data[i] = (IO)(3 * i % 21); data[0] = (IO)(3 * sa_word("data", 2));
  auto past = [&](auto &x) { IO d[40], b[40]; int ls[3] = {40, 17, 9}; for (int n : ls) { for (int i = 0; i < n; ++i) d[i] = (IO)(3 * i); x.encode(d, b, 3, n, 1); } };
  alike(&u, &f, &c, 41 * sizeof(IO), past, [&](auto &x, B *o) { ((IO *)o)[40] = (IO)x.encode(data, (IO *)o, 3, len, 1); });
}
ENTRY(cpflong8) { cpflong<CODE::PrimeField<uint32_t, 257>, uint8_t>(1); cpflong<CODE::PrimeField<uint32_t, 257>, uint8_t>(3); cpflong<CODE::PrimeField<uint32_t, 257>, uint8_t>(7); cpflong<CODE::PrimeField<uint32_t, 257>, uint8_t>(8); cpflong<CODE::PrimeField<uint32_t, 257>, uint8_t>(12); cpflong<CODE::PrimeField<uint32_t, 257>, uint8_t>(30); }
ENTRY(cpflong16) { cpflong<CODE::PrimeField<uint64_t, 65537>, uint16_t>(2); cpflong<CODE::PrimeField<uint64_t, 65537>, uint16_t>(7); cpflong<CODE::PrimeField<uint64_t, 65537>, uint16_t>(19); }
// sorting, checksums, sequences
ENTRY(sorts) { static CODE::MergeSort<int, 100, 4> u, f, c; int a[10]; for (int i = 0; i < 10; ++i) a[i] = i < 5 ? (int)sa_word("key", 2) : 10 - i; alike(&u, &f, &c, 40, [&](auto &s) { int b[100]; for (int i = 0; i < 100; ++i) b[i] = i * 37 % 41; s(b, 100); s(b, 3); s(b, 50, [](int x, int y) { return x > y; }); }, [&](auto &s, B *o) { memcpy(o, a, 40); s((int *)o, 10); }); }
template <class T> static void crc(T poly, T init) { CODE::CRC<T> u(poly, init), f(poly, init), c(poly); B d[8]; sa_bits(d, 8, "data"); alike(&u, &f, &c, sizeof(T), [&](auto &x) { for (int i = 0; i < 40; ++i) x((uint8_t)(i * 71)); x(true); x((uint32_t)77); x((uint64_t)~77ull); x((uint16_t)777); }, [&](auto &x, B *o) { x.reset(); for (int i = 0; i < 8; ++i) x(d[i]); T v = x(); memcpy(o, &v, sizeof v); }); }
ENTRY(crcs) { crc<uint8_t>(0xab, 0); crc<uint16_t>(0xA8F4, 0x1234); crc<uint32_t>(0x8F6E37A0, 0); crc<uint64_t>(0xC96C5795D7870F42ull, 5); }
ENTRY(mls) { CODE::MLS u(0b1000000001001), f(0b1000000001001), c(0b1000000001001); alike(&u, &f, &c, 40, [&](auto &x) { for (int i = 0; i < 33; ++i) x(); }, [&](auto &x, B *o) { x.reset(); for (int i = 0; i < 40; ++i) o[i] = x(); }); }
