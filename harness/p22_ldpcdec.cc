#include "sa.h"
#include "simd.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "ldpc_tables.h"
struct Rng { uint32_t s; uint32_t operator()(uint32_t m) { s = s * 1664525u + 1013904223u; return (s >> 8) % m; } };
static int8_t pm(bool b) { return (int8_t)(1 - 2 * (int)b); }
template <class T> static void encode(const int8_t *d, int8_t *par) { static CODE::LDPCEncoder<T> e; static bool up; if (!up) { new (&e) CODE::LDPCEncoder<T>(); up = true; } e(d, par); }
// every check of the table: parity j, parity j-1 and the linked information bits have an even number of negative values and no zero
template <class T> static bool holds(const int8_t *d, const int8_t *p) {
  const int R = T::N - T::K, q = R / T::M; static bool x[T::N - T::K]; bool ok = true; for (int j = 0; j < R; ++j) { x[j] = (p[j] < 0) ^ (j && p[j - 1] < 0); ok &= p[j] != 0; }
  int bit = 0; const int *row = T::POS;
  for (int g = 0; T::LEN[g]; ++g) for (int r = 0; r < T::LEN[g]; ++r) { for (int m = 0; m < T::M; ++m) { for (int k = 0; k < T::DEG[g]; ++k) x[(row[k] + m * q) % R] ^= d[bit] < 0; ok &= d[bit] != 0 || T::DEG[g] == 0; ++bit; } row += T::DEG[g]; }
  for (int j = 0; j < R; ++j) ok &= !x[j]; return ok;
}
enum { CLEAN, WEAK, ERASED, NOISY };
template <class T, int BETA> struct Run {
  static const int K = T::K, R = T::N - T::K;
  int8_t *d, *p, *rd, *rp; CODE::LDPCDecoder<T, BETA> *dec;
  Run() { d = (int8_t *)sa_alloc(K, 1, "message"); p = (int8_t *)sa_alloc(R, 1, "parity"); rd = (int8_t *)sa_alloc(K, 1, "received message"); rp = (int8_t *)sa_alloc(R, 1, "received parity"); static CODE::LDPCDecoder<T, BETA> x; dec = new (&x) CODE::LDPCDecoder<T, BETA>(); }
  void send(int step) { for (int i = 0; i < K; ++i) d[i] = pm(i % step ? i % 7 == 3 : sa_bit("data")); encode<T>(d, p); }
  void channel(int kind, uint32_t seed, int lo, int span, int errs, int free) {
    static int8_t a[T::N]; Rng r{seed}; for (int i = 0; i < T::N; ++i) a[i] = (int8_t)(lo + r(span));
    for (int e = 0; e < errs; ++e) { int at = r(T::N); a[at] = kind == ERASED ? 0 : kind == WEAK ? (int8_t)-(int)(1 + r(5)) : (int8_t)-a[at]; }
    for (int e = 0; e < free; ++e) { int at = r(T::N); int8_t n = (int8_t)-a[at]; a[at] = sa_bit("err") ? n : a[at]; }
    for (int i = 0; i < K; ++i) { int8_t n = (int8_t)-a[i]; rd[i] = d[i] < 0 ? n : a[i]; }
    for (int i = 0; i < R; ++i) { int8_t n = (int8_t)-a[K + i]; rp[i] = p[i] < 0 ? n : a[K + i]; }
  }
};
template <class T, int BETA> static void clean(int step, int lo, int span, int trials) {
  Run<T, BETA> s; s.send(step); s.channel(CLEAN, 5, lo, span, 0, 0);
  int8_t *cd = (int8_t *)sa_alloc(s.K, 1, "copy"), *cp = (int8_t *)sa_alloc(s.R, 1, "copy"); for (int i = 0; i < s.K; ++i) cd[i] = s.rd[i]; for (int i = 0; i < s.R; ++i) cp[i] = s.rp[i];
  int r = (*s.dec)(s.rd, s.rp, trials); sa_true(r == trials, "no trial is used up for a codeword");
  sa_eq(s.rd, cd, s.K, "a codeword stays as it is"); sa_eq(s.rp, cp, s.R, "a codeword stays as it is");
}
// whatever was sent, these error patterns are repaired
template <class T, int BETA> static void repair(int kind, int step, uint32_t seed, int lo, int span, int errs, int trials, int free = 0) {
  Run<T, BETA> s; s.send(step); s.channel(kind, seed, lo, span, errs, free);
  int r = (*s.dec)(s.rd, s.rp, trials); sa_true(r >= 0 && r <= trials, "repaired within the trials");
  for (int i = 0; i < s.K; ++i) { int8_t w = pm(s.rd[i] < 0); sa_eq(&w, &s.d[i], 1, "the sent message is recovered"); sa_true(s.rd[i] != 0, "every bit is decided"); }
  for (int i = 0; i < s.R; ++i) { int8_t w = pm(s.rp[i] < 0); sa_eq(&w, &s.p[i], 1, "the sent parity is recovered"); }
}
// any result: a non-negative number of trials left if and only if every check holds
template <class T, int BETA> static void honest(int step, uint32_t seed, int lo, int span, int errs, int free, int trials) {
  Run<T, BETA> s; s.send(step); s.channel(NOISY, seed, lo, span, errs, free);
  int r = (*s.dec)(s.rd, s.rp, trials); bool ok = holds<T>(s.rd, s.rp);
  sa_true(r < trials && r >= -1, "trials are counted"); sa_true(ok || r < 0, "success only for codewords"); 
}
// the noise acts alike on every codeword: decoding another codeword with the same noise gives the same soft values up to sign
template <class T, int BETA> static void alike(int step, uint32_t seed, int lo, int span, int errs, int trials) {
  Run<T, BETA> s; for (int i = 0; i < s.K; ++i) s.d[i] = 1; for (int i = 0; i < s.R; ++i) s.p[i] = 1;
  s.channel(NOISY, seed, lo, span, errs, 0); int r0 = (*s.dec)(s.rd, s.rp, trials);
  int8_t *cd = (int8_t *)sa_alloc(s.K, 1, "copy"), *cp = (int8_t *)sa_alloc(s.R, 1, "copy"); for (int i = 0; i < s.K; ++i) cd[i] = s.rd[i]; for (int i = 0; i < s.R; ++i) cp[i] = s.rp[i];
  Run<T, BETA> t; t.send(step); t.channel(NOISY, seed, lo, span, errs, 0); int r1 = (*t.dec)(t.rd, t.rp, trials);
  sa_true(r0 == r1, "same number of trials for every codeword");
  for (int i = 0; i < s.K; ++i) { int8_t n = (int8_t)-cd[i], w = t.d[i] < 0 ? n : cd[i]; sa_eq(&t.rd[i], &w, 1, "same reliability for every codeword"); }
  for (int i = 0; i < s.R; ++i) { int8_t n = (int8_t)-cp[i], w = t.p[i] < 0 ? n : cp[i]; sa_eq(&t.rp[i], &w, 1, "same reliability for every codeword"); }
}
// a decoder that has seen other words decodes like a new one
template <class T, int BETA> static void reuse(int step, uint32_t seed, int lo, int span, int errs, int before, int trials) {
  Run<T, BETA> s; s.send(step); s.channel(NOISY, seed, lo, span, errs, 0); (*s.dec)(s.rd, s.rp, before);
  static int8_t fd[T::K], fp[T::N - T::K]; static CODE::LDPCDecoder<T, BETA> x; auto *f = new (&x) CODE::LDPCDecoder<T, BETA>();
  s.channel(NOISY, seed + 1, lo, span, errs, 0); for (int i = 0; i < s.K; ++i) fd[i] = s.rd[i]; for (int i = 0; i < s.R; ++i) fp[i] = s.rp[i];
  int a = (*s.dec)(s.rd, s.rp, trials), b = (*f)(fd, fp, trials);
  sa_true(a == b, "same number of trials on reuse"); sa_eq(s.rd, fd, s.K, "same message on reuse"); sa_eq(s.rp, fp, s.R, "same parity on reuse");
}
// layered min-sum with offset and self-correction, check by check; links of one bit group that meet in one layer take turns
#ifdef __AVX2__
static const int LANES = 30;
#else
static const int LANES = 15;
#endif
static int8_t sat(int x) { return (int8_t)(x > 127 ? 127 : x < -128 ? -128 : x); }
template <class T, int BETA> struct Ref {
  static const int M = T::M, K = T::K, R = T::N - T::K, q = R / M, D = LANES, W = M / D, C = T::LINKS_MAX_CN + 2;
  int cnt[q], base[q][C], off[q][C]; int8_t bl[q][W][D][C]; int turn[q][W][C]; // turn: link that may write among its conflicting links
  void init(bool last) {
    for (int i = 0; i < q; ++i) cnt[i] = 0; int b = 0; const int *row = T::POS;
    for (int g = 0; T::LEN[g]; ++g) for (int r = 0; r < T::LEN[g]; ++r) { for (int k = 0; k < T::DEG[g]; ++k) { int i = row[k] % q; base[i][cnt[i]] = b; off[i][cnt[i]++] = row[k] / q; } row += T::DEG[g]; b += M; }
    for (int i = 0; i < q; ++i) for (int j = 0; j < W; ++j) { for (int k = 0; k < C; ++k) { turn[i][j][k] = k; for (int n = 0; n < D; ++n) bl[i][j][n][k] = 0; }
      for (int k = 0; k < cnt[i]; ++k) for (int o = 0; o < cnt[i]; ++o) if (meet(i, j, k, o)) turn[i][j][k] = last ? (o > turn[i][j][k] ? o : turn[i][j][k]) : (o < turn[i][j][k] ? o : turn[i][j][k]); }
  }
  int bit(int i, int t, int k) { return (t + M - off[i][k]) % M; }
  bool meet(int i, int j, int k, int o) { return base[i][k] == base[i][o] && bit(i, j, k) % W == bit(i, j, o) % W; }
  int8_t *at(int8_t *d, int8_t *p, int i, int t, int k) { if (k < cnt[i]) return d + base[i][k] + bit(i, t, k); int c = q * t + i; return k == cnt[i] ? p + c : c ? p + c - 1 : nullptr; }
  void update(int8_t *d, int8_t *p) {
    for (int i = 0; i < q; ++i) for (int j = 0; j < W; ++j) { int deg = cnt[i] + 2; static int8_t res[D][C];
      for (int n = 0; n < D; ++n) { int t = W * n + j; int8_t in[C]; int m[C]; bool neg = false;
        for (int k = 0; k < deg; ++k) { int8_t *v = at(d, p, i, t, k); in[k] = sat((v ? *v : 127) - bl[i][j][n][k]); int a = in[k] < 0 ? -in[k] : in[k]; a = a > 127 ? 127 : a; a -= BETA; m[k] = a < 0 ? 0 : a; neg ^= in[k] < 0; }
        for (int k = 0; k < deg; ++k) { int o = 31; for (int l = 0; l < deg; ++l) if (l != k) o = m[l] < o ? m[l] : o;
          o = neg != (in[k] < 0) ? -o : o; int8_t old = bl[i][j][n][k]; o = old && (old > 0) == (o < 0) ? 0 : o; res[n][k] = sat(in[k] + o);
          bool mine = k >= cnt[i] || turn[i][j][k] == k; bl[i][j][n][k] = mine ? (int8_t)o : old; } }
      for (int n = 0; n < D; ++n) for (int k = 0; k < deg; ++k) { int8_t *v = at(d, p, i, W * n + j, k); if (v && (k >= cnt[i] || turn[i][j][k] == k)) *v = res[n][k]; }
      int nt[C]; for (int k = 0; k < cnt[i]; ++k) { nt[k] = k; int lo = -1, nx = -1; // the turn passes on to the link before, cyclically
          for (int o = 0; o < cnt[i]; ++o) if (meet(i, j, k, o)) { if (o < turn[i][j][k]) nx = o; lo = o; } nt[k] = nx >= 0 ? nx : lo; }
      for (int k = 0; k < cnt[i]; ++k) turn[i][j][k] = nt[k];
    }
  }
  int run(int8_t *d, int8_t *p, int trials, bool last) { init(last); while (!holds<T>(d, p) && --trials >= 0) update(d, p); return trials; }
};
template <class T, int BETA> static void exact(int step, uint32_t seed, int lo, int span, int errs, int free, int trials) {
  Run<T, BETA> s; s.send(step); s.channel(NOISY, seed, lo, span, errs, free);
  static int8_t fd[T::K], fp[T::N - T::K]; for (int i = 0; i < s.K; ++i) fd[i] = s.rd[i]; for (int i = 0; i < s.R; ++i) fp[i] = s.rp[i];
  static Ref<T, BETA> ref; int w = ref.run(fd, fp, trials, true), r = (*s.dec)(s.rd, s.rp, trials);
  sa_true(w == r, "trials of the layered decoder");
  sa_eq(s.rd, fd, s.K, "soft message of the layered decoder"); sa_eq(s.rp, fp, s.R, "soft parity of the layered decoder");
}
// one pair of links meets: either of the two may go first
template <class T, int BETA> static void exactpair(int step, uint32_t seed, int lo, int span, int errs, int trials) {
  Run<T, BETA> s; s.send(step); s.channel(NOISY, seed, lo, span, errs, 0);
  static int8_t fd[2][T::K], fp[2][T::N - T::K]; static Ref<T, BETA> ref; int w[2]; bool same[2] = {true, true};
  for (int o = 0; o < 2; ++o) { for (int i = 0; i < s.K; ++i) fd[o][i] = s.rd[i]; for (int i = 0; i < s.R; ++i) fp[o][i] = s.rp[i]; w[o] = ref.run(fd[o], fp[o], trials, o); }
  int r = (*s.dec)(s.rd, s.rp, trials);
  for (int o = 0; o < 2; ++o) { same[o] = w[o] == r; for (int i = 0; i < s.K; ++i) same[o] &= s.rd[i] == fd[o][i]; for (int i = 0; i < s.R; ++i) same[o] &= s.rp[i] == fp[o][i]; }
  sa_true(same[0] || same[1], "soft values of the layered decoder");
}
// a codeword but for one undecided or wrong bit is no codeword
template <class T, int BETA> static void each(int step) {
  Run<T, BETA> s; s.send(step);
  for (int b = 0; b <= T::N; ++b) for (int zero = 0; zero < 2; ++zero) {
    for (int i = 0; i < s.K; ++i) s.rd[i] = (int8_t)(s.d[i] * (1 + i % 50)); for (int i = 0; i < s.R; ++i) s.rp[i] = (int8_t)(s.p[i] * (1 + i % 50));
    if (b < s.K) s.rd[b] = zero ? 0 : -s.rd[b]; else if (b < T::N) s.rp[b - s.K] = zero ? 0 : -s.rp[b - s.K];
    int r = (*s.dec)(s.rd, s.rp, 0); sa_true(r == (b < T::N ? -1 : 0), b < T::N ? zero ? "an undecided bit is noticed" : "a wrong bit is noticed" : "the codeword is accepted");
  }
}
#define E1(n, ...) ENTRY(n) { __VA_ARGS__; }
E1(clean_a, clean<TA, 1>(1, 1, 127, 25))
E1(clean_b, clean<TB, 1>(1, 1, 127, 0))
E1(clean_c, clean<TC, 0>(1, 1, 127, 3))
E1(clean_d, clean<TD, 2>(1, 1, 127, 25))
E1(clean_e, clean<TE, 1>(1, 127, 1, 25))
E1(clean_l, clean<TL, 1>(149, 1, 127, 25))
E1(weak_a, repair<TA, 1>(WEAK, 1, 3, 60, 40, 1, 25))
E1(weak_b, repair<TB, 1>(WEAK, 1, 3, 60, 40, 2, 25))
E1(weak_c, repair<TC, 1>(WEAK, 1, 3, 60, 40, 1, 25))
E1(weak_d, repair<TD, 1>(WEAK, 1, 3, 60, 40, 2, 25))
E1(weak_b0, repair<TB, 0>(WEAK, 1, 4, 60, 40, 2, 25))
E1(weak_l, repair<TL, 1>(WEAK, 149, 3, 60, 40, 20, 25))
E1(erased_a, repair<TA, 1>(ERASED, 1, 3, 60, 40, 2, 25))
E1(erased_b, repair<TB, 1>(ERASED, 1, 3, 60, 40, 5, 25))
E1(erased_d, repair<TD, 1>(ERASED, 1, 3, 60, 40, 5, 25))
E1(free_a, repair<TA, 1>(WEAK, 1, 3, 3, 1, 0, 25, 2))
E1(honest_a, honest<TA, 1>(1, 7, 1, 127, 30, 0, 5))
E1(honest_b, honest<TB, 1>(1, 7, 1, 127, 60, 0, 5))
E1(honest_c, honest<TC, 1>(1, 7, 1, 127, 50, 0, 3))
E1(honest_af, honest<TA, 1>(1000, 7, 1, 127, 5, 5, 2))
E1(reuse_a, reuse<TA, 1>(1, 8, 1, 127, 20, 1, 5))
E1(reuse_b, reuse<TB, 1>(1, 8, 1, 127, 30, 3, 5))
E1(reuse_c, reuse<TC, 1>(1, 8, 1, 127, 40, 1, 5))
E1(reuse_c2, reuse<TC, 1>(1, 9, 1, 127, 40, 2, 4))
E1(reuse_e, reuse<TE, 1>(1, 9, 1, 127, 40, 1, 4))
E1(alike_a, alike<TA, 1>(1, 8, 1, 30, 10, 5))
E1(alike_b, alike<TB, 0>(1, 8, 1, 3, 20, 8))
E1(alike_f, alike<TF, 1>(1, 8, 1, 30, 20, 8))
E1(alike_c, alike<TC, 0>(1, 8, 1, 3, 20, 6))
E1(alike_e, alike<TE, 2>(1, 8, 1, 30, 30, 6))
E1(alike_l, alike<TL, 1>(149, 8, 1, 30, 2000, 1))
E1(exact_f, exact<TF, 1>(1, 8, 1, 30, 20, 0, 6))
E1(exact_f2, exact<TF, 3>(1000, 8, 1, 127, 40, 0, 10))
E1(exact_g, exact<TG, 0>(1, 8, 1, 30, 20, 0, 6))
E1(exact_g2, exact<TG, 1>(1000, 8, 1, 127, 60, 0, 6))
E1(exact_e, exact<TE, 1>(1, 8, 1, 30, 20, 0, 6))
E1(exact_i, exact<TI, 1>(1, 8, 1, 30, 20, 0, 1))
E1(exact_i2, exact<TI, 1>(1, 8, 1, 30, 40, 0, 2))
E1(exact_i3, exact<TI, 1>(1, 8, 1, 30, 40, 0, 4))
E1(exact_c, exact<TC, 1>(1, 8, 1, 30, 20, 0, 1))
E1(exact_c2, exact<TC, 1>(1, 8, 1, 30, 40, 0, 2))
E1(exact_a, exact<TA, 1>(1, 8, 1, 30, 20, 0, 1))
E1(exact_a2, exact<TA, 1>(1, 8, 1, 30, 20, 0, 2))
E1(exact_ff, exact<TF, 1>(1000, 8, 1, 30, 20, 3, 2))
E1(exact_j, exact<TJ, 1>(1, 8, 1, 30, 20, 0, 1))
E1(exact_j2, exact<TJ, 1>(1, 8, 1, 30, 30, 0, 2))
E1(exact_j3, exact<TJ, 1>(1, 8, 1, 30, 30, 0, 3))
E1(exact_j9, exact<TJ, 1>(1, 9, 1, 30, 30, 0, 9))
E1(exact_n, exactpair<TN, 1>(1000, 8, 1, 30, 5, 1))
E1(exact_n2, exactpair<TN, 0>(1000, 9, 1, 30, 10, 2))
E1(exact_n4, exactpair<TN, 1>(1000, 10, 1, 30, 10, 4))
E1(honest_n, honest<TN, 1>(1000, 7, 1, 127, 20, 0, 3))
E1(each_a, each<TA, 1>(1000))
E1(each_c, each<TC, 1>(1000))
E1(each_f, each<TF, 0>(1000))
