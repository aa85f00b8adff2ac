#include "sa.h"
#include "ldpc_encoder.hh"
#include "ldpc_tables.h"
// accumulator structure: check j of the code (numbered along the parity) ties parity j, parity j-1 and the
// information bits that the table links to it
template <class T> static void enc(int step) {
  const int R = T::N - T::K, q = R / T::M;
  static CODE::LDPCEncoder<T> e; new (&e) CODE::LDPCEncoder<T>();
  int8_t *data = (int8_t *)sa_alloc(T::K, 1, "data"), *par = (int8_t *)sa_alloc(R, 1, "parity");
  for (int i = 0; i < T::K; ++i) data[i] = i % step ? (i % 7 == 3 ? -1 : 1) : (int8_t)(1 - 2 * (int)sa_bit("data"));
  sa_bits(par, R, "old"); sa_readonly(data, T::K);
  e(data, par);
  int8_t *want = (int8_t *)sa_alloc(R, 1, "want"); for (int j = 0; j < R; ++j) want[j] = 1;
  int bit = 0; const int *row = T::POS;
  for (int g = 0; T::LEN[g]; ++g) for (int r = 0; r < T::LEN[g]; ++r) { for (int m = 0; m < T::M; ++m) { for (int d = 0; d < T::DEG[g]; ++d) want[(row[d] + m * q) % R] *= data[bit]; ++bit; } row += T::DEG[g]; }
  for (int j = 1; j < R; ++j) want[j] *= want[j - 1];
  sa_eq(par, want, R, "every parity check of the table holds");
}
ENTRY(tiny) { enc<TA>(1); }
ENTRY(small) { enc<TB>(1); }
ENTRY(dup) { enc<TC>(1); }
ENTRY(w2) { enc<TD>(1); }
ENTRY(odd) { enc<TE>(1); }
ENTRY(large) { enc<TL>(149); }
ENTRY(huge) { enc<TH>(997); }
