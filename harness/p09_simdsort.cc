#include "sa.h"
#include "simd.hh"
#include "simd_sort.hh"
// S of the W lanes hold any B-bit key, the others fixed ones
template <class T, int W, int B, int S = W> static void vs() {
  SIMD<T, W> a; T o[W];
  for (int i = 0; i < W; ++i) o[i] = a.v[i] = i * S / W != (i + 1) * S / W ? (T)((int)sa_word("key", B) - (1 << B) / 2) : (T)(i % 3 - 1);
  SIMD<T, W> s = vsort(a);
  auto p = vorder(a);
  for (int i = 0; i + 1 < W; ++i) sa_true(s.v[i] <= s.v[i + 1], "sorted ascending");
  for (int i = 0; i + 1 < W; ++i) { T x = 0, y = 0; for (int j = 0; j < W; ++j) { if (p.v[i] == (unsigned)j) x = o[j]; if (p.v[i + 1] == (unsigned)j) y = o[j]; } sa_true(x < y || (x == y && p.v[i] < p.v[i + 1]), "order vector lists the lanes stably"); }
  for (int i = 0; i < W; ++i) { T x = 0; bool in = false; for (int j = 0; j < W; ++j) if (p.v[i] == (unsigned)j) { x = o[j]; in = true; } sa_true(in, "order vector holds lane numbers"); sa_eq(&x, &s.v[i], sizeof(T), "order vector and sorted vector agree"); }
  for (int i = 0; i < W; ++i) sa_eq(&a.v[i], &o[i], sizeof(T), "argument is not modified");
}
ENTRY(i8x4) { vs<int8_t, 4, 3>(); }
ENTRY(i16x4) { vs<int16_t, 4, 3>(); }
ENTRY(i32x4) { vs<int32_t, 4, 3>(); }
ENTRY(i8x5) { vs<int8_t, 5, 3>(); }
ENTRY(i8x8) { vs<int8_t, 8, 2, 7>(); }
ENTRY(u8x8) { vs<uint8_t, 8, 3, 5>(); }
ENTRY(i8x16) { vs<int8_t, 16, 1, 14>(); }
ENTRY(i8x16b) { vs<int8_t, 16, 2, 7>(); }
ENTRY(i16x8) { vs<int16_t, 8, 2, 7>(); }
ENTRY(i8x32) { vs<int8_t, 32, 2, 6>(); }
ENTRY(i32x8) { vs<int32_t, 8, 3, 4>(); }
// keys from the whole range of the type: differences do not fit into it
template <class T> static T far(unsigned k) {
  typedef std::numeric_limits<T> L;
  T lo = L::lowest(), hi = L::max();
  const T t[8] = { lo, (T)(lo + (L::is_integer ? 1 : hi / 2)), (T)(lo / 2 + hi / 4), (T)(hi / 2 - hi / 4), (T)(hi / 2), (T)(hi / 2 + (L::is_integer ? 2 : hi / 4)), (T)(hi - (L::is_integer ? 1 : hi / 8)), hi };
  return t[k];
}
template <class T, int W, int B, int S = W> static void vf() {
  SIMD<T, W> a; T o[W];
  for (int i = 0; i < W; ++i) o[i] = a.v[i] = far<T>(i * S / W != (i + 1) * S / W ? sa_word("key", B) << (3 - B) : i * 5 % 8);
  SIMD<T, W> s = vsort(a);
  auto p = vorder(a);
  for (int i = 0; i + 1 < W; ++i) sa_true(s.v[i] <= s.v[i + 1], "sorted ascending");
  for (int i = 0; i + 1 < W; ++i) { T x = 0, y = 0; for (int j = 0; j < W; ++j) { if (p.v[i] == (unsigned)j) x = o[j]; if (p.v[i + 1] == (unsigned)j) y = o[j]; } sa_true(x < y || (x == y && p.v[i] < p.v[i + 1]), "order vector lists the lanes stably"); }
  for (int i = 0; i < W; ++i) { T x = 0; for (int j = 0; j < W; ++j) if (p.v[i] == (unsigned)j) x = o[j]; sa_eq(&x, &s.v[i], sizeof(T), "order vector and sorted vector agree"); }
}
ENTRY(far_i8) { vf<int8_t, 4, 3>(); vf<int8_t, 16, 2, 5>(); }
ENTRY(far_u8) { vf<uint8_t, 4, 3>(); }
ENTRY(far_i16) { vf<int16_t, 4, 3>(); vf<int16_t, 8, 2, 6>(); }
ENTRY(far_u16) { vf<uint16_t, 4, 3>(); }
ENTRY(far_i32) { vf<int32_t, 4, 3>(); vf<int32_t, 8, 2, 6>(); }
ENTRY(far_u32) { vf<uint32_t, 4, 3>(); }
ENTRY(far_i64) { vf<int64_t, 2, 3>(); vf<int64_t, 4, 3>(); }
ENTRY(far_u64) { vf<uint64_t, 2, 3>(); }
ENTRY(far_f32) { vf<float, 4, 3>(); }
ENTRY(far_f64) { vf<double, 2, 3>(); }
