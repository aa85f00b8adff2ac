// CRC: every byte/word update equals feeding its bits least significant first.
#include "sa.h"
#include "crc.hh"
template <class T> static void bytewise(T poly) {
  CODE::CRC<T> fast(poly), ref(poly);
  T st = sa_any<T>("state");
  fast.reset(st); ref.reset(st);
  uint8_t d[12]; sa_bits(d, sizeof d, "data");
  for (int i = 0; i < 12; ++i) {
    T a = fast(d[i]);
    for (int j = 0; j < 8; ++j) ref(bool((d[i] >> j) & 1));
    T b = ref(), c = fast();
    sa_eq(&a, &b, sizeof(T), "byte update equals eight bit updates");
    sa_eq(&c, &b, sizeof(T), "read-out equals returned value");
  }
}
template <class T, class W> static void wordwise(T poly, const char *label) {
  CODE::CRC<T> fast(poly), ref(poly);
  T st = sa_any<T>("state");
  fast.reset(st); ref.reset(st);
  W w = sa_any<W>("word");
  for (int r = 0; r < 2; ++r) {
    T a = fast(w), c = fast();
    for (unsigned j = 0; j < 8 * sizeof(W); ++j) ref(bool((w >> j) & 1));
    T b = ref();
    sa_eq(&a, &b, sizeof(T), label);
    sa_eq(&c, &b, sizeof(T), "read-out equals returned value");
  }
}
// the bit update itself: one step of the reflected LFSR
template <class T> static void bitwise(T poly) {
  CODE::CRC<T> c(poly);
  T st = sa_any<T>("state"); bool d = sa_bit("bit");
  c.reset(st);
  T got = c(d);
  T want = (T)(st >> 1);
  if ((st & 1) != (T)d) want = (T)(want ^ poly);
  sa_eq(&got, &want, sizeof(T), "bit update is one LFSR step");
}
template <class T> static void initial(T poly) {
  T init = sa_any<T>("init");
  CODE::CRC<T> a(poly, init), b(poly), z(poly);
  b.reset(init);
  uint8_t d = sa_any<uint8_t>("d");
  T x = a(d), y = b(d);
  sa_eq(&x, &y, sizeof(T), "constructor start value equals reset");
  z(d); z.reset();
  CODE::CRC<T> n(poly);
  T u = z(), v = n();
  sa_eq(&u, &v, sizeof(T), "reset returns to the initial state");
  T w = z(d), q = n(d);
  sa_eq(&w, &q, sizeof(T), "reset state behaves like a fresh object");
}
// residue: appending the CRC (least significant first) brings the register to zero
template <class T> static void residue(T poly) {
  CODE::CRC<T> c(poly);
  uint8_t d[5]; sa_bits(d, 5, "msg");
  c.reset(sa_any<T>("state"));
  for (int i = 0; i < 5; ++i) c(d[i]);
  T r = c();
  for (unsigned i = 0; i < sizeof(T); ++i) c((uint8_t)(r >> (8 * i)));
  T got = c(), zero = 0;
  sa_eq(&got, &zero, sizeof(T), "message followed by its checksum leaves a zero register");
}
#define ALL(name, T, poly) \
ENTRY(name##_byte) { bytewise<T>(poly); } \
ENTRY(name##_bit) { bitwise<T>(poly); } \
ENTRY(name##_w16) { wordwise<T, uint16_t>(poly, "16-bit update"); } \
ENTRY(name##_w32) { wordwise<T, uint32_t>(poly, "32-bit update"); } \
ENTRY(name##_w64) { wordwise<T, uint64_t>(poly, "64-bit update"); } \
ENTRY(name##_init) { initial<T>(poly); } \
ENTRY(name##_residue) { residue<T>(poly); }
ALL(crc8, uint8_t, 0xAB)
ALL(crc8b, uint8_t, 0x8C)
ALL(crc16, uint16_t, 0xA8F4)
ALL(crc16b, uint16_t, 0x8408)
ALL(crc32, uint32_t, 0x8F6E37A0)
ALL(crc32b, uint32_t, 0xEDB88320)
ALL(crc64, uint64_t, 0xC96C5795D7870F42)
