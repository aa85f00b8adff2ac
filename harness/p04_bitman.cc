#include "sa.h"
#include "bitman.hh"
ENTRY(set_be) { for (int p = 0; p < 72; ++p) { uint8_t a[9], w[9]; sa_bits(a, 9, "buf"); memcpy(w, a, 9); bool v = sa_bit("v");
  CODE::set_be_bit(a, p, v); for (int b = 0; b < 72; ++b) { bool want = b == p ? v : (w[b / 8] >> (7 - b % 8)) & 1; sa_true(CODE::get_be_bit(a, b) == want, "set, most significant first: target written, others kept"); } } }
ENTRY(set_le) { for (int p = 0; p < 72; ++p) { uint8_t a[9], w[9]; sa_bits(a, 9, "buf"); memcpy(w, a, 9); bool v = sa_bit("v");
  CODE::set_le_bit(a, p, v); for (int b = 0; b < 72; ++b) { bool want = b == p ? v : (w[b / 8] >> (b % 8)) & 1; sa_true(CODE::get_le_bit(a, b) == want, "set, least significant first: target written, others kept"); } } }
ENTRY(xor_be) { for (int p = 0; p < 72; ++p) { uint8_t a[9], w[9]; sa_bits(a, 9, "buf"); memcpy(w, a, 9); bool v = sa_bit("v");
  CODE::xor_be_bit(a, p, v); w[p / 8] ^= v ? 128 >> (p % 8) : 0; sa_eq(a, w, 9, "xor, most significant first: exactly one bit toggled"); } }
ENTRY(xor_le) { for (int p = 0; p < 72; ++p) { uint8_t a[9], w[9]; sa_bits(a, 9, "buf"); memcpy(w, a, 9); bool v = sa_bit("v");
  CODE::xor_le_bit(a, p, v); w[p / 8] ^= v ? 1 << (p % 8) : 0; sa_eq(a, w, 9, "xor, least significant first: exactly one bit toggled"); } }
ENTRY(get) { uint8_t a[9]; sa_bits(a, 9, "buf"); uint8_t w[9]; memcpy(w, a, 9); for (int p = 0; p < 72; ++p) {
  sa_true(CODE::get_be_bit(a, p) == bool((w[p / 8] >> (7 - p % 8)) & 1), "read, most significant first");
  sa_true(CODE::get_le_bit(a, p) == bool((w[p / 8] >> (p % 8)) & 1), "read, least significant first"); }
  sa_eq(a, w, 9, "reading leaves the buffer alone"); }
ENTRY(symbolic_position) { // position itself symbolic
  uint8_t a[4], w[4]; sa_bits(a, 4, "buf"); memcpy(w, a, 4); int p = (int)sa_word("pos", 5); bool v = sa_bit("v");
  CODE::set_be_bit(a, p, v); bool g = CODE::get_be_bit(a, p); sa_true(g == v, "bit written at any position is read back");
  CODE::set_le_bit(w, p, v); bool h = CODE::get_le_bit(w, p); sa_true(h == v, "bit written at any position is read back"); }
// far positions (index arithmetic)
ENTRY(far) { uint8_t *a = (uint8_t *)sa_alloc(1 << 16, 1, "far buffer"); int pos[] = {0, 7, 8, 32767, 32768, 65535, 65536, 524280, 524287};
  for (int p : pos) { sa_bits(a + p / 8, 1, "byte"); uint8_t w = a[p / 8]; bool v = sa_bit("v"); CODE::set_be_bit(a, p, v); uint8_t m = 128 >> (p % 8); uint8_t want = (w & ~m) | (v ? m : 0); sa_eq(a + p / 8, &want, 1, "position addresses the right byte");
    CODE::set_le_bit(a, p, v); CODE::xor_le_bit(a, p, v); sa_true(!CODE::get_le_bit(a, p), "set then toggle clears"); CODE::set_be_bit(a, p, v); CODE::xor_be_bit(a, p, v); sa_true(!CODE::get_be_bit(a, p), "set then toggle clears"); } }
// far positions; the bytes at narrower versions of the position keep their contents
template <int N> static void farbits(int pos) {
  static uint8_t a[N + 1]; const int at[] = {pos / 8, pos % 65536 / 8, pos % 32768 / 8, pos % 256 / 8, pos % (1 << 20) / 8}; uint8_t w[5];
  for (int t : at) a[t] = sa_any<uint8_t>("byte");
  for (int kind = 0; kind < 4; ++kind) {
    for (int t = 0; t < 5; ++t) w[t] = a[at[t]];
    bool v = sa_bit("v"), be = kind & 1; int sh = be ? 7 - pos % 8 : pos % 8, want = w[0];
    sa_true((be ? CODE::get_be_bit(a, pos) : CODE::get_le_bit(a, pos)) == bool(w[0] >> sh & 1), "bit at a far position");
    if (kind == 0) CODE::set_le_bit(a, pos, v); if (kind == 1) CODE::set_be_bit(a, pos, v); if (kind == 2) CODE::xor_le_bit(a, pos, v); if (kind == 3) CODE::xor_be_bit(a, pos, v);
    want = kind < 2 ? (want & ~(1 << sh)) | v << sh : want ^ v << sh;
    for (int t = 0; t < 5; ++t) sa_true(a[at[t]] == (at[t] == at[0] ? want : w[t]), "far bit written, others kept");
  }
}
ENTRY(fars) { for (int p : {255, 256, 2047, 2051, 32767, 32768, 65535, 65536, 65541, 131071, 262147, 524287}) farbits<1 << 16>(p); }
ENTRY(farther) { for (int p : {1048576 + 13, 2097151, 8388611, 16777215, 16777221}) farbits<(1 << 21) + 8>(p); }
