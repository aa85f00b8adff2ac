#include "sa.h"
#include "bitstream.hh"
// model: the stream is an array of bits, least significant first inside each byte
template <int SIZE> struct Model { bool b[SIZE]; int pos; };
template <int SIZE> static void load(CODE::Bitstream<SIZE> &s, Model<SIZE> &m) {
  sa_bits(s.data(), CODE::Bitstream<SIZE>::BYTES, "stream");
  for (int i = 0; i < SIZE; ++i) m.b[i] = (s.data()[i / 8] >> (i % 8)) & 1;
}
template <int SIZE> static void same(CODE::Bitstream<SIZE> &s, Model<SIZE> &m, const char *label) {
  for (int i = 0; i < SIZE; ++i) sa_true(bool((s.data()[i / 8] >> (i % 8)) & 1) == m.b[i], label);
}
static const int S = 44; // not a multiple of eight
ENTRY(bits) { for (int p = 0; p < S; ++p) { CODE::Bitstream<S> s; Model<S> m; load(s, m); bool v = sa_bit("v"); s.seek(p); s.putbit(v); m.b[p] = v; sa_true(s.tell() == p + 1, "position advances by one"); same(s, m, "putbit writes one bit"); s.seek(p); sa_true(s.getbit() == v, "getbit returns it"); sa_true(s.tell() == p + 1, "position advances by one"); same(s, m, "getbit changes nothing"); } }
ENTRY(bytes) { for (int p = 0; p + 8 <= S; ++p) { CODE::Bitstream<S> s; Model<S> m; load(s, m); uint8_t v = sa_any<uint8_t>("v"); s.seek(p); s.putbyte(v); for (int j = 0; j < 8; ++j) m.b[p + j] = (v >> j) & 1; sa_true(s.tell() == p + 8, "position advances by eight"); same(s, m, "putbyte writes eight bits"); s.seek(p); uint8_t g = s.getbyte(); sa_eq(&g, &v, 1, "getbyte returns it"); sa_true(s.tell() == p + 8, "position advances by eight"); same(s, m, "getbyte changes nothing"); } }
ENTRY(blocks) { for (int n = 0; n <= 5; ++n) for (int p = 0; p + 8 * n <= S; ++p) { CODE::Bitstream<S> s; Model<S> m; load(s, m); uint8_t v[6], g[6]; sa_bits(v, 6, "v"); sa_bits(g, 6, "g"); uint8_t keep = g[5];
  sa_readonly(v, 6); s.seek(p); s.writebytes(v, n); for (int j = 0; j < 8 * n; ++j) m.b[p + j] = (v[j / 8] >> (j % 8)) & 1; sa_true(s.tell() == p + 8 * n, "position advances by the block"); same(s, m, "writebytes writes exactly the block"); s.seek(p); s.readbytes(g, n); sa_eq(g, v, n, "readbytes returns it"); if (n < 6) sa_eq(&g[5], &keep, 1, "readbytes stays inside the destination"); sa_true(s.tell() == p + 8 * n, "position advances by the block"); same(s, m, "readbytes changes nothing"); sa_writable(v); } }
template <class T> static void fields() { for (int n = 0; n <= (int)sizeof(T) * 8 && n <= S; ++n) for (int p = 0; p + n <= S; p += (n % 3) + 1) { CODE::Bitstream<S> s; Model<S> m; load(s, m); T v = sa_any<T>("v"), g = sa_any<T>("old"); s.seek(p); s.writebits(v, n); for (int j = 0; j < n; ++j) m.b[p + j] = (v >> j) & 1; sa_true(s.tell() == p + n, "position advances by the field"); same(s, m, "writebits writes exactly the field"); s.seek(p); s.readbits(&g, n); T want = n >= (int)sizeof(T) * 8 ? v : (T)(v & (((T)1 << n) - 1)); sa_eq(&g, &want, sizeof(T), "readbits returns the field, zero extended"); sa_true(s.tell() == p + n, "position advances by the field"); same(s, m, "readbits changes nothing"); } }
ENTRY(field8) { fields<uint8_t>(); }
ENTRY(field16) { fields<uint16_t>(); }
ENTRY(field32) { fields<uint32_t>(); }
ENTRY(field64) { fields<uint64_t>(); }
ENTRY(reset) { CODE::Bitstream<S> s; sa_bits(&s, sizeof s, "any state"); s.reset(); sa_true(s.tell() == 0, "reset rewinds"); for (int i = 0; i < S; ++i) sa_true(!s.getbit(), "reset clears every bit"); CODE::Bitstream<S> f; sa_true(f.tell() == 0, "a new stream starts at zero"); }
ENTRY(exact) { // sizes that are an exact number of bytes: last byte reachable at every offset
  CODE::Bitstream<16> s; Model<16> m; for (int p = 0; p <= 8; ++p) { load(s, m); uint8_t v = sa_any<uint8_t>("v"); s.seek(p); s.putbyte(v); s.seek(p); uint8_t g = s.getbyte(); sa_eq(&g, &v, 1, "byte at any offset"); s.seek(p); uint8_t b = sa_any<uint8_t>("b"); s.writebytes(&b, 1); s.seek(p); s.readbytes(&g, 1); sa_eq(&g, &b, 1, "block at any offset"); } }
ENTRY(sequence) { // a mixed write sequence read back in order
  CODE::Bitstream<128> s; s.reset(); bool a = sa_bit("a"); uint8_t b = sa_any<uint8_t>("b"); uint32_t c = (uint32_t)sa_word("c", 19); uint8_t d[3]; sa_bits(d, 3, "d"); uint16_t e = (uint16_t)sa_word("e", 11); bool f = sa_bit("f"); uint64_t h = sa_word("h", 37);
  s.putbit(a); s.putbyte(b); s.writebits(c, 19); s.writebytes(d, 3); s.writebits(e, 11); s.putbit(f); s.writebits(h, 37); sa_true(s.tell() == 101, "total length"); s.seek(0);
  bool a2 = s.getbit(); uint8_t b2 = s.getbyte(); uint32_t c2; s.readbits(&c2, 19); uint8_t d2[3]; s.readbytes(d2, 3); uint16_t e2; s.readbits(&e2, 11); bool f2 = s.getbit(); uint64_t h2; s.readbits(&h2, 37);
  sa_true(a2 == a && f2 == f, "bits round trip"); sa_eq(&b2, &b, 1, "byte round trip"); sa_eq(&c2, &c, 4, "field round trip"); sa_eq(d2, d, 3, "block round trip"); sa_eq(&e2, &e, 2, "field round trip"); sa_eq(&h2, &h, 8, "field round trip"); }
// long streams
ENTRY(far) {
  static CODE::Bitstream<300007> s; s.reset();
  for (int p : {2040, 32763, 32768, 65529, 65531, 65536, 131070, 262141, 299990}) {
    bool a = sa_bit("a"); uint8_t b = sa_any<uint8_t>("b"), g; uint16_t c = (uint16_t)sa_word("c", 7), h = 0;
    s.seek(p); s.putbit(a); s.putbyte(b); s.writebits(c, 7); sa_true(s.tell() == p + 16, "position advances in a long stream");
    for (int i = 0; i < 8; ++i) sa_true(((s.data()[(p + 1 + i) / 8] >> (p + 1 + i) % 8) & 1) == (b >> i & 1), "byte at a far position");
    s.seek(p); sa_true(s.getbit() == a, "bit at a far position"); g = s.getbyte(); sa_eq(&g, &b, 1, "byte at a far position"); s.readbits(&h, 7); sa_eq(&h, &c, 2, "field at a far position");
    sa_true(s.tell() == p + 16, "position advances in a long stream"); s.seek(p); s.writebits(0ull, 16);
  }
  for (int i = 0; i < CODE::Bitstream<300007>::BYTES; ++i) if (s.data()[i]) { sa_true(false, "nothing else is written in a long stream"); break; }
}
template <int P> static void longblock() {
  static CODE::Bitstream<300007> s; s.reset(); const int L = 33000; static uint8_t v[L], g[L]; for (int i = 0; i < L; ++i) v[i] = (uint8_t)(i * 167 + (i >> 8) * 29);
  for (int i : {0, 4095, 4096, 8191, 8192, 32767, 32999}) v[i] = sa_any<uint8_t>("v");
  s.seek(P); s.writebytes(v, L); sa_true(s.tell() == P + 8 * L, "position advances by a long block"); s.seek(P); s.readbytes(g, L); sa_true(s.tell() == P + 8 * L, "position advances by a long block");
  sa_eq(g, v, L, "long block round trip"); for (int i : {0, 4096, 8191, 8192, 32999}) for (int b = 0; b < 8; ++b) sa_true(((s.data()[(P + 8 * i + b) / 8] >> (P + b) % 8) & 1) == (v[i] >> b & 1), "byte of a long block in its place");
}
ENTRY(longblock0) { longblock<16>(); }
ENTRY(longblock3) { longblock<1027>(); }
