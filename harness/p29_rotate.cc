#include "sa.h"
#include "rotate.hh"
// out[j] = a[(j - s) mod WIDTH] for the first WIDTH lanes, every content, every amount in (-WIDTH, WIDTH)
template <class V, int SIZE, int WIDTH> static void turn() {
  typedef SIMD<V, SIZE> T; static CODE::Rotate<T, WIDTH> rot; T a; sa_bits(&a, sizeof a, "lanes");
  for (int s = -WIDTH + 1; s < WIDTH; ++s) {
    T r = rot(a, s); for (int j = 0; j < WIDTH; ++j) { int from = ((j - s) % WIDTH + WIDTH) % WIDTH; sa_eq(&r.v[j], &a.v[from], sizeof(V), "lane j takes the value of lane j - s"); }
    T b = rot(r, -s); sa_eq(&b, &a, sizeof(V) * WIDTH, "turning back restores the vector");
  }
}
// combined turns add up
template <class V, int SIZE, int WIDTH> static void add() { typedef SIMD<V, SIZE> T; static CODE::Rotate<T, WIDTH> rot; T a; sa_bits(&a, sizeof a, "lanes"); for (int s = 0; s < WIDTH; ++s) for (int t = 0; t < WIDTH; ++t) { T x = rot(rot(a, s), t), y = rot(a, (s + t) % WIDTH); sa_eq(&x, &y, sizeof(V) * WIDTH, "turns add up"); } }
template <class V, int SIZE, int W> struct All { static void run() { turn<V, SIZE, W>(); All<V, SIZE, W - 1>::run(); } };
template <class V, int SIZE> struct All<V, SIZE, 0> { static void run() {} };
ENTRY(i8x16) { All<int8_t, 16, 16>::run(); }
ENTRY(i8x32a) { All<int8_t, 32, 16>::run(); }
ENTRY(i8x32b) { turn<int8_t, 32, 17>(); turn<int8_t, 32, 18>(); turn<int8_t, 32, 19>(); turn<int8_t, 32, 20>(); turn<int8_t, 32, 21>(); turn<int8_t, 32, 22>(); turn<int8_t, 32, 23>(); turn<int8_t, 32, 24>(); }
ENTRY(i8x32c) { turn<int8_t, 32, 25>(); turn<int8_t, 32, 26>(); turn<int8_t, 32, 27>(); turn<int8_t, 32, 28>(); turn<int8_t, 32, 29>(); turn<int8_t, 32, 30>(); turn<int8_t, 32, 31>(); turn<int8_t, 32, 32>(); }
ENTRY(i8x8) { All<int8_t, 8, 8>::run(); }
ENTRY(i8x64) { turn<int8_t, 64, 64>(); turn<int8_t, 64, 45>(); turn<int8_t, 64, 33>(); turn<int8_t, 64, 2>(); }
ENTRY(i8x1) { turn<int8_t, 1, 1>(); turn<int8_t, 2, 2>(); turn<int8_t, 2, 1>(); turn<int8_t, 4, 3>(); }
ENTRY(i16x8) { All<int16_t, 8, 8>::run(); }
ENTRY(i16x16) { All<int16_t, 16, 16>::run(); }
ENTRY(i32x8) { All<int32_t, 8, 8>::run(); }
ENTRY(u8x16) { All<uint8_t, 16, 16>::run(); }
ENTRY(fx8) { All<float, 8, 8>::run(); }
ENTRY(dx4) { All<double, 4, 4>::run(); }
ENTRY(add16) { add<int8_t, 16, 16>(); add<int8_t, 16, 12>(); }
ENTRY(add32) { add<int8_t, 32, 32>(); add<int8_t, 32, 30>(); }
