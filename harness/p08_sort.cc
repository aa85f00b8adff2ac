#include "sa.h"
#include "sort.hh"
// The sorts touch elements only through comparison and copying, so a finite set of key values
// covers every weak ordering of up to that many elements.
struct Item { uint8_t key, tag; };
template <int N, int W> static void fill(Item *a) { for (int i = 0; i < N; ++i) { a[i].key = (uint8_t)sa_word("key", W); a[i].tag = i; } }
template <int N> static void stable(Item *a, Item *o, const char *label) {
  for (int i = 0; i + 1 < N; ++i) sa_true(a[i].key < a[i + 1].key || (a[i].key == a[i + 1].key && a[i].tag < a[i + 1].tag), label);
  // permutation: every output is one of the inputs, unchanged; tags strictly ordered above make them distinct
  for (int i = 0; i < N; ++i) { bool ok = false; for (int j = 0; j < N; ++j) ok |= a[i].tag == j && a[i].key == o[j].key; sa_true(ok, "output is a rearrangement of the input"); }
}
struct Less { bool operator()(const Item &x, const Item &y) const { return x.key < y.key; } };
static inline bool operator<(const Item &x, const Item &y) { return x.key < y.key; }
template <int N, int W> static void ins() { Item a[N + 2], o[N]; a[0] = {255, 255}; a[N + 1] = {0, 254}; fill<N, W>(a + 1); memcpy(o, a + 1, sizeof o); CODE::insertion_sort(a + 1, N); stable<N>(a + 1, o, "insertion sort orders stably"); sa_true(a[0].key == 255 && a[0].tag == 255 && a[N + 1].key == 0 && a[N + 1].tag == 254, "neighbours untouched"); }
template <int N, int W> static void insc() { Item a[N + 2], o[N]; a[0] = {255, 255}; a[N + 1] = {0, 254}; fill<N, W>(a + 1); memcpy(o, a + 1, sizeof o); CODE::insertion_sort(a + 1, N, Less()); stable<N>(a + 1, o, "insertion sort with comparator orders stably"); sa_true(a[0].key == 255 && a[0].tag == 255 && a[N + 1].key == 0 && a[N + 1].tag == 254, "neighbours untouched"); }
template <int N, int W> static void insp() { uint8_t a[N], o[N]; uint16_t p[N]; for (int i = 0; i < N; ++i) o[i] = a[i] = (uint8_t)sa_word("key", W); sa_bits(p, sizeof p, "old index");
  CODE::insertion_sort(p, a, N); for (int i = 0; i + 1 < N; ++i) sa_true(a[i] < a[i + 1] || (a[i] == a[i + 1] && p[i] < p[i + 1]), "index insertion sort orders stably"); for (int i = 0; i < N; ++i) { bool ok = false; for (int j = 0; j < N; ++j) ok |= p[i] == j && a[i] == o[j]; sa_true(ok, "index names the element's origin"); } }
template <int N, int MAXN, int M, int W> static void merge() { Item a[N + 2], o[N]; a[0] = {255, 255}; a[N + 1] = {0, 254}; fill<N, W>(a + 1); memcpy(o, a + 1, sizeof o); CODE::MergeSort<Item, MAXN, M> s; s(a + 1, N, Less()); stable<N>(a + 1, o, "merge sort orders stably"); sa_true(a[0].key == 255 && a[0].tag == 255 && a[N + 1].key == 0 && a[N + 1].tag == 254, "neighbours untouched"); }
template <int N, int MAXN, int M, int W> static void merge2() { Item a[N], o[N]; fill<N, W>(a); memcpy(o, a, sizeof o); CODE::MergeSort<Item, MAXN, M> s; s(a, N); stable<N>(a, o, "merge sort with the natural order sorts stably"); }
ENTRY(ins1) { ins<1, 2>(); ins<2, 2>(); ins<3, 2>(); }
ENTRY(ins4) { ins<4, 2>(); }
ENTRY(ins5) { ins<5, 3>(); }
ENTRY(insc4) { insc<1, 2>(); insc<2, 2>(); insc<3, 2>(); insc<4, 2>(); }
ENTRY(insc5) { insc<5, 3>(); }
ENTRY(insp4) { insp<1, 2>(); insp<2, 2>(); insp<3, 2>(); insp<4, 2>(); }
ENTRY(insp5) { insp<5, 3>(); }
ENTRY(ins8) { ins<8, 2>(); }
ENTRY(m4) { merge<4, 4, 1, 2>(); merge<4, 4, 2, 2>(); merge<3, 4, 1, 2>(); merge<1, 1, 1, 2>(); merge<2, 2, 1, 2>(); }
ENTRY(m5) { merge<5, 5, 1, 3>(); }
ENTRY(m5b) { merge<5, 8, 2, 3>(); }
ENTRY(m6) { merge<6, 6, 1, 2>(); merge<6, 6, 4, 2>(); }
ENTRY(m7) { merge<7, 7, 2, 2>(); }
ENTRY(m7b) { merge2<7, 8, 1, 2>(); }
ENTRY(m8) { merge<8, 8, 2, 2>(); }
ENTRY(m8b) { merge<8, 8, 3, 2>(); }
// two-valued keys: longer arrays, default block length
ENTRY(m16) { merge<16, 16, 4, 1>(); }
ENTRY(m13) { merge<13, 16, 3, 1>(); }
ENTRY(m12) { merge<12, 40, 32, 1>(); }
// more elements than one default block: the symbolic part straddles the block border
template <int N> static void straddle() { Item a[N], o[N]; for (int i = 0; i < N; ++i) { a[i].key = (uint8_t)(i * 37 % 50 + 1); a[i].tag = i; } for (int i = 0; i < 4; ++i) a[30 + i].key = (uint8_t)(sa_word("key", 2) * 20); memcpy(o, a, sizeof o); CODE::MergeSort<Item, N> s; s(a, N, Less()); stable<N>(a, o, "merge sort across blocks orders stably"); }
ENTRY(straddle40) { straddle<40>(); }
ENTRY(straddle70) { straddle<70>(); }
// totally concrete structure: every length around block borders, reversed input
template <int N> static void rev() { Item a[N], o[N]; for (int i = 0; i < N; ++i) { a[i].key = (uint8_t)((N - i) / 2); a[i].tag = i; } memcpy(o, a, sizeof o); bool b = sa_bit("flip"); if (b) std::swap(a[0].key, a[N - 1].key); memcpy(o, a, sizeof o); CODE::MergeSort<Item, N> s; s(a, N, Less()); stable<N>(a, o, "merge sort of a descending run orders stably"); }
ENTRY(rev) { rev<31>(); rev<32>(); rev<33>(); rev<63>(); rev<64>(); rev<65>(); rev<96>(); rev<100>(); }
// plain arrays of every kind of number, keys from the whole range of the type
template <class T> static T far(unsigned k) {
  typedef std::numeric_limits<T> L;
  T lo = L::lowest(), hi = L::max();
  const T t[8] = { lo, (T)(lo + (L::is_integer ? 1 : hi / 2)), (T)(lo / 2 + hi / 4), (T)(hi / 2 - hi / 4), (T)(hi / 2), (T)(hi / 2 + (L::is_integer ? 2 : hi / 4)), (T)(hi - (L::is_integer ? 1 : hi / 8)), hi };
  return t[k];
}
template <class T> static void same(const T *a, const T *o, const char *label) { for (int v = 0; v < 8; ++v) { int x = 0, y = 0; for (int i = 0; i < 5; ++i) { x += a[i] == far<T>(v); y += o[i] == far<T>(v); } sa_true(x == y, label); } }
template <class T> static void wide() {
  T a[5], b[5], c[5], d[5], o[5]; uint8_t p[5];
  for (int i = 0; i < 5; ++i) o[i] = a[i] = b[i] = c[i] = d[i] = far<T>(i < 4 ? sa_word("key", 3) : 4);
  CODE::insertion_sort(a, 5);
  CODE::insertion_sort(b, 5, [](T x, T y) { return y < x; });
  CODE::insertion_sort(p, c, 5);
  CODE::MergeSort<T, 5, 2> s; s(d, 5);
  for (int i = 0; i < 4; ++i) { sa_true(a[i] <= a[i + 1], "insertion sort of numbers ascends"); sa_true(b[i] >= b[i + 1], "insertion sort with the opposite order descends"); sa_true(c[i] <= c[i + 1], "index insertion sort of numbers ascends"); sa_true(c[i] < c[i + 1] || p[i] < p[i + 1], "index insertion sort of numbers is stable"); }
  same(a, o, "insertion sort keeps the numbers"); same(b, o, "insertion sort with comparator keeps the numbers"); same(d, o, "merge sort keeps the numbers");
  for (int i = 0; i < 4; ++i) sa_true(d[i] <= d[i + 1], "merge sort of numbers ascends");
  for (int i = 0; i < 5; ++i) { bool ok = false; for (int j = 0; j < 5; ++j) ok |= p[i] == j && c[i] == o[j]; sa_true(ok, "index names the origin of the number"); }
}
ENTRY(wide_i8) { wide<int8_t>(); }
ENTRY(wide_u8) { wide<uint8_t>(); }
ENTRY(wide_i16) { wide<int16_t>(); }
ENTRY(wide_u16) { wide<uint16_t>(); }
ENTRY(wide_i32) { wide<int32_t>(); }
ENTRY(wide_u32) { wide<uint32_t>(); }
ENTRY(wide_i64) { wide<int64_t>(); }
ENTRY(wide_u64) { wide<uint64_t>(); }
ENTRY(wide_f32) { wide<float>(); }
ENTRY(wide_f64) { wide<double>(); }
// long arrays: a few exchanged neighbours and a few far travellers
template <class P, int N> static void longindex() {
  static P p[N]; static uint32_t a[N]; const int w = N / 3; for (int i = 0; i < N; ++i) a[i] = 2 * i; a[N - 1] = 2 * w + 1; a[w + 5] = (uint32_t)(2 * w + sa_word("key", 2)); uint32_t key = a[w + 5];
  CODE::insertion_sort(p, a, N);
  for (int i = 0; i + 1 < N; ++i) if (i < w - 3 || i > w + 8) { if (!(a[i] < a[i + 1])) { sa_true(false, "index insertion sort orders a long array"); break; } } else sa_true(a[i] <= a[i + 1], "index insertion sort orders a long array");
  for (int i = 0; i < N; ++i) { uint32_t from = p[i]; uint32_t v = from == (uint32_t)(N - 1) ? 2u * w + 1 : from == (uint32_t)(w + 5) ? key : 2 * from; sa_true(from < (uint32_t)N && v == a[i], "index names the origin of the number"); }
}
ENTRY(longindex) { longindex<uint16_t, 300>(); longindex<int16_t, 1000>(); longindex<int, 70000>(); longindex<uint8_t, 256>(); }
template <int N, int M> static void longmerge() {
  struct It { uint32_t key, tag; }; static It a[N]; for (int i = 0; i < N; ++i) { a[i].key = (uint32_t)(i * 40503u) >> 3 & 0x3ff; a[i].tag = i; } a[1].key = (uint32_t)sa_word("key", 2) * 300;
  static CODE::MergeSort<It, N, M> s; s(a, N, [](const It &x, const It &y) { return x.key < y.key; });
  for (int i = 0; i + 1 < N; ++i) sa_true(a[i].key < a[i + 1].key || (a[i].key == a[i + 1].key && a[i].tag < a[i + 1].tag), "merge sort orders a long array stably");
  for (int i = 0; i < N; ++i) sa_true(a[i].tag < (uint32_t)N && (a[i].tag == 1 || a[i].key == ((a[i].tag * 40503u) >> 3 & 0x3ff)), "output is a rearrangement of the input");
}
ENTRY(longmerge300) { longmerge<300, 32>(); longmerge<257, 1>(); }
