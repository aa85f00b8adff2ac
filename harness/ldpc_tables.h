// Small quasi-cyclic tables in the library's format (addresses of the checks of the first bit of each group of M bits).
#pragma once
#include <cstdint>
struct TA { static const int M = 30, N = 90, K = 30, LINKS_MIN_CN = 2, LINKS_MAX_CN = 4, LINKS_TOTAL = 209, DEG_MAX = 3; static constexpr int DEG[] = {3, 0}, LEN[] = {1, 0}; static constexpr int POS[] = {0, 17, 41}; };
struct TB { static const int M = 30, N = 240, K = 120, LINKS_MIN_CN = 3, LINKS_MAX_CN = 7, LINKS_TOTAL = 659, DEG_MAX = 4; static constexpr int DEG[] = {4, 3, 0}, LEN[] = {2, 2, 0}; static constexpr int POS[] = {0, 22, 57, 99, 1, 46, 83, 118, 2, 37, 88, 3, 70, 113}; };
// two links of one group meet in the same check
struct TC { static const int M = 30, N = 150, K = 90, LINKS_MIN_CN = 5, LINKS_MAX_CN = 8, LINKS_TOTAL = 419, DEG_MAX = 4; static constexpr int DEG[] = {4, 3, 0}, LEN[] = {1, 2, 0}; static constexpr int POS[] = {0, 34, 7, 51, 1, 12, 43, 3, 28, 59}; };
struct TD { static const int M = 60, N = 300, K = 120, LINKS_MIN_CN = 2, LINKS_MAX_CN = 6, LINKS_TOTAL = 839, DEG_MAX = 5; static constexpr int DEG[] = {5, 3, 0}, LEN[] = {1, 1, 0}; static constexpr int POS[] = {0, 50, 94, 133, 176, 1, 83, 122}; };
// one layer only
struct TE { static const int M = 90, N = 360, K = 270, LINKS_MIN_CN = 9, LINKS_MAX_CN = 10, LINKS_TOTAL = 899, DEG_MAX = 3; static constexpr int DEG[] = {3, 2, 0}, LEN[] = {2, 1, 0}; static constexpr int POS[] = {0, 31, 77, 5, 47, 60, 11, 88}; };
// no two links of a group meet in one row of checks
struct TF { static const int M = 30, N = 240, K = 120, LINKS_MIN_CN = 4, LINKS_MAX_CN = 6, LINKS_TOTAL = 599, DEG_MAX = 3; static constexpr int DEG[] = {3, 0}, LEN[] = {4, 0}; static constexpr int POS[] = {0, 21, 58, 45, 82, 3, 73, 14, 87, 36, 101, 66}; };
struct TG { static const int M = 60, N = 360, K = 180, LINKS_MIN_CN = 4, LINKS_MAX_CN = 7, LINKS_TOTAL = 899, DEG_MAX = 3; static constexpr int DEG[] = {3, 0}, LEN[] = {3, 0}; static constexpr int POS[] = {0, 31, 95, 61, 2, 123, 17, 108, 49}; };
// two links of one group meet in one row, other groups come after it, before it, and on both sides
struct TI { static const int M = 30, N = 240, K = 120, LINKS_MIN_CN = 4, LINKS_MAX_CN = 7, LINKS_TOTAL = 599, DEG_MAX = 3; static constexpr int DEG[] = {3, 0}, LEN[] = {4, 0}; static constexpr int POS[] = {0, 20, 57, 41, 80, 2, 73, 13, 85, 36, 99, 67}; };
struct TJ { static const int M = 30, N = 120, K = 60, LINKS_MIN_CN = 4, LINKS_MAX_CN = 5, LINKS_TOTAL = 299, DEG_MAX = 3; static constexpr int DEG[] = {3, 0}, LEN[] = {2, 0}; static constexpr int POS[] = {0, 20, 41, 12, 33, 57}; };
struct TL { static const int M = 360, N = 2880, K = 1440, LINKS_MIN_CN = 4, LINKS_MAX_CN = 7, LINKS_TOTAL = 8999, DEG_MAX = 6; static constexpr int DEG[] = {6, 4, 3, 0}, LEN[] = {1, 2, 1, 0}; static constexpr int POS[] = {0, 129, 430, 777, 1010, 1399, 1, 602, 903, 1244, 2, 355, 821, 1123, 3, 460, 1301}; };
// more than 32767 information bits
struct TH { static const int M = 360, N = 43200, K = 36000, LINKS_MIN_CN = 11, LINKS_MAX_CN = 12, LINKS_TOTAL = 86399, DEG_MAX = 2; static constexpr int DEG[] = {2, 0}, LEN[] = {100, 0}; static constexpr int POS[] = {1400, 4941, 5202, 6363, 404, 365, 4466, 4107, 5588, 549, 3770, 4791, 3732, 2533, 2114, 4835, 4716, 7017, 4178, 319, 1680, 5601, 4442, 2963, 5484, 6565, 6846, 5727, 168, 6929, 2690, 1271, 1352, 1153, 3534, 3435, 1916, 1977, 6438, 4979, 4800, 661, 102, 5763, 5324, 5325, 6866, 2887, 3368, 3049, 6010, 2171, 2072, 2893, 5294, 955, 5996, 6537, 1598, 4299, 4460, 3961, 2002, 1063, 5464, 1505, 1206, 5127, 1828, 6609, 5190, 3271, 692, 2713, 5074, 7075, 3076, 6217, 6838, 4959, 3140, 2441, 4822, 3063, 5484, 5445, 1186, 1807, 1848, 5209, 1590, 2711, 5112, 4213, 4874, 2975, 456, 1237, 6438, 5879, 920, 2761, 6202, 2683, 6944, 2985, 2506, 3087, 2428, 1329, 730, 2371, 4072, 6813, 4754, 7015, 1416, 5137, 7158, 5879, 5080, 5961, 4482, 6563, 1724, 6045, 1786, 3747, 4548, 5589, 430, 2131, 6132, 5013, 5774, 2895, 2336, 5677, 2058, 5199, 2240, 3461, 4682, 4583, 1604, 6205, 186, 5647, 188, 4969, 5750, 4971, 1112, 3853, 814, 1475, 2856, 5157, 5758, 3899, 20, 6101, 202, 4623, 4264, 365, 3726, 4547, 6048, 669, 1250, 5211, 3512, 5633, 6914, 4895, 5736, 3057, 1898, 7199, 3460, 321, 1962, 6303, 2404, 3485, 6886, 7087, 3628, 1229, 1730, 7071, 5572, 4393, 3014, 5055, 5456, 4217, 2998, 299}; };
// many links per check, one pair of them meets
struct TN { static const int M = 30, N = 750, K = 690, LINKS_MIN_CN = 24, LINKS_MAX_CN = 26, LINKS_TOTAL = 1529, DEG_MAX = 3; static constexpr int DEG[] = {2, 3, 0}, LEN[] = {22, 1, 0}; static constexpr int POS[] = {38, 17, 46, 23, 50, 45, 52, 47, 40, 59, 32, 1, 52, 29, 48, 15, 40, 3, 56, 11, 6, 23, 30, 55, 14, 25, 34, 7, 36, 15, 0, 47, 12, 27, 16, 11, 58, 55, 48, 25, 10, 49, 50, 5, 4, 40, 17}; };
