// Patterns of errors and erasures on RS(15,1), found by a search over the decoder of the base commit, that together take every branch of
// the Berlekamp-Massey iteration in many orders (length changes after zero discrepancies, ties, both with and without erasures).
// errors, erasures, then position (0 is the data symbol) and magnitude of each.
static const unsigned char bm_patterns[107][24] = {
  {4, 0, 3, 2, 13, 9, 11, 14, 2, 1},
  {1, 2, 1, 5, 7, 2, 3, 4},
  {3, 7, 3, 1, 10, 4, 2, 10, 14, 1, 6, 0, 0, 12, 7, 1, 9, 8, 12, 8, 5, 13},
  {7, 0, 3, 3, 4, 8, 1, 14, 8, 5, 2, 9, 13, 6, 12, 3},
  {4, 5, 2, 2, 1, 2, 9, 10, 14, 6, 12, 6, 7, 9, 13, 3, 3, 7, 8, 14},
  {7, 0, 6, 13, 10, 11, 9, 14, 13, 11, 5, 6, 0, 10, 3, 5},
  {6, 0, 4, 1, 0, 1, 5, 1, 6, 1, 2, 1, 13, 1},
  {2, 9, 12, 8, 0, 3, 3, 11, 10, 12, 5, 11, 14, 4, 2, 14, 11, 4, 6, 7, 4, 7, 1, 13},
  {3, 2, 8, 5, 14, 10, 3, 6, 0, 4, 4, 0},
  {2, 8, 0, 1, 7, 1, 5, 1, 4, 1, 1, 1, 2, 1, 10, 1, 9, 1, 8, 1, 6, 1},
  {6, 0, 14, 8, 0, 14, 11, 2, 8, 7, 5, 5, 3, 9},
  {7, 0, 11, 1, 4, 1, 2, 1, 1, 1, 10, 1, 3, 1, 12, 1},
  {5, 3, 9, 1, 7, 1, 3, 1, 11, 1, 0, 1, 2, 1, 12, 1, 10, 1},
  {2, 0, 13, 8, 12, 14},
  {7, 0, 2, 4, 14, 4, 8, 11, 1, 1, 12, 15, 3, 3, 6, 1},
  {2, 9, 7, 12, 12, 2, 9, 2, 5, 14, 4, 12, 8, 9, 1, 6, 3, 0, 14, 6, 2, 7, 13, 0},
  {7, 0, 2, 3, 8, 7, 13, 4, 7, 15, 3, 11, 14, 1, 1, 6},
  {6, 2, 13, 3, 7, 9, 14, 12, 6, 1, 2, 9, 3, 13, 11, 10, 0, 8},
  {7, 0, 0, 2, 6, 15, 9, 14, 12, 12, 13, 14, 3, 11, 8, 10},
  {1, 0, 8, 11},
  {4, 6, 14, 1, 7, 1, 10, 1, 2, 1, 1, 1, 0, 1, 13, 1, 5, 1, 4, 1, 12, 1},
  {0, 9, 13, 11, 3, 3, 10, 15, 4, 11, 2, 0, 1, 14, 14, 11, 12, 1, 5, 6},
  {4, 5, 7, 1, 9, 1, 1, 1, 11, 1, 12, 1, 14, 1, 6, 1, 3, 1, 10, 1},
  {2, 1, 0, 1, 12, 1, 9, 1},
  {6, 0, 4, 14, 8, 12, 2, 5, 9, 1, 0, 13, 5, 15},
  {7, 0, 8, 5, 1, 11, 9, 5, 0, 14, 6, 15, 12, 10, 2, 10},
  {7, 0, 9, 1, 10, 1, 0, 1, 7, 1, 5, 1, 8, 1, 14, 1},
  {6, 2, 10, 11, 5, 7, 12, 7, 4, 2, 8, 15, 7, 4, 1, 10, 11, 14},
  {0, 1, 8, 6},
  {7, 0, 5, 14, 12, 7, 13, 3, 10, 6, 11, 8, 8, 4, 6, 2},
  {5, 0, 5, 15, 6, 1, 8, 5, 0, 1, 11, 9},
  {7, 0, 13, 1, 10, 1, 7, 1, 11, 1, 2, 1, 0, 1, 14, 1},
  {7, 0, 8, 3, 7, 12, 13, 12, 12, 15, 0, 15, 3, 14, 2, 12},
  {3, 0, 7, 1, 9, 1, 6, 1},
  {4, 2, 2, 1, 8, 1, 6, 1, 13, 1, 3, 1, 14, 1},
  {6, 1, 6, 4, 5, 14, 0, 11, 9, 14, 13, 4, 2, 4, 4, 5},
  {4, 0, 2, 1, 13, 1, 10, 1, 11, 1},
  {3, 1, 13, 9, 14, 9, 11, 2, 4, 5},
  {6, 2, 11, 10, 13, 3, 14, 13, 2, 13, 8, 2, 12, 13, 5, 9, 0, 15},
  {6, 0, 9, 1, 7, 2, 0, 11, 3, 2, 5, 8, 14, 5},
  {6, 1, 12, 6, 9, 3, 13, 12, 1, 10, 8, 6, 6, 2, 14, 0},
  {3, 7, 2, 1, 8, 1, 10, 1, 13, 1, 11, 1, 14, 1, 4, 1, 6, 1, 1, 1, 5, 1},
  {3, 8, 2, 14, 9, 10, 8, 1, 6, 12, 11, 8, 10, 10, 1, 10, 4, 7, 7, 4, 12, 12, 5, 3},
  {3, 0, 2, 3, 7, 9, 10, 12},
  {5, 0, 4, 3, 14, 12, 13, 2, 3, 8, 1, 10},
  {2, 0, 8, 9, 9, 1},
  {7, 0, 6, 10, 4, 7, 8, 6, 13, 15, 12, 5, 7, 9, 2, 2},
  {7, 0, 12, 1, 11, 1, 6, 1, 0, 1, 2, 1, 13, 1, 3, 1},
  {6, 1, 12, 15, 11, 10, 9, 2, 8, 2, 2, 7, 13, 10, 4, 13},
  {6, 2, 14, 7, 2, 6, 4, 10, 9, 12, 13, 4, 3, 2, 0, 13, 12, 8},
  {5, 1, 0, 1, 5, 1, 7, 1, 9, 1, 10, 1, 13, 1},
  {5, 4, 6, 1, 0, 1, 12, 1, 2, 1, 10, 1, 5, 1, 8, 1, 3, 1, 14, 1},
  {1, 1, 0, 7, 12, 1},
  {6, 2, 0, 7, 3, 10, 4, 2, 6, 5, 10, 7, 5, 6, 12, 11, 2, 9},
  {5, 0, 6, 10, 10, 13, 9, 7, 14, 1, 4, 14},
  {6, 2, 2, 11, 11, 15, 8, 13, 12, 10, 14, 2, 6, 1, 0, 12, 9, 12},
  {2, 1, 1, 14, 2, 8, 4, 13},
  {4, 1, 5, 1, 6, 1, 2, 1, 9, 1, 8, 1},
  {6, 2, 9, 10, 12, 5, 13, 11, 6, 7, 4, 8, 10, 12, 2, 3, 7, 6},
  {7, 0, 5, 15, 10, 13, 12, 4, 6, 9, 0, 3, 11, 15, 8, 12},
  {5, 3, 3, 6, 5, 2, 1, 6, 4, 10, 10, 11, 12, 0, 13, 13, 11, 10},
  {3, 0, 1, 1, 6, 1, 11, 1},
  {5, 3, 8, 15, 1, 11, 10, 7, 7, 2, 3, 15, 9, 1, 14, 14, 13, 6},
  {6, 1, 1, 15, 10, 15, 12, 12, 11, 1, 8, 15, 4, 15, 14, 4},
  {6, 1, 4, 1, 6, 1, 0, 1, 9, 1, 2, 1, 10, 1, 14, 1},
  {7, 0, 4, 2, 13, 2, 9, 7, 1, 3, 6, 11, 7, 11, 12, 7},
  {7, 0, 11, 1, 10, 9, 6, 7, 2, 7, 8, 6, 0, 8, 7, 11},
  {7, 0, 12, 2, 11, 11, 0, 1, 14, 13, 4, 12, 2, 1, 1, 5},
  {6, 1, 5, 1, 3, 1, 4, 1, 12, 1, 0, 1, 1, 1, 6, 1},
  {6, 0, 14, 1, 4, 1, 0, 1, 5, 1, 11, 1, 1, 1},
  {6, 1, 14, 1, 5, 1, 4, 1, 12, 1, 10, 1, 7, 1, 2, 1},
  {3, 1, 8, 6, 2, 12, 12, 12, 3, 8},
  {6, 2, 6, 5, 7, 4, 3, 6, 12, 1, 5, 4, 2, 1, 8, 1, 4, 9},
  {6, 0, 11, 1, 3, 1, 9, 1, 12, 1, 8, 1, 13, 1},
  {5, 1, 0, 12, 5, 3, 3, 1, 8, 13, 11, 11, 4, 5},
  {6, 0, 3, 1, 12, 1, 1, 1, 10, 1, 13, 1, 9, 1},
  {7, 0, 10, 11, 2, 14, 1, 3, 11, 13, 3, 13, 6, 1, 0, 4},
  {7, 0, 6, 1, 14, 1, 10, 1, 12, 1, 13, 1, 9, 1, 4, 1},
  {6, 1, 1, 1, 7, 1, 6, 1, 0, 1, 4, 1, 14, 1, 10, 1},
  {6, 2, 2, 1, 7, 1, 4, 1, 12, 1, 8, 1, 11, 1, 3, 1, 10, 1},
  {7, 0, 1, 2, 13, 8, 4, 8, 0, 5, 11, 2, 8, 5, 6, 15},
  {7, 0, 4, 14, 3, 14, 13, 3, 12, 8, 14, 14, 0, 15, 8, 14},
  {5, 0, 1, 1, 2, 1, 5, 1, 3, 1, 9, 1},
  {5, 1, 11, 15, 2, 2, 1, 4, 12, 5, 14, 13, 9, 13},
  {7, 0, 14, 6, 6, 11, 1, 10, 2, 15, 4, 3, 5, 3, 10, 3},
  {6, 1, 7, 9, 12, 13, 9, 5, 10, 13, 4, 15, 14, 5, 13, 10},
  {7, 0, 11, 3, 14, 10, 9, 5, 2, 11, 12, 10, 4, 3, 0, 9},
  {7, 0, 12, 12, 9, 8, 11, 10, 2, 3, 3, 13, 1, 5, 5, 2},
  {4, 0, 7, 2, 9, 11, 13, 3, 6, 13},
  {5, 1, 11, 1, 8, 1, 10, 1, 7, 1, 12, 1, 2, 1},
  {6, 2, 3, 12, 11, 7, 6, 13, 12, 13, 4, 7, 1, 9, 8, 13, 2, 0},
  {6, 1, 0, 2, 12, 14, 5, 6, 11, 5, 14, 7, 10, 8, 6, 13},
  {4, 1, 4, 1, 0, 1, 2, 1, 8, 1, 1, 1},
  {6, 1, 13, 1, 1, 1, 12, 1, 9, 1, 7, 1, 2, 1, 0, 1},
  {3, 1, 12, 15, 10, 15, 8, 9, 3, 8},
  {7, 0, 3, 14, 2, 2, 4, 13, 11, 4, 0, 2, 14, 8, 1, 5},
  {6, 1, 11, 1, 1, 1, 12, 1, 8, 1, 0, 1, 6, 1, 14, 1},
  {6, 2, 12, 1, 10, 8, 4, 3, 3, 12, 8, 11, 13, 6, 5, 10, 11, 11},
  {7, 0, 5, 5, 7, 8, 9, 1, 10, 2, 1, 7, 6, 7, 2, 9},
  {7, 0, 4, 10, 13, 8, 9, 15, 3, 3, 7, 9, 14, 3, 6, 2},
  {6, 0, 11, 3, 5, 8, 6, 13, 3, 10, 4, 7, 2, 12},
  {6, 2, 9, 3, 10, 4, 8, 7, 0, 2, 4, 13, 11, 1, 2, 14, 7, 1},
  {7, 0, 14, 11, 3, 6, 8, 15, 11, 5, 6, 1, 5, 2, 13, 15},
  {6, 1, 6, 14, 9, 4, 8, 11, 13, 3, 3, 11, 14, 12, 0, 9},
  {7, 0, 4, 10, 10, 10, 1, 6, 9, 6, 0, 4, 5, 6, 13, 7},
  {5, 1, 4, 9, 8, 15, 9, 5, 12, 3, 2, 3, 0, 5},
  {7, 0, 2, 1, 3, 4, 10, 9, 11, 11, 9, 15, 5, 15, 1, 7},
};
