From 401c070585ec12bf0e9b04158de29448c9367d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 01/14] fix: Reed-Solomon decoder gave up on some correctable
 pairs of errors

---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..1bb1d47 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From 9bc3ba72e737e4f548fc0c8b78e66723b4a63470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 02/14] fix: Reed-Solomon decoder reported success for words it
 could not correct

---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 1bb1d47..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -205,9 +205,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From 1640f6d5bc44f64cac5bd1ba361655cf58fe7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 03/14] fix: short BCH soft decoder did not pick the least
 reliable bits when bit 0 was among them

---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..e6db72b 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < L && j < k && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From f42ee66c3fb1253aa113fd4f61c85793761ff32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 04/14] fix: short BCH soft decoder ignored codewords less
 likely than the zero codeword

---
 short_bch_code_decoder.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index e6db72b..96c4827 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -30,7 +30,7 @@ class ShortBCHCodeDecoder
 	static int metric(const int8_t *soft, int hard)
 	{
 		if (hard < 0)
-			return -1;
+			return -129 * N;
 		int lol = 8 * sizeof(hard) - 1;
 		int sum = 0;
 		for (int i = 0; i < N; ++i)
@@ -71,7 +71,7 @@ public:
 			return word;
 		// metric of hard decision
 		int best = metric(code, word);
-		int next = -2;
+		int next = metric(code, -1);
 		auto update = [code, &word, &best, &next](int hard) {
 			if (hard == word)
 				return;
-- 
2.43.0


From e641eefe4094c61ff4ddd62c690a8ab0df0f53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 05/14] fix: ordered statistics list decoder returned unset
 entries for unlikely codewords

---
 osd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..0dcd680 100644
--- a/osd.hh
+++ b/osd.hh
@@ -352,7 +352,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = -128 * N;
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From 14aa837f36eeb8f00255d84e360e1c7afc3c76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 06/14] fix: ordered statistics decoder reported a lone
 codeword of metric -1 as ambiguous

---
 osd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index 0dcd680..81d8b32 100644
--- a/osd.hh
+++ b/osd.hh
@@ -191,7 +191,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = -128 * N;
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
-- 
2.43.0


From a24a1f6e86747b3331e839948da683eac9538182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 07/14] fix: LDPC decoder must not rotate a foreign link into
 the write disable mask

When the last link of a check belongs to another block than the links
before it, the mask covered this link too. After the first iteration
both links to the same block were written, losing one update, and the
last link was not written at all.
---
 ldpc_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 010ae96..4573b5c 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -192,7 +192,7 @@ class LDPCDecoder
 					for (int first = 0, c = 1; c < cnt; ++c) {
 						if (lo[first].off != lo[c].off || c == cnt-1) {
 							int last = c - 1;
-							if (c == cnt-1)
+							if (lo[first].off == lo[c].off)
 								++last;
 							if (last != first) {
 								int count = last - first + 1;
-- 
2.43.0


From c46b00dce7275b4bfceb451c7ee48ff18e6e8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 08/14] fix: LDPC decoder must not carry the write disable mask
 over to the next word

The mask rotates with every iteration and was only set up by the
constructor, so the result depended on the words decoded before.
---
 ldpc_decoder.hh | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 4573b5c..26ef1c5 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -109,6 +109,22 @@ class LDPCDecoder
 		}
 		return false;
 	}
+	void reset()
+	{
+		for (int i = 0; i < BNL; ++i)
+			bnl[i] = vzero<TYPE>();
+		Loc *lo = loc;
+		for (int i = 0; i < q; ++i) {
+			int cnt = cnc[i];
+			for (int j = 0; j < W; ++j) {
+				wd[W*i+j] = 0;
+				for (int c = 0; c < cnt-1; ++c)
+					if (lo[c].off == lo[c+1].off)
+						wd[W*i+j] |= 1 << c;
+				lo += cnt;
+			}
+		}
+	}
 	void update()
 	{
 		TYPE *bl = bnl;
@@ -248,10 +264,6 @@ public:
 					shift[c] = (shift[c] + 1) % M;
 				}
 				std::sort(lo, lo + cnt, [](const Loc &a, const Loc &b){ return a.off < b.off; });
-				wd[W*i+j] = 0;
-				for (int c = 0; c < cnt-1; ++c)
-					if (lo[c].off == lo[c+1].off)
-						wd[W*i+j] |= 1 << c;
 				lo += cnt;
 			}
 		}
@@ -260,8 +272,7 @@ public:
 	}
 	int operator()(int8_t *message, int8_t *parity, int trials = 25)
 	{
-		for (int i = 0; i < BNL; ++i)
-			bnl[i] = vzero<TYPE>();
+		reset();
 		for (int i = 0; i < K/M; ++i)
 			for (int j = 0; j < W; ++j)
 				for (int n = 0; n < D; ++n)
-- 
2.43.0


From cd043ee8ee1c21a461fe5b64a3717f4dfca55e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 09/14] fix: vclamp of int64_t vectors must not need AVX-512

_mm256_min_epi64() and _mm256_max_epi64() are AVX-512VL instructions, so
any use of vclamp() on SIMD<int64_t, 4> or SIMD<int64_t, 8> failed to
compile when only AVX2 is enabled.
---
 avx2.hh        | 4 +++-
 avx2_double.hh | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/avx2.hh b/avx2.hh
index b275cee..e575cd3 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1150,7 +1150,9 @@ template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 4> tmp;
-	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i c = _mm256_set1_epi64x(a), d = _mm256_set1_epi64x(b);
+	c = _mm256_blendv_epi8(x.m, c, _mm256_cmpgt_epi64(c, x.m));
+	tmp.m = _mm256_blendv_epi8(c, d, _mm256_cmpgt_epi64(c, d));
 	return tmp;
 }
 
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..524e744 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1276,8 +1276,11 @@ template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 8> tmp;
-	for (int i = 0; i < 2; ++i)
-		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	for (int i = 0; i < 2; ++i) {
+		__m256i c = _mm256_set1_epi64x(a), d = _mm256_set1_epi64x(b);
+		c = _mm256_blendv_epi8(x.m[i], c, _mm256_cmpgt_epi64(c, x.m[i]));
+		tmp.m[i] = _mm256_blendv_epi8(c, d, _mm256_cmpgt_epi64(c, d));
+	}
 	return tmp;
 }
 
-- 
2.43.0


From 12b62953ca5d1a9e76fdbee366c72b814c017c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 10/14] fix: functions defined in headers must be inline to be
 usable in several translation units

---
 bitman.hh | 12 ++++++------
 crc.hh    |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitman.hh b/bitman.hh
index 6d05ced..c09ec2c 100644
--- a/bitman.hh
+++ b/bitman.hh
@@ -8,32 +8,32 @@ Copyright 2018 Ahmet Inan <inan@aicodix.de>
 
 namespace CODE {
 
-void xor_be_bit(uint8_t *buf, int pos, bool val)
+inline void xor_be_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] ^= val<<(7-pos%8);
 }
 
-void xor_le_bit(uint8_t *buf, int pos, bool val)
+inline void xor_le_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] ^= val<<(pos%8);
 }
 
-void set_be_bit(uint8_t *buf, int pos, bool val)
+inline void set_be_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] = (~(1<<(7-pos%8))&buf[pos/8])|(val<<(7-pos%8));
 }
 
-void set_le_bit(uint8_t *buf, int pos, bool val)
+inline void set_le_bit(uint8_t *buf, int pos, bool val)
 {
 	buf[pos/8] = (~(1<<(pos%8))&buf[pos/8])|(val<<(pos%8));
 }
 
-bool get_be_bit(const uint8_t *buf, int pos)
+inline bool get_be_bit(const uint8_t *buf, int pos)
 {
 	return (buf[pos/8]>>(7-pos%8))&1;
 }
 
-bool get_le_bit(const uint8_t *buf, int pos)
+inline bool get_le_bit(const uint8_t *buf, int pos)
 {
 	return (buf[pos/8]>>(pos%8))&1;
 }
diff --git a/crc.hh b/crc.hh
index 75774ce..9771742 100644
--- a/crc.hh
+++ b/crc.hh
@@ -76,7 +76,7 @@ public:
 };
 
 template<>
-uint8_t CRC<uint8_t>::operator()(uint8_t data)
+inline uint8_t CRC<uint8_t>::operator()(uint8_t data)
 {
 	return crc = lut[crc ^ data];
 }
-- 
2.43.0


From 2d2fc15910eabb05df025b594ad7591981f377dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:13 +0000
Subject: [PATCH 11/14] fix: polar list decoders take a million for infinity

Soft values are not limited in the formats wider than eight bits, and path
metrics of good words exceed the constant: forbidden forks of the parity
aided decoder then win against the allowed ones and copies of the first path
displace real alternatives. Use the limits of the metric type instead.
---
 polar_list_decoder.hh | 3 ++-
 polar_parity_aided.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index 07a1cb1..d78b93b 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -289,7 +290,7 @@ public:
 		int count = 0;
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f1230b0..77be9a3 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -6,6 +6,7 @@ Copyright 2023 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -114,9 +115,9 @@ struct PolarParityNode<TYPE, 0>
 			*parity = PH::one();
 			for (int k = 0; k < TYPE::SIZE; ++k)
 				if (chk.v[k] < 0)
-					fork[2*k] = 1000000;
+					fork[2*k] = std::numeric_limits<PATH>::max();
 				else
-					fork[2*k+1] = 1000000;
+					fork[2*k+1] = std::numeric_limits<PATH>::max();
 		}
 		int perm[2*TYPE::SIZE];
 		CODE::insertion_sort(perm, fork, 2*TYPE::SIZE);
@@ -354,7 +355,7 @@ public:
 		PATH metric[TYPE::SIZE];
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
-- 
2.43.0


From 3bf3196d6694420a14526bdfcaac631d8ceb4329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 12/14] fix: parity aided polar decoder writes in front of the
 message

When the first unfrozen bit is a parity bit there is no message bit yet whose
lanes could follow the selection, and element -1 was shuffled instead.
---
 polar_parity_aided.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index 77be9a3..b009774 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -136,8 +136,10 @@ struct PolarParityNode<TYPE, 0>
 			++*index;
 			--*count;
 		} else {
-			message[*index-1] = vshuf(message[*index-1], map);
-			maps[*index-1] = vshuf(maps[*index-1], map);
+			if (*index) {
+				message[*index-1] = vshuf(message[*index-1], map);
+				maps[*index-1] = vshuf(maps[*index-1], map);
+			}
 			*count = stride;
 		}
 		*hard = hrd;
-- 
2.43.0


From f160e27255bb7598aa6ab2efc001f71fb947fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 13/14] fix: polar list decoders read element -1 without
 message bits

When every bit is frozen or a parity bit no lane selection has been stored.
---
 polar_list_decoder.hh | 2 ++
 polar_parity_aided.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index d78b93b..2737c55 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -316,6 +316,8 @@ public:
 				++r;
 			rank[i] = r;
 		}
+		if (count < 1)
+			return;
 		MAP acc = maps[count-1];
 		for (int i = count-2; i >= 0; --i) {
 			message[i] = vshuf(message[i], acc);
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index b009774..ff3b59a 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -385,6 +385,8 @@ public:
 				++r;
 			rank[i] = r;
 		}
+		if (index < 1)
+			return;
 		MAP acc = maps[index-1];
 		for (int i = index-2; i >= 0; --i) {
 			message[i] = vshuf(message[i], acc);
-- 
2.43.0


From 908ed52e4c23c75d6f281f8417707474e400292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:59 +0000
Subject: [PATCH 14/14] fix: polar list decoders: order the paths after
 trailing frozen bits

The list was sorted at the last message bit only: frozen bits behind it
add to the metrics, so the first path was not always the best one and
ranks were computed from unordered metrics.
---
 polar_list_decoder.hh | 11 +++++++----
 polar_parity_aided.hh | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index 2737c55..d7a74b4 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -311,15 +311,18 @@ public:
 		default: assert(false);
 		}
 
+		// frozen bits after the last message bit may have changed the order of the paths
+		int perm[TYPE::SIZE];
+		CODE::insertion_sort(perm, metric, TYPE::SIZE);
 		for (int i = 0, r = 0; rank != nullptr && i < TYPE::SIZE; ++i) {
 			if (i > 0 && metric[i-1] != metric[i])
 				++r;
 			rank[i] = r;
 		}
-		if (count < 1)
-			return;
-		MAP acc = maps[count-1];
-		for (int i = count-2; i >= 0; --i) {
+		MAP acc;
+		for (int k = 0; k < TYPE::SIZE; ++k)
+			acc.v[k] = perm[k];
+		for (int i = count-1; i >= 0; --i) {
 			message[i] = vshuf(message[i], acc);
 			acc = vshuf(maps[i], acc);
 		}
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index ff3b59a..affc845 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -380,15 +380,18 @@ public:
 		default: assert(false);
 		}
 
+		// frozen bits after the last message bit may have changed the order of the paths
+		int perm[TYPE::SIZE];
+		CODE::insertion_sort(perm, metric, TYPE::SIZE);
 		for (int i = 0, r = 0; rank != nullptr && i < TYPE::SIZE; ++i) {
 			if (i > 0 && metric[i-1] != metric[i])
 				++r;
 			rank[i] = r;
 		}
-		if (index < 1)
-			return;
-		MAP acc = maps[index-1];
-		for (int i = index-2; i >= 0; --i) {
+		MAP acc;
+		for (int k = 0; k < TYPE::SIZE; ++k)
+			acc.v[k] = perm[k];
+		for (int i = index-1; i >= 0; --i) {
 			message[i] = vshuf(message[i], acc);
 			acc = vshuf(maps[i], acc);
 		}
-- 
2.43.0

