From cd96114d0869284043b8fa0ae9e42848f50d0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 01/48] fix: handle a curve with a trivial group

Its list of generators is empty: allocating zero bytes for it ended ecgen with
"Couldn't alloc", random points read generators[0] and str_join underflowed.
---
 src/gen/gens.c  | 3 ++-
 src/gen/point.c | 5 +++++
 src/util/str.c  | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..9c643c1 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -20,8 +20,9 @@ static subgroup_t *gens_point(GEN point, const curve_t *curve) {
 }
 
 static int gens_put(curve_t *curve, GEN generators, long len) {
-	curve->generators = subgroups_new((size_t)len);
 	curve->ngens = (size_t)len;
+	// The trivial group has no generators.
+	curve->generators = len ? subgroups_new((size_t)len) : NULL;
 
 	for (long i = 1; i <= len; ++i) {
 		curve->generators[i - 1] = gens_point(gel(generators, i), curve);
diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..b996cb3 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -9,6 +9,9 @@
 #include "util/random.h"
 
 GENERATOR(point_gen_random) {
+	// Nothing to choose from in a trivial group.
+	if (!curve->ngens) return 1;
+
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
@@ -27,6 +30,8 @@ GENERATOR(points_gen_random) {
 	HAS_ARG(args);
 
 	size_t npoints = *(size_t *)args->args;
+	// Nothing to choose from in a trivial group.
+	if (!curve->ngens) return 1;
 	size_t npoints_per_gen[curve->ngens];
 
 	for (size_t i = 0; i < curve->ngens; ++i) {
diff --git a/src/util/str.c b/src/util/str.c
index ff075f2..6dd2479 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -28,7 +28,7 @@ char *str_join(char *separator, char **strings, size_t len) {
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) total += strlen(strings[i]);
 	}
-	if (separator) total += (len - 1) * strlen(separator);
+	if (separator && len) total += (len - 1) * strlen(separator);
 	char *result = try_calloc(total);
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) {
-- 
2.43.0


From 75118c716fb7d8559552fe908dcfa4405320b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 02/48] fix: --points=random must not choose the point at
 infinity

It has no coordinates: printing it read past the end of the point.
---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index b996cb3..1a4c48b 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -15,7 +15,7 @@ GENERATOR(point_gen_random) {
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
+	GEN mul = random_range(gen_1, subgroup->generator->order);
 	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
 	point->point = p;
-- 
2.43.0


From 4c3c4f3f1ed5ef32fdb23c6b5feda67f1da646d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 03/48] fix: embedding degree of an order divisible by p

znorder needs coprime elements, so metadata of a curve over F_3 or F_5 whose order
is a proper multiple of p ended ecgen with a PARI error.
---
 src/gen/gens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index 9c643c1..2fadb6a 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -105,7 +105,7 @@ CHECK(gens_check_anomalous) {
 }
 
 GEN gens_get_embedding(GEN prime, GEN generator_order) {
-	if (gequal(prime, generator_order)) {
+	if (!equali1(gcdii(prime, generator_order))) {
 		return stoi(0);
 	}
 	return znorder(mkintmod(prime, generator_order), NULL);
-- 
2.43.0


From 31633bfc29fe315f75aac3428db87b7fe5cc3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 04/48] fix: --koblitz took orders from the binary table for
 prime fields and twists

order_gen_koblitz looked the bit size up in the table of binary Koblitz curves even
with --fp, and with --twist it applied itou to a field element.
---
 src/gen/order.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..06d78de 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,7 +104,12 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	GEN order = NULL;
+	// The table holds binary Koblitz curves only. With --twist the curve is no
+	// longer the one that was asked for.
+	if (typ(curve->field) == t_FFELT && koblitz_is_curve(curve)) {
+		order = koblitz_get_order(cfg->bits, itou(field_elementi(curve->a)));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From a7408e6bb6610a259424a6c77b5685d90557e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 05/48] fix: --twist used the order of a previously rejected
 curve

After backtracking curve->order is still set, twist_rand then derived the order of
the new twist from the order of an unrelated curve.
---
 src/gen/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/curve.c b/src/gen/curve.c
index 7ea2fb5..31f26c4 100644
--- a/src/gen/curve.c
+++ b/src/gen/curve.c
@@ -39,6 +39,8 @@ GENERATOR(curve_gen_any_twist) {
 	if (result != 1) {
 		return result;
 	} else {
+		// An order left over from a rejected curve is not the order of this one.
+		curve->order = NULL;
 		twist_rand(curve);
 		return 1;
 	}
-- 
2.43.0


From cfd6fa6f36206844681ddf3631a02ccec17877d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 06/48] fix: --cofactor generator of curves with two generators

Multiplying by the cofactor gives a point of the wrong order, even the point at
infinity, when the generator does not have the order of the whole curve.
---
 src/gen/gens.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index 2fadb6a..0ce773d 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -68,11 +68,11 @@ GENERATOR(gens_gen_cofactor) {
 			break;
 		}
 
-		if (dvdiu(gen_order, cofactor)) {
-			GEN res = diviuexact(gen_order, cofactor);
+		if (dvdii(gen_order, order)) {
+			GEN mul = diviiexact(gen_order, order);
 			p = point_new();
-			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
-			p->order = res;
+			p->point = gcopy(ellmul(curve->curve, gen, mul));
+			p->order = gcopy(order);
 			p->cofactor = utoi(cofactor);
 			break;
 		}
-- 
2.43.0


From 1640afb099a658f74f8f009e7af2fe858b436276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 07/48] fix: invalid curves lacked points of all but the first
 prime

vec_append returns the longer vector, it was discarded.
---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 1a4c48b..577dcc5 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -123,7 +123,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From 487d3bdf069da79aa225355c76469ae9866ab092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 08/48] fix: bits_shiftrz by a negative amount for lengths that
 are no power of two

---
 src/util/bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..3f76f60 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -406,8 +406,8 @@ void bits_shiftrz(bits_t *bits, long amount) {
 		} else if (amount > 0) {
 			new_pos = (i + amount) % bits->bitlen;
 		} else if (amount < 0) {
-			long mod_amount = amount % bits->bitlen;
-			new_pos = (i + mod_amount) % bits->bitlen;
+			long mod_amount = amount % (long)bits->bitlen;
+			new_pos = (i + bits->bitlen + mod_amount) % bits->bitlen;
 		}
 		new_bit = (unsigned char)GET_BIT(original_bits, new_pos);
 		bits->bits[i / 8] |= new_bit << (7 - (i % 8));
-- 
2.43.0


From 52f14e209d1eb3dad9fde2c9f057cdd4a1c149a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 09/48] fix: last byte of random bit strings of whole bytes was
 always zero

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 3f76f60..e4be79b 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -20,7 +20,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	bits_t *result = bits_new(bit_len);
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
-			size_t last_bits = bit_len % 8;
+			size_t last_bits = bit_len % 8 == 0 ? 8 : bit_len % 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From f4d0a3a32206036ab14f95380ae088717d65b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:16 +0000
Subject: [PATCH 10/48] fix: no binary field of degree 1060 in the polynomial
 table

---
 src/math/poly.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/poly.c b/src/math/poly.c
index 0a042c4..692c974 100644
--- a/src/math/poly.c
+++ b/src/math/poly.c
@@ -963,7 +963,8 @@ static polynomial_t ansi_trinomials[] = {
     {1028, 119}, {1029, 98},  {1030, 93},  {1031, 68},  {1033, 108},
     {1034, 75},  {1036, 411}, {1039, 21},  {1041, 412}, {1042, 439},
     {1044, 41},  {1047, 10},  {1049, 141}, {1050, 159}, {1052, 291},
-    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1062, 49},
+    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1060, 439},
+    {1062, 49},
     {1063, 168}, {1065, 463}, {1071, 7},   {1078, 361}, {1079, 230},
     {1081, 24},  {1082, 407}, {1084, 189}, {1085, 62},  {1086, 189},
     {1087, 112}, {1089, 91},  {1090, 79},  {1092, 23},  {1094, 57},
-- 
2.43.0


From c507abd8d9f39e0edb519a5d3aa65b607dffca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 11/48] fix: threaded --invalid printed curves without
 separators

---
 src/invalid/invalid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3679c6b..de40456 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -271,6 +271,7 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		threads[i].setup = setup;
 	}
 
+	size_t printed = 0;
 	pthread_mutex_lock(&state_mutex);
 	for (size_t i = 0; i < cfg->threads; ++i) {
 		pthread_create(&pthreads[i], NULL, &invalid_thread,
@@ -281,10 +282,10 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		pthread_cond_wait(&generated_cond, &state_mutex);
 		for (size_t i = 0; i < nprimes; ++i) {
 			if (old_states[i] != states[i] && states[i] == STATE_GENERATED) {
-				output_o(local_curves[i]);
-				if (*generated != nprimes) {
+				if (printed++) {
 					output_o_separator();
 				}
+				output_o(local_curves[i]);
 				old_states[i] = states[i];
 			}
 		}
-- 
2.43.0


From 5c99b7eb945b37540624b00cbcb499f62c24c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 12/48] fix: --invalid without any prime in the range printed
 malformed JSON

---
 src/invalid/invalid.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index de40456..ba51ca2 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -108,10 +108,8 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 		}
 	}
 	/* realloc to smaller size, to tightly fit all generated primes */
-	pari_ulong *new_primes =
-	    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
-	if (new_primes) {
-		*primes = new_primes;
+	if (nprimes) {
+		*primes = try_realloc(*primes, nprimes * sizeof(pari_ulong));
 	}
 	avma = ltop;
 
@@ -362,7 +360,6 @@ int invalid_do() {
 
 	output_o_begin();
 	output_o(curve);
-	output_o_separator();
 
 	debug_log_start("Starting to generate primes to product over order^2");
 	pari_ulong *primes;
@@ -370,9 +367,11 @@ int invalid_do() {
 	debug_log_end("Generated primes");
 
 	if (!nprimes) {
+		output_o_end();
 		fprintf(err, "No orders to generate curves for, quitting.");
 		return EXIT_FAILURE;
 	}
+	output_o_separator();
 
 	curve_t **curves = try_calloc(nprimes * sizeof(curve_t *));
 	debug_log_start("Starting to generate invalid curves");
-- 
2.43.0


From dc8d2c0d77912581c1ef8c00bd596440f099ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 13/48] fix: --invalid range starting at 0 was treated as empty

---
 src/invalid/invalid.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index ba51ca2..680aee1 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -79,7 +79,10 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 
 	if (cfg->invalid_primes) {
 		char *end = NULL;
-		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10) - 1;
+		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10);
+		if (last) {
+			last--;
+		}
 		if (end && *end) {
 			end++;
 			upper = (pari_ulong)strtol(end, NULL, 10);
-- 
2.43.0


From 31f39ae2c1860f05ecabbb34cb35c6eb4ef50b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 14/48] fix: --ansi printed prime field coefficients that were
 not reduced

---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..8e56b3b 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -127,7 +127,7 @@ static GENERATOR(ansi_gen_equation_fp) {
 	GEN a;
 	GEN b2;
 	do {
-		a = random_int(cfg->bits);
+		a = genrand(curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
-- 
2.43.0


From 5f567692e76673e61b9f98bd48210cd5f72bbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 15/48] fix: --ansi with a SEED giving only singular curves
 crashed or looped

---
 src/exhaustive/ansi.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 8e56b3b..f8c0987 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -105,6 +105,15 @@ static bits_t *seed_process(seed_t *seed, const bits_t *first) {
 	return result;
 }
 
+/* A SEED that only gives singular curves can not be used, get another one. */
+static int ansi_bad_seed(GEN r) {
+	if (cfg->seed && gequal0(r)) {
+		fprintf(err, "SEED gives only singular curves.\n");
+		return INT_MIN;
+	}
+	return OFFSET_SEED - OFFSET_B;
+}
+
 static GENERATOR(ansi_gen_equation_fp) {
 	pari_sp ltop = avma;
 	bits_t *c0 = bits_from_raw(curve->seed->hash20, 160);
@@ -121,9 +130,18 @@ static GENERATOR(ansi_gen_equation_fp) {
 		GEN Wi = stoi(GET_BIT(W->bits, i - 1));
 		r = addii(r, mulii(Wi, int2n(ti - i)));
 	}
+	bits_free(&c0);
+	bits_free(&W0);
+	bits_free(&W);
+	if (dvdii(r, curve->field) ||
+	    dvdii(addis(mulis(r, 4), 27), curve->field)) {
+		int result = ansi_bad_seed(r);
+		avma = ltop;
+		return result;
+	}
 	curve->seed->ansi.r = r;
 
-	GEN r_inv = Fp_invsafe(r, curve->field);
+	GEN r_inv = Fp_inv(r, curve->field);
 	GEN a;
 	GEN b2;
 	do {
@@ -136,9 +154,6 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->b = b;
 
 	gerepileall(ltop, 3, &curve->seed->ansi.r, &curve->a, &curve->b);
-	bits_free(&c0);
-	bits_free(&W0);
-	bits_free(&W);
 	return 1;
 }
 
@@ -149,17 +164,18 @@ static GENERATOR(ansi_gen_equation_f2m) {
 
 	bits_t *b = seed_process(curve->seed, b0);
 	GEN ib = bits_to_i(b);
+	bits_free(&b0);
+	bits_free(&b);
 	if (gequal0(ib)) {
+		int result = ansi_bad_seed(ib);
 		avma = ltop;
-		return -3;
+		return result;
 	}
 	GEN a = random_int(cfg->bits);
 	curve->a = field_ielement(curve->field, a);
 	curve->b = field_ielement(curve->field, ib);
 
 	gerepileall(ltop, 2, &curve->a, &curve->b);
-	bits_free(&b0);
-	bits_free(&b);
 	return 1;
 }
 
-- 
2.43.0


From 5195134ee9cdcc3a7957ffe663bc8b59c84bdf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 16/48] fix: a random --ansi seed could have 161 bits

---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index f8c0987..4114ad4 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -38,7 +38,7 @@ static void seed_tsh(seed_t *seed) {
 
 GENERATOR(ansi_gen_seed_random) {
 	seed_t *seed = ansi_new();
-	seed->seed = bits_from_i(random_int(160));
+	seed->seed = bits_new_rand(160);
 	seed_hash(seed);
 	seed_tsh(seed);
 	curve->seed = seed;
-- 
2.43.0


From 1fd312ca33ec859ed37cd2bd5ca2e93ee115aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 17/48] fix: --ansi drew a = 0, a singular curve, and asked for
 another field

---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 4114ad4..cc1af2e 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -147,7 +147,7 @@ static GENERATOR(ansi_gen_equation_fp) {
 	do {
 		a = genrand(curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
-	} while (!Fp_issquare(b2, curve->field));
+	} while (gequal0(a) || !Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
 
 	curve->a = a;
-- 
2.43.0


From 8b77eda33d49005fd683492fc77f690525100f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 18/48] fix: --ansi printed binary field coefficients that were
 not reduced

---
 src/exhaustive/ansi.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index cc1af2e..02a11c9 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -171,8 +171,7 @@ static GENERATOR(ansi_gen_equation_f2m) {
 		avma = ltop;
 		return result;
 	}
-	GEN a = random_int(cfg->bits);
-	curve->a = field_ielement(curve->field, a);
+	curve->a = genrand(curve->field);
 	curve->b = field_ielement(curve->field, ib);
 
 	gerepileall(ltop, 2, &curve->a, &curve->b);
-- 
2.43.0


From 9a3030ffa40b86823109db46593d2d84ca4d02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:27 +0000
Subject: [PATCH 19/48] fix: the last character of input without a final
 delimiter was lost

---
 src/io/input.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..f2c9503 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -82,12 +82,10 @@ GEN input_string(const char *prompt) {
 	if (len <= 0) {
 		return strtoGENstr("");
 	}
-	if (len == 1) {
-		free(line);
-		return strtoGENstr("");
+	// the last string of the input does not have to end with a delimiter
+	if (line[len - 1] == delim || line[len - 1] == '\n') {
+		line[len - 1] = 0;
 	}
-
-	line[len - 1] = 0;
 	GEN result = strtoGENstr(line);
 	free(line);
 	return result;
-- 
2.43.0


From 69131e04e1fc137816b5ea112f5870db5c333552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 20/48] fix: waiting for a seed at the end of the input looped
 for ever

---
 src/exhaustive/ansi.c      | 2 +-
 src/exhaustive/brainpool.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 02a11c9..3633af4 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -62,7 +62,7 @@ GENERATOR(ansi_gen_seed_input) {
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return 0;
+		return feof(in) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = ansi_new();
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 56c095d..3e76090 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -88,7 +88,7 @@ GENERATOR(brainpool_gen_seed_input) {
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return 0;
+		return feof(in) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = brainpool_new();
-- 
2.43.0


From 27bb386d58fab3be3bf82210e2306bf2810f4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 21/48] fix: waiting for a binary field at the end of the input
 looped for ever

---
 src/gen/field.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..7bdfe28 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,22 +50,38 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (m == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
+			if (e1 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
+			if (e2 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
+			if (e3 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
-- 
2.43.0


From 4dcddc43dfca24155800c5fe3a7d43273f17c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 22/48] fix: end of the input before the field of --invalid
 looped for ever

---
 src/gen/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/field.c b/src/gen/field.c
index 7bdfe28..ac7ac98 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -130,7 +130,7 @@ GENERATOR(field_gen_once) {
 		curve_field = curve;
 		return 1;
 	} else {
-		return 0;
+		return inp;
 	}
 }
 
-- 
2.43.0


From d84ef79c991e205124e70a2708ec5de31482eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 23/48] fix: invalid or missing z for --family was used as -1
 or -2

---
 src/exhaustive/family.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 08505b6..129eb70 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -86,6 +86,11 @@ GENERATOR(family_gen_seed_random) {
 
 GENERATOR(family_gen_seed_input) {
 	GEN inp = input_int("z:", cfg->bits);
+	if (inp == gen_m1) {
+		return 0;
+	} else if (inp == gen_m2) {
+		return INT_MIN;
+	}
 	curve->seed = family_new_seed();
 	curve->seed->family.z = inp;
 	curve->seed->seed = bits_from_i(curve->seed->family.z);
-- 
2.43.0


From ce6e5700c0d80706243f5c141fc9ba7875ae3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 24/48] fix: input numbers of one bit too many were accepted

---
 src/io/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.c b/src/io/input.c
index f2c9503..b802d01 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -43,7 +43,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 	// check bitsize here
 	GEN size = int2n(bits);
-	if (cmpii(in, size) <= 0) {
+	if (abscmpii(in, size) < 0) {
 		return gerepileupto(ltop, in);
 	} else {
 		fprintf(err, "Number too big(> %ld bits).\n", bits);
-- 
2.43.0


From 007a983e67140844fedda0851f63466b970eeccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:44 +0000
Subject: [PATCH 25/48] fix: --ansi seeds with an odd number of digits were
 printed with one more

---
 src/io/output.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/output.c b/src/io/output.c
index c4704c1..c5bbb59 100644
--- a/src/io/output.c
+++ b/src/io/output.c
@@ -91,7 +91,10 @@ static JSON_Value *output_jjson(curve_t *curve) {
 			hex[0] = '0';
 			hex[1] = 'x';
 		}
-		strcat(hex, hex_str);
+		// all digits of a seed matter, but no others
+		bool half = curve->seed->type == SEED_ANSI &&
+		            curve->seed->seed->bitlen % 8 == 4;
+		strcat(hex, hex_str + half);
 		if (curve->seed->seed->sign) {
 			hex[2] = 'x';
 		}
-- 
2.43.0


From a027fc8ebebd5229a378767b78692d2ad7ea1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 26/48] fix: input coefficients -1 and -2 were taken for errors

---
 src/gen/equation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen/equation.c b/src/gen/equation.c
index 619378f..adaabb5 100644
--- a/src/gen/equation.c
+++ b/src/gen/equation.c
@@ -14,10 +14,10 @@ GENERATOR(a_gen_random) {
 GENERATOR(a_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("a:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
@@ -68,10 +68,10 @@ GENERATOR(b_gen_random) {
 GENERATOR(b_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("b:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
-- 
2.43.0


From f0358429556eeb4a6deea12f5ca171d9f0d494b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 27/48] fix: --brainpool chose the point at infinity when k is
 a multiple of the order

---
 src/exhaustive/brainpool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 3e76090..a6e5007 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -239,13 +239,20 @@ GENERATOR(brainpool_gen_gens) {
 		return INT_MIN;
 	}
 
+	GEN point = ellmul(curve->curve, P, k);
+	if (ell_is_inf(point)) {
+		// k is a multiple of the order, this seed gives no generator.
+		avma = ltop;
+		return -5;
+	}
+
 	curve->generators = subgroups_new(1);
 	curve->ngens = 1;
 	subgroup_t *sub = subgroup_new();
 	curve->generators[0] = sub;
 	point_t *G = point_new();
 	sub->generator = G;
-	G->point = ellmul(curve->curve, P, k);
+	G->point = point;
 	G->order = ellorder(curve->curve, G->point, NULL);
 	G->cofactor = divii(curve->order, G->order);
 	seed->brainpool.mult = k;
-- 
2.43.0


From 997b6945a08769c2991f9a47a6af1d1324101c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:54 +0000
Subject: [PATCH 28/48] fix: --order printed curves of other orders (twists, j
 = 0 and 1728, small fields)

---
 src/cm/cm_any.c   | 128 +++++++++++++++++++++++++---------------------
 src/cm/cm_any.h   |   5 +-
 src/cm/cm_prime.c |   6 +--
 3 files changed, 76 insertions(+), 63 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index f948ac1..48e6c0d 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -36,8 +36,13 @@ static void good_qdisc_minimal(cm_any_qdisc_t *qdisc, GEN order) {
 			for (long i = 1; i <= len; ++i) {
 				GEN alpha = gel(alphas, i);
 				GEN trace = nftrace(K, alpha);
+				// alpha and -alpha both have the norm, fields of
+				// characteristic two and three need other equations
 				GEN p = subii(addis(order, 1), trace);
-				if (isprime(p)) {
+				if (cmpiu(p, 3) <= 0 || !isprime(p)) {
+					p = addii(addis(order, 1), trace);
+				}
+				if (cmpiu(p, 3) > 0 && isprime(p)) {
 					debug_log(
 					    "Got an elem of prime trace: %Pi, d = %Pi, D = %Pi", p,
 					    d, D);
@@ -133,7 +138,38 @@ static cm_any_qdisc_t *good_qdisc_brute(GEN order, GEN alpha, GEN beta) {
 }
 */
 
-GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
+/**
+ * @brief Check that a curve has the given order.
+ *
+ * @param e a curve with order either order or 2 * (p + 1) - order, unless
+ *          its j-invariant is 0 or 1728
+ * @param order
+ * @param p
+ * @return whether e has exactly order points
+ */
+static bool cm_has_order(GEN e, GEN order, GEN p) {
+	pari_sp ltop = avma;
+	GEN j = lift(ell_get_j(e));
+	bool special = gequal0(j) || equalii(j, modsi(1728, p));
+	GEN twist_order = subii(shifti(addis(p, 1), 1), order);
+	for (int i = 0; i < 10; ++i) {
+		GEN point = genrand(e);
+		if (!ell_is_inf(ellmul(e, point, order))) {
+			avma = ltop;
+			return false;
+		}
+		if (!special && !ell_is_inf(ellmul(e, point, twist_order))) {
+			avma = ltop;
+			return true;
+		}
+	}
+	// The points do not tell, so count.
+	bool result = equalii(ellff_get_card(e), order);
+	avma = ltop;
+	return result;
+}
+
+GEN cm_construct_curve(GEN order, GEN d, GEN p) {
 	debug_log("Constructing a curve with N = %Pi, d = %Pi, p = %Pi", order, d,
 	          p);
 	pari_sp ltop = avma;
@@ -142,68 +178,46 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 
 	GEN r = FpX_roots(H, p);
 	debug_log("roots = %Ps", r);
-	if (gequal(r, gtovec(gen_0))) {
-		avma = ltop;
-		return NULL;
-	}
 
 	long rlen = glength(r);
 	for (long i = 1; i <= rlen; ++i) {
 		GEN root = gel(r, i);
 		debug_log("trying root = %Pi", root);
 
-		GEN e = ellinit(ellfromj(mkintmod(root, p)), p, 0);
-		pari_CATCH(e_TYPE) { continue; }
-		pari_TRY { checkell(e); };
-		pari_ENDCATCH{};
-
-		if (ord_prime) {
-			// Easy part, the requested order is prime so
-			// [order]G = 0 iff the curve has exactly order points, for any G on
-			// it. otherwise it is the twist
-			GEN g = genrand(e);
-			if (ell_is_inf(ellmul(e, g, order))) {
-				debug_log("Got curve.");
+		// All of the twists: six for j = 0, four for j = 1728, two otherwise.
+		GEN a = gen_0;
+		GEN b = gen_0;
+		long twists = 2;
+		if (gequal0(root)) {
+			b = gen_1;
+			twists = 6;
+		} else if (equalii(root, modsi(1728, p))) {
+			a = gen_1;
+			twists = 4;
+		} else {
+			GEN k = Fp_div(root, Fp_sub(modsi(1728, p), root, p), p);
+			a = Fp_mulu(k, 3, p);
+			b = Fp_mulu(k, 2, p);
+		}
+		// g generates the field up to squares, or up to cubes and squares.
+		GEN g = gen_2;
+		while (kronecker(g, p) != -1 ||
+		       (twists == 6 && smodis(p, 3) == 1 &&
+		        equali1(Fp_pow(g, divis(subis(p, 1), 3), p)))) {
+			g = addis(g, 1);
+		}
+		for (long j = 0; j < twists; ++j) {
+			GEN e = ellinit(mkvec2(mkintmod(a, p), mkintmod(b, p)), p, 0);
+			if (cm_has_order(e, order, p)) {
+				debug_log("Got curve, twist %li.", j);
 				return gerepilecopy(ltop, e);
-			} else {
-				debug_log("Got curve twist.");
-				return gerepilecopy(ltop, ellinit(elltwist(e, NULL), p, 0));
 			}
-		} else {
-			// Hard part, requested order is composite, so it might share a
-			// factor with the order of the twist, which means [order]G = 0
-			// might be true for a point on the twist as well as a point o the
-			// right curve.
-			//
-			// We calculate what the twist order is, then compute gcd of the
-			// orders which leads to the product of the factors that the orders
-			// do not share. By multiplying a random point by this product on
-			// some curve, we can determine that that curve has that number of
-			// points.
-			GEN twist_order = subii(addis(p, 1), subii(order, addis(p, 1)));
-			GEN twist = ellinit(elltwist(e, NULL), p, 0);
-			GEN gcd = gcdii(order, twist_order);
-			GEN orig_mul = divii(order, gcd);
-			GEN twist_mul = divii(twist_order, gcd);
-			while (true) {
-				GEN orig_point = genrand(e);
-				if (ell_is_inf(ellmul(e, orig_point, orig_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, orig_point, twist_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
-				GEN twist_point = genrand(twist);
-				if (ell_is_inf(ellmul(e, twist_point, twist_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, twist_point, orig_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
+			if (twists == 2) {
+				a = Fp_mul(a, Fp_sqr(g, p), p);
+				b = Fp_mul(b, Fp_powu(g, 3, p), p);
+			} else {
+				a = Fp_mul(a, g, p);
+				b = Fp_mul(b, g, p);
 			}
 		}
 	}
@@ -255,7 +269,7 @@ GENERATOR(cm_gen_curve_any) {
 	cm_any_qdisc_t min_disc = {0};
 	good_qdisc_minimal(&min_disc, order);
 	debug_log("Got min D = %Pi", min_disc.d);
-	GEN e = cm_construct_curve(order, min_disc.d, min_disc.p, false);
+	GEN e = cm_construct_curve(order, min_disc.d, min_disc.p);
 	if (e == NULL) {
 		fprintf(err, "Could not construct curve.");
 		avma = ltop;
diff --git a/src/cm/cm_any.h b/src/cm/cm_any.h
index a49fd7f..808dc48 100644
--- a/src/cm/cm_any.h
+++ b/src/cm/cm_any.h
@@ -18,10 +18,9 @@ typedef struct {
  * @param order
  * @param d
  * @param p
- * @param ord_prime
- * @return
+ * @return the curve with exactly order points, NULL if there is none
  */
-GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime);
+GEN cm_construct_curve(GEN order, GEN d, GEN p);
 
 /**
  * @brief Construct an elliptic curve given a factor of its order, CM
diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 33d2a12..593cc49 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -106,7 +106,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 				}
 				GEN pp1 = addii(addis(qdisc->order, 1), x);
 				GEN pp2 = subii(addis(qdisc->order, 1), x);
-				if (isprime(pp1)) {
+				if (cmpiu(pp1, 3) > 0 && isprime(pp1)) {
 					qdisc->p = pp1;
 					qdisc->D = pprod;
 					qdisc->t = x;
@@ -114,7 +114,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 					debug_log("good D %Pi", pprod);
 					return;
 				}
-				if (isprime(pp2)) {
+				if (cmpiu(pp2, 3) > 0 && isprime(pp2)) {
 					qdisc->p = pp2;
 					qdisc->D = pprod;
 					qdisc->t = x;
@@ -148,7 +148,7 @@ GENERATOR(cm_gen_curve_prime) {
 	qdisc_init(&qdisc, order);
 	do {
 		qdisc_next(&qdisc);
-		e = cm_construct_curve(order, qdisc.D, qdisc.p, true);
+		e = cm_construct_curve(order, qdisc.D, qdisc.p);
 	} while (e == NULL);
 	qdisc_free(&qdisc);
 
-- 
2.43.0


From 89613a8ebe74ec58bd070de3f539ae1bc4f8df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:54 +0000
Subject: [PATCH 29/48] fix: --order with a small prime crashed or never tried
 some discriminants

---
 src/cm/cm_prime.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 593cc49..1027291 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -45,7 +45,9 @@ static size_t add_primes(GEN r, GEN order, GEN **primes, size_t nprimes) {
 		}
 	}
 
-	*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	if (nprimes) {
+		*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	}
 
 	return nprimes;
 }
@@ -85,7 +87,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 			GEN pprod = gen_1;
 			bits_t *ibits = bits_from_i_len(qdisc->i, qdisc->nprimes);
 			for (size_t j = 0; j < qdisc->nprimes; ++j) {
-				if (GET_BIT(ibits->bits, j) == 1) {
+				if (GET_BIT(ibits->bits, qdisc->nprimes - 1 - j) == 1) {
 					// debug_log("multiplying %Pi", qdisc->Sp[j]);
 					pprod = mulii(pprod, qdisc->Sp[j]);
 				}
-- 
2.43.0


From 7326f1800c8efa7e58ddd9d7bdec16709ea640d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:54 +0000
Subject: [PATCH 30/48] fix: --order with a prime ignored --points

---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From fed7d92cadfff3feed29d6970ae6981147ef4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:21 +0000
Subject: [PATCH 31/48] fix: --order accepted an order of one bit too many

---
 src/cm/cm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 0a76483..f13b8ab 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -195,7 +195,7 @@ static int cm_init(exhaustive_t *setup) {
 			return 1;
 		}
 		long ord_log = logint0(order, gen_2, NULL);
-		if (ord_log > cfg->bits) {
+		if (ord_log >= cfg->bits) {
 			pari_fprintf(err,
 			             "Order requested does not fit(2^%li) into requested "
 			             "bitsize(2^%li): %Pi\n",
-- 
2.43.0


From 0dd2948e6fffd874c027663fad027d970d6e93c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 32/48] fix: --anomalous fields were of other sizes than
 requested

---
 src/cm/anomalous.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index 70df8e4..03c663d 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -42,15 +42,27 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 
 	pari_sp ltop = avma;
 	GEN last = divis(addis(D, 1), 4);
-	GEN lower = divii(subii(int2n(bits - 1), last), D);
-	GEN upper = divii(subii(int2n(bits), last), D);
+	// p = D * b * (b + 1) + last has to have exactly the requested bits
+	GEN lower = subii(int2n(bits - 1), last);
+	GEN upper = subii(int2n(bits), last);
+	if (signe(upper) < 0) {
+		avma = ltop;
+		return NULL;
+	}
+	lower = signe(lower) < 0 ? gen_0 : divii(addii(lower, subis(D, 1)), D);
+	upper = divii(upper, D);
 
-	GEN lower_bound = gceil(
-	    gdiv(gsub(gsqrt(addis(mulis(lower, 4), 1), BIGDEFAULTPREC * 2), gen_1),
-	         gen_2));
-	GEN upper_bound = gfloor(
-	    gdiv(gsub(gsqrt(addis(mulis(upper, 4), 1), BIGDEFAULTPREC * 2), gen_1),
-	         gen_2));
+	GEN lower_bound =
+	    shifti(subis(sqrti(addis(mulis(lower, 4), 1)), 1), -1);
+	if (cmpii(mulii(lower_bound, addis(lower_bound, 1)), lower) < 0) {
+		lower_bound = addis(lower_bound, 1);
+	}
+	GEN upper_bound =
+	    shifti(subis(sqrti(addis(mulis(upper, 4), 1)), 1), -1);
+	if (cmpii(lower_bound, upper_bound) > 0) {
+		avma = ltop;
+		return NULL;
+	}
 
 	GEN range = gtovec0(gen_0, 2);
 	gel(range, 1) = lower_bound;
@@ -97,6 +109,10 @@ GENERATOR(anomalous_gen_field) {
 	GEN p;
 	do {
 		p = anomalous_prime(i, cfg->bits);
+		if (!p) {
+			fprintf(err, "There is no anomalous curve of this size.\n");
+			return INT_MIN;
+		}
 		gerepileall(ltop, 1, &p);
 	} while (!kronecker(disc_table[0]->alpha, p));
 
-- 
2.43.0


From 24f2ea4b2b6c46c7ad20ffd9c2898bdb6ee14362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 33/48] fix: malformed JSON when the input ends before -c
 curves were generated

---
 src/exhaustive/exhaustive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..1649cd7 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -476,10 +476,10 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		debug_log_end("Generated new curve");
 
-		output_o(curve);
-		if (i != cfg->count - 1) {
+		if (i != 0) {
 			output_o_separator();
 		}
+		output_o(curve);
 		curve_free(&curve);
 	}
 	output_o_end();
-- 
2.43.0


From 71e82c78ad3f6c794b7e22011d299bacb06e1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:39 +0000
Subject: [PATCH 34/48] fix: a timeout while generating the generators of an
 invalid curve crashed its thread

---
 src/gen/point.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/point.c b/src/gen/point.c
index 577dcc5..6e11750 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -179,6 +179,8 @@ GENERATOR(points_gen_nonprime) {
 UNROLL(points_unroll) {
 	if (curve->generators) {
 		for (size_t i = 0; i < curve->ngens; ++i) {
+			// The generators are incomplete if they timed out.
+			if (!curve->generators[i]) continue;
 			points_free_deep(&curve->generators[i]->points,
 			                 curve->generators[i]->npoints);
 		}
-- 
2.43.0


From 239f83409b17a4a5e211d27393826a6e7ca0d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:39 +0000
Subject: [PATCH 35/48] fix: a --timeout that expired before its jump buffer
 was set crashed

---
 src/util/timeout.c | 27 +++++++++++++++++++++++++++
 src/util/timeout.h | 40 +++++++++++++---------------------------
 2 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index 6fdbf16..c325f3b 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -5,6 +5,19 @@
 #include "timeout.h"
 #include "util/memory.h"
 
+#ifdef __APPLE__
+
+#include <posix-macos-timer.h>
+#define SIGEV_THREAD_ID 0
+#define SIGEV_UN_TID_SYS_GETTID
+
+#else
+
+#define SIGEV_UN_TID_SYS_GETTID \
+	sevp->_sigev_un._tid = (__pid_t)syscall(SYS_gettid);
+
+#endif
+
 __thread sigjmp_buf timeout_ptr;
 __thread bool timeout_in = false;
 __thread timer_t *timeout_timer;
@@ -19,6 +32,20 @@ void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	if (timeout_in) siglongjmp(timeout_ptr, 1);
 }
 
+bool timeout_arm(unsigned long seconds) {
+	sevp->sigev_notify = SIGEV_THREAD_ID;
+	sevp->sigev_signo = SIGALRM;
+	sevp->sigev_value.sival_int = 0;
+	SIGEV_UN_TID_SYS_GETTID
+	timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);
+	timeout_in = true;
+	struct itimerspec timer_time = {
+	    .it_interval = {.tv_sec = 0, .tv_nsec = 0},
+	    .it_value = {.tv_sec = seconds, .tv_nsec = 0}};
+	timer_settime(*timeout_timer, 0, &timer_time, NULL);
+	return false;
+}
+
 void timeout_thread_init() {
 	timeout_timer = try_calloc(sizeof(timer_t));
 	sevp = try_calloc(sizeof(struct sigevent));
diff --git a/src/util/timeout.h b/src/util/timeout.h
index 57e3d22..2e8168b 100644
--- a/src/util/timeout.h
+++ b/src/util/timeout.h
@@ -15,19 +15,6 @@
 #include "io/output.h"
 #include "misc/config.h"
 
-#ifdef __APPLE__
-
-#include <posix-macos-timer.h>
-#define SIGEV_THREAD_ID 0
-#define SIGEV_UN_TID_SYS_GETTID
-
-#else
-
-#define SIGEV_UN_TID_SYS_GETTID \
-	sevp->_sigev_un._tid = (__pid_t)syscall(SYS_gettid);
-
-#endif
-
 extern __thread sigjmp_buf timeout_ptr;
 extern __thread bool timeout_in;
 extern __thread timer_t *timeout_timer;
@@ -43,20 +30,9 @@ extern __thread struct sigevent *sevp;
  * <code>timeout_stop</code> when the timed interval ends.
  * @param seconds how long to run the <code>else</code> branch for
  */
-#define timeout_start(seconds)                                \
-	if ((seconds) != 0) {                                     \
-		sevp->sigev_notify = SIGEV_THREAD_ID;                 \
-		sevp->sigev_signo = SIGALRM;                          \
-		sevp->sigev_value.sival_int = 0;                      \
-		SIGEV_UN_TID_SYS_GETTID                               \
-		timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);   \
-		struct itimerspec timer_time = {                      \
-		    .it_interval = {.tv_sec = 0, .tv_nsec = 0},       \
-		    .it_value = {.tv_sec = (seconds), .tv_nsec = 0}}; \
-		timer_settime(*timeout_timer, 0, &timer_time, NULL);  \
-		timeout_in = true;                                    \
-	};                                                        \
-	if ((seconds) != 0 && sigsetjmp(timeout_ptr, 1) == 1)
+#define timeout_start(seconds) \
+	if ((seconds) != 0 &&      \
+	    (sigsetjmp(timeout_ptr, 1) == 1 || timeout_arm(seconds)))
 
 /**
  * @brief Stop a timer.
@@ -69,6 +45,16 @@ extern __thread struct sigevent *sevp;
 		}                                 \
 	}
 
+/**
+ * @brief Create and arm the timer of this thread.
+ *
+ * To be called only by <code>timeout_start</code>, after the jump buffer
+ * is set up.
+ * @param seconds
+ * @return false
+ */
+bool timeout_arm(unsigned long seconds);
+
 void timeout_thread_init();
 
 void timeout_thread_quit();
-- 
2.43.0


From dd563fc22160d9310c5210691d83b0200a0c84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:05 +0000
Subject: [PATCH 36/48] fix: --hex-check matched digits running from one point
 into the next

---
 src/gen/hex.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gen/hex.c b/src/gen/hex.c
index 58250a0..6e2d92d 100644
--- a/src/gen/hex.c
+++ b/src/gen/hex.c
@@ -27,14 +27,8 @@ static char *hex_points(point_t *points[], size_t len) {
 		p[i] = hex_point(pt);
 	}
 
-	size_t total = 1;
+	char *result = str_join(",", p, len);
 	for (size_t i = 0; i < len; ++i) {
-		total += strlen(p[i]);
-	}
-
-	char *result = try_calloc(total);
-	for (size_t i = 0; i < len; ++i) {
-		strcat(result, p[i]);
 		try_free(p[i]);
 	}
 	return result;
-- 
2.43.0


From c680ac0c8fdcb501237516114a1064afb111b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:18 +0000
Subject: [PATCH 37/48] fix: --cofactor and --smooth were ignored silently with
 --brainpool and --nums

---
 src/exhaustive/exhaustive.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 1649cd7..96a4142 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -47,11 +47,13 @@ static void exhaustive_ginit(gen_f *generators) {
 	GET(field);
 
 	if (GET_BOOL(seed_algo)) {
+		// The order and generators chosen here are only used with ANSI X9.62.
+		bool ansi = cfg->seed_algo == SEED_ANSI;
 		if (GET_BOOL(prime)) {
 			generators[OFFSET_ORDER] = &order_gen_prime;
-		} else if (GET_BOOL(cofactor)) {
+		} else if (ansi && GET_BOOL(cofactor)) {
 			generators[OFFSET_ORDER] = &order_gen_cofactor;
-		} else if (GET_BOOL(smooth)) {
+		} else if (ansi && GET_BOOL(smooth)) {
 			generators[OFFSET_ORDER] = &order_gen_smooth;
 		} else {
 			generators[OFFSET_ORDER] = &order_gen_any;
@@ -59,7 +61,7 @@ static void exhaustive_ginit(gen_f *generators) {
 
 		if (GET_BOOL(unique)) {
 			generators[OFFSET_GENERATORS] = &gens_gen_one;
-		} else if (GET_BOOL(cofactor)) {
+		} else if (ansi && GET_BOOL(cofactor)) {
 			generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
 		} else {
 			generators[OFFSET_GENERATORS] = &gens_gen_any;
-- 
2.43.0


From 8f97dc624467fd0fcac14b0f52a0b01e85126cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:05 +0000
Subject: [PATCH 38/48] fix: two different seed methods on one command line
 were accepted

---
 src/io/cli.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index d98a0c0..9869853 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -150,6 +150,17 @@ static unsigned long cli_parse_time(const char *str, struct argp_state *state) {
 	return read;
 }
 
+static void cli_seed_algo(seed_e algo, struct argp_state *state) {
+	cfg->method |= METHOD_SEED;
+	SET(method);
+	if (cfg->seed_algo && cfg->seed_algo != algo) {
+		argp_failure(state, 1, 0,
+		             "Only one generation method can be specified.");
+	}
+	cfg->seed_algo = algo;
+	SET(seed_algo);
+}
+
 static void cli_end(struct argp_state *state) {
 	// validate all option states here.
 	// Only one field
@@ -306,10 +317,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			}
 			break;
 		case OPT_ANSI:
-			cfg->method |= METHOD_SEED;
-			SET(method);
-			cfg->seed_algo = SEED_ANSI;
-			SET(seed_algo);
+			cli_seed_algo(SEED_ANSI, state);
 			if (arg) {
 				if (!ansi_seed_valid(arg)) {
 					argp_failure(
@@ -321,10 +329,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			}
 			break;
 		case OPT_BRAINPOOL:
-			cfg->method |= METHOD_SEED;
-			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL;
-			SET(seed_algo);
+			cli_seed_algo(SEED_BRAINPOOL, state);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
 					argp_failure(
@@ -336,16 +341,10 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			}
 			break;
 		case OPT_NUMS:
-			cfg->method |= METHOD_SEED;
-			SET(method);
-			cfg->seed_algo = SEED_NUMS;
-			SET(seed_algo);
+			cli_seed_algo(SEED_NUMS, state);
 			break;
 		case OPT_BRAINPOOL_RFC:
-			cfg->method |= METHOD_SEED;
-			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL_RFC;
-			SET(seed_algo);
+			cli_seed_algo(SEED_BRAINPOOL_RFC, state);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
 					argp_failure(
-- 
2.43.0


From cb6aa1c9da65e7e780dc61993c71310a49ee5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:05 +0000
Subject: [PATCH 39/48] fix: the answer -2 to the question for p was taken for
 the end of input

---
 src/gen/field.c | 2 +-
 src/io/input.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen/field.c b/src/gen/field.c
index ac7ac98..aa8b7d0 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -41,7 +41,7 @@ GENERATOR(field_gen_input) {
 			if (gequalm1(p)) {
 				avma = ltop;
 				return 0;
-			} else if (equalii(p, gen_m2)) {
+			} else if (p == gen_m2) {
 				avma = ltop;
 				return INT_MIN;
 			}
diff --git a/src/io/input.c b/src/io/input.c
index b802d01..a0a28c9 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -53,7 +53,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 GEN input_prime(const char *prompt, unsigned long bits) {
 	GEN read = input_i(prompt, bits);
-	if (equalii(read, gen_m1) || equalii(read, gen_m2)) {
+	if (read == gen_m1 || read == gen_m2) {
 		return read;
 	} else {
 		if (isprime(read)) {
-- 
2.43.0


From 35d080a6c73d62dabf6e9b3aaee215a6f2fa9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:05 +0000
Subject: [PATCH 40/48] fix: malformed or senseless numbers for -k, -B, -c, -K,
 --points and the size were accepted

---
 src/io/cli.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index 9869853..cfb2dca 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -3,6 +3,7 @@
  * Copyright (C) 2017-2018 J08nY
  */
 #include "cli.h"
+#include <errno.h>
 #include <regex.h>
 #include <string.h>
 #include "exhaustive/ansi.h"
@@ -113,6 +114,17 @@ bool cli_init() {
 	return true;
 }
 
+static long cli_parse_long(const char *str, long min, const char *what,
+                           struct argp_state *state) {
+	char *end = NULL;
+	errno = 0;
+	long read = strtol(str, &end, 10);
+	if (end == str || *end != '\0' || errno || read < min) {
+		argp_failure(state, 1, 0, "Wrong value for %s = %s", what, str);
+	}
+	return read;
+}
+
 static unsigned long cli_parse_memory(const char *str,
                                       struct argp_state *state) {
 	char *suffix = NULL;
@@ -362,7 +374,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 
 			/* Generation options */
 		case OPT_COUNT:
-			cfg->count = strtoul(arg, NULL, 10);
+			cfg->count = cli_parse_long(arg, 0, "count", state);
 			SET(count);
 			break;
 		case OPT_RANDOM:
@@ -397,18 +409,18 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_SMOOTH:
 			cfg->smooth = true;
 			SET(smooth);
-			cfg->smooth_value = strtol(arg, NULL, 10);
+			cfg->smooth_value = cli_parse_long(arg, 1, "smooth", state);
 			break;
 		case OPT_COFACTOR:
 			cfg->cofactor = true;
 			SET(cofactor);
-			cfg->cofactor_value = strtol(arg, NULL, 10);
+			cfg->cofactor_value = cli_parse_long(arg, 1, "cofactor", state);
 			break;
 		case OPT_KOBLITZ:
 			cfg->koblitz = true;
 			SET(koblitz);
 			if (arg) {
-				cfg->koblitz_value = strtol(arg, NULL, 10);
+				cfg->koblitz_value = cli_parse_long(arg, 0, "a", state);
 				SET(koblitz_value);
 				if (cfg->koblitz_value != 0 && cfg->koblitz_value != 1) {
 					argp_failure(state, 1, 0, "Wrong value for a = %li",
@@ -447,6 +459,9 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_POINTS: {
 			char *num_end;
 			long amount = strtol(arg, &num_end, 10);
+			if (amount < 0) {
+				argp_failure(state, 1, 0, "Wrong amount of points. %s", arg);
+			}
 			cfg->points.amount = (size_t)amount;
 			if (strstr(num_end, "random") == num_end) {
 				cfg->points.type = POINTS_RANDOM;
@@ -517,7 +532,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 
 			char *bits_end = NULL;
 			cfg->bits = strtoul(arg, &bits_end, 10);
-			if (*bits_end != '\0') {
+			if (*bits_end != '\0' || !cfg->bits) {
 				argp_failure(state, 1, 0, "Invalid bit size specified.");
 			}
 			cfg->hex_digits =
-- 
2.43.0


From e6b9ccb1fc6c1b576f7c5d53c4803df0878dbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:05 +0000
Subject: [PATCH 41/48] fix: --order accepted any value that contained a number

---
 src/io/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index cfb2dca..da94494 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -101,7 +101,7 @@ static regex_t re_cm_order;
 bool cli_init() {
 	int error = regcomp(
 	    &re_cm_order,
-	    "((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*",
+	    "^((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*$",
 	    REG_EXTENDED);
 	if (error) {
 		size_t length = regerror(error, &re_cm_order, NULL, 0);
-- 
2.43.0


From b67dd6be9cdd8ead99123d10209cc6dec314ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:21 +0000
Subject: [PATCH 42/48] fix: a failed run read released memory when it freed
 its curve

---
 src/exhaustive/exhaustive.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 96a4142..90f236a 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -342,6 +342,17 @@ void exhaustive_uinit(unroll_f *unrolls) {
 	unrolls[OFFSET_POINTS] = &points_unroll;
 }
 
+/**
+ * Values of the step that failed and of those after it are no longer on the
+ * PARI stack: nobody may look at them anymore.
+ */
+static void exhaustive_forget(curve_t *curve, int state) {
+	if (state <= OFFSET_FIELD) curve->field = NULL;
+	if (state <= OFFSET_A) curve->a = NULL;
+	if (state <= OFFSET_B) curve->b = NULL;
+	if (state <= OFFSET_ORDER) curve->order = NULL;
+}
+
 int exhaustive_gen_retry(curve_t *curve, const exhaustive_t *setup,
                          offset_e start_offset, offset_e end_offset,
                          int retry) {
@@ -395,6 +406,7 @@ int exhaustive_gen_retry(curve_t *curve, const exhaustive_t *setup,
 		if (diff <= 0) {
 			if (diff == INT_MIN || state + diff < 0) {
 				fprintf(err, "Error generating a curve. state = %i\n", state);
+				exhaustive_forget(curve, state);
 				return 0;
 			}
 			// record try
-- 
2.43.0


From 8562da37fa7431883808ec8faf8362c91d84140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:33 +0000
Subject: [PATCH 43/48] fix: output that could not be written was reported as
 success

---
 src/ecgen.c     | 2 +-
 src/io/output.c | 9 +++++++--
 src/io/output.h | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ecgen.c b/src/ecgen.c
index 307960e..779edf7 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -98,7 +98,7 @@ int quit(int status) {
 
 	timeout_quit();
 
-	output_quit();
+	if (!output_quit()) status = EXIT_FAILURE;
 	input_quit();
 
 	return status;
diff --git a/src/io/output.c b/src/io/output.c
index c5bbb59..d9d9d66 100644
--- a/src/io/output.c
+++ b/src/io/output.c
@@ -277,9 +277,13 @@ static bool output_is_std(FILE *stream) {
 	return (stream == stdout || stream == stderr || stream == stdin);
 }
 
-void output_quit(void) {
+bool output_quit(void) {
+	bool written = !fflush(out) && !ferror(out);
 	if (!output_is_std(out)) {
-		fclose(out);
+		written = !fclose(out) && written;
+	}
+	if (!written) {
+		fprintf(err, "Couldn't write the output.\n");
 	}
 	if (!output_is_std(err)) {
 		fclose(err);
@@ -287,4 +291,5 @@ void output_quit(void) {
 	if (!output_is_std(verbose)) {
 		fclose(verbose);  // My name is fClose Verbose!
 	}
+	return written;
 }
diff --git a/src/io/output.h b/src/io/output.h
index f68acfc..cec878d 100644
--- a/src/io/output.h
+++ b/src/io/output.h
@@ -200,6 +200,6 @@ bool output_init();
 /**
  * @brief Deinitialize output.
  */
-void output_quit(void);
+bool output_quit(void);
 
 #endif  // ECGEN_IO_OUTPUT_H
-- 
2.43.0


From 73a6718c3d456a28fc773effa1c6ef7f3fac1056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:33 +0000
Subject: [PATCH 44/48] fix: ecgen crashed or went on without its arguments
 when it could not allocate at start

---
 src/ecgen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecgen.c b/src/ecgen.c
index 779edf7..5e6d1e9 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -23,6 +23,7 @@
  * @version 0.8.0
  * @copyright GPL v2.0
  */
+#include <errno.h>
 #include <pari/pari.h>
 #include "cm/cm.h"
 #include "exhaustive/exhaustive.h"
@@ -110,9 +111,14 @@ int quit(int status) {
 int main(int argc, char *argv[]) {
 	memset(cfg, 0, sizeof(config_t));
 	if (!cli_init()) {
-		return quit(EXIT_FAILURE);
+		return EXIT_FAILURE;
+	}
+	int error = argp_parse(&argp, argc, argv, 0, 0, cfg);
+	if (error) {
+		errno = error;
+		perror("Couldn't parse the arguments.");
+		return EXIT_FAILURE;
 	}
-	argp_parse(&argp, argc, argv, 0, 0, cfg);
 	cli_quit();
 
 	if (!init()) {
-- 
2.43.0


From e1649feb633b67fd6d9b940709f8ceb7b1a240bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:33 +0000
Subject: [PATCH 45/48] fix: a seed that could not be read was asked for for
 ever

---
 src/exhaustive/ansi.c      | 2 +-
 src/exhaustive/brainpool.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 3633af4..afa4076 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -62,7 +62,7 @@ GENERATOR(ansi_gen_seed_input) {
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return feof(in) ? INT_MIN : 0;
+		return feof(in) || ferror(in) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = ansi_new();
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index a6e5007..d1ab22d 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -88,7 +88,7 @@ GENERATOR(brainpool_gen_seed_input) {
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return feof(in) ? INT_MIN : 0;
+		return feof(in) || ferror(in) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = brainpool_new();
-- 
2.43.0


From 9289d0ab4106a35ab92cf4e5be61bd9934a26d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:33 +0000
Subject: [PATCH 46/48] fix: a thread that could not be started left --invalid
 waiting for ever

---
 src/invalid/invalid.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 680aee1..2653e8f 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -275,8 +275,11 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 	size_t printed = 0;
 	pthread_mutex_lock(&state_mutex);
 	for (size_t i = 0; i < cfg->threads; ++i) {
-		pthread_create(&pthreads[i], NULL, &invalid_thread,
-		               (void *)&threads[i]);
+		if (pthread_create(&pthreads[i], NULL, &invalid_thread,
+		                   (void *)&threads[i])) {
+			fprintf(err, "Couldn't start a thread.\n");
+			exit(EXIT_FAILURE);
+		}
 	}
 
 	while (true) {
-- 
2.43.0


From 167154e74e54d59b96d3a9c9899257a5a6e6f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:43 +0000
Subject: [PATCH 47/48] fix: --family KSS16 and KSS40 tried one of the four
 twists and passed over usable z

---
 src/cm/cm_any.c | 110 ++++++++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 45 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index 48e6c0d..c3f6d23 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -169,6 +169,66 @@ static bool cm_has_order(GEN e, GEN order, GEN p) {
 	return result;
 }
 
+static bool cm_has_subgroup(GEN e, GEN r, GEN p) {
+	pari_sp ltop = avma;
+	bool result = dvdii(ellff_get_card(e), r);
+	avma = ltop;
+	return result;
+}
+
+/**
+ * @brief Construct the curve with j-invariant root that is good, out of all
+ *        of the twists.
+ *
+ * @param root
+ * @param p
+ * @param good
+ * @param n the order passed to good
+ * @return the curve, or NULL if none is good
+ */
+static GEN cm_construct_twist(GEN root, GEN p,
+                              bool (*good)(GEN e, GEN n, GEN p), GEN n) {
+	pari_sp ltop = avma;
+	// All of the twists: six for j = 0, four for j = 1728, two otherwise.
+	GEN a = gen_0;
+	GEN b = gen_0;
+	long twists = 2;
+	if (gequal0(root)) {
+		b = gen_1;
+		twists = 6;
+	} else if (equalii(root, modsi(1728, p))) {
+		a = gen_1;
+		twists = 4;
+	} else {
+		GEN k = Fp_div(root, Fp_sub(modsi(1728, p), root, p), p);
+		a = Fp_mulu(k, 3, p);
+		b = Fp_mulu(k, 2, p);
+	}
+	// g generates the field up to squares, or up to cubes and squares.
+	GEN g = gen_2;
+	while (kronecker(g, p) != -1 ||
+	       (twists == 6 && smodis(p, 3) == 1 &&
+	        equali1(Fp_pow(g, divis(subis(p, 1), 3), p)))) {
+		g = addis(g, 1);
+	}
+	for (long j = 0; j < twists; ++j) {
+		GEN e = ellinit(mkvec2(mkintmod(a, p), mkintmod(b, p)), p, 0);
+		if (good(e, n, p)) {
+			debug_log("Got curve, twist %li.", j);
+			return gerepilecopy(ltop, e);
+		}
+		if (twists == 2) {
+			a = Fp_mul(a, Fp_sqr(g, p), p);
+			b = Fp_mul(b, Fp_powu(g, 3, p), p);
+		} else {
+			a = Fp_mul(a, g, p);
+			b = Fp_mul(b, g, p);
+		}
+	}
+	avma = ltop;
+	return NULL;
+}
+
 GEN cm_construct_curve(GEN order, GEN d, GEN p) {
 	debug_log("Constructing a curve with N = %Pi, d = %Pi, p = %Pi", order, d,
 	          p);
@@ -184,41 +244,9 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p) {
 		GEN root = gel(r, i);
 		debug_log("trying root = %Pi", root);
 
-		// All of the twists: six for j = 0, four for j = 1728, two otherwise.
-		GEN a = gen_0;
-		GEN b = gen_0;
-		long twists = 2;
-		if (gequal0(root)) {
-			b = gen_1;
-			twists = 6;
-		} else if (equalii(root, modsi(1728, p))) {
-			a = gen_1;
-			twists = 4;
-		} else {
-			GEN k = Fp_div(root, Fp_sub(modsi(1728, p), root, p), p);
-			a = Fp_mulu(k, 3, p);
-			b = Fp_mulu(k, 2, p);
-		}
-		// g generates the field up to squares, or up to cubes and squares.
-		GEN g = gen_2;
-		while (kronecker(g, p) != -1 ||
-		       (twists == 6 && smodis(p, 3) == 1 &&
-		        equali1(Fp_pow(g, divis(subis(p, 1), 3), p)))) {
-			g = addis(g, 1);
-		}
-		for (long j = 0; j < twists; ++j) {
-			GEN e = ellinit(mkvec2(mkintmod(a, p), mkintmod(b, p)), p, 0);
-			if (cm_has_order(e, order, p)) {
-				debug_log("Got curve, twist %li.", j);
-				return gerepilecopy(ltop, e);
-			}
-			if (twists == 2) {
-				a = Fp_mul(a, Fp_sqr(g, p), p);
-				b = Fp_mul(b, Fp_powu(g, 3, p), p);
-			} else {
-				a = Fp_mul(a, g, p);
-				b = Fp_mul(b, g, p);
-			}
+		GEN e = cm_construct_twist(root, p, cm_has_order, order);
+		if (e) {
+			return gerepilecopy(ltop, e);
 		}
 	}
 	avma = ltop;
@@ -240,22 +268,14 @@ GEN cm_construct_curve_subgroup(GEN r, GEN d, GEN p) {
 	}
 
 	long rlen = glength(roots);
-	pari_sp btop = avma;
 	for (long i = 1; i <= rlen; ++i) {
 		GEN root = gel(roots, i);
 		debug_log("trying root = %Pi", root);
 
-		GEN e = ellinit(ellfromj(mkintmod(root, p)), p, 0);
-		pari_CATCH(e_TYPE) { avma = btop; continue; }
-		pari_TRY { checkell(e); };
-		pari_ENDCATCH{};
-
-		GEN ord = ellff_get_card(e);
-		if (dvdii(ord, r)) {
-			debug_log("Got curve.");
+		GEN e = cm_construct_twist(root, p, cm_has_subgroup, r);
+		if (e) {
 			return gerepilecopy(ltop, e);
 		}
-		avma = btop;
 	}
 	avma = ltop;
 	return NULL;
-- 
2.43.0


From 8927c084e0e5a9b4a28b69f751ad6e4e2ced283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:53 +0000
Subject: [PATCH 48/48] fix: answers that are not numbers were read as 0 or cut
 short

---
 src/io/input.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index a0a28c9..1ab8638 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -7,9 +7,27 @@
 #include "input.h"
 #include "output.h"
 
+#define INPUT_SPACE " \t\r\n"
+
 FILE *in;
 int delim;
 
+/**
+ * @brief Is str a number, decimal or prefixed with 0x or 0b, and nothing else?
+ */
+static bool input_is_int(const char *str) {
+	const char *digits = "0123456789";
+	if (str[0] == '0' && (str[1] == 'x' || str[1] == 'X')) {
+		digits = "0123456789abcdefABCDEF";
+		str += 2;
+	} else if (str[0] == '0' && (str[1] == 'b' || str[1] == 'B')) {
+		digits = "01";
+		str += 2;
+	}
+	size_t len = strspn(str, digits);
+	return len > 0 && str[len + strspn(str + len, INPUT_SPACE)] == 0;
+}
+
 static GEN input_i(const char *prompt, unsigned long bits) {
 	if (prompt && in == stdin) {
 		fprintf(err, "%s ", prompt);
@@ -32,10 +50,19 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 		free(line);
 		return gen_m1;
 	}
-	bool sign = line[0] == '-';
+	if (line[len - 1] == delim) {
+		line[len - 1] = 0;
+	}
+	const char *number = line + strspn(line, INPUT_SPACE);
+	bool sign = number[0] == '-';
+	if (!input_is_int(number + sign)) {
+		fprintf(err, "Couldn't read an integer.\n");
+		free(line);
+		return gen_m1;
+	}
 
 	pari_sp ltop = avma;
-	GEN in = strtoi(line + sign);
+	GEN in = strtoi(number + sign);
 	if (sign) {
 		togglesign(in);
 	}
-- 
2.43.0

