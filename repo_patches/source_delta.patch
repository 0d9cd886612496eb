From 97a349ab3c1245b1e686deeba803644fda4687a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 01/56] fix: use the table of binary Koblitz orders for binary
 fields only

---
 src/gen/order.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..f45b6c4 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,7 +104,11 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	// The known orders are those of the binary Koblitz curves.
+	GEN order = NULL;
+	if (cfg->field == FIELD_BINARY) {
+		order = koblitz_get_order(cfg->bits, itou(curve->a));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From cafbd54b25326d08d54a7a30dd903b41d89ecf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 02/56] fix: CM returned curves of the wrong order

cm_construct_curve multiplied a point of the twist on the original curve,
took the point at infinity (or one of low order) as proof of the order, and
did not consider that there are six twists with j = 0.
---
 src/cm/cm_any.c   | 80 +++++++++++++++++++----------------------------
 src/cm/cm_any.h   |  3 +-
 src/cm/cm_prime.c |  2 +-
 3 files changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index f948ac1..51488b0 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -37,7 +37,7 @@ static void good_qdisc_minimal(cm_any_qdisc_t *qdisc, GEN order) {
 				GEN alpha = gel(alphas, i);
 				GEN trace = nftrace(K, alpha);
 				GEN p = subii(addis(order, 1), trace);
-				if (isprime(p)) {
+				if (cmpis(p, 3) > 0 && isprime(p)) {
 					debug_log(
 					    "Got an elem of prime trace: %Pi, d = %Pi, D = %Pi", p,
 					    d, D);
@@ -133,7 +133,7 @@ static cm_any_qdisc_t *good_qdisc_brute(GEN order, GEN alpha, GEN beta) {
 }
 */
 
-GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
+GEN cm_construct_curve(GEN order, GEN d, GEN p) {
 	debug_log("Constructing a curve with N = %Pi, d = %Pi, p = %Pi", order, d,
 	          p);
 	pari_sp ltop = avma;
@@ -157,53 +157,39 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 		pari_TRY { checkell(e); };
 		pari_ENDCATCH{};
 
-		if (ord_prime) {
-			// Easy part, the requested order is prime so
-			// [order]G = 0 iff the curve has exactly order points, for any G on
-			// it. otherwise it is the twist
-			GEN g = genrand(e);
-			if (ell_is_inf(ellmul(e, g, order))) {
+		if (equalis(d, -3)) {
+			// j = 0, there are six twists and only one has the right order.
+			// (counting the points is fast for them.)
+			while (!equalii(ellff_get_card(e), order)) {
+				GEN b = mkintmod(addis(randomi(subis(p, 1)), 1), p);
+				e = ellinit(mkvec2(gen_0, b), p, 0);
+			}
+			return gerepilecopy(ltop, e);
+		}
+
+		GEN twist = ellinit(elltwist(e, NULL), p, 0);
+		if (cmpis(p, 457) <= 0) {
+			// The orders of the points might not be enough to decide.
+			return gerepilecopy(ltop, equalii(ellff_get_card(e), order) ? e : twist);
+		}
+
+		// The curve either has the requested order or the one of its twist. The
+		// orders might share factors, so a point that is not killed by one of
+		// them is necessary to decide which one it is, there is always one on
+		// the curve or on the twist.
+		GEN twist_order = subii(mulis(addis(p, 1), 2), order);
+		while (true) {
+			GEN orig_point = genrand(e);
+			GEN twist_point = genrand(twist);
+			if (!ell_is_inf(ellmul(e, orig_point, twist_order)) ||
+			    !ell_is_inf(ellmul(twist, twist_point, order))) {
 				debug_log("Got curve.");
 				return gerepilecopy(ltop, e);
-			} else {
-				debug_log("Got curve twist.");
-				return gerepilecopy(ltop, ellinit(elltwist(e, NULL), p, 0));
 			}
-		} else {
-			// Hard part, requested order is composite, so it might share a
-			// factor with the order of the twist, which means [order]G = 0
-			// might be true for a point on the twist as well as a point o the
-			// right curve.
-			//
-			// We calculate what the twist order is, then compute gcd of the
-			// orders which leads to the product of the factors that the orders
-			// do not share. By multiplying a random point by this product on
-			// some curve, we can determine that that curve has that number of
-			// points.
-			GEN twist_order = subii(addis(p, 1), subii(order, addis(p, 1)));
-			GEN twist = ellinit(elltwist(e, NULL), p, 0);
-			GEN gcd = gcdii(order, twist_order);
-			GEN orig_mul = divii(order, gcd);
-			GEN twist_mul = divii(twist_order, gcd);
-			while (true) {
-				GEN orig_point = genrand(e);
-				if (ell_is_inf(ellmul(e, orig_point, orig_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, orig_point, twist_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
-				GEN twist_point = genrand(twist);
-				if (ell_is_inf(ellmul(e, twist_point, twist_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, twist_point, orig_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
+			if (!ell_is_inf(ellmul(e, orig_point, order)) ||
+			    !ell_is_inf(ellmul(twist, twist_point, twist_order))) {
+				debug_log("Got curve twist.");
+				return gerepilecopy(ltop, twist);
 			}
 		}
 	}
@@ -255,7 +241,7 @@ GENERATOR(cm_gen_curve_any) {
 	cm_any_qdisc_t min_disc = {0};
 	good_qdisc_minimal(&min_disc, order);
 	debug_log("Got min D = %Pi", min_disc.d);
-	GEN e = cm_construct_curve(order, min_disc.d, min_disc.p, false);
+	GEN e = cm_construct_curve(order, min_disc.d, min_disc.p);
 	if (e == NULL) {
 		fprintf(err, "Could not construct curve.");
 		avma = ltop;
diff --git a/src/cm/cm_any.h b/src/cm/cm_any.h
index a49fd7f..d434695 100644
--- a/src/cm/cm_any.h
+++ b/src/cm/cm_any.h
@@ -18,10 +18,9 @@ typedef struct {
  * @param order
  * @param d
  * @param p
- * @param ord_prime
  * @return
  */
-GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime);
+GEN cm_construct_curve(GEN order, GEN d, GEN p);
 
 /**
  * @brief Construct an elliptic curve given a factor of its order, CM
diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 33d2a12..3904f7c 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -148,7 +148,7 @@ GENERATOR(cm_gen_curve_prime) {
 	qdisc_init(&qdisc, order);
 	do {
 		qdisc_next(&qdisc);
-		e = cm_construct_curve(order, qdisc.D, qdisc.p, true);
+		e = cm_construct_curve(order, qdisc.D, qdisc.p);
 	} while (e == NULL);
 	qdisc_free(&qdisc);
 
-- 
2.43.0


From f584fa56fcd7dcded139ce3f8b1ee92e27a89f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 03/56] fix: CM with a prime order ignored the requested points

---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From 6561df7d0ace64c6e5dbb4dfc65e2a96fdd7057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 04/56] fix: the whole --order value has to be a list of
 numbers

---
 src/io/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index d98a0c0..1854975 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -100,7 +100,7 @@ static regex_t re_cm_order;
 bool cli_init() {
 	int error = regcomp(
 	    &re_cm_order,
-	    "((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*",
+	    "^((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*$",
 	    REG_EXTENDED);
 	if (error) {
 		size_t length = regerror(error, &re_cm_order, NULL, 0);
-- 
2.43.0


From aa83333c452fe7a6ef4d8f77976332ba268f19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 05/56] fix: keep all the orders divisible by in
 points_gen_trial

vec_append returns a new vector, only the first order was used.
---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..6bf0666 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -118,7 +118,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From 462943fdf5649f24372828b60cff5e328eba90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 06/56] fix: stale order used for a twist after a retry

An order left in the curve by a rejected candidate was taken for the order
of the new one, its twist got a wrong order.
---
 src/gen/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/curve.c b/src/gen/curve.c
index 7ea2fb5..0692835 100644
--- a/src/gen/curve.c
+++ b/src/gen/curve.c
@@ -39,6 +39,8 @@ GENERATOR(curve_gen_any_twist) {
 	if (result != 1) {
 		return result;
 	} else {
+		// an order left from a previous try is not one of this curve
+		curve->order = NULL;
 		twist_rand(curve);
 		return 1;
 	}
-- 
2.43.0


From 219bccbe7d0d17e8be2f104148feabf5b5d74378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 07/56] fix: missing separators in the output of threaded
 invalid curves

When the last batch of curves had more than one, no separators were printed
between them.
---
 src/invalid/invalid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3679c6b..3ba73fb 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -271,6 +271,7 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		threads[i].setup = setup;
 	}
 
+	size_t printed = 0;
 	pthread_mutex_lock(&state_mutex);
 	for (size_t i = 0; i < cfg->threads; ++i) {
 		pthread_create(&pthreads[i], NULL, &invalid_thread,
@@ -282,7 +283,7 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		for (size_t i = 0; i < nprimes; ++i) {
 			if (old_states[i] != states[i] && states[i] == STATE_GENERATED) {
 				output_o(local_curves[i]);
-				if (*generated != nprimes) {
+				if (++printed != nprimes) {
 					output_o_separator();
 				}
 				old_states[i] = states[i];
-- 
2.43.0


From 2fe065d6b6f914425c753ca0220bf90bdc1d16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 08/56] fix: unterminated output when there are no primes in
 the invalid range

---
 src/invalid/invalid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3ba73fb..83d4bbb 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -362,7 +362,6 @@ int invalid_do() {
 
 	output_o_begin();
 	output_o(curve);
-	output_o_separator();
 
 	debug_log_start("Starting to generate primes to product over order^2");
 	pari_ulong *primes;
@@ -371,9 +370,11 @@ int invalid_do() {
 
 	if (!nprimes) {
 		fprintf(err, "No orders to generate curves for, quitting.");
+		output_o_end();
 		return EXIT_FAILURE;
 	}
 
+	output_o_separator();
 	curve_t **curves = try_calloc(nprimes * sizeof(curve_t *));
 	debug_log_start("Starting to generate invalid curves");
 	size_t ncurves;
-- 
2.43.0


From f3edf791f0cbfe6967cb3f08ee2cb4e60d775b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 09/56] fix: no primes used for an invalid range starting with
 0

---
 src/invalid/invalid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 83d4bbb..f2abacf 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -79,7 +79,8 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 
 	if (cfg->invalid_primes) {
 		char *end = NULL;
-		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10) - 1;
+		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10);
+		if (last > 0) last--;
 		if (end && *end) {
 			end++;
 			upper = (pari_ulong)strtol(end, NULL, 10);
@@ -92,7 +93,7 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 	*primes = try_calloc(size * sizeof(pari_ulong));
 
 	while (((upper == 0) && cmpii(bound, product) >= 0) || (last <= upper)) {
-		product = mulis(product, last);
+		if (last > 0) product = mulis(product, last);
 		pari_ulong next = unextprime(last + 1);
 		if ((upper != 0) && next > upper) {
 			break;
-- 
2.43.0


From f918271b5d7323f71a545b9b2a11c56fa88aad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 10/56] fix: last character lost when input ends without a
 delimiter

---
 src/io/input.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..c567380 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -82,12 +82,10 @@ GEN input_string(const char *prompt) {
 	if (len <= 0) {
 		return strtoGENstr("");
 	}
-	if (len == 1) {
-		free(line);
-		return strtoGENstr("");
+	// the last value might not be followed by a delimiter
+	if (line[len - 1] == delim) {
+		line[len - 1] = 0;
 	}
-
-	line[len - 1] = 0;
 	GEN result = strtoGENstr(line);
 	free(line);
 	return result;
-- 
2.43.0


From c3aaaf487c0cbd63024c159a90411ac408e7c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 11/56] fix: end of input was not noticed for binary fields,
 seeds and families

The generators read on forever (or, for families, took the failure value for
the z).
---
 src/exhaustive/ansi.c      |  2 +-
 src/exhaustive/brainpool.c |  2 +-
 src/exhaustive/family.c    |  6 ++++++
 src/gen/field.c            | 16 ++++++++++++++++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..41faa42 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -62,7 +62,7 @@ GENERATOR(ansi_gen_seed_input) {
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return 0;
+		return feof(in) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = ansi_new();
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 56c095d..3e76090 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -88,7 +88,7 @@ GENERATOR(brainpool_gen_seed_input) {
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return 0;
+		return feof(in) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = brainpool_new();
diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 08505b6..2186aa6 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -86,6 +86,12 @@ GENERATOR(family_gen_seed_random) {
 
 GENERATOR(family_gen_seed_input) {
 	GEN inp = input_int("z:", cfg->bits);
+	// the values themselves are valid, the objects mean a failure
+	if (inp == gen_m1) {
+		return 0;
+	} else if (inp == gen_m2) {
+		return INT_MIN;
+	}
 	curve->seed = family_new_seed();
 	curve->seed->family.z = inp;
 	curve->seed->seed = bits_from_i(curve->seed->family.z);
diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..7bdfe28 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,22 +50,38 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (m == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
+			if (e1 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
+			if (e2 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
+			if (e3 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
-- 
2.43.0


From 692c533905a338bc5c0a59e99b20a39d93743215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 12/56] fix: coefficients -1 and -2 were taken for failed input

---
 src/gen/equation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen/equation.c b/src/gen/equation.c
index 619378f..adaabb5 100644
--- a/src/gen/equation.c
+++ b/src/gen/equation.c
@@ -14,10 +14,10 @@ GENERATOR(a_gen_random) {
 GENERATOR(a_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("a:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
@@ -68,10 +68,10 @@ GENERATOR(b_gen_random) {
 GENERATOR(b_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("b:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
-- 
2.43.0


From 21127f30630161b83ec74148ff78509dfd436a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 13/56] fix: ANSI a was not reduced into the prime field, r = 0
 crashed

---
 src/exhaustive/ansi.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 41faa42..aa546b4 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -124,10 +124,17 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->seed->ansi.r = r;
 
 	GEN r_inv = Fp_invsafe(r, curve->field);
+	if (r_inv == NULL) {
+		avma = ltop;
+		bits_free(&c0);
+		bits_free(&W0);
+		bits_free(&W);
+		return -3;
+	}
 	GEN a;
 	GEN b2;
 	do {
-		a = random_int(cfg->bits);
+		a = modii(random_int(cfg->bits), curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
-- 
2.43.0


From 416f2008b5243677de341e86997b2e34563e26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 14/56] fix: random_int could return a number of more bits

---
 src/util/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/random.c b/src/util/random.c
index b88bb50..6e74100 100644
--- a/src/util/random.c
+++ b/src/util/random.c
@@ -59,7 +59,7 @@ GEN random_prime(unsigned long bits) {
 GEN random_int(unsigned long bits) {
 	pari_sp ltop = avma;
 
-	GEN range = mkvec2(int2n(bits - 1), int2n(bits));
+	GEN range = mkvec2(int2n(bits - 1), subis(int2n(bits), 1));
 	return gerepilecopy(ltop, genrand(range));
 }
 
-- 
2.43.0


From 4f7d62bb1965d8995fc087692f12383e76b78432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 15/56] fix: last byte of random bits was always zero

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..bb78cbe 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -20,7 +20,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	bits_t *result = bits_new(bit_len);
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
-			size_t last_bits = bit_len % 8;
+			size_t last_bits = (bit_len % 8 == 0) ? 8 : bit_len % 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From d904a78a0692a50ee18f6f4333484c58512cfa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 16/56] fix: rotation of bits by a negative amount

---
 src/util/bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index bb78cbe..77cbba6 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -406,8 +406,8 @@ void bits_shiftrz(bits_t *bits, long amount) {
 		} else if (amount > 0) {
 			new_pos = (i + amount) % bits->bitlen;
 		} else if (amount < 0) {
-			long mod_amount = amount % bits->bitlen;
-			new_pos = (i + mod_amount) % bits->bitlen;
+			long mod_amount = amount % (long)bits->bitlen;
+			new_pos = (i + bits->bitlen + mod_amount) % bits->bitlen;
 		}
 		new_bit = (unsigned char)GET_BIT(original_bits, new_pos);
 		bits->bits[i / 8] |= new_bit << (7 - (i % 8));
-- 
2.43.0


From 7411aedfa4094700d4edc2976918651b6e78f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 17/56] fix: lengthening bits could expose stale bits

---
 src/util/bits.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/bits.c b/src/util/bits.c
index 77cbba6..e2fc940 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -451,6 +451,9 @@ void bits_lengthenz(bits_t *bits, long amount) {
 		}
 		bits->allocated = new_alloc;
 	}
+	for (size_t i = bits->bitlen; i < bits->bitlen + abs_amount; ++i) {
+		SET_BIT(bits->bits, i, 0);
+	}
 	bits->bitlen += abs_amount;
 
 	if (amount > 0) {
-- 
2.43.0


From 2fbddb1be36132c7939d9af4619de67c169f6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 18/56] fix: negative zero bits changed the sign of the
 constant zero

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index e2fc940..5e11583 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -154,7 +154,7 @@ GEN bits_to_i(const bits_t *bits) {
 		if (GET_BIT(bits->bits, i) != 0)
 			result = addii(result, int2n(bits->bitlen - i - 1));
 	}
-	if (bits->sign) {
+	if (bits->sign && signe(result) != 0) {
 		setsigne(result, -1);
 	}
 	return gerepilecopy(ltop, result);
-- 
2.43.0


From 30093111f8c34efc34ccbeef52eef7483aeb941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 19/56] fix: buffer sizes in str_joinv and str_join

---
 src/util/str.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/str.c b/src/util/str.c
index ff075f2..b815f20 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -28,7 +28,7 @@ char *str_join(char *separator, char **strings, size_t len) {
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) total += strlen(strings[i]);
 	}
-	if (separator) total += (len - 1) * strlen(separator);
+	if (separator && len > 0) total += (len - 1) * strlen(separator);
 	char *result = try_calloc(total);
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) {
@@ -51,7 +51,8 @@ char *str_joinv(char *separator, ...) {
 	size_t i = 0;
 	while ((next = va_arg(valist, char *)) != NULL) {
 		if (i == len) {
-			strings = try_realloc(strings, (len * 2) * sizeof(char *));
+			len *= 2;
+			strings = try_realloc(strings, len * sizeof(char *));
 		}
 		strings[i++] = next;
 	}
-- 
2.43.0


From 923290166aecb46346585f258b14afc9ea7326f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 20/56] fix: hex check could match across two points

---
 src/gen/hex.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gen/hex.c b/src/gen/hex.c
index 58250a0..6e2d92d 100644
--- a/src/gen/hex.c
+++ b/src/gen/hex.c
@@ -27,14 +27,8 @@ static char *hex_points(point_t *points[], size_t len) {
 		p[i] = hex_point(pt);
 	}
 
-	size_t total = 1;
+	char *result = str_join(",", p, len);
 	for (size_t i = 0; i < len; ++i) {
-		total += strlen(p[i]);
-	}
-
-	char *result = try_calloc(total);
-	for (size_t i = 0; i < len; ++i) {
-		strcat(result, p[i]);
 		try_free(p[i]);
 	}
 	return result;
-- 
2.43.0


From e0b66cea9f3aeb8e0f80b23f53bda9891b6dc7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 21/56] fix: anomalous fields of the wrong size

---
 src/cm/anomalous.c | 81 ++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index 70df8e4..815e686 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -37,35 +37,61 @@ void anomalous_init() {
 	disc_table[3]->alpha = stoi(3717878010);
 }
 
+static GEN anomalous_p(size_t i, GEN b) {
+	// p = D * b * (b + 1) + (D + 1) / 4
+	GEN D = disc_table[i]->d;
+	GEN middle = mulii(D, b);
+	GEN last = divis(addis(D, 1), 4);
+	return addii(addii(mulii(middle, b), middle), last);
+}
+
+static bool anomalous_usable(size_t i, GEN p) {
+	return isprime(p) && kronecker(disc_table[i]->alpha, p);
+}
+
 static GEN anomalous_prime(size_t i, unsigned long bits) {
 	GEN D = disc_table[i]->d;
 
 	pari_sp ltop = avma;
 	GEN last = divis(addis(D, 1), 4);
-	GEN lower = divii(subii(int2n(bits - 1), last), D);
-	GEN upper = divii(subii(int2n(bits), last), D);
-
-	GEN lower_bound = gceil(
-	    gdiv(gsub(gsqrt(addis(mulis(lower, 4), 1), BIGDEFAULTPREC * 2), gen_1),
-	         gen_2));
-	GEN upper_bound = gfloor(
-	    gdiv(gsub(gsqrt(addis(mulis(upper, 4), 1), BIGDEFAULTPREC * 2), gen_1),
-	         gen_2));
-
-	GEN range = gtovec0(gen_0, 2);
-	gel(range, 1) = lower_bound;
-	gel(range, 2) = upper_bound;
-	GEN first, middle;
-	GEN p, b;
+	// The b, for which p has exactly the bits: b * (b + 1) in [lower, upper].
+	GEN lower = subii(int2n(bits - 1), last);
+	GEN upper = subii(subis(int2n(bits), 1), last);
+	if (signe(upper) < 0) {
+		avma = ltop;
+		return NULL;
+	}
+	GEN lower_bound = gen_0;
+	if (signe(lower) > 0) {
+		lower = divii(addii(lower, subis(D, 1)), D);
+		GEN root = addis(sqrti(subis(addis(shifti(lower, 2), 1), 1)), 1);
+		lower_bound = shifti(root, -1);
+	}
+	upper = divii(upper, D);
+	GEN upper_bound =
+	    shifti(subis(sqrti(addis(shifti(upper, 2), 1)), 1), -1);
+
+	GEN width = subii(upper_bound, lower_bound);
+	if (cmpis(width, 1000) < 0) {
+		// There might not be any usable prime in such a small range.
+		bool found = false;
+		for (GEN b = lower_bound; !found && cmpii(b, upper_bound) <= 0;
+		     b = addis(b, 1)) {
+			found = anomalous_usable(i, anomalous_p(i, b));
+		}
+		if (!found) {
+			avma = ltop;
+			return NULL;
+		}
+	}
 
+	GEN range = mkvec2(lower_bound, upper_bound);
+	GEN p;
 	pari_sp btop = avma;
 	do {
-		b = genrand(range);
-		middle = mulii(D, b);
-		first = mulii(middle, b);
-		p = addii(addii(first, middle), last);
-		gerepileall(btop, 2, &p, &last);
-	} while (!isprime(p));
+		p = anomalous_p(i, genrand(range));
+		p = gerepileupto(btop, p);
+	} while (!anomalous_usable(i, p));
 
 	return gerepilecopy(ltop, p);
 }
@@ -93,14 +119,13 @@ GENERATOR(anomalous_gen_field) {
 	size_t i = *(size_t *)args->args;
 
 	// find suitable prime field
-	pari_sp ltop = avma;
-	GEN p;
-	do {
-		p = anomalous_prime(i, cfg->bits);
-		gerepileall(ltop, 1, &p);
-	} while (!kronecker(disc_table[0]->alpha, p));
+	GEN p = anomalous_prime(i, cfg->bits);
+	if (!p) {
+		fprintf(err, "There is no anomalous curve of this size.\n");
+		return INT_MIN;
+	}
 
-	curve->field = gerepilecopy(ltop, p);
+	curve->field = p;
 	return 1;
 }
 
-- 
2.43.0


From 6d3016addad40b50d3802d3df4e1d232eb215835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 22/56] fix: output stays valid when generation fails

---
 src/exhaustive/exhaustive.c | 4 ++--
 src/gen/field.c             | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..1649cd7 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -476,10 +476,10 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		debug_log_end("Generated new curve");
 
-		output_o(curve);
-		if (i != cfg->count - 1) {
+		if (i != 0) {
 			output_o_separator();
 		}
+		output_o(curve);
 		curve_free(&curve);
 	}
 	output_o_end();
diff --git a/src/gen/field.c b/src/gen/field.c
index 7bdfe28..5bfb176 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -16,7 +16,7 @@ static GEN field_binaryr(unsigned long bits) {
 	} else {
 		fprintf(err,
 		        "Unable to find a suitable binary field. Use an explicit one.");
-		exit(1);
+		return NULL;
 	}
 }
 
@@ -27,6 +27,7 @@ GENERATOR(field_gen_random) {
 			return 1;
 		case FIELD_BINARY:
 			curve->field = field_binaryr(cfg->bits);
+			if (!curve->field) return INT_MIN;
 			return 1;
 		default:
 			return INT_MIN; /* NOT REACHABLE */
-- 
2.43.0


From 62e30957277d0448ad26b34472db35822e1310e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 23/56] fix: points at infinity as random points or as a
 generator

---
 src/gen/gens.c  | 1 +
 src/gen/point.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..c16e36e 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -69,6 +69,7 @@ GENERATOR(gens_gen_cofactor) {
 
 		if (dvdiu(gen_order, cofactor)) {
 			GEN res = diviuexact(gen_order, cofactor);
+			if (!equalii(order, res)) continue;
 			p = point_new();
 			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
 			p->order = res;
diff --git a/src/gen/point.c b/src/gen/point.c
index 6bf0666..c2fa3f1 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -9,10 +9,11 @@
 #include "util/random.h"
 
 GENERATOR(point_gen_random) {
+	if (curve->ngens == 0) return 1;
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
+	GEN mul = random_range(gen_1, subgroup->generator->order);
 	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
 	point->point = p;
@@ -25,6 +26,7 @@ GENERATOR(point_gen_random) {
 
 GENERATOR(points_gen_random) {
 	HAS_ARG(args);
+	if (curve->ngens == 0) return 1;
 
 	size_t npoints = *(size_t *)args->args;
 	size_t npoints_per_gen[curve->ngens];
-- 
2.43.0


From 3c9e00a6ff50643bcd2976ff8364900260263c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 24/56] fix: warn about the order options a seed algorithm
 ignores

---
 src/exhaustive/exhaustive.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 1649cd7..7c2ae95 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -47,24 +47,6 @@ static void exhaustive_ginit(gen_f *generators) {
 	GET(field);
 
 	if (GET_BOOL(seed_algo)) {
-		if (GET_BOOL(prime)) {
-			generators[OFFSET_ORDER] = &order_gen_prime;
-		} else if (GET_BOOL(cofactor)) {
-			generators[OFFSET_ORDER] = &order_gen_cofactor;
-		} else if (GET_BOOL(smooth)) {
-			generators[OFFSET_ORDER] = &order_gen_smooth;
-		} else {
-			generators[OFFSET_ORDER] = &order_gen_any;
-		}
-
-		if (GET_BOOL(unique)) {
-			generators[OFFSET_GENERATORS] = &gens_gen_one;
-		} else if (GET_BOOL(cofactor)) {
-			generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
-		} else {
-			generators[OFFSET_GENERATORS] = &gens_gen_any;
-		}
-
 		switch (cfg->seed_algo) {
 			case SEED_ANSI: {
 				// setup ANSI X9.62 generators
@@ -87,6 +69,24 @@ static void exhaustive_ginit(gen_f *generators) {
 				}
 				generators[OFFSET_A] = &gen_skip;
 				generators[OFFSET_B] = &ansi_gen_equation;
+
+				if (GET_BOOL(prime)) {
+					generators[OFFSET_ORDER] = &order_gen_prime;
+				} else if (GET_BOOL(cofactor)) {
+					generators[OFFSET_ORDER] = &order_gen_cofactor;
+				} else if (GET_BOOL(smooth)) {
+					generators[OFFSET_ORDER] = &order_gen_smooth;
+				} else {
+					generators[OFFSET_ORDER] = &order_gen_any;
+				}
+
+				if (GET_BOOL(unique)) {
+					generators[OFFSET_GENERATORS] = &gens_gen_one;
+				} else if (GET_BOOL(cofactor)) {
+					generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
+				} else {
+					generators[OFFSET_GENERATORS] = &gens_gen_any;
+				}
 			} break;
 			case SEED_BRAINPOOL: {
 				GET(seed);
-- 
2.43.0


From ef2e07b30ec97777b6ccc109a0e7f33234617d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 25/56] fix: refuse cofactors and smoothness bounds that cannot
 be met

---
 src/io/cli.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/cli.c b/src/io/cli.c
index 1854975..7223c86 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -399,11 +399,17 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			cfg->smooth = true;
 			SET(smooth);
 			cfg->smooth_value = strtol(arg, NULL, 10);
+			if (cfg->smooth_value < 1) {
+				argp_failure(state, 1, 0, "Wrong smoothness bound = %s", arg);
+			}
 			break;
 		case OPT_COFACTOR:
 			cfg->cofactor = true;
 			SET(cofactor);
 			cfg->cofactor_value = strtol(arg, NULL, 10);
+			if (cfg->cofactor_value < 1) {
+				argp_failure(state, 1, 0, "Wrong cofactor value = %s", arg);
+			}
 			break;
 		case OPT_KOBLITZ:
 			cfg->koblitz = true;
-- 
2.43.0


From e8ac4377d1320bd78288864f7c35a2199b54a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 26/56] fix: refuse two different seed algorithms

---
 src/io/cli.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index 7223c86..f9ea0a4 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -150,6 +150,14 @@ static unsigned long cli_parse_time(const char *str, struct argp_state *state) {
 	return read;
 }
 
+static void cli_seed_algo(seed_e seed_algo, struct argp_state *state) {
+	if (cfg->seed_algo != SEED_NONE && cfg->seed_algo != seed_algo) {
+		argp_failure(state, 1, 0,
+		             "Only one generation method can be specified.");
+	}
+	cfg->seed_algo = seed_algo;
+}
+
 static void cli_end(struct argp_state *state) {
 	// validate all option states here.
 	// Only one field
@@ -308,7 +316,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_ANSI:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_ANSI;
+			cli_seed_algo(SEED_ANSI, state);
 			SET(seed_algo);
 			if (arg) {
 				if (!ansi_seed_valid(arg)) {
@@ -323,7 +331,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_BRAINPOOL:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL;
+			cli_seed_algo(SEED_BRAINPOOL, state);
 			SET(seed_algo);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
@@ -338,13 +346,13 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_NUMS:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_NUMS;
+			cli_seed_algo(SEED_NUMS, state);
 			SET(seed_algo);
 			break;
 		case OPT_BRAINPOOL_RFC:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL_RFC;
+			cli_seed_algo(SEED_BRAINPOOL_RFC, state);
 			SET(seed_algo);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
-- 
2.43.0


From 3e24edae445173ce527215a23450dffa597f287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 27/56] fix: timeouts interrupted malloc

---
 src/util/timeout.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index 6fdbf16..d5bb32f 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -3,6 +3,7 @@
  * Copyright (C) 2017-2018 J08nY
  */
 #include "timeout.h"
+#include <pari/pari.h>
 #include "util/memory.h"
 
 __thread sigjmp_buf timeout_ptr;
@@ -11,6 +12,12 @@ __thread timer_t *timeout_timer;
 __thread struct sigevent *sevp;
 
 void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
+	if (PARI_SIGINT_block) {
+		// Inside of malloc or the like, PARI raises it again when it is done.
+		PARI_SIGINT_pending = signum;
+		return;
+	}
+
 	sigset_t mask;
 	sigemptyset(&mask);
 	sigaddset(&mask, SIGALRM);
-- 
2.43.0


From 3fa0ac5884d6ebad06d94916e94d448be1f15229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 28/56] fix: embedding degree when the characteristic divides
 the order

---
 src/gen/gens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index c16e36e..09db08a 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -105,7 +105,7 @@ CHECK(gens_check_anomalous) {
 }
 
 GEN gens_get_embedding(GEN prime, GEN generator_order) {
-	if (gequal(prime, generator_order)) {
+	if (dvdii(generator_order, prime)) {
 		return stoi(0);
 	}
 	return znorder(mkintmod(prime, generator_order), NULL);
-- 
2.43.0


From 578fa2cead5ef57485b8f6881bc4e62eaee63870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 29/56] fix: numbers of one more bit were taken as input

---
 src/io/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.c b/src/io/input.c
index c567380..0459b8b 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -43,7 +43,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 	// check bitsize here
 	GEN size = int2n(bits);
-	if (cmpii(in, size) <= 0) {
+	if (abscmpii(in, size) < 0) {
 		return gerepileupto(ltop, in);
 	} else {
 		fprintf(err, "Number too big(> %ld bits).\n", bits);
-- 
2.43.0


From 4bbbce12482f7fe1bba004138d0f621306e1800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 30/56] fix: the binary field of size 1060 had no polynomial
 (crash)

---
 src/math/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/poly.c b/src/math/poly.c
index 0a042c4..5bc2fe1 100644
--- a/src/math/poly.c
+++ b/src/math/poly.c
@@ -963,7 +963,7 @@ static polynomial_t ansi_trinomials[] = {
     {1028, 119}, {1029, 98},  {1030, 93},  {1031, 68},  {1033, 108},
     {1034, 75},  {1036, 411}, {1039, 21},  {1041, 412}, {1042, 439},
     {1044, 41},  {1047, 10},  {1049, 141}, {1050, 159}, {1052, 291},
-    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1062, 49},
+    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1060, 439}, {1062, 49},
     {1063, 168}, {1065, 463}, {1071, 7},   {1078, 361}, {1079, 230},
     {1081, 24},  {1082, 407}, {1084, 189}, {1085, 62},  {1086, 189},
     {1087, 112}, {1089, 91},  {1090, 79},  {1092, 23},  {1094, 57},
-- 
2.43.0


From 257540ea6b56a96ab1cb472db1de53bb5f9621e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 31/56] fix: the bit vector of an empty bit string is empty

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 5e11583..4d35d20 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -215,7 +215,7 @@ unsigned char *bits_to_raw(const bits_t *bits) {
 size_t bits_to_rawlen(const bits_t *bits) { return BYTE_LEN(bits->bitlen); }
 
 GEN bits_to_bitvec(const bits_t *bits) {
-	GEN bitvec = gtovecsmall0(gen_0, bits->bitlen);
+	GEN bitvec = zero_zv((long)bits->bitlen);
 	for (size_t i = 0; i < bits->bitlen; ++i) {
 		if (GET_BIT(bits->bits, i) != 0) gel(bitvec, i + 1) = (GEN)1;
 	}
-- 
2.43.0


From 1866de49af90225adc9363c9ea854a5e8ce56000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 32/56] fix: a run whose output cannot be written reports
 failure

---
 src/ecgen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecgen.c b/src/ecgen.c
index 307960e..9444fd5 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -98,6 +98,12 @@ int quit(int status) {
 
 	timeout_quit();
 
+	// A curve that could not be written was not generated.
+	if (out && ferror(out)) {
+		fprintf(stderr, "Failed to write the output.\n");
+		status = EXIT_FAILURE;
+	}
+
 	output_quit();
 	input_quit();
 
-- 
2.43.0


From 8f08634258ceb707b5232164509cd7dbc3685ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:58 +0000
Subject: [PATCH 33/56] fix: negative input was taken for the end of input or
 ignored (p, exponents)

---
 src/gen/field.c | 10 +++++-----
 src/io/input.c  |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gen/field.c b/src/gen/field.c
index 5bfb176..862dfb2 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -39,10 +39,10 @@ GENERATOR(field_gen_input) {
 	switch (cfg->field) {
 		case FIELD_PRIME: {
 			GEN p = input_prime("p:", cfg->bits);
-			if (gequalm1(p)) {
+			if (p == gen_m1) {
 				avma = ltop;
 				return 0;
-			} else if (equalii(p, gen_m2)) {
+			} else if (p == gen_m2) {
 				avma = ltop;
 				return INT_MIN;
 			}
@@ -65,7 +65,7 @@ GENERATOR(field_gen_input) {
 				avma = ltop;
 				return INT_MIN;
 			}
-			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
+			if (signe(e1) < 0 || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
@@ -74,7 +74,7 @@ GENERATOR(field_gen_input) {
 				avma = ltop;
 				return INT_MIN;
 			}
-			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
+			if (signe(e2) < 0 || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
@@ -83,7 +83,7 @@ GENERATOR(field_gen_input) {
 				avma = ltop;
 				return INT_MIN;
 			}
-			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
+			if (signe(e3) < 0 || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
diff --git a/src/io/input.c b/src/io/input.c
index 0459b8b..0db6692 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -53,7 +53,8 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 GEN input_prime(const char *prompt, unsigned long bits) {
 	GEN read = input_i(prompt, bits);
-	if (equalii(read, gen_m1) || equalii(read, gen_m2)) {
+	// the values themselves are not prime, the objects mean a failure
+	if (read == gen_m1 || read == gen_m2) {
 		return read;
 	} else {
 		if (isprime(read)) {
-- 
2.43.0


From 21ef2ea88fdd98ab8f47144861dc1b3d9767b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 34/56] fix: input that is not a number was taken for zero

---
 src/io/input.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/io/input.c b/src/io/input.c
index 0db6692..7aa82e8 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -10,6 +10,23 @@
 FILE *in;
 int delim;
 
+// decimal, hexadecimal (0x) or binary (0b), nothing but whitespace after it
+static bool is_number(const char *str) {
+	if (*str == '-') {
+		++str;
+	}
+	const char *digits = "0123456789";
+	if (str[0] == '0' && (str[1] == 'x' || str[1] == 'X')) {
+		digits = "0123456789abcdefABCDEF";
+		str += 2;
+	} else if (str[0] == '0' && (str[1] == 'b' || str[1] == 'B')) {
+		digits = "01";
+		str += 2;
+	}
+	size_t len = strspn(str, digits);
+	return len > 0 && str[len + strspn(str + len, " \t\r\n")] == '\0';
+}
+
 static GEN input_i(const char *prompt, unsigned long bits) {
 	if (prompt && in == stdin) {
 		fprintf(err, "%s ", prompt);
@@ -32,6 +49,14 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 		free(line);
 		return gen_m1;
 	}
+	if (line[len - 1] == delim) {
+		line[len - 1] = 0;
+	}
+	if (!is_number(line)) {
+		fprintf(err, "Not a number.\n");
+		free(line);
+		return gen_m1;
+	}
 	bool sign = line[0] == '-';
 
 	pari_sp ltop = avma;
-- 
2.43.0


From d9ed44ad8bbd1a06039d0c49601953af766bad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:48 +0000
Subject: [PATCH 35/56] fix: ANSI seeds of half bytes were not hashed as
 printed

---
 src/exhaustive/ansi.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index aa546b4..ee018b5 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -22,6 +22,15 @@ bool ansi_seed_valid(const char *hex_str) {
 	return seed && strlen(seed) >= 40;
 }
 
+static bits_t *seed_bits(const char *hex_str) {
+	bits_t *result = bits_from_hex(str_is_hex(hex_str));
+	// the seed is hashed and printed in whole bytes
+	if (result->bitlen % 8 != 0) {
+		bits_lengthenz(result, 8 - (long)(result->bitlen % 8));
+	}
+	return result;
+}
+
 static void seed_hash(seed_t *seed) {
 	seed->hash20 = try_malloc(20);
 	bits_sha1(seed->seed, seed->hash20);
@@ -47,7 +56,7 @@ GENERATOR(ansi_gen_seed_random) {
 
 GENERATOR(ansi_gen_seed_argument) {
 	seed_t *seed = ansi_new();
-	seed->seed = bits_from_hex(str_is_hex(cfg->seed));
+	seed->seed = seed_bits(cfg->seed);
 	seed_hash(seed);
 	seed_tsh(seed);
 	curve->seed = seed;
@@ -66,7 +75,7 @@ GENERATOR(ansi_gen_seed_input) {
 	}
 
 	seed_t *seed = ansi_new();
-	seed->seed = bits_from_hex(str_is_hex(cstr));
+	seed->seed = seed_bits(cstr);
 	seed_hash(seed);
 	seed_tsh(seed);
 	curve->seed = seed;
-- 
2.43.0


From a7c13970fb457db6968fd690c687e11f9b18ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 36/56] fix: NUMS curves after the first one of a run were
 different

---
 src/exhaustive/exhaustive.c |  2 +-
 src/exhaustive/nums.c       | 36 ++++++++++++++++--------------------
 src/exhaustive/nums.h       |  9 +++++++++
 3 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 7c2ae95..c419745 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -126,7 +126,7 @@ static void exhaustive_ginit(gen_f *generators) {
 				generators[OFFSET_GENERATORS] = &brainpool_gen_gens;
 			} break;
 			case SEED_NUMS: {
-				generators[OFFSET_SEED] = &gen_skip;
+				generators[OFFSET_SEED] = &nums_gen_seed;
 				generators[OFFSET_FIELD] = &nums_gen_field;
 				generators[OFFSET_A] = &nums_gen_a;
 				generators[OFFSET_B] = &nums_gen_b;  // TODO: Missing transformation from b -> -b.
diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index 7e41938..992650d 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -27,36 +27,31 @@ GENERATOR(nums_gen_a) {
 }
 
 static GEN b = NULL;
-static curve_t *curve_b = NULL;
+
+GENERATOR(nums_gen_seed) {
+	// a new curve starts with the first b again
+	nums_quit();
+	return 1;
+}
 
 GENERATOR(nums_gen_b) {
 	pari_sp ltop = avma;
 	if (!b) {
 		b = gclone(gen_1);
 		curve->b = gmodulo(gen_1, curve->field);
-		curve_b = curve;
 		return 1;
 	} else {
-		if (curve_b == curve) {
-			// use b, add 1 to it, store it back modified,
-			GEN bn;
-			if (equaliu(b, 1)) {
-				bn = addiu(b, 2);
-			} else {
-				bn = addiu(b, 1);
-			}
-			gunclone(b);
-			b = gclone(bn);
-			curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
-			return 1;
+		// use b, add 1 to it, store it back modified,
+		GEN bn;
+		if (equaliu(b, 1)) {
+			bn = addiu(b, 2);
 		} else {
-			// dont use b, regenerate it,
-			gunclone(b);
-			b = gclone(gen_1);
-			curve->b = gerepilecopy(ltop, gmodulo(gen_1, curve->field));
-			curve_b = curve;
-			return 1;
+			bn = addiu(b, 1);
 		}
+		gunclone(b);
+		b = gclone(bn);
+		curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
+		return 1;
 	}
 }
 
@@ -108,4 +103,5 @@ void nums_quit(void) {
 	if (b && isclone(b)) {
 		gunclone(b);
 	}
+	b = NULL;
 }
\ No newline at end of file
diff --git a/src/exhaustive/nums.h b/src/exhaustive/nums.h
index 40cb1b4..aea86ff 100644
--- a/src/exhaustive/nums.h
+++ b/src/exhaustive/nums.h
@@ -10,6 +10,15 @@
 
 #include "misc/types.h"
 
+/**
+ * @brief
+ * @param curve
+ * @param args
+ * @param state
+ * @return
+ */
+GENERATOR(nums_gen_seed);
+
 /**
  * @brief
  * @param curve
-- 
2.43.0


From 5cd1c6d4bec3f6540de838fc22a1ba6d4720c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:46 +0000
Subject: [PATCH 37/56] fix: prime CM orders failed when there were no small
 primes to use

---
 src/cm/cm_prime.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 3904f7c..1b7d2c1 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -45,7 +45,13 @@ static size_t add_primes(GEN r, GEN order, GEN **primes, size_t nprimes) {
 		}
 	}
 
-	*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	if (nprimes == 0) {
+		// None found, the next call allocates again.
+		try_free(*primes);
+		*primes = NULL;
+	} else {
+		*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	}
 
 	return nprimes;
 }
-- 
2.43.0


From aff360d21508d8e178b5f805860b8733df4dc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 38/56] fix: CM of order 5 used a singular curve over F_3

---
 src/cm/cm_prime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 1b7d2c1..5cef5a8 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -112,7 +112,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 				}
 				GEN pp1 = addii(addis(qdisc->order, 1), x);
 				GEN pp2 = subii(addis(qdisc->order, 1), x);
-				if (isprime(pp1)) {
+				if (cmpis(pp1, 3) > 0 && isprime(pp1)) {
 					qdisc->p = pp1;
 					qdisc->D = pprod;
 					qdisc->t = x;
@@ -120,7 +120,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 					debug_log("good D %Pi", pprod);
 					return;
 				}
-				if (isprime(pp2)) {
+				if (cmpis(pp2, 3) > 0 && isprime(pp2)) {
 					qdisc->p = pp2;
 					qdisc->D = pprod;
 					qdisc->t = x;
-- 
2.43.0


From 3ede579b4d5ee56667d4ef018e156deab25bc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 39/56] fix: KSS16 and KSS40 used one of four twists only

---
 src/cm/cm_any.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index 51488b0..45c8508 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -217,6 +217,26 @@ GEN cm_construct_curve_subgroup(GEN r, GEN d, GEN p) {
 		GEN root = gel(roots, i);
 		debug_log("trying root = %Pi", root);
 
+		if (equalis(d, -4)) {
+			// j = 1728, there are four twists and not all might have the
+			// subgroup.
+			GEN g = gen_2;
+			while (kronecker(g, p) != -1) {
+				g = addis(g, 1);
+			}
+			GEN a = mkintmod(gen_1, p);
+			for (long j = 0; j < 4; ++j) {
+				GEN e = ellinit(mkvec2(a, gen_0), p, 0);
+				if (dvdii(ellff_get_card(e), r)) {
+					debug_log("Got curve.");
+					return gerepilecopy(ltop, e);
+				}
+				a = gmul(a, g);
+			}
+			avma = btop;
+			continue;
+		}
+
 		GEN e = ellinit(ellfromj(mkintmod(root, p)), p, 0);
 		pari_CATCH(e_TYPE) { avma = btop; continue; }
 		pari_TRY { checkell(e); };
-- 
2.43.0


From c563894775b9cbb8f99ca9b49ec3db89eb1dd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 40/56] fix: ranges without primes ended with a false out of
 memory error

---
 src/invalid/invalid.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index f2abacf..5e087be 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -109,10 +109,8 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 		}
 	}
 	/* realloc to smaller size, to tightly fit all generated primes */
-	pari_ulong *new_primes =
-	    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
-	if (new_primes) {
-		*primes = new_primes;
+	if (nprimes > 0) {
+		*primes = try_realloc(*primes, nprimes * sizeof(pari_ulong));
 	}
 	avma = ltop;
 
-- 
2.43.0


From cedcc56461347785f16415c3e1b8d81808841f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 41/56] fix: twists of binary Koblitz curves got the order of
 the original

---
 src/gen/order.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index f45b6c4..369419d 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,10 +104,11 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	// The known orders are those of the binary Koblitz curves.
+	// The known orders are those of the binary Koblitz curves. The twist of one
+	// is not necessarily one.
 	GEN order = NULL;
-	if (cfg->field == FIELD_BINARY) {
-		order = koblitz_get_order(cfg->bits, itou(curve->a));
+	if (cfg->field == FIELD_BINARY && koblitz_is_curve(curve)) {
+		order = koblitz_get_order(cfg->bits, itou(field_elementi(curve->a)));
 	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
-- 
2.43.0


From f8316ab08f892ffdbd72bcf35f5ee3565679b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 42/56] fix: P1363 class invariants for D = 5 mod 8 (K is 4)

---
 src/cm/p1363.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/p1363.c b/src/cm/p1363.c
index fad2a05..03a6752 100644
--- a/src/cm/p1363.c
+++ b/src/cm/p1363.c
@@ -238,7 +238,7 @@ static void p1363_K(GEN D, p1363_form_t *form) {
 			form->K = 1;
 			break;
 		case 5:
-			form->K = 5;
+			form->K = 4;
 			break;
 		default:
 			pari_err_DOMAIN("p1636_I", "D", "==", stoi(8), D);
-- 
2.43.0


From a60fcf6694173d23278154ed5f58bd9002dfbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 43/56] fix: P1363 class invariants for I = 0 overflowed the
 stack

---
 src/cm/p1363.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/p1363.c b/src/cm/p1363.c
index 03a6752..7c28ae3 100644
--- a/src/cm/p1363.c
+++ b/src/cm/p1363.c
@@ -376,7 +376,7 @@ GEN p1363_invariant(GEN D, p1363_form_t *form, long precision) {
 	GEN lmbl = gpow(form->lambda, negi(bl), precision);
 	debug_log("lmbl = %Ps\n", lmbl);
 
-	GEN mi6 = gneg(mkfrac(stoi(form->I), stoi(6)));
+	GEN mi6 = gneg(gdivgs(stoi(form->I), 6));
 	GEN powmi6 = gpow(gen_2, mi6, precision);
 	debug_log("powmi6 = %Ps\n", powmi6);
 
-- 
2.43.0


From eac1e9967c800afb2f647652fe021ad31d3cd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 44/56] fix: the number of reduced forms can exceed the vector
 of them

---
 src/cm/p1363.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cm/p1363.c b/src/cm/p1363.c
index 7c28ae3..3eeafeb 100644
--- a/src/cm/p1363.c
+++ b/src/cm/p1363.c
@@ -9,10 +9,8 @@
 static GEN p1363_group(GEN D) {
 	pari_sp ltop = avma;
 	GEN s = mpfloor(sqrtr(rdivis(D, 3, BIGDEFAULTPREC)));
-	long llen = itos(s) * 2;
-	GEN l = gtovec0(gen_0, llen);
+	GEN l = cgetg(1, t_VEC);
 
-	long j = 1;
 	GEN B = gen_0;
 	for (; cmpii(B, s) <= 0; B = addii(B, gen_1)) {
 		GEN B2 = sqri(B);
@@ -34,20 +32,20 @@ static GEN p1363_group(GEN D) {
 					gel(v, 1) = A;
 					gel(v, 2) = B;
 					gel(v, 3) = C;
-					gel(l, j++) = v;
+					l = vec_append(l, v);
 					if (cmpii(gen_0, lower) < 0 && cmpii(lower, A) < 0 &&
 					    cmpii(A, C) < 0) {
 						GEN n = gtovec0(gen_0, 3);
 						gel(n, 1) = A;
 						gel(n, 2) = negi(B);
 						gel(n, 3) = C;
-						gel(l, j++) = n;
+						l = vec_append(l, n);
 					}
 				}
 			}
 		}
 	}
-	return gerepilecopy(ltop, vec_shorten(l, j - 1));
+	return gerepilecopy(ltop, l);
 }
 
 static size_t p1363_num(GEN group) { return (size_t)glength(group); }
-- 
2.43.0


From 1f1df8d37b808306d4d7c1967b87e7924cb33980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 45/56] fix: refuse malformed, negative and too large numbers
 as option values

---
 src/io/cli.c | 114 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 73 insertions(+), 41 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index f9ea0a4..c56ff34 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -3,6 +3,9 @@
  * Copyright (C) 2017-2018 J08nY
  */
 #include "cli.h"
+#include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 #include <regex.h>
 #include <string.h>
 #include "exhaustive/ansi.h"
@@ -113,41 +116,67 @@ bool cli_init() {
 	return true;
 }
 
+/**
+ * Parse a decimal number, at most <code>max</code>, which only a single
+ * character may follow, if <code>suffix</code> is given.
+ */
+static bool cli_parse_number(const char *str, unsigned long max,
+                             unsigned long *number, char *suffix) {
+	char *end = NULL;
+	if (!isdigit((unsigned char)*str)) {
+		return false;
+	}
+	errno = 0;
+	*number = strtoul(str, &end, 10);
+	if (errno == ERANGE || *number > max) {
+		return false;
+	}
+	if (suffix) {
+		*suffix = *end;
+		if (*end != '\0') ++end;
+	}
+	return *end == '\0';
+}
+
 static unsigned long cli_parse_memory(const char *str,
                                       struct argp_state *state) {
-	char *suffix = NULL;
-	unsigned long read = strtoul(str, &suffix, 10);
-	if (suffix == str) {
-		argp_failure(state, 1, 0, "Wrong memory value.");
+	char suffix = 0;
+	unsigned long read = 0;
+	unsigned long unit = 1;
+	bool valid = cli_parse_number(str, LONG_MAX, &read, &suffix);
+	if (suffix == 'k' || suffix == 'K') {
+		unit = 1000;
+	} else if (suffix == 'm' || suffix == 'M') {
+		unit = 1000000;
+	} else if (suffix == 'g' || suffix == 'G') {
+		unit = 1000000000;
+	} else if (suffix) {
+		valid = false;
 	}
-	if (suffix) {
-		if (*suffix == 'k' || *suffix == 'K') {
-			read *= 1000;
-		} else if (*suffix == 'm' || *suffix == 'M') {
-			read *= 1000000;
-		} else if (*suffix == 'g' || *suffix == 'G') {
-			read *= 1000000000;
-		}
+	if (!valid || read > LONG_MAX / unit) {
+		argp_failure(state, 1, 0, "Wrong memory value.");
 	}
-	return read;
+	return read * unit;
 }
 
 static unsigned long cli_parse_time(const char *str, struct argp_state *state) {
-	char *suffix = NULL;
-	unsigned long read = strtoul(str, &suffix, 10);
-	if (suffix == str) {
-		argp_failure(state, 1, 0, "Wrong time value.");
+	char suffix = 0;
+	unsigned long read = 0;
+	unsigned long unit = 1;
+	bool valid = cli_parse_number(str, LONG_MAX, &read, &suffix);
+	if (suffix == 'm' || suffix == 'M') {
+		unit = 60;
+	} else if (suffix == 'h' || suffix == 'H') {
+		unit = 3600;
+	} else if (suffix == 'd' || suffix == 'D') {
+		unit = 86400;
+	} else if (suffix && suffix != 's' && suffix != 'S') {
+		valid = false;
 	}
-	if (suffix) {
-		if (*suffix == 'm' || *suffix == 'M') {
-			read *= 60;
-		} else if (*suffix == 'h' || *suffix == 'H') {
-			read *= 3600;
-		} else if (*suffix == 'd' || *suffix == 'D') {
-			read *= 86400;
-		}
+	if (!valid || read > LONG_MAX / unit) {
+		argp_failure(state, 1, 0, "Wrong time value.");
 	}
-	return read;
+	return read * unit;
 }
 
 static void cli_seed_algo(seed_e seed_algo, struct argp_state *state) {
@@ -248,6 +277,7 @@ static void cli_end(struct argp_state *state) {
 }
 
 error_t cli_parse(int key, char *arg, struct argp_state *state) {
+	unsigned long number = 0;
 	switch (key) {
 		/* Field options */
 		case OPT_FP:
@@ -371,7 +401,10 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 
 			/* Generation options */
 		case OPT_COUNT:
-			cfg->count = strtoul(arg, NULL, 10);
+			if (!cli_parse_number(arg, LONG_MAX, &number, NULL) || !number) {
+				argp_failure(state, 1, 0, "Wrong count = %s", arg);
+			}
+			cfg->count = (long)number;
 			SET(count);
 			break;
 		case OPT_RANDOM:
@@ -406,29 +439,28 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_SMOOTH:
 			cfg->smooth = true;
 			SET(smooth);
-			cfg->smooth_value = strtol(arg, NULL, 10);
-			if (cfg->smooth_value < 1) {
+			if (!cli_parse_number(arg, LONG_MAX, &number, NULL) || !number) {
 				argp_failure(state, 1, 0, "Wrong smoothness bound = %s", arg);
 			}
+			cfg->smooth_value = (long)number;
 			break;
 		case OPT_COFACTOR:
 			cfg->cofactor = true;
 			SET(cofactor);
-			cfg->cofactor_value = strtol(arg, NULL, 10);
-			if (cfg->cofactor_value < 1) {
+			if (!cli_parse_number(arg, LONG_MAX, &number, NULL) || !number) {
 				argp_failure(state, 1, 0, "Wrong cofactor value = %s", arg);
 			}
+			cfg->cofactor_value = (long)number;
 			break;
 		case OPT_KOBLITZ:
 			cfg->koblitz = true;
 			SET(koblitz);
 			if (arg) {
-				cfg->koblitz_value = strtol(arg, NULL, 10);
-				SET(koblitz_value);
-				if (cfg->koblitz_value != 0 && cfg->koblitz_value != 1) {
-					argp_failure(state, 1, 0, "Wrong value for a = %li",
-					             cfg->koblitz_value);
+				if (!cli_parse_number(arg, 1, &number, NULL)) {
+					argp_failure(state, 1, 0, "Wrong value for a = %s", arg);
 				}
+				cfg->koblitz_value = (long)number;
+				SET(koblitz_value);
 			}
 			break;
 		case OPT_UNIQUE:
@@ -516,11 +548,12 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 					cfg->threads = (unsigned long)nprocs;
 				}
 			} else {
-				cfg->threads = strtoul(arg, NULL, 10);
-				if (!cfg->threads) {
+				if (!cli_parse_number(arg, LONG_MAX, &number, NULL) ||
+				    !number) {
 					argp_failure(state, 1, 0,
 					             "Invalid number of threads specified.");
 				}
+				cfg->threads = number;
 			}
 			break;
 
@@ -530,11 +563,10 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 				argp_usage(state);
 			}
 
-			char *bits_end = NULL;
-			cfg->bits = strtoul(arg, &bits_end, 10);
-			if (*bits_end != '\0') {
+			if (!cli_parse_number(arg, LONG_MAX, &number, NULL) || !number) {
 				argp_failure(state, 1, 0, "Invalid bit size specified.");
 			}
+			cfg->bits = number;
 			cfg->hex_digits =
 			    2 * (cfg->bits / 8 + (cfg->bits % 8 != 0 ? 1 : 0));
 			break;
-- 
2.43.0


From d467e4c110fdd9140e154e773137643ab398a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:54 +0000
Subject: [PATCH 46/56] fix: refuse point types that only start like one, and
 amounts of other points than random

---
 src/io/cli.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index c56ff34..3320c1b 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -492,21 +492,22 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			SET(metadata);
 			break;
 		case OPT_POINTS: {
-			char *num_end;
-			long amount = strtol(arg, &num_end, 10);
-			cfg->points.amount = (size_t)amount;
-			if (strstr(num_end, "random") == num_end) {
+			// Only random points take an amount.
+			char *num_end = arg + strspn(arg, "0123456789");
+			errno = 0;
+			cfg->points.amount = (size_t)strtoul(arg, NULL, 10);
+			if (strcmp(num_end, "random") == 0 && errno != ERANGE) {
 				cfg->points.type = POINTS_RANDOM;
-			} else if (strstr(num_end, "prime") == num_end) {
+			} else if (strcmp(arg, "prime") == 0) {
 				cfg->points.type = POINTS_PRIME;
-			} else if (strstr(num_end, "all") == num_end) {
+			} else if (strcmp(arg, "all") == 0) {
 				cfg->points.type = POINTS_ALL;
-			} else if (strstr(num_end, "nonprime") == num_end) {
+			} else if (strcmp(arg, "nonprime") == 0) {
 				cfg->points.type = POINTS_NONPRIME;
-			} else if (strstr(num_end, "none") == num_end) {
+			} else if (strcmp(arg, "none") == 0) {
 				cfg->points.type = POINTS_NONE;
 			} else {
-				argp_failure(state, 1, 0, "Unknown point type. %s", num_end);
+				argp_failure(state, 1, 0, "Unknown point type. %s", arg);
 			}
 			SET(points);
 			break;
-- 
2.43.0


From 30e6e07b8347aed40a6de970a569c21f62bb75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:03 +0000
Subject: [PATCH 47/56] fix: draw z of a curve family only when the seed is
 asked to be random

---
 src/exhaustive/exhaustive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index c419745..2c83dc0 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -140,11 +140,11 @@ static void exhaustive_ginit(gen_f *generators) {
 		}
 	} else if (cfg->method == METHOD_FAMILY) {
 		// setup family generators
-		if (GET_BOOL(random)) {
+		GET(random);
+		if (cfg->random & RANDOM_SEED) {
 			generators[OFFSET_SEED] = &family_gen_seed_random;
 		} else {
 			generators[OFFSET_SEED] = &family_gen_seed_input;
-
 		}
 		generators[OFFSET_FIELD] = &family_gen_field;
 		generators[OFFSET_A] = &gen_skip;
-- 
2.43.0


From fb396953a9e8901211d6382da5ff17cca04b39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 48/56] fix: a lone minus was read as the number 0 (JSON)

---
 lib/parson/parson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parson/parson.c b/lib/parson/parson.c
index d0b7819..03753bc 100644
--- a/lib/parson/parson.c
+++ b/lib/parson/parson.c
@@ -839,7 +839,7 @@ static JSON_Value * parse_number_value(const char **string) {
     double number = 0;
     errno = 0;
     number = strtod(*string, &end);
-    if (errno || !is_decimal(*string, end - *string)) {
+    if (errno || end == *string || !is_decimal(*string, end - *string)) {
         return NULL;
     }
     *string = end;
-- 
2.43.0


From 91ecc65e56520e04f2ce5527207cdc492c9f724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:43 +0000
Subject: [PATCH 49/56] fix: the place a timeout jumps to is saved before the
 timer runs

---
 src/util/timeout.c | 14 ++++++++++++++
 src/util/timeout.h | 26 ++++++++++++--------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index d5bb32f..b622209 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -26,6 +26,20 @@ void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	if (timeout_in) siglongjmp(timeout_ptr, 1);
 }
 
+bool timeout_set(unsigned long seconds) {
+	sevp->sigev_notify = SIGEV_THREAD_ID;
+	sevp->sigev_signo = SIGALRM;
+	sevp->sigev_value.sival_int = 0;
+	SIGEV_UN_TID_SYS_GETTID
+	timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);
+	struct itimerspec timer_time = {
+	    .it_interval = {.tv_sec = 0, .tv_nsec = 0},
+	    .it_value = {.tv_sec = (time_t)seconds, .tv_nsec = 0}};
+	timeout_in = true;
+	timer_settime(*timeout_timer, 0, &timer_time, NULL);
+	return false;
+}
+
 void timeout_thread_init() {
 	timeout_timer = try_calloc(sizeof(timer_t));
 	sevp = try_calloc(sizeof(struct sigevent));
diff --git a/src/util/timeout.h b/src/util/timeout.h
index 57e3d22..1c4b0a3 100644
--- a/src/util/timeout.h
+++ b/src/util/timeout.h
@@ -33,6 +33,15 @@ extern __thread bool timeout_in;
 extern __thread timer_t *timeout_timer;
 extern __thread struct sigevent *sevp;
 
+/**
+ * @brief Set the timer of this thread.
+ *
+ * The place to jump to (timeout_ptr) has to be saved before.
+ * @param seconds
+ * @return false, always
+ */
+bool timeout_set(unsigned long seconds);
+
 /**
  * @brief Start a timer that times out after <code>seconds-</code>.
  *
@@ -43,20 +52,9 @@ extern __thread struct sigevent *sevp;
  * <code>timeout_stop</code> when the timed interval ends.
  * @param seconds how long to run the <code>else</code> branch for
  */
-#define timeout_start(seconds)                                \
-	if ((seconds) != 0) {                                     \
-		sevp->sigev_notify = SIGEV_THREAD_ID;                 \
-		sevp->sigev_signo = SIGALRM;                          \
-		sevp->sigev_value.sival_int = 0;                      \
-		SIGEV_UN_TID_SYS_GETTID                               \
-		timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);   \
-		struct itimerspec timer_time = {                      \
-		    .it_interval = {.tv_sec = 0, .tv_nsec = 0},       \
-		    .it_value = {.tv_sec = (seconds), .tv_nsec = 0}}; \
-		timer_settime(*timeout_timer, 0, &timer_time, NULL);  \
-		timeout_in = true;                                    \
-	};                                                        \
-	if ((seconds) != 0 && sigsetjmp(timeout_ptr, 1) == 1)
+#define timeout_start(seconds)                         \
+	if ((seconds) != 0 &&                              \
+	    (sigsetjmp(timeout_ptr, 1) == 1 || timeout_set(seconds)))
 
 /**
  * @brief Stop a timer.
-- 
2.43.0


From fadbce46e2b4ed7e276ff1345e870fd9e437f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 50/56] fix: a timeout while generators are computed left an
 incomplete list of them

---
 src/gen/gens.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index 09db08a..9914ff3 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -20,12 +20,13 @@ static subgroup_t *gens_point(GEN point, const curve_t *curve) {
 }
 
 static int gens_put(curve_t *curve, GEN generators, long len) {
-	curve->generators = subgroups_new((size_t)len);
-	curve->ngens = (size_t)len;
-
+	// Set only when complete, a timeout can end this at any point.
+	subgroup_t **subgroups = subgroups_new((size_t)len);
 	for (long i = 1; i <= len; ++i) {
-		curve->generators[i - 1] = gens_point(gel(generators, i), curve);
+		subgroups[i - 1] = gens_point(gel(generators, i), curve);
 	}
+	curve->ngens = (size_t)len;
+	curve->generators = subgroups;
 	return 1;
 }
 
@@ -79,14 +80,15 @@ GENERATOR(gens_gen_cofactor) {
 	}
 
 	if (p) {
-		curve->ngens = (size_t)(len + 1);
-		curve->generators = subgroups_new(curve->ngens);
+		subgroup_t **subgroups = subgroups_new((size_t)(len + 1));
 		for (long i = 1; i <= len; ++i) {
-			curve->generators[i] = gens_point(gel(generators, i), curve);
+			subgroups[i] = gens_point(gel(generators, i), curve);
 		}
 		subgroup_t *sub = subgroup_new();
 		sub->generator = p;
-		curve->generators[0] = sub;
+		subgroups[0] = sub;
+		curve->ngens = (size_t)(len + 1);
+		curve->generators = subgroups;
 		return 1;
 	} else {
 		avma = ltop;
-- 
2.43.0


From 9505af53ef2a5003e769536bb71916fb5c126217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:58 +0000
Subject: [PATCH 51/56] fix: a timeout left PARI with threads and error
 handlers of what was abandoned

---
 src/util/timeout.c | 28 ++++++++++++++++++++++------
 src/util/timeout.h | 11 ++++++++++-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index b622209..9a030f6 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -4,17 +4,28 @@
  */
 #include "timeout.h"
 #include <pari/pari.h>
+#include <pari/paripriv.h>
 #include "util/memory.h"
 
 __thread sigjmp_buf timeout_ptr;
 __thread bool timeout_in = false;
 __thread timer_t *timeout_timer;
 __thread struct sigevent *sevp;
+static __thread struct pari_evalstate timeout_state;
+static __thread jmp_buf *timeout_iferr;
+
+static void timeout_arm(unsigned long seconds, long nanoseconds) {
+	struct itimerspec timer_time = {
+	    .it_interval = {.tv_sec = 0, .tv_nsec = 0},
+	    .it_value = {.tv_sec = (time_t)seconds, .tv_nsec = nanoseconds}};
+	timer_settime(*timeout_timer, 0, &timer_time, NULL);
+}
 
 void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	if (PARI_SIGINT_block) {
-		// Inside of malloc or the like, PARI raises it again when it is done.
-		PARI_SIGINT_pending = signum;
+		// Inside of malloc, free or the like. Not left pending in PARI, as that
+		// would raise it right after, before a pointer to the freed is changed.
+		if (timeout_in) timeout_arm(0, 1000000);
 		return;
 	}
 
@@ -32,14 +43,19 @@ bool timeout_set(unsigned long seconds) {
 	sevp->sigev_value.sival_int = 0;
 	SIGEV_UN_TID_SYS_GETTID
 	timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);
-	struct itimerspec timer_time = {
-	    .it_interval = {.tv_sec = 0, .tv_nsec = 0},
-	    .it_value = {.tv_sec = (time_t)seconds, .tv_nsec = 0}};
+	evalstate_save(&timeout_state);
+	timeout_iferr = iferr_env;
 	timeout_in = true;
-	timer_settime(*timeout_timer, 0, &timer_time, NULL);
+	timeout_arm(seconds, 0);
 	return false;
 }
 
+bool timeout_over(void) {
+	iferr_env = timeout_iferr;
+	evalstate_restore(&timeout_state);
+	return true;
+}
+
 void timeout_thread_init() {
 	timeout_timer = try_calloc(sizeof(timer_t));
 	sevp = try_calloc(sizeof(struct sigevent));
diff --git a/src/util/timeout.h b/src/util/timeout.h
index 1c4b0a3..b98115a 100644
--- a/src/util/timeout.h
+++ b/src/util/timeout.h
@@ -42,6 +42,14 @@ extern __thread struct sigevent *sevp;
  */
 bool timeout_set(unsigned long seconds);
 
+/**
+ * @brief Recover the state of PARI after a jump out of a computation.
+ *
+ * Its error handlers and threads are those of the computation that is gone.
+ * @return true, always
+ */
+bool timeout_over(void);
+
 /**
  * @brief Start a timer that times out after <code>seconds-</code>.
  *
@@ -54,7 +62,8 @@ bool timeout_set(unsigned long seconds);
  */
 #define timeout_start(seconds)                         \
 	if ((seconds) != 0 &&                              \
-	    (sigsetjmp(timeout_ptr, 1) == 1 || timeout_set(seconds)))
+	    ((sigsetjmp(timeout_ptr, 1) == 1 && timeout_over()) || \
+	     timeout_set(seconds)))
 
 /**
  * @brief Stop a timer.
-- 
2.43.0


From eed4b71d5f9381d8abe679ae1ebb8a07e443261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:54 +0000
Subject: [PATCH 52/56] fix: a timeout between freeing and replacing b of NUMS
 and families left it dangling

---
 src/exhaustive/brainpool.c |  8 +++++---
 src/exhaustive/family.c    | 13 +++++++++----
 src/exhaustive/nums.c      | 23 ++++++++++++++---------
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 3e76090..47a3357 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -239,10 +239,10 @@ GENERATOR(brainpool_gen_gens) {
 		return INT_MIN;
 	}
 
-	curve->generators = subgroups_new(1);
-	curve->ngens = 1;
+	// Set only when complete, a timeout can end this at any point.
+	subgroup_t **subgroups = subgroups_new(1);
 	subgroup_t *sub = subgroup_new();
-	curve->generators[0] = sub;
+	subgroups[0] = sub;
 	point_t *G = point_new();
 	sub->generator = G;
 	G->point = ellmul(curve->curve, P, k);
@@ -251,6 +251,8 @@ GENERATOR(brainpool_gen_gens) {
 	seed->brainpool.mult = k;
 	gerepileall(ltop, 4, &G->point, &G->order, &G->cofactor,
 	            &seed->brainpool.mult);
+	curve->ngens = 1;
+	curve->generators = subgroups;
 	return 1;
 }
 
diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 2186aa6..7e2d026 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -118,6 +118,13 @@ GENERATOR(family_gen_field) {
 static GEN b = NULL;
 static curve_t *b_curve = NULL;
 
+static void b_set(GEN value) {
+	// A timeout can end this at any point: b is never left freed.
+	GEN old = b;
+	b = value;
+	if (old) gunclone(old);
+}
+
 GENERATOR(family_gen_equation_iter) {
 	curve->a = gmodulo(gen_0, curve->field);
 
@@ -130,14 +137,12 @@ GENERATOR(family_gen_equation_iter) {
 	} else {
 		if (curve == b_curve) {
 			GEN bn = addii(b, gen_1);
-			gunclone(b);
-			b = gclone(bn);
+			b_set(gclone(bn));
 			curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
 			return 1;
 		} else {
 			// dont use b, regenerate it,
-			gunclone(b);
-			b = gclone(gen_1);
+			b_set(gclone(gen_1));
 			curve->b = gerepilecopy(ltop, gmodulo(gen_1, curve->field));
 			b_curve = curve;
 			return 1;
diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index 992650d..532a499 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -28,6 +28,13 @@ GENERATOR(nums_gen_a) {
 
 static GEN b = NULL;
 
+static void b_set(GEN value) {
+	// A timeout can end this at any point: b is never left freed.
+	GEN old = b;
+	b = value;
+	if (old) gunclone(old);
+}
+
 GENERATOR(nums_gen_seed) {
 	// a new curve starts with the first b again
 	nums_quit();
@@ -48,8 +55,7 @@ GENERATOR(nums_gen_b) {
 		} else {
 			bn = addiu(b, 1);
 		}
-		gunclone(b);
-		b = gclone(bn);
+		b_set(gclone(bn));
 		curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
 		return 1;
 	}
@@ -85,23 +91,22 @@ GENERATOR(nums_gen_gens) {
 		P = mkvec2(gmodulo(x, curve->field), gel(Qy, 2));
 	}
 
-	curve->generators = subgroups_new(1);
-	curve->ngens = 1;
+	// Set only when complete, a timeout can end this at any point.
+	subgroup_t **subgroups = subgroups_new(1);
 	subgroup_t *sub = subgroup_new();
-	curve->generators[0] = sub;
+	subgroups[0] = sub;
 	point_t *G = point_new();
 	sub->generator = G;
 	G->point = P;
 	G->order = ellorder(curve->curve, G->point, NULL);
 	G->cofactor = divii(curve->order, G->order);
 	gerepileall(ltop, 3, &G->point, &G->order, &G->cofactor);
+	curve->ngens = 1;
+	curve->generators = subgroups;
 	return 1;
 }
 
 
 void nums_quit(void) {
-	if (b && isclone(b)) {
-		gunclone(b);
-	}
-	b = NULL;
+	b_set(NULL);
 }
\ No newline at end of file
-- 
2.43.0


From 9bd45371adc0931aafb7cf329ab0b6437e1ddd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:31 +0000
Subject: [PATCH 53/56] fix: a curve of one point ended in a false failure of
 allocation

---
 src/util/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/memory.c b/src/util/memory.c
index f05efae..849a842 100644
--- a/src/util/memory.c
+++ b/src/util/memory.c
@@ -31,7 +31,8 @@ static void (*free_func)(void *) = free;
 #endif
 
 void *alloc(void *(*fun)(size_t), size_t size) {
-	void *result = fun(size);
+	// PARI gives NULL for a size of zero, which is not a failure
+	void *result = fun(size ? size : 1);
 	if (!result) {
 		perror("Couldn't alloc.");
 		exit(EXIT_FAILURE);
-- 
2.43.0


From 3462886b5f003c6f0d7f984f5f073cd2f7fafde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:38 +0000
Subject: [PATCH 54/56] fix: Brainpool generators at infinity when k is a
 multiple of the order

---
 src/exhaustive/brainpool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 47a3357..ee3f62c 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -239,13 +239,20 @@ GENERATOR(brainpool_gen_gens) {
 		return INT_MIN;
 	}
 
+	GEN kP = ellmul(curve->curve, P, k);
+	if (ell_is_inf(kP)) {
+		// k is a multiple of the order.
+		avma = ltop;
+		return -5;
+	}
+
 	// Set only when complete, a timeout can end this at any point.
 	subgroup_t **subgroups = subgroups_new(1);
 	subgroup_t *sub = subgroup_new();
 	subgroups[0] = sub;
 	point_t *G = point_new();
 	sub->generator = G;
-	G->point = ellmul(curve->curve, P, k);
+	G->point = kP;
 	G->order = ellorder(curve->curve, G->point, NULL);
 	G->cofactor = divii(curve->order, G->order);
 	seed->brainpool.mult = k;
-- 
2.43.0


From ff419acbbf8358a8fe564aeecc35a69a74922218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:06 +0000
Subject: [PATCH 55/56] fix: divisors of an order of many prime factors
 exhausted the memory

---
 src/math/subgroup.c | 79 ++++++++++++---------------------------------
 1 file changed, 21 insertions(+), 58 deletions(-)

diff --git a/src/math/subgroup.c b/src/math/subgroup.c
index fdf45a5..ca4e9bb 100644
--- a/src/math/subgroup.c
+++ b/src/math/subgroup.c
@@ -5,69 +5,34 @@
 #include "subgroup.h"
 
 /**
- * @brief All prime divisors of a given integer with multiplicity.
+ * @brief All divisors of a given integer that consist of at least
+ * <code>min_factors</code> prime factors, counted with multiplicity.
  *
- * subgroups_divisors(27) = [3, 3, 3]
+ * subgroups_divisors(27, 2) = [9, 27]
  * @param order
- * @return a t_VEC of prime divisors.
+ * @param min_factors one or two
+ * @return a t_VEC of the divisors, in increasing order
  */
-static GEN subgroups_divisors(GEN order) {
+static GEN subgroups_divisors(GEN order, size_t min_factors) {
+	pari_sp ltop = avma;
 	GEN factors = Z_factor(order);
-	GEN primes = gel(factors, 1);
-	GEN multiples = gel(factors, 2);
-	long uniqs = glength(primes);
-
-	long size = 0;
-	for (long i = 1; i <= uniqs; ++i) {
-		size += itos(gel(multiples, i));
-	}
-	GEN result = gtovec0(gen_0, size);
-
-	long count = 0;
-	for (long i = 1; i <= uniqs; ++i) {
-		long multiple = itos(gel(multiples, i));
-		for (long j = 1; j <= multiple; ++j) {
-			gel(result, ++count) = gel(primes, i);
-		}
+	GEN divs = divisors(factors);
+	long ndivs = glength(divs);
+	long nprimes = (min_factors > 1) ? glength(gel(factors, 1)) : 0;
+	if (ndivs - 1 == nprimes) {
+		avma = ltop;
+		return NULL;
 	}
-	return result;
-}
-
-/**
- * @brief All factors consisting of at least <code>min_bits</code> prime
- * <code>factors</code>.
- *
- * @param factors
- * @param min_bits
- * @return a t_VEC of factors
- */
-static GEN subgroups_2n_factors(GEN factors, size_t min_bits) {
-	pari_sp ltop = avma;
-	long nprimes = glength(factors);
-	if (nprimes == min_bits) return NULL;
-	GEN amount = int2n(nprimes);
-	GEN groups = gtovec0(gen_0, itos(amount) - (min_bits * nprimes) - 1);
 
+	GEN groups = gtovec0(gen_0, ndivs - 1 - nprimes);
 	size_t i = 0;
-	for (size_t count = 1; count < (size_t)(1) << nprimes; ++count) {
-		pari_sp btop = avma;
-		GEN result = gen_1;
-		size_t bits = 0;
-		for (long bit = 0; bit < nprimes; ++bit) {
-			size_t mask = (size_t)(1) << bit;
-			if (count & mask) {
-				result = mulii(result, gel(factors, bit + 1));
-				bits++;
-			}
-		}
-		if (bits > min_bits) {
-			gel(groups, ++i) = result;
-		} else {
-			avma = btop;
+	for (long j = 2; j <= ndivs; ++j) {
+		if (nprimes && RgV_isin(gel(factors, 1), gel(divs, j))) {
+			continue;
 		}
+		gel(groups, ++i) = gel(divs, j);
 	}
-	GEN ret = gtoset(groups);
-	return gerepilecopy(ltop, ret);
+	return gerepilecopy(ltop, groups);
 }
 
 GEN subgroups_prime(GEN order) {
@@ -82,16 +47,14 @@ GEN subgroups_nonprime(GEN order) {
 	if (isprime(order)) {
 		return NULL;
 	}
-	GEN factors = subgroups_divisors(order);
-	return subgroups_2n_factors(factors, 1);
+	return subgroups_divisors(order, 2);
 }
 
 GEN subgroups_all(GEN order) {
 	if (isprime(order)) {
 		return gtovec(order);
 	}
-	GEN factors = subgroups_divisors(order);
-	return subgroups_2n_factors(factors, 0);
+	return subgroups_divisors(order, 1);
 }
 
 /**
-- 
2.43.0


From e7083a0aec10f1f45c955e8009dd70f63ad0569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:19 +0000
Subject: [PATCH 56/56] fix: embedding degree of an order which is a power of
 two below the field

---
 src/gen/gens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index 9914ff3..0cae292 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -110,7 +110,7 @@ GEN gens_get_embedding(GEN prime, GEN generator_order) {
 	if (dvdii(generator_order, prime)) {
 		return stoi(0);
 	}
-	return znorder(mkintmod(prime, generator_order), NULL);
+	return znorder(gmodulo(prime, generator_order), NULL);
 }
 
 CHECK(gens_check_embedding) {
-- 
2.43.0

