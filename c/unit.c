#include "driver.h"
#include <sha1/sha1.h>
#include "cm/p1363.h"
#include "exhaustive/arg.h"
#include "exhaustive/brainpool.h"
#include "gen/field.h"
#include "gen/gens.h"
#include "gen/order.h"
#include "math/koblitz.h"
#include "math/poly.h"
#include "math/subgroup.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/bits.h"
#include "util/memory.h"
#include "util/random.h"
#include "util/str.h"

#define IS(s) (!strcmp(tok[0], s))

/* ---- bit strings: registers, one operation per request ---- */
static bits_t *reg[8];

static void set(int d, bits_t *v) {
	if (reg[d]) bits_free(&reg[d]);
	reg[d] = v;
}
static void dump(const bits_t *b) {
	if (!b) {
		printf("nil ");
		return;
	}
	char *bin = bits_to_bin(b), *hex = bits_to_hex(b);
	printf("%zu|%s|%s|", b->bitlen, bin, hex);
	pari_sp av = avma;
	char *s = GENtostr(bits_to_i(b));
	printf("%s|", s);
	pari_free(s);
	unsigned char *raw = bits_to_raw(b);
	for (size_t i = 0; i < bits_to_rawlen(b); ++i) printf("%02x", raw[i]);
	if (raw) free(raw);
	printf("|");
	GEN v = bits_to_bitvec(b);
	for (long i = 1; i <= glength(v); ++i) printf("%ld", v[i]);
	unsigned char h[20];
	bits_sha1(b, h);
	printf("|");
	for (int i = 0; i < 20; ++i) printf("%02x", h[i]);
	printf(" ");
	avma = av;
	free(bin);
	free(hex);
}
static void bits_op(void) {
	const char *o = tok[1];
	int d = atoi(tok[2]);
#define R(i) reg[atoi(tok[i])]
#define L(i) atol(tok[i])
#define OP(s) if (!strcmp(o, s))
	OP("new") set(d, bits_new(L(3)));
	OP("rand") set(d, bits_new_rand(L(3)));
	OP("hex") set(d, bits_from_hex(strcmp(tok[3], "-") ? tok[3] : ""));
	OP("bin") set(d, bits_from_bin(strcmp(tok[3], "-") ? tok[3] : ""));
	OP("i") set(d, bits_from_i(N(tok[3])));
	OP("ilen") set(d, bits_from_i_len(N(tok[3]), L(4)));
	OP("raw") {
		unsigned char *b = unhex(tok[3], NULL);
		set(d, bits_from_raw(b, L(4)));
		free(b);
	}
	OP("vec") {
		const char *s = strcmp(tok[3], "-") ? tok[3] : "";
		GEN v = cgetg(strlen(s) + 1, t_VECSMALL);
		for (size_t i = 0; i < strlen(s); ++i) v[i + 1] = s[i] == '1';
		set(d, bits_from_bitvec(v));
	}
	OP("copy") set(d, bits_copy(R(3)));
	OP("cpy") bits_cpy(reg[d], R(3));
	OP("concat") {
		int n = ntok - 3;
		set(d, n == 1 ? bits_concat(R(3), NULL) : n == 2 ? bits_concat(R(3), R(4), NULL)
		       : n == 3 ? bits_concat(R(3), R(4), R(5), NULL) : bits_concat(R(3), R(4), R(5), R(6), NULL));
	}
	OP("concatz") {
		int n = ntok - 3;
		if (n == 1) bits_concatz(reg[d], R(3), NULL);
		if (n == 2) bits_concatz(reg[d], R(3), R(4), NULL);
		if (n == 3) bits_concatz(reg[d], R(3), R(4), R(5), NULL);
	}
	OP("or") set(d, bits_or(R(3), R(4)));
	OP("and") set(d, bits_and(R(3), R(4)));
	OP("not") set(d, bits_not(R(3)));
	OP("notz") bits_notz(reg[d]);
	OP("rot") set(d, bits_rot(R(3)));
	OP("rotz") bits_rotz(reg[d]);
#define SH(f)                               \
	OP(#f) set(d, bits_##f(R(3), L(4)));    \
	OP(#f "z") bits_##f##z(reg[d], L(3));
	SH(shift) SH(shiftr) SH(shifti) SH(lengthen) SH(shorten)
	OP("eq") printf("%d ", bits_eq(reg[d], R(3)));
	OP("free") set(d, NULL);
	OP("reset") for (int i = 0; i < 8; ++i) set(i, NULL);
	OP("reset") return;
	for (int i = 0; i < 4; ++i) dump(reg[i]);
}

/* ---- curves with a given field, order and generators, for the validators ---- */
static curve_t fake;
static subgroup_t *fsubs[8];
static subgroup_t fsub[8];
static point_t fpt[8];

static void fake_curve(GEN p, GEN order, int from) {
	memset(&fake, 0, sizeof(fake));
	memset(fsub, 0, sizeof(fsub));
	memset(fpt, 0, sizeof(fpt));
	cfg->field = FIELD_PRIME;
	fake.field = p;
	fake.order = order;
	for (int i = from; i < ntok && i - from < 8; ++i) {
		fpt[i - from].order = N(tok[i]);
		fsub[i - from].generator = &fpt[i - from];
		fsubs[i - from] = &fsub[i - from];
		fake.ngens++;
	}
	fake.generators = fsubs;
}

static void handle(void) {
	if (ntok == 0) return;
	arg_t arg = {0};
	if (IS("bits")) {
		bits_op();
	} else if (IS("sha1")) { /* chunks */
		SHA_CTX ctx;
		unsigned char h[20];
		SHA1_Init(&ctx);
		for (int i = 1; i < ntok; ++i) {
			size_t n;
			unsigned char *c = unhex(tok[i], &n);
			unsigned char *e = malloc(n ? n : 1); /* exact size */
			memcpy(e, c, n);
			SHA1_Update(&ctx, e, (int)n);
			free(c);
			free(e);
		}
		SHA1_Final(h, &ctx);
		puthex(h, 20);
	} else if (IS("sha1rep")) { /* byte count chunk */
		SHA_CTX ctx;
		unsigned char h[20];
		long n = atol(tok[2]), chunk = atol(tok[3]);
		unsigned char *c = malloc(chunk);
		memset(c, atoi(tok[1]), chunk);
		SHA1_Init(&ctx);
		for (; n > 0; n -= chunk) SHA1_Update(&ctx, c, n < chunk ? n : chunk);
		SHA1_Final(h, &ctx);
		free(c);
		puthex(h, 20);
	} else if (IS("join") || IS("joinv") || IS("concat")) { /* sep|nil strings */
		char *s[64] = {0};
		char *sep = strcmp(tok[1], "nil") ? (char *)unhex(tok[1], NULL) : NULL;
		int n = ntok - 2;
		for (int i = 0; i < n; ++i) s[i] = (char *)unhex(tok[i + 2], NULL);
		char *r;
		if (IS("join")) r = str_join(sep, s, n);
		else if (IS("concat")) r = str_concat(s, n);
		else r = str_joinv(sep, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12],
			                 s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], NULL);
		puthex(r, strlen(r));
		free(r);
		for (int i = 0; i < n; ++i) free(s[i]);
		free(sep);
	} else if (IS("cnt")) {
		char *s = (char *)unhex(tok[1], NULL);
		printf("%zu ", str_cnt(s, (char)atoi(tok[2])));
		free(s);
	} else if (IS("ishex")) {
		char *s = (char *)unhex(tok[1], NULL);
		const char *r = str_is_hex(s);
		if (r) printf("%ld %s", (long)(r - s), r);
		else printf("no");
		free(s);
	} else if (IS("sub")) {
		GEN n = N(tok[2]);
		GEN v = !strcmp(tok[1], "prime") ? subgroups_prime(n) : !strcmp(tok[1], "all") ? subgroups_all(n) : subgroups_nonprime(n);
		if (!v) printf("nil ");
		else for (long i = 1; i <= glength(v); ++i) putN(gel(v, i));
	} else if (IS("codec2")) { /* m e1 e2 e3 value */
		polynomial_t pl = {atoi(tok[1]), atoi(tok[2]), atoi(tok[3]), atoi(tok[4])};
		GEN f = poly_gen(&pl);
		GEN e = field_ielement(f, N(tok[5]));
		putN(field_elementi(e));
		GEN c = FF_to_FpXQ(e);
		for (long i = 0; i <= degpol(c); ++i) putN(polcoeff0(c, i, -1));
		printf("| ");
		GEN fp = field_params(f);
		for (long i = 1; i <= glength(fp); ++i) putN(gel(fp, i));
		printf("| ");
		GEN md = member_mod(f);
		for (long i = degree(md); i >= 0; --i)
			if (!gequal0(polcoeff0(md, i, -1))) printf("%ld ", i);
	} else if (IS("codecp")) { /* p value */
		GEN p = N(tok[1]);
		GEN e = field_ielement(p, N(tok[2]));
		putN(field_elementi(e));
		putN(gel(e, 1));
		putN(gel(e, 2));
		putN(field_elementi(N(tok[2])));
		printf("| ");
		GEN fp = field_params(p);
		for (long i = 1; i <= glength(fp); ++i) putN(gel(fp, i));
	} else if (IS("poly")) {
		unsigned long m = atol(tok[1]);
		const polynomial_t *p = poly_find(m);
		printf("%d ", poly_exists(m));
		if (p) printf("%u %u %u %u ", p->m, p->e1, p->e2, p->e3);
		else printf("nil ");
	} else if (IS("polygen")) {
		GEN md = member_mod(poly_find_gen(atol(tok[1])));
		for (long i = degree(md); i >= 0; --i)
			if (!gequal0(polcoeff0(md, i, -1))) printf("%ld ", i);
	} else if (IS("koblitz")) {
		unsigned long m = atol(tok[1]), a = strtoul(tok[2], NULL, 10);
		const koblitz_t *k = koblitz_find(m, a);
		if (k) {
			printf("%u %u ", k->m, k->a);
			putN(koblitz_get_order(m, a));
		} else printf("%s", koblitz_get_order(m, a) ? "order-only" : "nil ");
	} else if (IS("seed")) {
		pari_sp av = avma;
		setrand(utoi(strtoul(tok[1], NULL, 10)));
		avma = av;
	} else if (IS("rint")) {
		for (int i = 0; i < atoi(tok[2]); ++i) putN(random_int(atol(tok[1])));
	} else if (IS("rprime")) {
		for (int i = 0; i < atoi(tok[2]); ++i) putN(random_prime(atol(tok[1])));
	} else if (IS("rrange")) {
		for (int i = 0; i < atoi(tok[3]); ++i) putN(random_range(N(tok[1]), N(tok[2])));
	} else if (IS("rfp")) {
		for (int i = 0; i < atoi(tok[2]); ++i) {
			GEN e = random_field_element(N(tok[1]));
			if (typ(e) != t_INTMOD || !equalii(gel(e, 1), N(tok[1]))) printf("badtype ");
			putN(gel(e, 2));
		}
	} else if (IS("rf2m")) {
		polynomial_t pl = {atoi(tok[1]), atoi(tok[2]), atoi(tok[3]), atoi(tok[4])};
		GEN f = poly_gen(&pl);
		for (int i = 0; i < atoi(tok[5]); ++i) {
			pari_sp av = avma;
			GEN c = FF_to_FpXQ(random_field_element(f));
			GEN v = gen_0;
			for (long j = 0; j <= degpol(c); ++j)
				if (signe(polcoeff0(c, j, -1))) v = addii(v, int2n(j));
			putN(v);
			avma = av;
		}
	} else if (IS("rbits")) {
		for (int i = 0; i < atoi(tok[2]); ++i) {
			bits_t *b = bits_new_rand(atol(tok[1]));
			char *s = bits_to_bin(b);
			unsigned char *r = bits_to_raw(b);
			printf("%s:", s);
			for (size_t j = 0; j < bits_to_rawlen(b); ++j) printf("%02x", r[j]);
			printf(" ");
			free(s);
			if (r) free(r);
			bits_free(&b);
		}
	} else if (IS("p1363")) { /* D: forms | polynomial from them | polynomial */
		GEN D = N(tok[1]);
		p1363_form_t **forms;
		size_t n = p1363_forms(D, &forms);
		for (size_t i = 0; i < n; ++i) {
			putN(forms[i]->A);
			putN(forms[i]->B);
			putN(forms[i]->C);
		}
		if (ntok > 2) {
			printf("| ");
			GEN w = gtovec(p1363_poly(D, forms, n));
			for (long i = 1; i <= glength(w); ++i) putN(gel(w, i));
			printf("| ");
			w = gtovec(p1363_polclass(D));
			for (long i = 1; i <= glength(w); ++i) putN(gel(w, i));
		}
		p1363_free(&forms, n);
	} else if (IS("emb")) {
		putN(gens_get_embedding(N(tok[1]), N(tok[2])));
	} else if (IS("vph")) { /* order bound */
		fake_curve(gen_2, N(tok[1]), 99999);
		arg.args = tok[2];
		printf("%d", order_check_pohlig_hellman(&fake, &arg, OFFSET_ORDER));
	} else if (IS("vdisc")) { /* p order bound */
		fake_curve(N(tok[1]), N(tok[2]), 99999);
		arg.args = tok[3];
		printf("%d", order_check_discriminant(&fake, &arg, OFFSET_ORDER));
	} else if (IS("vemb")) { /* p bound orders... */
		fake_curve(N(tok[1]), gen_1, 3);
		arg.args = tok[2];
		printf("%d", gens_check_embedding(&fake, &arg, OFFSET_GENERATORS));
	} else if (IS("vanom")) { /* p orders... */
		fake_curve(N(tok[1]), gen_1, 2);
		printf("%d", gens_check_anomalous(&fake, NULL, OFFSET_GENERATORS));
	} else if (IS("vbpo")) { /* p order */
		fake_curve(N(tok[1]), N(tok[2]), 99999);
		printf("%d", brainpool_check_order(&fake, NULL, OFFSET_ORDER));
	} else if (IS("vbpg")) { /* p gorder */
		fake_curve(N(tok[1]), N(tok[2]), 2);
		printf("%d", brainpool_check_gens(&fake, NULL, OFFSET_GENERATORS));
	} else {
		fprintf(stderr, "unknown request %s\n", tok[0]);
		exit(7);
	}
}
