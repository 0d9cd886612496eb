/* The steps of the seeded procedures. */
#include "driver.h"
#include "exhaustive/ansi.h"
#include "exhaustive/brainpool.h"
#include "exhaustive/brainpool_rfc.h"
#include "exhaustive/nums.h"
#include "gen/field.h"
#include "gen/seed.h"
#include "math/poly.h"
#include "obj/curve.h"
#include "util/bits.h"

#define IS(s) (!strcmp(tok[0], s))

static void elem(GEN e) {
	putN(typ(e) == t_INT ? e : field_elementi(e));
}
static void seedhex(curve_t *c) {
	char *h = bits_to_hex(c->seed->seed);
	printf("%s ", h);
	free(h);
}

static void handle(void) {
	if (IS("hash")) { /* seed w v */
		bits_t *s = bits_from_hex(tok[1]);
		bits_t *h = brainpool_hash(s, atol(tok[2]), atol(tok[3]));
		char *b = bits_to_bin(h);
		printf("%s ", b);
		brainpool_update_seed(s);
		char *x = bits_to_hex(s);
		printf("%s", x);
		free(b);
		free(x);
		bits_free(&s);
		bits_free(&h);
	} else if (IS("bp")) { /* rfc bits seed ops [p] */
		int rfc = atoi(tok[1]);
		cfg->bits = atol(tok[2]);
		cfg->field = FIELD_PRIME;
		cfg->seed = tok[3];
		curve_t *c = curve_new();
		int r = rfc ? brainpool_rfc_gen_seed_argument(c, NULL, OFFSET_SEED) : brainpool_gen_seed_argument(c, NULL, OFFSET_SEED);
		printf("%d ", r);
		for (char *o = tok[4]; *o; ++o) {
			if (*o == 'F') {
				r = brainpool_gen_field(c, NULL, OFFSET_FIELD);
				printf("%d ", r);
				putN(c->field);
			} else {
				r = rfc ? brainpool_rfc_gen_equation(c, NULL, OFFSET_B) : brainpool_gen_equation(c, NULL, OFFSET_B);
				printf("%d ", r);
				elem(c->a);
				elem(c->b);
			}
			seedhex(c);
		}
		curve_free(&c);
		cfg->seed = NULL;
	} else if (IS("ansi")) { /* fp|f2m bits seed p */
		cfg->bits = atol(tok[2]);
		cfg->field = strcmp(tok[1], "fp") ? FIELD_BINARY : FIELD_PRIME;
		cfg->seed = tok[3];
		curve_t *c = curve_new();
		int r = ansi_gen_seed_argument(c, NULL, OFFSET_SEED);
		printf("%d ", r);
		c->field = cfg->field == FIELD_PRIME ? N(tok[4]) : poly_find_gen(cfg->bits);
		r = ansi_gen_equation(c, NULL, OFFSET_B);
		printf("%d ", r);
		if (r > 0) {
			elem(c->a);
			elem(c->b);
			seedhex(c);
		}
		curve_free(&c);
		cfg->seed = NULL;
	}	else if (IS("card")) { /* p a b...: orders of the curves y^2 = x^3 + a x + b (PARI alone) */
		GEN p = N(tok[1]);
		for (int i = 3; i < ntok; ++i) {
			pari_sp av = avma;
			GEN E = ellinit(mkvec5(gen_0, gen_0, gen_0, N(tok[2]), N(tok[i])), p, DEFAULTPREC);
			putN(lg(E) == 1 ? gen_0 : ellcard(E, p));
			avma = av;
		}
	}
}
