/* Drives the generation engine with scripted stages and validators, records what it calls.
 * run START END RETRY PRESENT CHECKS UNROLLS ARGS CARGS {DIFF:ALLOC}...
 *  PRESENT: gen_argss 1, check_argss 2, validators 4, unrolls 8; CHECKS: digits per stage;
 *  UNROLLS/ARGS/CARGS: bit masks of stages; DIFF: integer, M (hard error) or T (time out) */
#include "driver.h"
#include <signal.h>
#include "exhaustive/arg.h"
#include "exhaustive/check.h"
#include "exhaustive/exhaustive.h"
#include "obj/curve.h"
#include "util/timeout.h"

static int pos;
static curve_t *the_curve;
static arg_t *ga[OFFSET_END], *ca[OFFSET_END];
static pari_sp base;

static int step(char kind, int idx, curve_t *curve, arg_t *arg, offset_e state) {
	printf("%c%d.%d:%ld", kind, (int)state, idx, (long)((base - avma) / sizeof(long)));
	arg_t *want = kind == 'G' ? ga[state] : ca[state];
	if (curve != the_curve) printf("!curve");
	if (arg != want) printf("!arg");
	putchar(' ');
	if (pos >= ntok) return 1;
	char *t = tok[pos++];
	char *c = strchr(t, ':');
	long n = atol(c + 1);
	if (n) new_chunk(n);
	if (t[0] == 'M') return INT_MIN;
	if (t[0] == 'T') {
		raise(SIGALRM);
		printf("!notimeout ");
		return 1;
	}
	return atoi(t);
}
static GENERATOR(g) { return step('G', 0, curve, args, state); }
static CHECK(c0) { return step('C', 0, curve, args, state); }
static CHECK(c1) { return step('C', 1, curve, args, state); }
static CHECK(c2) { return step('C', 2, curve, args, state); }
#define U(n) static UNROLL(u##n) { printf("U%d%s ", n, curve != the_curve ? "!curve" : ""); return -1; }
U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7) U(8)
static unroll_f us[] = {u0, u1, u2, u3, u4, u5, u6, u7, u8};

static void handle(void) {
	static int inited;
	if (!inited++) {
		err = fopen("/dev/null", "w");
		verbose = err;
		timeout_init();
	}
	gen_f gens[OFFSET_END];
	arg_t *gas[OFFSET_END] = {0}, *cas[OFFSET_END] = {0};
	check_t *val[OFFSET_END] = {0};
	unroll_f un[OFFSET_END] = {0};
	int start = atoi(tok[1]), end = atoi(tok[2]), retry = atoi(tok[3]), present = atoi(tok[4]);
	long um = atol(tok[6]), am = atol(tok[7]), cm = atol(tok[8]);
	for (int i = 0; i < OFFSET_END; ++i) {
		gens[i] = g;
		if (am >> i & 1) gas[i] = arg_new();
		if (cm >> i & 1) cas[i] = arg_new();
		ga[i] = present & 1 ? gas[i] : NULL;
		ca[i] = present & 2 ? cas[i] : NULL;
		int n = tok[5][i] - '0';
		if (n == 1) val[i] = check_new(c0, NULL);
		if (n == 2) val[i] = check_new(c0, c1, NULL);
		if (n == 3) val[i] = check_new(c0, c1, c2, NULL);
		if (um >> i & 1) un[i] = us[i];
	}
	exhaustive_t setup = {.generators = gens, .gen_argss = present & 1 ? gas : NULL,
	                      .validators = present & 4 ? val : NULL, .check_argss = present & 2 ? cas : NULL,
	                      .unrolls = present & 8 ? un : NULL};
	the_curve = curve_new();
	pos = 9;
	base = avma;
	cfg->timeout = 100000;
	cfg->verbose = false;
	int r = retry < 0 ? exhaustive_gen(the_curve, &setup, start, end) : exhaustive_gen_retry(the_curve, &setup, start, end, retry);
	printf("R%d.%d", r, ntok - pos);
	curve_free(&the_curve);
	for (int i = 0; i < OFFSET_END; ++i) {
		arg_free(&gas[i]);
		arg_free(&cas[i]);
		check_free(&val[i]);
	}
}
