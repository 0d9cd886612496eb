/* Parses its command line with the repository's parser and prints the configuration. */
#include <pari/pari.h>
#include <stdio.h>
#include <string.h>
#include "io/cli.h"
#include "misc/config.h"

extern char cli_doc[], cli_args_doc[];

static void s(const char *k, const char *v) {
	printf("%s=", k);
	if (v)
		for (; *v; ++v) printf("%02x", (unsigned char)*v);
	else
		printf("none");
	printf("\n");
}

int main(int argc, char **argv) {
	memset(cfg, 0, sizeof(*cfg));
	struct argp argp = {cli_options, cli_parse, cli_args_doc, cli_doc, 0, cli_filter};
	if (!cli_init()) return 77;
	argp_parse(&argp, argc, argv, 0, 0, cfg);
	cli_quit();
	printf("field=%d\nmethod=%d\ncount=%ld\nrandom=%d\nprime=%d\nkoblitz=%d\nkoblitz_value=%ld\nsmooth=%d\nsmooth_value=%ld\n",
	       cfg->field, cfg->method, cfg->count, cfg->random, cfg->prime, cfg->koblitz, cfg->koblitz_value, cfg->smooth, cfg->smooth_value);
	printf("cofactor=%d\ncofactor_value=%ld\nseed_algo=%d\nfamily=%d\nunique=%d\npoints=%d\namount=%zu\nmetadata=%d\n",
	       cfg->cofactor, cfg->cofactor_value, cfg->seed_algo, cfg->family, cfg->unique, cfg->points.type, cfg->points.amount, cfg->metadata);
	printf("memory=%lu\nthreads=%lu\nthread_memory=%lu\ntimeout=%lu\nappend=%d\nverbose=%ld\nbits=%lu\nhex_digits=%lu\n",
	       cfg->memory, cfg->threads, cfg->thread_memory, cfg->timeout, cfg->append, cfg->verbose, cfg->bits, cfg->hex_digits);
	s("cm_order", cfg->cm_order);
	s("invalid_primes", cfg->invalid_primes);
	s("seed", cfg->seed);
	s("hex_check", cfg->hex_check);
	s("datadir", cfg->datadir);
	s("output", cfg->output);
	s("input", cfg->input);
	s("verbose_log", cfg->verbose_log);
	printf("end=1\n");
	return 0;
}
