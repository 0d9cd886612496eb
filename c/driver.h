/* A unit driver: reads one request per line, answers with one line. */
#include <pari/pari.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "io/output.h"
#include "io/input.h"
#include "misc/config.h"

#define MAXTOK 20000
static char *tok[MAXTOK];
static int ntok;
extern FILE *verbose;

static void handle(void);

static GEN N(const char *s) { /* a possibly negative integer, decimal or 0x */
	GEN r = strtoi(s[0] == '-' ? s + 1 : s);
	return s[0] == '-' ? negi(r) : r;
}
static void putN(GEN v) {
	char *s = GENtostr(v);
	printf("%s ", s);
	pari_free(s);
}
static unsigned char *unhex(const char *s, size_t *len) { /* "-" is empty; exact-size buffer + NUL */
	size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0;
	unsigned char *r = malloc(n + 1);
	for (size_t i = 0; i < n; ++i) {
		unsigned v;
		sscanf(s + 2 * i, "%2x", &v);
		r[i] = v;
	}
	r[n] = 0;
	if (len) *len = n;
	return r;
}
static void puthex(const void *p, size_t n) {
	for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char *)p)[i]);
	printf(n ? " " : "- ");
}

int main(int argc, char **argv) {
	size_t mem = argc > 1 ? strtoul(argv[1], NULL, 10) : 256UL << 20;
	pari_init(mem, 1000000);
	isprime(stoi(1));
	memset(cfg, 0, sizeof(*cfg));
	char *line = NULL;
	size_t cap = 0;
	pari_sp av = avma;
	while (getline(&line, &cap, stdin) > 0) {
		ntok = 0;
		for (char *t = strtok(line, " \n"); t && ntok < MAXTOK; t = strtok(NULL, " \n")) tok[ntok++] = t;
		handle();
		printf("\n.\n");
		fflush(stdout);
		avma = av;
	}
	return 0;
}
