/* Irreducibility over GF(2) of x^m + sum x^e + 1 (Rabin's test), one "m e1 e2 e3" per line. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u64;
static int m, ne, ex[4];
static u64 *sq;
static uint16_t tab[256];

static int deg(const u64 *a, int w) {
	for (int i = w - 1; i >= 0; --i)
		if (a[i]) return i * 64 + 63 - __builtin_clzll(a[i]);
	return -1;
}
static void xor_at(u64 *a, u64 t, long pos) { /* pos may be negative only if the low bits are zero */
	if (pos < 0) { a[0] ^= t >> -pos; return; }
	long w = pos / 64, s = pos % 64;
	a[w] ^= t << s;
	if (s) a[w + 1] ^= t >> (64 - s);
}
static void reduce(u64 *a, int words) {
	for (long w = words - 1; w > m / 64; --w) {
		while (a[w]) {
			u64 t = a[w];
			a[w] = 0;
			long base = w * 64 - m;
			xor_at(a, t, base);
			for (int i = 0; i < ne; ++i) xor_at(a, t, base + ex[i]);
		}
	}
	long w = m / 64, s = m % 64;
	while (a[w] >> s) {
		u64 t = a[w] >> s;
		a[w] = s ? a[w] & ((1ULL << s) - 1) : 0;
		xor_at(a, t, 0);
		for (int i = 0; i < ne; ++i) xor_at(a, t, ex[i]);
	}
}
static void square(u64 *a, int w) {
	memset(sq, 0, (2 * w + 2) * 8);
	for (int i = 0; i < w; ++i) {
		u64 lo = 0, hi = 0;
		for (int j = 0; j < 4; ++j) {
			lo |= (u64)tab[(a[i] >> (8 * j)) & 255] << (16 * j);
			hi |= (u64)tab[(a[i] >> (32 + 8 * j)) & 255] << (16 * j);
		}
		sq[2 * i] = lo;
		sq[2 * i + 1] = hi;
	}
	reduce(sq, 2 * w + 1);
	memcpy(a, sq, w * 8);
}
static int gcd_is_one(u64 *a, u64 *b, int w) {
	int da = deg(a, w), db = deg(b, w);
	while (db >= 0) {
		while (da >= db) {
			int s = da - db, ws = s / 64, bs = s % 64;
			for (int i = db / 64; i >= 0; --i) {
				a[i + ws] ^= b[i] << bs;
				if (bs && i + ws + 1 < w) a[i + ws + 1] ^= b[i] >> (64 - bs);
			}
			da = deg(a, da / 64 + 1);
		}
		u64 *t = a; a = b; b = t;
		int d = da; da = db; db = d;
	}
	return da == 0;
}
static int irreducible(void) {
	int w = m / 64 + 1, need[16], nn = 0, k = m;
	for (int q = 2; q <= k; ++q)
		if (k % q == 0) {
			need[nn++] = m / q;
			while (k % q == 0) k /= q;
		}
	u64 *t = calloc(w + 2, 8), *a = calloc(w + 2, 8), *b = calloc(w + 2, 8);
	sq = calloc(2 * w + 4, 8);
	t[0] = 2;
	if (m == 1) t[0] = 1;
	int ok = 1;
	for (int i = 1; i <= m && ok; ++i) {
		square(t, w);
		for (int j = 0; j < nn; ++j)
			if (need[j] == i && i < m) {
				memset(a, 0, (w + 2) * 8);
				a[0] ^= 1;
				a[m / 64] ^= 1ULL << (m % 64);
				for (int e = 0; e < ne; ++e) a[ex[e] / 64] ^= 1ULL << (ex[e] % 64);
				memcpy(b, t, (w + 2) * 8);
				b[0] ^= 2;
				if (!gcd_is_one(a, b, w)) ok = 0;
			}
	}
	if (ok) {
		t[0] ^= 2;
		ok = deg(t, w) < 0;
	}
	free(t); free(a); free(b); free(sq);
	return ok;
}
int main(void) {
	for (int i = 0; i < 256; ++i)
		for (int j = 0; j < 8; ++j) tab[i] |= ((i >> j) & 1) << (2 * j);
	int e[3];
	while (scanf("%d %d %d %d", &m, e, e + 1, e + 2) == 4) {
		ne = 0;
		for (int i = 0; i < 3; ++i)
			if (e[i] > 0) ex[ne++] = e[i];
		printf("%d\n", irreducible());
		fflush(stdout);
	}
	return 0;
}
