/* Builds, copies, clones, changes and frees curves, subgroups, points and seeds.
 * One request is a program; every "D" prints all live objects. */
#include "driver.h"
#include "gen/curve.h"
#include "gen/field.h"
#include "gen/seed.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/bits.h"
#include "util/memory.h"

static long live;
static void *m_alloc(size_t n) { ++live; return malloc(n); }
static void *m_calloc(size_t n) { ++live; return calloc(1, n); }
static void *m_realloc(void *p, size_t n) { if (!p) ++live; return realloc(p, n); }
static void m_free(void *p) { if (p) --live; free(p); }

#define SLOTS 12
static struct { char kind; void *obj; size_t n; int has_ell; } slot[SLOTS];
static int at;
static GEN field;

static char *nx(void) { return tok[at++]; }
static GEN num(void) { char *t = nx(); return t[0] == '-' ? NULL : icopy(N(t)); }
static GEN elem(void) { char *t = nx(); return t[0] == '-' ? NULL : gcopy(field_ielement(field, N(t))); }
static point_t *rd_point(void) {
	if (!strcmp(tok[at], ".")) { ++at; return NULL; }
	point_t *p = point_new();
	GEN x = elem(), y = elem();
	if (x) p->point = mkvec2(x, y);
	p->order = num();
	p->cofactor = num();
	return p;
}
static subgroup_t *rd_sub(void) {
	subgroup_t *s = subgroup_new();
	s->generator = rd_point();
	int n = atoi(nx());
	if (n >= 0) {
		s->points = points_new(n);
		s->npoints = n;
		for (int i = 0; i < n; ++i) s->points[i] = rd_point();
	}
	return s;
}
static seed_t *rd_seed(void) {
	char *t = nx();
	if (t[0] == '.') return NULL;
	seed_t *s = seed_new();
	if (t[0] != '-') {
		s->seed = bits_from_hex(t[0] == '~' ? t + 1 : t);
		s->seed->sign = t[0] == '~';
	}
	t = nx();
	if (t[0] != '-') {
		size_t n;
		unsigned char *h = unhex(t, &n);
		s->hash20 = try_memdup(h, 20);
		free(h);
	}
	return s;
}
static void put(GEN v) { if (v) putN(field_elementi(v)); else printf("- "); }
static void pr_point(point_t *p) {
	if (!p) { printf(". "); return; }
	if (p->point) { put(gel(p->point, 1)); put(gel(p->point, 2)); } else printf("- - ");
	put(p->order);
	put(p->cofactor);
}
static void pr_sub(subgroup_t *s) {
	pr_point(s->generator);
	if (!s->points) { printf("-1 "); return; }
	printf("%zu ", s->npoints);
	for (size_t i = 0; i < s->npoints; ++i) pr_point(s->points[i]);
}
static void pr_seed(seed_t *s) {
	if (!s) { printf(". "); return; }
	if (s->seed) {
		char *h = bits_to_hex(s->seed);
		printf("%s%s ", h[0] == '-' ? "~" : "", h[0] == '-' ? h + 1 : h);
		try_free(h);
	} else printf("- ");
	if (s->hash20) puthex(s->hash20, 20); else printf("- ");
}
static void pr_curve(curve_t *c, int has_ell) {
	pr_seed(c->seed);
	if (c->field) put(c->field); else printf("- ");
	put(c->a);
	put(c->b);
	put(c->order);
	if (c->generators) {
		printf("%zu ", c->ngens);
		for (size_t i = 0; i < c->ngens; ++i) pr_sub(c->generators[i]);
	} else printf("-1 ");
	if (c->curve) { printf("E "); put(typ(field) == t_INT ? ell_get_a4(c->curve) : ell_get_a2(c->curve)); put(ell_get_a6(c->curve)); put(ell_get_disc(c->curve)); put(ell_get_j(c->curve)); }
}
static void show_obj(int i) {
	void *o = slot[i].obj;
	switch (slot[i].kind) {
		case 'C': pr_curve(o, slot[i].has_ell); break;
		case 'S': pr_sub(o); break;
		case 'P': pr_point(o); break;
		case 'B': pr_seed(o); break;
		case 'T': for (size_t k = 0; k < slot[i].n; ++k) pr_sub(((subgroup_t **)o)[k]); break;
		case 'Q': for (size_t k = 0; k < slot[i].n; ++k) pr_point(((point_t **)o)[k]); break;
	}
}
static void *dup_obj(char kind, void *o, size_t n, int clone) {
	switch (kind) {
		case 'C': return clone ? curve_new_clone(o) : curve_new_copy(o);
		case 'S': return clone ? subgroup_new_clone(o) : subgroup_new_copy(o);
		case 'P': return clone ? point_new_clone(o) : point_new_copy(o);
		case 'B': return clone ? seed_new_clone(o) : seed_new_copy(o);
		case 'T': return clone ? subgroups_new_clone(o, n) : subgroups_new_copy(o, n);
		case 'Q': return clone ? points_new_clone(o, n) : points_new_copy(o, n);
	}
	return NULL;
}
static void drop(int i) {
	void **o = &slot[i].obj;
	switch (slot[i].kind) {
		case 'C': curve_free((curve_t **)o); break;
		case 'S': subgroup_free_deep((subgroup_t **)o); break;
		case 'P': point_free((point_t **)o); break;
		case 'B': seed_free((seed_t **)o); break;
		case 'T': subgroups_free_deep((subgroup_t ***)o, slot[i].n); break;
		case 'Q': points_free_deep((point_t ***)o, slot[i].n); break;
	}
	if (*o) printf("!notnull ");
	slot[i].kind = 0;
}
static void flip(GEN v) { /* the number or element changes in place: its bit 1 */
	if (typ(v) == t_INTMOD) v = gel(v, 2);
	if (typ(v) == t_FFELT) { gel(v, 2)[2] ^= 2; return; }
	*int_LSW(v) ^= 2;
}
static void flip_point(point_t *p, char w) {
	if (w == 'x') flip(gel(p->point, 1));
	if (w == 'y') flip(gel(p->point, 2));
	if (w == 'o') flip(p->order);
	if (w == 'c') flip(p->cofactor);
}
static void flip_seed(seed_t *s, char w) {
	if (w == 's') s->seed->bits[0] ^= 0x02;
	if (w == 'h') s->hash20[19] ^= 0x02;
}
static void handle(void) {
	set_mem_funcs(m_alloc, m_calloc, m_realloc, m_free);
	at = 0;
	char *f = nx();
	if (f[0] == 'p') field = N(nx());
	else field = ffgen(ffinit(gen_2, atol(nx()), -1), -1);
	pari_sp av0 = avma;
	GEN h0 = getheap();
	long live0 = live, blocks0 = itos(gel(h0, 1));
	av0 = avma;
	while (at < ntok) {
		char op = *nx();
		if (op == 'D') {
			for (int i = 0; i < SLOTS; ++i)
				if (slot[i].kind) { printf("%d%c ", i, slot[i].kind); show_obj(i); printf("; "); }
			printf("| ");
			continue;
		}
		if (op == 'R') { /* only clones are left: the stack goes, and is overwritten */
			avma = av0;
			memset((void *)(av0 - (1 << 20)), 0xa5, 1 << 20);
			continue;
		}
		int i = atoi(nx());
		if (op == 'N') {
			slot[i].kind = *nx();
			switch (slot[i].kind) {
				case 'C': {
					curve_t *c = curve_new();
					slot[i].obj = c;
					int ell = atoi(nx());
					c->seed = rd_seed();
					char *t = nx();
					if (t[0] != '-') c->field = typ(field) == t_INT ? icopy(field) : gcopy(field_ielement(field, N(t)));
					c->a = elem();
					c->b = elem();
					c->order = num();
					int n = atoi(nx());
					if (n >= 0) {
						c->generators = subgroups_new(n);
						c->ngens = n;
						for (int k = 0; k < n; ++k) c->generators[k] = rd_sub();
					}
					if (ell) {
						GEN ff = c->field;
						c->field = field;
						curve_gen_any(c, NULL, OFFSET_CURVE);
						c->field = ff;
						if (ell > 1) ellcard(c->curve, NULL);
					}
				} break;
				case 'S': slot[i].obj = rd_sub(); break;
				case 'P': slot[i].obj = rd_point(); break;
				case 'B': slot[i].obj = rd_seed(); break;
				case 'T':
					slot[i].n = atoi(nx());
					slot[i].obj = subgroups_new(slot[i].n);
					for (size_t k = 0; k < slot[i].n; ++k) ((subgroup_t **)slot[i].obj)[k] = rd_sub();
					break;
				case 'Q':
					slot[i].n = atoi(nx());
					slot[i].obj = points_new(slot[i].n);
					for (size_t k = 0; k < slot[i].n; ++k) ((point_t **)slot[i].obj)[k] = rd_point();
					break;
			}
		} else if (op == 'c' || op == 'l') {
			int j = atoi(nx());
			slot[j] = slot[i];
			slot[j].obj = dup_obj(slot[i].kind, slot[i].obj, slot[i].n, op == 'l');
		} else if (op == 'F') {
			drop(i);
		} else if (op == 'E') { /* the order of the curve object itself */
			GEN n = ellcard(((curve_t *)slot[i].obj)->curve, NULL);
			printf("E%d ", i);
			putN(n);
		} else if (op == 'G') { /* the original's own list goes */
			curve_t *c = slot[i].obj;
			subgroups_free_deep(&c->generators, c->ngens);
		} else if (op == 'X') { /* flip: path */
			char *w = nx();
			void *o = slot[i].obj;
			char k = slot[i].kind;
			curve_t *c = o;
			if (k == 'C' && w[0] == 'f') flip(c->field);
			else if (k == 'C' && w[0] == 'a') flip(c->a);
			else if (k == 'C' && w[0] == 'b') flip(c->b);
			else if (k == 'C' && w[0] == 'n') flip(c->order);
			else if (k == 'C' && w[0] == 'z') flip_seed(c->seed, w[1]);
			else if (k == 'B') flip_seed(o, w[1]);
			else {
				/* [sub index][g or point index] what: tokens */
				int si = atoi(nx()), pi = atoi(nx());
				if (k == 'P') flip_point(o, w[0]);
				else if (k == 'Q') flip_point(((point_t **)o)[pi], w[0]);
				else {
					subgroup_t *s = k == 'S' ? o : k == 'T' ? ((subgroup_t **)o)[si] : c->generators[si];
					flip_point(pi < 0 ? s->generator : s->points[pi], w[0]);
				}
			}
		}
	}
	for (int i = 0; i < SLOTS; ++i)
		if (slot[i].kind) drop(i);
	printf("blocks %ld allocs %ld", itos(gel(getheap(), 1)) - blocks0, live - live0);
}
