/* Link-time stand-ins (ld --wrap) that let a check own the random state and the timer of
 * the command without changing a line of it. With the variables unset they pass through. */
#include <pari/pari.h>
#include <stdlib.h>
#include <time.h>
#include <stdatomic.h>

#include <signal.h>
#include <string.h>

extern void __real_setrand(GEN seed);
extern int __real_timer_settime(timer_t t, int flags, const struct itimerspec *n,
                                struct itimerspec *o);
static atomic_ulong calls;

static unsigned long mix(unsigned long z) {
	z += 0x9e3779b97f4a7c15UL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
	return z ^ (z >> 31);
}

void __wrap_setrand(GEN seed) {
	const char *s = getenv("VF_SEED");
	const char *log = getenv("VF_SEEDLOG");
	if (log) {
		FILE *f = fopen(log, "a");
		if (f) {
			char *t = GENtostr(seed);
			fprintf(f, "%s\n", t);
			pari_free(t);
			fclose(f);
		}
	}
	if (s) {
		unsigned long k = atomic_fetch_add(&calls, 1);
		unsigned long v = mix(strtoul(s, NULL, 10) * 1000003UL + k) >> 2;
		pari_sp av = avma;
		__real_setrand(utoi(v ? v : 1));
		avma = av;
		return;
	}
	__real_setrand(seed);
}


/* VF_FIRE="seed:fires:scale:blocked": let timers expire at points of the tool's own code instead
 * of by the clock. A timer that is started expires at the e-th basic block executed by its thread
 * (objects built with -fsanitize-coverage=trace-pc), e drawn log-uniformly from 1..2^scale, if it
 * is still running then; `fires` timers at most. Every blocked-th one comes while PARI has
 * interrupts blocked. VF_FIRELOG: what happened. */
static const char *fire;
static unsigned long fire_seed, fire_scale, fire_blocked;
static atomic_long fire_left, fire_arms;
static __thread volatile unsigned long target, events; /* target 0: no timer is running */
static __thread volatile int again, inside; /* inside: the handler runs */

__attribute__((constructor)) static void fire_init(void) {
	unsigned long left = 0;
	fire = getenv("VF_FIRE");
	if (fire && sscanf(fire, "%lu:%lu:%lu:%lu", &fire_seed, &left, &fire_scale, &fire_blocked) != 4) fire = NULL;
	fire_left = left;
}

static void fire_log(const char *what, unsigned long a, unsigned long e) {
	const char *n = getenv("VF_FIRELOG");
	FILE *f = n ? fopen(n, "a") : NULL;
	if (!f) return;
	fprintf(f, "%s %lu %lu\n", what, a, e);
	fclose(f);
}

static void fire_now(unsigned long arm) {
	unsigned long e = events;
	target = 0;
	if (PARI_SIGINT_block) { /* already (PARI's inline functions): it may not jump */
		inside = 1;
		raise(SIGALRM);
		inside = 0;
		return;
	}
	if (atomic_fetch_sub(&fire_left, 1) <= 0) return;
	if (fire_blocked && !again && mix(arm + fire_seed) % fire_blocked == 0) {
		int old = PARI_SIGINT_block;
		fire_log("blocked", arm, e);
		again = 1;
		atomic_fetch_add(&fire_left, 1);
		PARI_SIGINT_block = 1;
		inside = 1;
		raise(SIGALRM);
		inside = 0;
		PARI_SIGINT_block = old;
		if (!old && PARI_SIGINT_pending) { /* as PARI does at the end of a block */
			int sig = PARI_SIGINT_pending;
			PARI_SIGINT_pending = 0;
			inside = 1;
			raise(sig);
			inside = 0;
		}
		return;
	}
	again = 0;
	fire_log("fired", arm, e);
	inside = 1;
	raise(SIGALRM);
	inside = 0;
}

static __thread volatile unsigned long this_arm;

void __sanitizer_cov_trace_pc(void) {
	if (target && !inside && ++events >= target) fire_now(this_arm);
}

static void fire_arm(int rearmed) {
	unsigned long r;
	if (rearmed) { /* a moment later */
		target = events + 1;
		return;
	}
	this_arm = (unsigned long)atomic_fetch_add(&fire_arms, 1);
	r = mix(mix(fire_seed) + this_arm);
	events = 0;
	again = inside = 0;
	target = 1UL << (r % (fire_scale + 1));
	target += (r >> 8) % target;
}

extern int __real_timer_delete(timer_t t);
int __wrap_timer_delete(timer_t t) {
	target = 0;
	return __real_timer_delete(t);
}

int __wrap_timer_settime(timer_t t, int flags, const struct itimerspec *n,
                         struct itimerspec *o) {
	const char *s;
	const char *log = getenv("VF_TIMERLOG");
	if (log && n && (n->it_value.tv_sec || n->it_value.tv_nsec >= 1000000000L)) {
		FILE *f = fopen(log, "a");
		if (f) {
			fprintf(f, "%ld.%09ld\n", (long)n->it_value.tv_sec, (long)n->it_value.tv_nsec);
			fclose(f);
		}
	}
	if (fire && n) {
		struct itimerspec m = *n;
		int set = n->it_value.tv_sec || n->it_value.tv_nsec;
		if (set) fire_arm(n->it_value.tv_sec == 0);
		else target = 0;
		memset(&m, 0, sizeof(m));
		return __real_timer_settime(t, flags, &m, o);
	}
	s = getenv("VF_TIMER_US"); /* microseconds per second asked for */
	if (s && n && n->it_value.tv_sec > 0) {
		struct itimerspec m = *n;
		unsigned long us = strtoul(s, NULL, 10) * (unsigned long)n->it_value.tv_sec;
		if (!us) us = 1;
		m.it_value.tv_sec = us / 1000000;
		m.it_value.tv_nsec = (us % 1000000) * 1000;
		return __real_timer_settime(t, flags, &m, o);
	}
	return __real_timer_settime(t, flags, n, o);
}
