/* The environment of compiled programs: their external functions log what they
are given, and answer decisions from a script. */
#include <setjmp.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifndef ENVFN
#define ENVFN static
#endif

typedef struct { char *p; size_t n, cap; } Buf;
static void put(Buf *b, const void *d, size_t n) {
	if (b->n + n + 1 > b->cap) {
		b->cap = (b->n + n + 1) * 2;
		b->p = realloc(b->p, b->cap);
	}
	memcpy(b->p + b->n, d, n);
	b->n += n;
	b->p[b->n] = 0;
}
static void putf(Buf *b, const char *fmt, ...) {
	char tmp[256];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
	va_end(ap);
	put(b, tmp, (size_t)n);
}

static Buf trace;
static size_t trace_events, trace_limit = 400;
static jmp_buf out_of_run;
static unsigned char script[64];
static int script_len, points, depth_bound;

static void tick(void) {
	if (++trace_events > trace_limit) longjmp(out_of_run, 1);
}
ENVFN void eI(int64_t x) { putf(&trace, "i%lld;", (long long)x); tick(); }
ENVFN void eF(double x) {
	uint64_t u;
	memcpy(&u, &x, 8);
	if (x != x) putf(&trace, "fnan;");
	else putf(&trace, "f%016llx;", (unsigned long long)u);
	tick();
}
ENVFN void eB(bool x) { putf(&trace, "b%d;", x ? 1 : 0); tick(); }
ENVFN void eR(uint32_t x) { putf(&trace, "r%u;", x); tick(); }
ENVFN void eS(const char *s) {
	putf(&trace, "s");
	for (const unsigned char *p = (const unsigned char *)s; *p; p++)
		putf(&trace, "%02x", *p);
	putf(&trace, ";");
	tick();
}
ENVFN int64_t vI(int64_t x) { return x; }
ENVFN double vF(double x) { return x; }
ENVFN bool vB(bool x) { return x; }
ENVFN uint32_t vR(uint32_t x) { return x; }
ENVFN const char *vS(const char *s) { return strdup(s); }
static int choose(void) {
	int c = 0;
	if (points < script_len) c = script[points];
	else if (points < depth_bound) script[script_len++] = 0;
	points++;
	tick();
	return c;
}
ENVFN bool chB(void) { return choose() != 0; }
ENVFN int64_t chI(void) { return choose(); }
/* labelled identity: logs evaluation order, returns its second argument */
ENVFN bool lB(int64_t k, bool x) { putf(&trace, "l%lld;", (long long)k); tick(); return x; }
ENVFN int64_t lI(int64_t k, int64_t x) { putf(&trace, "l%lld;", (long long)k); tick(); return x; }

/* answers that differ from call to call, and logged identities */
ENVFN int64_t nI(void) { uint32_t k = (uint32_t)trace_events; putf(&trace, "nI;"); tick(); return k; }
ENVFN int64_t tI(int64_t x) { putf(&trace, "tI;"); tick(); return x; }
ENVFN double nF(void) { uint32_t k = (uint32_t)trace_events; putf(&trace, "nF;"); tick(); return (double)k + 0.5; }
ENVFN double tF(double x) { putf(&trace, "tF;"); tick(); return x; }
ENVFN bool nB(void) { uint32_t k = (uint32_t)trace_events; putf(&trace, "nB;"); tick(); return k % 2 == 1; }
ENVFN bool tB(bool x) { putf(&trace, "tB;"); tick(); return x; }
ENVFN uint32_t nR(void) { uint32_t k = (uint32_t)trace_events; putf(&trace, "nR;"); tick(); return 97 + k % 26; }
ENVFN uint32_t tR(uint32_t x) { putf(&trace, "tR;"); tick(); return x; }
ENVFN const char *nS(void) { char b[32]; snprintf(b, sizeof b, "s%u", (unsigned)trace_events); putf(&trace, "nS;"); tick(); return strdup(b); }
ENVFN const char *tS(const char *x) { putf(&trace, "tS;"); tick(); return x; }
ENVFN void eN(void) { putf(&trace, "n;"); tick(); }

static const struct { const char *name; void *fn; } externs[] = {
	{"eI", (void *)eI}, {"eF", (void *)eF}, {"eB", (void *)eB},
	{"eR", (void *)eR}, {"eS", (void *)eS}, {"vI", (void *)vI},
	{"vF", (void *)vF}, {"vB", (void *)vB}, {"vR", (void *)vR},
	{"vS", (void *)vS}, {"chB", (void *)chB}, {"chI", (void *)chI},
	{"lB", (void *)lB}, {"lI", (void *)lI},
	{"nI", (void *)nI}, {"nF", (void *)nF}, {"nB", (void *)nB}, {"nR", (void *)nR}, {"nS", (void *)nS}, {"tI", (void *)tI}, {"tF", (void *)tF}, {"tB", (void *)tB}, {"tR", (void *)tR}, {"tS", (void *)tS}, {"eN", (void *)eN},
};

