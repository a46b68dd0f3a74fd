/* The environment of an executable that skull linked: decisions come from
$SCRIPT, events are written on stdout as they happen. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void out(const char *s) { if (write(1, s, strlen(s)) < 0) _exit(98); }
static int count;
static void event(const char *s) { out(s); if (++count > 400) _exit(99); }
#define EV(fmt, ...) do { char b[64]; snprintf(b, sizeof b, fmt, __VA_ARGS__); event(b); } while (0)
void eI(int64_t x) { EV("i%lld;", (long long)x); }
void eF(double x) {
	uint64_t u;
	memcpy(&u, &x, 8);
	if (x != x) event("fnan;");
	else EV("f%016llx;", (unsigned long long)u);
}
void eB(bool x) { EV("b%d;", x ? 1 : 0); }
void eR(uint32_t x) { EV("r%u;", x); }
void eS(const char *s) {
	char b[8];
	out("s");
	for (const unsigned char *p = (const unsigned char *)s; *p; p++) { snprintf(b, sizeof b, "%02x", *p); out(b); }
	event(";");
}
int64_t vI(int64_t x) { return x; }
double vF(double x) { return x; }
bool vB(bool x) { return x; }
uint32_t vR(uint32_t x) { return x; }
const char *vS(const char *s) { return strdup(s); }
static int choose(void) {
	static int at;
	const char *s = getenv("SCRIPT");
	if (++count > 400) _exit(99);
	if (!s || at >= (int)strlen(s)) return 0;
	return s[at++] == '1';
}
bool chB(void) { return choose() != 0; }
int64_t chI(void) { return choose(); }
bool lB(int64_t k, bool x) { EV("l%lld;", (long long)k); return x; }
int64_t lI(int64_t k, int64_t x) { EV("l%lld;", (long long)k); return x; }
int64_t nI(void) { uint32_t k = (uint32_t)count; event("nI;"); return k; }
int64_t tI(int64_t x) { event("tI;"); return x; }
double nF(void) { uint32_t k = (uint32_t)count; event("nF;"); return (double)k + 0.5; }
double tF(double x) { event("tF;"); return x; }
bool nB(void) { uint32_t k = (uint32_t)count; event("nB;"); return k % 2 == 1; }
bool tB(bool x) { event("tB;"); return x; }
uint32_t nR(void) { uint32_t k = (uint32_t)count; event("nR;"); return 97 + k % 26; }
uint32_t tR(uint32_t x) { event("tR;"); return x; }
const char *nS(void) { char b[32]; snprintf(b, sizeof b, "s%u", (unsigned)count); event("nS;"); return strdup(b); }
const char *tS(const char *x) { event("tS;"); return x; }
void eN(void) { event("n;"); }
