/* Linked with native objects and a table of their entry points: runs one of
them on one decision script.  A debugger stops at every stop().
Arguments: ENTRY SCRIPT DEPTH. */
#include <setjmp.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

extern int64_t (*const table[])(void);

static jmp_buf out_of_run;
static const char *script;
static int script_len, points, events, limit;

__attribute__((noinline, noclone)) void dbg_stop(void) { __asm__ volatile("" ::: "memory"); }

static void event(void) {
	dbg_stop();
	if (++events >= limit) longjmp(out_of_run, 1);
}

static int choose(void) {
	int c = points < script_len ? script[points] - '0' : 0;
	points++;
	return c;
}

#define FN __attribute__((noinline, noclone))
FN void eI(int64_t x) { event(); }
FN void eF(double x) { event(); }
FN void eB(bool x) { event(); }
FN void eR(uint32_t x) { event(); }
FN void eS(const char *x) { event(); }
FN int64_t vI(int64_t x) { event(); return x; }
FN double vF(double x) { event(); return x; }
FN bool vB(bool x) { event(); return x; }
FN uint32_t vR(uint32_t x) { event(); return x; }
FN const char *vS(const char *x) { event(); return x; }
FN bool chB(void) { event(); return choose() != 0; }
FN int64_t chI(void) { event(); return choose(); }
FN bool lB(int64_t k, bool x) { event(); return x; }
FN int64_t lI(int64_t k, int64_t x) { event(); return x; }

int main(int argc, char **argv) {
	if (argc < 4) return 97;
	script = argv[2][0] == '-' ? "" : argv[2];
	script_len = (int)strlen(script);
	limit = atoi(argv[3]);
	if (!setjmp(out_of_run)) table[atoi(argv[1])]();
	return 0;
}
