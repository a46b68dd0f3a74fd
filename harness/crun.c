/* crun SO DEPTH MAX_RUNS SECONDS FUNCTION...: runs functions of a shared object once
per decision script (as harness/driver.c does), restoring the object's data
before every run. */
#define _GNU_SOURCE
#define ENVFN
#include "env.h"
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <unistd.h>

typedef struct { char *at, *save; size_t n; } Seg;
static Seg segs[64];
static size_t nseg;
static const char *so;

static int find(struct dl_phdr_info *i, size_t n, void *d) {
	(void)n; (void)d;
	if (strcmp(i->dlpi_name, so)) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr) *p = &i->dlpi_phdr[k];
		if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
		Seg *s = &segs[nseg++];
		s->at = (char *)(i->dlpi_addr + p->p_vaddr);
		s->n = p->p_memsz;
		s->save = malloc(s->n);
		memcpy(s->save, s->at, s->n);
	}
	return 1;
}

int main(int argc, char **argv) {
	if (argc < 6) return 97;
	so = argv[1];
	depth_bound = atoi(argv[2]);
	int max_runs = atoi(argv[3]);
	unsigned limit = (unsigned)atoi(argv[4]);
	void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
	if (!h) { printf("!dlopen %s\n", dlerror()); return 96; }
	dl_iterate_phdr(find, NULL);
	for (int a = 5; a < argc; a++) {
		int (*fn)(void) = (int (*)(void))dlsym(h, argv[a]);
		printf("@%s\n", argv[a]);
		fflush(stdout);
		if (!fn) { printf("!missing\n"); continue; }
		alarm(limit);
		script_len = 0;
		for (int k = 0; k < max_runs; k++) {
			trace.n = 0;
			trace_events = 0;
			points = 0;
			for (size_t i = 0; i < nseg; i++) memcpy(segs[i].at, segs[i].save, segs[i].n);
			volatile int rv = 0;
			volatile bool cut = false;
			if (setjmp(out_of_run) == 0) rv = fn();
			else cut = true;
			for (int i = 0; i < script_len; i++) putchar('0' + script[i]);
			if (cut) printf("|cut|"); else printf("|%d|", rv);
			if (trace.n) fwrite(trace.p, 1, trace.n, stdout);
			putchar('\n');
			while (script_len && script[script_len - 1] == 1) script_len--;
			if (!script_len) break;
			script[script_len - 1] = 1;
		}
		alarm(0);
		printf(".\n");
		fflush(stdout);
	}
	return 0;
}
