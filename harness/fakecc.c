/* Stand-in for cc: records its arguments and the files among them, and creates
the file named after the last -o. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int main(int argc, char **argv) {
	const char *out = "a.out";
	const char *log = getenv("FAKECC_LOG"), *rc = getenv("FAKECC_RC");
	FILE *l = log ? fopen(log, "ab") : NULL;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[i + 1];
		if (l) fwrite(argv[i], 1, strlen(argv[i]) + 1, l);
	}
	if (l) { fputc(1, l); fclose(l); }
	const char *sig = getenv("FAKECC_SIG"), *made = getenv("FAKECC_MADE");
	if (made) {
		FILE *o = fopen(out, "wb");
		if (o) { fputs("half", o); fclose(o); }
	}
	if (sig) { signal(atoi(sig), SIG_DFL); raise(atoi(sig)); }
	if (rc && atoi(rc)) { fprintf(stderr, "fakecc: no\n"); return atoi(rc); }
	FILE *o = fopen(out, "wb");
	if (!o) { fprintf(stderr, "fakecc: %s\n", out); return 9; }
	/* the objects themselves */
	for (int i = 1; i < argc; i++) {
		if (argv[i][0] == '-') { if (!strcmp(argv[i], "-o")) i++; continue; }
		FILE *f = fopen(argv[i], "rb");
		if (!f) continue;
		char b[65536];
		size_t n;
		while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, o);
		fclose(f);
	}
	return fclose(o) ? 7 : 0;
}
