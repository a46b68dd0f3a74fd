/* Linked with native objects and a table of their entry points: runs the listed
entries once per decision script (as harness/driver.c does), each run in a
child process.  Arguments: DEPTH MAX_RUNS SECONDS. */
#define _GNU_SOURCE
#define ENVFN
#include "env.h"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

extern const struct { const char *name; int64_t (*fn)(void); } table[];
extern const int table_len;

int main(int argc, char **argv) {
	if (argc < 4) return 97;
	depth_bound = atoi(argv[1]);
	int max_runs = atoi(argv[2]);
	unsigned limit = (unsigned)atoi(argv[3]);
	for (int t = 0; t < table_len; t++) {
		printf("@%s\n", table[t].name);
		script_len = 0;
		for (int k = 0; k < max_runs; k++) {
			int p[2];
			if (pipe(p)) return 96;
			fflush(stdout);
			pid_t pid = fork();
			if (pid < 0) return 95;
			if (pid == 0) {
				close(p[0]);
				alarm(limit);
				trace.n = 0;
				trace_events = 0;
				points = 0;
				volatile int64_t rv = 0;
				volatile bool cut = false;
				if (setjmp(out_of_run) == 0) rv = table[t].fn();
				else cut = true;
				FILE *o = fdopen(p[1], "w");
				for (int i = 0; i < script_len; i++) fputc('0' + script[i], o);
				if (cut) fprintf(o, "|cut|"); else fprintf(o, "|%lld|", (long long)rv);
				if (trace.n) fwrite(trace.p, 1, trace.n, o);
				fputc('\n', o);
				fflush(o);
				_exit(0);
			}
			close(p[1]);
			static char buf[1 << 22];
			size_t n = 0;
			ssize_t r;
			while (n < sizeof buf - 1 && (r = read(p[0], buf + n, sizeof buf - 1 - n)) > 0) n += (size_t)r;
			buf[n] = 0;
			close(p[0]);
			int st = 0;
			waitpid(pid, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st) || !n) { printf("!died %d\n", st); break; }
			fwrite(buf, 1, n, stdout);
			/* the script as the child extended it */
			script_len = 0;
			for (char *c = buf; *c == '0' || *c == '1'; c++) script[script_len++] = (unsigned char)(*c - '0');
			while (script_len && script[script_len - 1] == 1) script_len--;
			if (!script_len) break;
			script[script_len - 1] = 1;
		}
		printf(".\n");
	}
	fflush(stdout);
	return 0;
}
