/* faulter LOG NAME:K HOW STICKY PROGRAM ARGS...
Runs PROGRAM and lists in LOG the system calls it makes from its start on that
can fail; makes the K-th of those called NAME (K = 0: none) fail with error HOW,
or transfer a single byte (HOW = short), or kills the process that the call (an
exec) belongs to with signal -HOW. STICKY: all later calls of that kind on anything but the
standard streams fail as well. In child processes only the calls up to and
including exec count. */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const struct { int nr; const char *name; int path; int fd; } calls[] = {
	{SYS_open, "open", 0, -1}, {SYS_openat, "open", 1, -1}, {SYS_creat, "open", 0, -1},
	{SYS_read, "read", -1, 0}, {SYS_pread64, "read", -1, 0}, {SYS_readv, "readv", -1, 0},
	{SYS_write, "write", -1, 0}, {SYS_pwrite64, "write", -1, 0}, {SYS_writev, "writev", -1, 0},
	{SYS_close, "close", -1, 0}, {SYS_lseek, "lseek", -1, 0}, {SYS_fstat, "fstat", -1, 0},
	{SYS_stat, "stat", 0, -1}, {SYS_lstat, "stat", 0, -1}, {SYS_newfstatat, "stat", 1, -1}, {SYS_statx, "stat", 1, -1},
	{SYS_access, "access", 0, -1}, {SYS_faccessat, "access", 1, -1},
	{SYS_unlink, "unlink", 0, -1}, {SYS_unlinkat, "unlink", 1, -1}, {SYS_rename, "rename", 0, -1}, {SYS_renameat, "rename", 1, -1}, {SYS_renameat2, "rename", 1, -1},
	{SYS_mkdir, "mkdir", 0, -1}, {SYS_mkdirat, "mkdir", 1, -1}, {SYS_ftruncate, "ftruncate", -1, 0}, {SYS_fsync, "fsync", -1, 0}, {SYS_fallocate, "fallocate", -1, 0},
	{SYS_dup, "dup", -1, 0}, {SYS_dup2, "dup", -1, 0}, {SYS_dup3, "dup", -1, 0}, {SYS_pipe, "pipe", -1, -1}, {SYS_pipe2, "pipe", -1, -1}, {SYS_getcwd, "getcwd", -1, -1},
	{SYS_fork, "fork", -1, -1}, {SYS_vfork, "fork", -1, -1}, {SYS_clone, "fork", -1, -1}, {SYS_clone3, "fork", -1, -1},
	{SYS_execve, "exec", 0, -1}, {SYS_execveat, "exec", 1, -1}, {SYS_wait4, "wait", -1, -1}, {SYS_waitid, "wait", -1, -1},
	{SYS_mmap, "memory", -1, -1}, {SYS_brk, "memory", -1, -1}, {SYS_mremap, "memory", -1, -1},
};
#define NCALLS (int)(sizeof calls / sizeof *calls)
#define MAXP 64
static struct { pid_t pid; int on, inside, fault, started, kill_at_exec; } procs[MAXP];

static int slot(pid_t p) {
	for (int i = 0; i < MAXP; i++) if (procs[i].pid == p) return i;
	for (int i = 0; i < MAXP; i++) if (!procs[i].pid) {
		memset(&procs[i], 0, sizeof *procs);
		procs[i].pid = p;
		return i;
	}
	exit(97);
}

static void text(pid_t pid, unsigned long at, char *out, size_t n) {
	struct iovec l = {out, n - 1}, r = {(void *)at, n - 1};
	out[0] = 0;
	for (size_t k = n - 1; k > 0; k = k > 16 ? k - 16 : 0) {
		l.iov_len = r.iov_len = k;
		ssize_t g = process_vm_readv(pid, &l, 1, &r, 1, 0);
		if (g >= 0) { out[g] = 0; break; }
	}
	out[strcspn(out, "\n")] = 0;
}

int main(int argc, char **argv) {
	if (argc < 6) return 96;
	FILE *log = fopen(argv[1], "w");
	char *colon = strchr(argv[2], ':');
	if (!colon) return 90;
	*colon = 0;
	int k = atoi(colon + 1), is_short = !strcmp(argv[3], "short"), how = atoi(argv[3]), sticky = atoi(argv[4]);
	if (!log) return 95;
	pid_t child = fork();
	if (!child) {
		fclose(log);
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execv(argv[5], argv + 5);
		_exit(94);
	}
	int st, rc = 93;
	int seen[NCALLS] = {0};
	if (waitpid(child, &st, 0) != child || !WIFSTOPPED(st)) return 92;
	if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) return 91;
	slot(child);
	ptrace(PTRACE_SYSCALL, child, 0, 0);
	for (;;) {
		pid_t p = waitpid(-1, &st, __WALL);
		if (p < 0) break;
		int s = slot(p), sig = 0;
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (p == child) {
				rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
				if (WIFSIGNALED(st)) fprintf(log, "signal %d\n", WTERMSIG(st));
			}
			procs[s].pid = 0;
			continue;
		}
		sig = WSTOPSIG(st);
		if (sig == (SIGTRAP | 0x80)) {
			struct user_regs_struct r;
			ptrace(PTRACE_GETREGS, p, 0, &r);
			sig = 0;
			if (!procs[s].inside) {
				procs[s].inside = 1;
				procs[s].fault = 0;
				if (r.orig_rax == 999999) procs[s].on = procs[s].started = 1;
				int c = -1;
				for (int i = 0; i < NCALLS; i++) if ((int)r.orig_rax == calls[i].nr) c = i;
				if (procs[s].on && c >= 0) {
					unsigned long a[2] = {r.rdi, r.rsi};
					char path[256] = "";
					int fd = calls[c].fd >= 0 ? (int)r.rdi : -1;
					if (calls[c].path >= 0) text(p, a[calls[c].path], path, sizeof path);
					int first = 0;
					while (strcmp(calls[first].name, calls[c].name)) first++;
					int n = ++seen[first];
					int hit = k && !strcmp(argv[2], calls[c].name) && (n == k || (sticky && n > k && (fd < 0 || fd > 2)));
					fprintf(log, "%s %d %d %d %s\n", calls[c].name, n, fd, p == child, path);
					fflush(log);
					if (hit) {
						if (is_short) {
							if (r.rdx > 1) { r.rdx = 1; ptrace(PTRACE_SETREGS, p, 0, &r); }
						}
						else if (how < 0) procs[s].kill_at_exec = -how;
						else {
							procs[s].fault = how;
							if (strcmp(calls[c].name, "close")) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); }
						}
					}
				}
			}
			else {
				procs[s].inside = 0;
				if (procs[s].fault) {
					r.rax = -procs[s].fault;
					ptrace(PTRACE_SETREGS, p, 0, &r);
					procs[s].fault = 0;
				}
			}
		}
		else if (sig == SIGTRAP && st >> 16) {
			int ev = st >> 16;
			sig = 0;
			if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
				unsigned long np;
				ptrace(PTRACE_GETEVENTMSG, p, 0, &np);
				int n = slot((pid_t)np);
				procs[n].on = procs[s].on;
			}
			else if (ev == PTRACE_EVENT_EXEC && p != child) {
				procs[s].on = 0;
				if (procs[s].kill_at_exec) { kill(p, procs[s].kill_at_exec); }
			}
		}
		else if (sig == SIGSTOP && !procs[s].started) { procs[s].started = 1; sig = 0; }
		ptrace(PTRACE_SYSCALL, p, 0, sig);
	}
	fprintf(log, "end %d\n", rc);
	fclose(log);
	return rc;
}
