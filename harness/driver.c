/*
In-process server around the real skull pipeline.

Reads cases from fd 0, answers on fd 3 (fd 1 is pointed at /dev/null, fd 2 at a
scratch file whose text is part of the answer).  Every case calls the real
run_pipeline() the way test/skull/e2e.c does.  On request the IR that the
pipeline wrote is linked with /repo's skull/shim.ll, JIT-compiled and executed
once per decision script: the program's `external` functions are bound to
recorders (e*), opaque identities (v*) and decision points (ch*), and every
script of the bounded decision tree is enumerated depth first.
*/
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <llvm-c/Analysis.h>
#include <llvm-c/Core.h>
#include <llvm-c/ExecutionEngine.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Linker.h>
#include <llvm-c/Target.h>

#include "skull/build_data.h"
#include "skull/common/errors.h"
#include "skull/common/local.h"
#include "skull/pipeline.h"

enum {
	O_QUIET = 1, O_CBACKEND = 2, O_DEBUG = 4, O_WERROR = 8,
	O_O1 = 16, O_O2 = 32, O_O3 = 64, O_NOVERIFY = 128, O_COLOR = 256,
	O_RUN = 512, O_WANT = 1024, O_ASM = 2048, O_OBJ = 4096,
};

#include "env.h"

static const char *shim_path;
static char art_path[512];
static int out_fd = 3;

#ifdef __SANITIZE_ADDRESS__
/* The C library's conversions are not instrumented, and AddressSanitizer has
no interceptors for these two: what they read and write is checked here. */
#include <dlfcn.h>
#include <uchar.h>

size_t c32rtomb(char *to, char32_t c, mbstate_t *state) {
	static size_t (*real)(char *, char32_t, mbstate_t *);
	if (!real) real = dlsym(RTLD_NEXT, "c32rtomb");
	if (!to) return real(to, c, state);
	char part[64];
	size_t n = real(part, c, state);
	if (n <= sizeof part)
		for (size_t i = 0; i < n; i++) to[i] = part[i];
	return n;
}

size_t mbrtoc32(char32_t *to, const char *from, size_t max, mbstate_t *state) {
	static size_t (*real)(char32_t *, const char *, size_t, mbstate_t *);
	if (!real) real = dlsym(RTLD_NEXT, "mbrtoc32");
	char32_t c = 0;
	size_t n = real(&c, from, max, state);
	static volatile char sink;
	if (from && max) sink = from[0];
	if (from && n <= max)
		for (size_t i = 0; i < n; i++) sink = from[i];
	if (to && n <= max) *to = c;
	return n;
}
#endif

static void on_alarm(int s) { (void)s; _exit(99); }

static char *slurp(const char *path, size_t *n) {
	*n = 0;
	FILE *f = fopen(path, "rb");
	if (!f) return NULL;
	Buf b = {0};
	char tmp[65536];
	size_t k;
	while ((k = fread(tmp, 1, sizeof tmp, f)) > 0) put(&b, tmp, k);
	fclose(f);
	if (!b.p) put(&b, "", 0);
	*n = b.n;
	return b.p;
}

static bool full_read(void *p, size_t n) {
	char *c = p;
	while (n) {
		ssize_t k = read(0, c, n);
		if (k <= 0) return false;
		c += k;
		n -= (size_t)k;
	}
	return true;
}
static void full_write(const void *p, size_t n) {
	const char *c = p;
	while (n) {
		ssize_t k = write(out_fd, c, n);
		if (k <= 0) _exit(98);
		c += k;
		n -= (size_t)k;
	}
}

static LLVMModuleRef parse_file(LLVMContextRef ctx, const char *path, char **err) {
	LLVMMemoryBufferRef mb = NULL;
	LLVMModuleRef m = NULL;
	if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, err)) return NULL;
	if (LLVMParseIRInContext(ctx, mb, &m, err)) return NULL;
	return m;
}

typedef struct { LLVMValueRef g; void *at, *save; size_t n; } Snap;

/* 1 ok, 2 IR unusable, 3 unresolved, 5 no main */
static int run_ir(const char *main_name, Buf *runs, int depth, int max_runs) {
	LLVMContextRef ctx = LLVMContextCreate();
	char *err = NULL;
	LLVMModuleRef m = parse_file(ctx, art_path, &err);
	if (!m) { putf(runs, "parse: %.200s", err ? err : "?"); return 2; }
	if (LLVMVerifyModule(m, LLVMReturnStatusAction, &err)) {
		putf(runs, "verify: %.200s", err);
		return 2;
	}
	LLVMModuleRef shim = parse_file(ctx, shim_path, &err);
	if (shim && LLVMLinkModules2(m, shim)) { putf(runs, "link"); return 2; }
	/* every run starts from the initial values of the module's variables */
	Snap *snaps = NULL;
	size_t nsnap = 0;
	for (LLVMValueRef g = LLVMGetFirstGlobal(m); g; g = LLVMGetNextGlobal(g)) {
		size_t n;
		LLVMGetValueName2(g, &n);
		if (LLVMIsDeclaration(g) || LLVMIsGlobalConstant(g) || !n) continue;
		LLVMSetLinkage(g, LLVMExternalLinkage);
		snaps = realloc(snaps, (nsnap + 1) * sizeof *snaps);
		snaps[nsnap++].g = g;
	}
	LLVMExecutionEngineRef ee = NULL;
	struct LLVMMCJITCompilerOptions o;
	LLVMInitializeMCJITCompilerOptions(&o, sizeof o);
	o.OptLevel = 0;
	if (LLVMCreateMCJITCompilerForModule(&ee, m, &o, sizeof o, &err)) {
		putf(runs, "jit: %.200s", err);
		return 2;
	}
	int rc = 1;
	for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) {
		if (!LLVMIsDeclaration(f)) continue;
		size_t n;
		const char *name = LLVMGetValueName2(f, &n);
		if (!n || !LLVMGetFirstUse(f) || strncmp(name, "llvm.", 5) == 0) continue;
		void *addr = NULL;
		for (size_t i = 0; i < sizeof externs / sizeof *externs; i++)
			if (strcmp(externs[i].name, name) == 0) addr = externs[i].fn;
		if (addr) LLVMAddGlobalMapping(ee, f, addr);
		else if (strcmp(name, "pow") && strcmp(name, "fmod") && strcmp(name, "strcmp")) {
			putf(runs, "unresolved: %.100s", name);
			rc = 3;
		}
	}
	if (rc == 1) {
		int64_t (*fn)(void) = (int64_t (*)(void))LLVMGetFunctionAddress(ee, main_name);
		for (size_t i = 0; fn && i < nsnap; i++) {
			size_t n;
			snaps[i].at = (void *)LLVMGetGlobalValueAddress(ee, LLVMGetValueName2(snaps[i].g, &n));
			if (!snaps[i].at) { putf(runs, "no address"); rc = 2; fn = NULL; break; }
			snaps[i].n = LLVMABISizeOfType(LLVMGetExecutionEngineTargetData(ee),
			                               LLVMGlobalGetValueType(snaps[i].g));
			snaps[i].save = malloc(snaps[i].n + 1);
			memcpy(snaps[i].save, snaps[i].at, snaps[i].n);
		}
		if (!fn && rc == 2) {}
		else if (!fn) { putf(runs, "no %.100s", main_name); rc = 5; }
		else {
			/* enumerate the decision tree up to `depth` decisions */
			depth_bound = depth;
			script_len = 0;
			for (int k = 0; k < max_runs; k++) {
				trace.n = 0;
				trace_events = 0;
				points = 0;
				for (size_t i = 0; i < nsnap; i++) memcpy(snaps[i].at, snaps[i].save, snaps[i].n);
				volatile int64_t rv = 0;
				volatile bool cut = false;
				if (setjmp(out_of_run) == 0) rv = fn();
				else cut = true;
				for (int i = 0; i < script_len; i++) putf(runs, "%d", script[i]);
				if (cut) putf(runs, "|cut|");
				else putf(runs, "|%lld|", (long long)rv);
				put(runs, trace.p ? trace.p : "", trace.n);
				put(runs, "\n", 1);
				while (script_len && script[script_len - 1] == 1) script_len--;
				if (!script_len) break;
				script[script_len - 1] = 1;
			}
		}
	}
	if (rc == 1)
		for (size_t i = 0; i < nsnap; i++) free(snaps[i].save);
	free(snaps);
	LLVMDisposeExecutionEngine(ee);
	LLVMContextDispose(ctx);
	return rc;
}

int main(int argc, char **argv) {
	if (argc < 4) return 97;
	const char *dir = argv[1];
	shim_path = argv[2];
	unsigned limit_s = (unsigned)atoi(argv[3]);
	if (chdir(dir)) return 97;
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	signal(SIGALRM, on_alarm);
	setup_locale();
	LLVMLinkInMCJIT();
	LLVMInitializeNativeTarget();
	LLVMInitializeNativeAsmPrinter();
	LLVMInitializeNativeAsmParser();
	char err_path[512];
	snprintf(art_path, sizeof art_path, "%s/art", dir);
	snprintf(err_path, sizeof err_path, "%s/err", dir);
	int efd = open(err_path, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	dup2(efd, 2);
	close(efd);

	uint32_t h[6];
	while (full_read(h, sizeof h)) {
		uint32_t opts = h[1];
		char *name = malloc(h[2] + 1), *src = malloc(h[3] + 1);
		if (!full_read(name, h[2]) || !full_read(src, h[3])) break;
		name[h[2]] = 0;
		src[h[3]] = 0;
		unlink(art_path);
		if (ftruncate(2, 0)) _exit(98);
		alarm(limit_s);

		memset(&BUILD_DATA, 0, sizeof BUILD_DATA);
		BUILD_DATA.filename = name;
		BUILD_DATA.quiet = opts & O_QUIET;
		BUILD_DATA.c_backend = opts & O_CBACKEND;
		BUILD_DATA.debug = opts & O_DEBUG;
		BUILD_DATA.werror = opts & O_WERROR;
		BUILD_DATA.optimize1 = opts & O_O1;
		BUILD_DATA.optimize2 = opts & O_O2;
		BUILD_DATA.optimize3 = opts & O_O3;
		BUILD_DATA.llvm_no_verify = opts & O_NOVERIFY;
		BUILD_DATA.color = opts & O_COLOR;
		BUILD_DATA.asm_backend = opts & O_ASM;
		BUILD_DATA.compile_only = opts & O_OBJ;
		BUILD_DATA.preprocess = !(opts & (O_ASM | O_OBJ));
		BUILD_DATA.out_file = strdup(art_path);

		int32_t rc = run_pipeline(name, src);
		fflush(NULL);

		/* what was written on stderr so far, then the messages as the user
		   sees them */
		size_t e0 = 0, mn_ = 0;
		char *etext = slurp(err_path, &e0);
		write_and_free_errors();
		fflush(NULL);
		char *both = slurp(err_path, &mn_);
		Buf msgs = {0};
		if (mn_ > e0) put(&msgs, both + e0, mn_ - e0);
		free(both);
		free(BUILD_DATA.out_file);
		BUILD_DATA.out_file = NULL;

		size_t an = 0, en = e0;
		struct stat st;
		int32_t have = stat(art_path, &st) == 0 ? 1 : 0;
		char *art = have && (opts & O_WANT) ? slurp(art_path, &an) : NULL;
		int32_t rs = 0;
		Buf runs = {0};
		if ((opts & O_RUN) && rc == 0) {
			char mn[600];
			const char *slash = strrchr(name, '/');
			const char *base = slash ? slash + 1 : name;
			snprintf(mn, sizeof mn, ".%.*s", (int)strlen(base) - 3, base);
			rs = have ? run_ir(mn, &runs, (int)h[4], (int)h[5]) : 4;
		}
		alarm(0);
		int32_t head[8] = {0x534b, rc, have, rs, (int32_t)msgs.n, (int32_t)en, (int32_t)an, (int32_t)runs.n};
		full_write(head, sizeof head);
		if (msgs.n) full_write(msgs.p, msgs.n);
		if (en) full_write(etext, en);
		if (an) full_write(art, an);
		if (runs.n) full_write(runs.p, runs.n);
		free(msgs.p); free(etext); free(art); free(runs.p); free(name);
	}
	unlink(art_path);
	unlink(err_path);
	return 0;
}
