/* Linked with --wrap: the $ALLOC_FAIL-th allocation of skull itself fails (and
all later ones if $ALLOC_STICKY is set); the number of allocations goes to
$ALLOC_COUNT. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
static long count, fail, sticky;

__attribute__((constructor)) static void begin(void) {
	const char *f = getenv("ALLOC_FAIL"), *s = getenv("ALLOC_STICKY");
	fail = f ? atol(f) : 0;
	sticky = s && *s == '1';
}

__attribute__((destructor)) static void end(void) {
	const char *c = getenv("ALLOC_COUNT");
	if (!c) return;
	int fd = open(c, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	char b[32];
	int n = snprintf(b, sizeof b, "%ld\n", count);
	if (fd < 0 || write(fd, b, n) != n) _exit(77);
	close(fd);
}

static int bad(void) {
	count++;
	if (!fail || !(sticky ? count >= fail : count == fail)) return 0;
	errno = ENOMEM;
	return 1;
}

void *__wrap_malloc(size_t n) { return bad() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return bad() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return bad() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return bad() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return bad() ? NULL : __real_strndup(s, n); }
