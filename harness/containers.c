/*
Exhaustive exploration of the collections and text helpers: every operation
sequence up to a depth, against a mathematical counterpart kept alongside.
Prints "FAIL family: history" for a disagreement, and counts at the end.
Runs under AddressSanitizer, so memory errors end it.
*/
#define _GNU_SOURCE
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "skull/build_data.h"
#include "skull/common/errors.h"
#include "skull/common/hashtable.h"
#include "skull/common/local.h"
#include "skull/common/io.h"
#include "skull/common/str.h"
#include "skull/common/vector.h"

static unsigned long long states, transitions, sequences;
static int fails;
static char history[4096];

static void fail(const char *family, const char *what) {
	if (fails++ < 5) printf("FAIL %s: %s [%s]\n", family, what, history);
}

/* ------------------------------------------------------------ vector */

enum { CAP = 6000 };
static uintptr_t model[CAP];
static size_t model_len;

static bool same(const Vector *v) {
	if (v->length != model_len) return false;
	for (size_t i = 0; i < model_len; i++)
		if ((uintptr_t)vector_at(v, i) != model[i]) return false;
	return !vector_at(v, model_len) && !vector_at(v, model_len + 1) && !vector_at(v, (size_t)-1);
}

static unsigned long long freed;
static uintptr_t freed_sum;
static void count_free(void *p) { freed++; freed_sum += (uintptr_t)p; }

/* script: bit 1 push, bit 0 pop; `fr`: freeze before op number fr */
static void vector_script(unsigned bits, int n, int fr) {
	Vector *v = make_vector();
	model_len = 0;
	uintptr_t next = 1;
	bool frozen = false;
	void *arr = NULL;
	sequences++;
	snprintf(history, sizeof history, "vector script %x of %d, freeze at %d", bits, n, fr);
	for (int i = 0; i <= n; i++) {
		if (i == fr) {
			arr = vector_freeze(v);
			frozen = true;
			transitions++;
			for (size_t k = 0; k < model_len; k++)
				if (((uintptr_t *)arr)[k] != model[k]) fail("vector", "frozen array differs");
		}
		if (i == n) break;
		if (bits >> i & 1) {
			vector_push(v, (void *)next);
			if (!frozen) model[model_len++] = next;
			next++;
		}
		else {
			uintptr_t got = (uintptr_t)vector_pop(v);
			uintptr_t want = !frozen && model_len ? model[--model_len] : 0;
			if (got != want) fail("vector", "pop returned another element");
		}
		transitions++;
		states++;
		if (!same(v)) { fail("vector", "contents differ"); break; }
	}
	uintptr_t sum = 0;
	for (size_t k = 0; k < model_len; k++) sum += model[k];
	freed = 0;
	freed_sum = 0;
	free_vector(v, count_free);
	if (freed != model_len || freed_sum != sum) fail("vector", "freed elements differ");
	if (frozen) free(arr);
}

static void vector_ladder(int up, int down, int total) {
	Vector *v = make_vector();
	model_len = 0;
	uintptr_t next = 1;
	snprintf(history, sizeof history, "vector: %d pushes then %d pops, up to %d", up, down, total);
	sequences++;
	while ((int)model_len < total) {
		for (int i = 0; i < up; i++) {
			vector_push(v, (void *)next);
			model[model_len++] = next++;
			transitions++;
		}
		for (int i = 0; i < down; i++) {
			if ((uintptr_t)vector_pop(v) != model[--model_len]) fail("vector", "pop");
			transitions++;
		}
		states++;
		if (model_len % 64 < 8 && !same(v)) { fail("vector", "contents differ"); break; }
	}
	if (!same(v)) fail("vector", "contents differ");
	free_vector(v, NULL);
}

/* one long run of pushes, looked at around every power of two, then popped */
static void vector_long(size_t total) {
	Vector *v = make_vector();
	snprintf(history, sizeof history, "vector: %zu pushes", total);
	sequences++;
	for (size_t i = 1; i <= total; i++) {
		vector_push(v, (void *)i);
		transitions++;
		if ((i & (i - 1)) && ((i + 1) & i) && ((i - 1) & (i - 2))) continue;
		states++;
		for (size_t k = 0; k < i; k++)
			if ((uintptr_t)vector_at(v, k) != k + 1) { fail("vector", "contents differ"); return; }
		if (vector_at(v, i)) fail("vector", "element beyond the end");
	}
	for (size_t i = total; i > total / 2; i--) {
		if ((uintptr_t)vector_pop(v) != i) { fail("vector", "pop"); break; }
		transitions++;
	}
	uintptr_t *arr = vector_freeze(v);
	for (size_t k = 0; k < total / 2; k++)
		if (arr[k] != k + 1) { fail("vector", "frozen array differs"); break; }
	free_vector(v, NULL);
	free(arr);
}

/* ------------------------------------------------------------ hash table */

static const char *KEYS[] = {
	"a", "b", "ab", "ba", "", "aa", "a@", "abc", "cba", "\xc3\xa9", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab",
};
enum { NK = sizeof KEYS / sizeof *KEYS };
static uintptr_t map[NK];
static unsigned long long ht_freed, ht_sum;
static void ht_count(void *p) {
	HashItem *it = p;
	ht_freed++;
	ht_sum += (uintptr_t)it->data;
}

static void ht_rec(int *seq, int n, int depth) {
	if (n > 0) {
		HashTable *ht = make_ht();
		char copies[16][64];
		memset(map, 0, sizeof map);
		uintptr_t total = 0;
		unsigned count = 0;
		sequences++;
		char *h = history;
		h += sprintf(h, "hash table:");
		for (int i = 0; i < n; i++) h += sprintf(h, " %d", seq[i]);
		for (int i = 0; i < n; i++) {
			int k = seq[i];
			strcpy(copies[i], KEYS[k]); /* the table must compare contents */
			uintptr_t val = (uintptr_t)(i + 1) << 8;
			bool added = ht_add(ht, copies[i], (void *)val);
			if (added != !map[k]) fail("hash table", "add");
			if (!map[k]) { map[k] = val; total += val; count++; }
			transitions++;
			if (i + 1 < n) continue;
			for (int j = 0; j < NK; j++) {
				transitions++;
				if ((uintptr_t)ht_get(ht, KEYS[j]) != map[j]) fail("hash table", "get");
			}
			if (ht_add(ht, "zzz", NULL) || ht_get(ht, "zzz")) fail("hash table", "null value");
		}
		states++;
		ht_freed = ht_sum = 0;
		free_ht(ht, ht_count);
		if (ht_freed != count || ht_sum != total) fail("hash table", "freed items differ");
	}
	if (n == depth) return;
	for (int k = 0; k < NK; k++) {
		seq[n] = k;
		ht_rec(seq, n + 1, depth);
	}
}

static void ht_many(int letters, int upto, const char *alphabet) {
	int na = (int)strlen(alphabet);
	HashTable *ht = make_ht();
	int total = 1;
	for (int i = 0; i < letters; i++) total *= na;
	if (total > upto) total = upto;
	char (*keys)[16] = calloc((size_t)total, 16);
	snprintf(history, sizeof history, "hash table: %d keys of %d letters", total, letters);
	for (int i = 0; i < total; i++) {
		int x = i;
		for (int j = 0; j < letters; j++) { keys[i][j] = alphabet[x % na]; x /= na; }
		if (ht_get(ht, keys[i])) fail("hash table", "found before it was added");
		if (!ht_add(ht, keys[i], (void *)(uintptr_t)(i + 1))) fail("hash table", "add refused");
		transitions += 2;
		states++;
		if ((i & (i + 1)) == 0 || i < 200)
			for (int j = 0; j <= i; j++) {
				transitions++;
				if ((uintptr_t)ht_get(ht, keys[j]) != (uintptr_t)(j + 1)) { fail("hash table", "lost or changed"); j = i; }
			}
	}
	for (int j = 0; j < total; j++) {
		if ((uintptr_t)ht_get(ht, keys[j]) != (uintptr_t)(j + 1)) { fail("hash table", "lost or changed"); break; }
		if (ht_add(ht, keys[j], (void *)(uintptr_t)99)) { fail("hash table", "added twice"); break; }
		transitions += 2;
	}
	sequences++;
	free_ht(ht, NULL);
	free(keys);
}

/* keys of one length that differ in one character */
static void ht_alike(int len) {
	HashTable *ht = make_ht();
	int total = 3 * len;
	char *keys = calloc((size_t)total, (size_t)len + 1);
	snprintf(history, sizeof history, "hash table: keys of length %d that differ in one character", len);
	for (int i = 0; i < total; i++) {
		char *k = keys + (size_t)i * ((size_t)len + 1);
		memset(k, 'k', (size_t)len);
		k[i % len] = "jlZ"[i / len];
		if (ht_get(ht, k)) { fail("hash table", "found before it was added"); break; }
		if (!ht_add(ht, k, (void *)(uintptr_t)(i + 1))) { fail("hash table", "add refused"); break; }
		transitions += 2;
		states++;
	}
	for (int i = 0; i < total; i++) {
		char *k = keys + (size_t)i * ((size_t)len + 1);
		if ((uintptr_t)ht_get(ht, k) != (uintptr_t)(i + 1)) { fail("hash table", "lost or changed"); break; }
		transitions++;
	}
	sequences++;
	free_ht(ht, NULL);
	free(keys);
}

/* ------------------------------------------------------------ text */

static int words(char32_t out[][8], int letters, const char32_t *al, int na) {
	int n = 0;
	for (int len = 0; len <= letters; len++) {
		int total = 1;
		for (int i = 0; i < len; i++) total *= na;
		for (int x = 0; x < total; x++) {
			int y = x;
			for (int i = 0; i < len; i++) { out[n][i] = al[y % na]; y /= na; }
			out[n][len] = 0;
			n++;
		}
	}
	return n;
}

static void text(int letters) {
	static char32_t w[20000][8];
	const char32_t al[] = {'a', 'b', 0x2603, 0x1f600};
	int n = words(w, letters, al, 4);
	for (int i = 0; i < n; i++) {
		size_t li = 0;
		while (w[i][li]) li++;
		snprintf(history, sizeof history, "text word %d", i);
		if (c32slen(w[i]) != li) fail("text", "length");
		char32_t *d = c32sdup(w[i]);
		if (memcmp(d, w[i], (li + 1) * sizeof *d)) fail("text", "duplicate");
		free(d);
		for (size_t k = 1; k < 8; k++) {
			char32_t buf[10];
			for (int j = 0; j < 10; j++) buf[j] = 0x7777;
			c32sncpy(buf, w[i], k);
			for (size_t j = 0; j < 10; j++) {
				char32_t want = j >= k ? 0x7777 : j < li ? w[i][j] : 0;
				if (buf[j] != want) fail("text", "bounded copy");
			}
			transitions++;
		}
		for (int c = 0; c < 4; c++) {
			const char32_t *p = NULL;
			for (size_t j = 0; j < li && !p; j++) if (w[i][j] == al[c]) p = &w[i][j];
			if (c32schr(w[i], al[c]) != p) fail("text", "find character");
		}
		char *mb = c32stombs(w[i], NULL);
		char32_t *back = mb ? mbstoc32s(mb) : NULL;
		if (!mb || !back || memcmp(back, w[i], (li + 1) * sizeof *back)) fail("text", "conversion there and back");
		free(mb);
		free(back);
		states++;
		if (i >= 341) continue;
		for (int j = 0; j < n && j < 341; j++) {
			size_t lj = 0;
			while (w[j][lj]) lj++;
			bool eq = i == j;
			if (c32scmp(w[i], w[j]) != eq) fail("text", "comparison");
			for (size_t k = 0; k < 6; k++) {
				bool want = li >= k && lj >= k && memcmp(w[i], w[j], k * sizeof(char32_t)) == 0;
				if (c32sncmp(w[i], w[j], k) != want) fail("text", "bounded comparison");
				transitions++;
			}
			transitions++;
		}
	}
	sequences += (unsigned long long)n;
	/* find the last occurrence, bytes */
	static char s[400][8];
	int m = 0;
	for (int len = 0; len <= 5; len++)
		for (int x = 0; x < 1 << len; x++) {
			for (int b = 0; b < len; b++) s[m][b] = x >> b & 1 ? 'x' : '.';
			s[m++][len] = 0;
		}
	for (int i = 0; i < m; i++)
		for (int j = 1; j < 1 + 2 + 4 + 8; j++) {
			const char *want = NULL;
			size_t lj = strlen(s[j]);
			for (const char *p = s[i]; *p; p++) if (strncmp(p, s[j], lj) == 0) want = p;
			snprintf(history, sizeof history, "last \"%s\" in \"%s\"", s[j], s[i]);
			if (lj <= strlen(s[i]) && strrstr(s[i], s[j]) != want) fail("text", "last occurrence");
			transitions++;
		}
	for (char32_t c = 0; c < 0x110000; c++) {
		bool d = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z';
		bool x = d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
		snprintf(history, sizeof history, "code point %x", (unsigned)c);
		if (c32isdigit(c) != d || c32isalnum(c) != (d || lo || up) || c32isxdigit(c) != x) fail("text", "character class");
		states++;
		if (c == 0 || (c >= 0xd800 && c < 0xe000)) continue;
		char32_t one[3] = {c, 'z', 0};
		char *mb = c32stombs(one, NULL);
		char want[8];
		int k = 0;
		if (c < 0x80) want[k++] = (char)c;
		else if (c < 0x800) { want[k++] = (char)(0xc0 | c >> 6); want[k++] = (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) {
			want[k++] = (char)(0xe0 | c >> 12); want[k++] = (char)(0x80 | (c >> 6 & 63)); want[k++] = (char)(0x80 | (c & 63));
		}
		else {
			want[k++] = (char)(0xf0 | c >> 18); want[k++] = (char)(0x80 | (c >> 12 & 63));
			want[k++] = (char)(0x80 | (c >> 6 & 63)); want[k++] = (char)(0x80 | (c & 63));
		}
		want[k++] = 'z';
		want[k] = 0;
		if (!mb || strcmp(mb, want)) fail("text", "encoding");
		char32_t *back = mbstoc32s(want);
		if (!back || back[0] != c || back[1] != 'z' || back[2]) fail("text", "decoding");
		free(mb);
		free(back);
		transitions += 2;
	}
	/* escapes: every character after a backslash */
	for (char32_t c = 1; c < 0x200; c++) {
		char32_t str[4] = {'\\', c, 'q', 0};
		const char32_t *p = str, *err = NULL;
		char32_t got = c32sunescape(&p, &err);
		char32_t want = c == '\\' || c == '"' || c == '\'' ? c : c == '0' ? 0 : c == 'e' ? 27 : c == 't' ? 9 : c == 'r' ? 13 : 10;
		bool ok = c == '\\' || c == '"' || c == '\'' || c == '0' || c == 'e' || c == 't' || c == 'r' || c == 'n';
		snprintf(history, sizeof history, "escape %x", (unsigned)c);
		if (ok ? (err || got != want || p != str + 1) : !err) fail("text", "escape");
		transitions++;
	}
	for (char32_t c = 0; c < 0x12000; c++) {
		char32_t str[12];
		char hex[12];
		int k = 0;
		snprintf(hex, sizeof hex, c % 2 ? "%x" : "%X", (unsigned)c);
		str[k++] = '\\';
		str[k++] = 'x';
		for (char *h = hex; *h; h++) str[k++] = (char32_t)*h;
		str[k++] = '\'';
		str[k] = 0;
		const char32_t *p = str, *err = NULL;
		snprintf(history, sizeof history, "hex escape %s", hex);
		if (c32sunescape(&p, &err) != c || err || p != str + k - 2) fail("text", "hex escape");
		transitions++;
	}
	/* formatting of results of every length */
	for (int i = 0; i < 140000; i++) {
		if (i > 5000 && ((i + 8) & (i + 7)) > 16 && (i & (i - 1)) > 16) continue;
		char *buf = malloc((size_t)i + 1);
		memset(buf, 'q', (size_t)i);
		buf[i] = 0;
		char *got = uvsnprintf("<%s|%d>", buf, i);
		char *want = malloc((size_t)i + 32);
		snprintf(want, (size_t)i + 32, "<%s|%d>", buf, i);
		snprintf(history, sizeof history, "format of length %d", i);
		if (strcmp(got, want)) fail("text", "format");
		free(got);
		free(want);
		free(buf);
		transitions++;
	}
	/* output file names */
	const char *dirs[] = {"", "a/", "/a/b/", "./", "../", "a.b/", "/"}, *bases[] = {"x.sk", "xy.sk", "a.b.sk", "longer_name.sk"},
		*exts[] = {"s", "o", "c", "ll", "long"};
	for (size_t i = 0; i < 7; i++)
		for (size_t j = 0; j < 4; j++)
			for (size_t k = 0; k < 5; k++) {
				char in[100], want[100];
				snprintf(in, sizeof in, "%s%s", dirs[i], bases[j]);
				snprintf(want, sizeof want, "%s.%s.%s", dirs[i], bases[j], exts[k]);
				char *got = gen_filename(in, exts[k]);
				snprintf(history, sizeof history, "file name %s %s", in, exts[k]);
				if (strcmp(got, want)) fail("text", "file name");
				free(got);
				transitions++;
			}
}

int main(int argc, char **argv) {
	bool thorough = argc > 1 && strcmp(argv[1], "thorough") == 0;
	setup_locale();
	BUILD_DATA.filename = "m.sk";
	int n = thorough ? 17 : 14;
	for (int k = 0; k <= n; k++)
		for (unsigned bits = 0; bits < 1u << k; bits++) vector_script(bits, k, -1);
	for (int k = 0; k <= 11; k++)
		for (unsigned bits = 0; bits < 1u << k; bits++)
			for (int fr = 0; fr <= k; fr++) vector_script(bits, k, fr);
	for (int up = 1; up < 40; up++)
		for (int down = 0; down < up && down < 12; down++) vector_ladder(up, down, thorough ? 4000 : 1100);
	for (size_t total = 2; total <= (thorough ? 1u << 22 : 1u << 20); total *= 4) vector_long(total + 1);
	int seq[16];
	ht_rec(seq, 0, thorough ? 6 : 5);
	ht_many(3, 20000, "abcdefghijklmnopqrstuvwxyz");
	ht_many(2, 20000, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789");
	ht_many(8, 3000, "ab");
	ht_many(12, 3000, "ab");
	for (int len = 1; len <= 130; len++) ht_alike(len);
	for (int len = 255; len <= 257; len++) ht_alike(len);
	ht_alike(512);
	ht_alike(1025);
	text(thorough ? 6 : 5);
	printf("COUNTS %llu %llu %llu\n", states, transitions, sequences);
	return fails ? 1 : 0;
}
