/* Calls the UTF-8 functions.  Strings lie at the end of a page.
 *  <id> c <hex or -> <max bytes> <max wchars> <forbidden: hex code points separated by ',' or - (empty) or 0 (NULL)> <null> <malloc fails>
 *  <id> C <unit hex> <copies> <tail hex or -> <max bytes> <max wchars> <forbidden>
 *  <id> S <unit hex> <copies> <tail hex or -> <size> <forbidden> <replacement hex> <bytes of one copy in the output>
 *  <id> s <hex or -> <size> <forbidden> <replacement hex> <null: 1 input 2 output> <malloc fails> */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <wchar.h>
#include "futils/string.h"

static int mf;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (mf) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b) { if (mf) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }

#define PG 65536
static uint8_t *area(void)
{
	uint8_t *p = mmap(NULL, PG + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + PG, 4096, PROT_NONE))
		exit(77);
	return p;
}
static wchar_t forb[512];
static int nforb, exfat; /* "X": the library's own set */
static wchar_t *forbidden(const char *s)
{
	nforb = 0;
	exfat = 0;
	if (!strcmp(s, "0"))
		return NULL;
	if (*s == 'X') {
		static wchar_t set[] = FUTILS_STRING_EXFAT_FORBIDDEN;
		exfat = 1;
		return set;
	}
	if (*s != '-')
		for (;;) {
			char *e;
			forb[nforb++] = (wchar_t)strtoul(s, &e, 16);
			if (*e != ',')
				break;
			s = e + 1;
		}
	forb[nforb] = 0;
	return forb;
}
static void show(const char *k, const uint8_t *p, int n)
{
	int i;
	printf(",\"%s\":[", k);
	for (i = 0; i < n; i++)
		printf("%s%d", i ? "," : "", p[i]);
	printf("]");
}
static int unhex(const char *h, uint8_t *o)
{
	int n = 0;
	unsigned v;
	for (; *h != '-' && sscanf(h, "%2x", &v) == 1; h += 2)
		o[n++] = v;
	return n;
}
static uint8_t *guarded(size_t n, size_t *room)
{
	*room = (n + 4095) / 4096 * 4096;
	uint8_t *p = mmap(NULL, *room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + *room, 4096, PROT_NONE))
		exit(77);
	return p;
}
static void longtext(const char *line)
{
	static char id[32], k[4], uh[4000], th[4000], f[8000];
	static uint8_t u[2000], t[2000];
	size_t ri, ro;
	long copies, a, b = 0, p = 0, times = 0, i;
	unsigned long repl = 0;
	int off, ret, border = 1;
	sscanf(line, "%31s %3s %3999s %ld %3999s %n", id, k, uh, &copies, th, &off);
	if (*k == 'C')
		sscanf(line + off, "%ld %ld %7999s", &a, &b, f);
	else
		sscanf(line + off, "%ld %7999s %lx %ld", &a, f, &repl, &p);
	int un = unhex(uh, u), tn = unhex(th, t);
	size_t n = copies * un + tn;
	uint8_t *in = guarded(n + 1, &ri), *s = in + ri - n - 1, *out = NULL, *o;
	for (i = 0; i < copies; i++)
		memcpy(s + i * un, u, un);
	memcpy(s + copies * un, t, tn);
	s[n] = 0;
	wchar_t *w = forbidden(f);
	if (*k == 'C') {
		ret = futils_string_check_utf8((char *)s, a, b, w);
		printf("{\"id\":%s,\"k\":\"C\",\"mb\":%ld,\"mw\":%ld,\"ret\":%d", id, a, b, ret);
	} else {
		out = guarded(a + 64, &ro);
		memset(out, 0xe5, ro);
		o = out + ro - a;
		ret = futils_string_sanitize_utf8((char *)s, (char *)o, a, w, (wchar_t)repl);
		for (i = 0; i < (long)ro - a; i++)
			border &= out[i] == 0xe5;
		printf("{\"id\":%s,\"k\":\"S\",\"size\":%ld,\"repl\":%ld,\"ret\":%d,\"border\":%d", id, a, (long)(int32_t)repl, ret, border);
		int ok = ret >= 0 && ret < a;
		if (ok)
			while (p && times < copies && (times + 1) * p <= ret && !memcmp(o, o + times * p, p))
				times++;
		printf(",\"times\":%ld,\"nul0\":%d", times, ok && o[ret] == 0);
		show("first", o, times ? p : 0);
		i = ok ? ret - times * p : 0;
		show("rest", o + times * p, i > 3000 ? 3000 : i);
		munmap(out, ro + 4096);
	}
	printf(",\"copies\":%ld", copies);
	show("by", u, un);
	show("tail", t, tn);
	printf(",\"nf\":%d,\"xf\":%d,\"forb\":[", w ? 0 : 1, exfat);
	for (i = 0; i < nforb; i++)
		printf("%s%ld", i ? "," : "", (long)forb[i]);
	printf("]}\n");
	munmap(in, ri + 4096);
}
int main(void)
{
	static char *line, h[70000], f[8000];
	static size_t cap;
	uint8_t *in = area(), *out = area();
	while (getline(&line, &cap, stdin) > 0) {
		char id[32], k[4];
		long a, b;
		unsigned long repl = 0;
		int nul, m, n = 0, i, ret;
		unsigned v;
		wchar_t *w;
		uint8_t *s;
		sscanf(line, "%31s %3s %69999s", id, k, h);
		if (k[0] == 'C' || k[0] == 'S') {
			longtext(line);
			continue;
		}
		if (k[0] == 'c')
			sscanf(line, "%*s %*s %*s %ld %ld %7999s %d %d", &a, &b, f, &nul, &m);
		else
			sscanf(line, "%*s %*s %*s %ld %7999s %lx %d %d", &a, f, &repl, &nul, &m);
		if (h[0] != '-')
			n = strlen(h) / 2;
		s = in + PG - n - 1;
		for (i = 0; i < n; i++) {
			sscanf(h + 2 * i, "%2x", &v);
			s[i] = v;
		}
		s[n] = 0;
		w = forbidden(f);
		if (k[0] == 'c') {
			mf = m;
			ret = futils_string_check_utf8(nul ? NULL : (char *)s, a, b, w);
			mf = 0;
			printf("{\"id\":%s,\"k\":\"c\",\"mb\":%ld,\"mw\":%ld,\"nul\":%d,\"mf\":%d,\"ret\":%d", id, a, b, nul, m, ret);
		} else {
			int border = 1;
			uint8_t *o = out + PG - a;
			memset(out, 0xe5, PG);
			mf = m;
			ret = futils_string_sanitize_utf8(nul == 1 ? NULL : (char *)s, nul == 2 ? NULL : (char *)o, a, w, (wchar_t)repl);
			mf = 0;
			for (i = 0; i < PG - a; i++)
				border &= out[i] == 0xe5;
			printf("{\"id\":%s,\"k\":\"s\",\"size\":%ld,\"repl\":%ld,\"nul\":%d,\"mf\":%d,\"ret\":%d,\"border\":%d", id, a,
			       (long)(int32_t)repl, nul ? 1 : 0, m, ret, border);
			show("out", o, ret >= 0 && ret < a ? ret + 1 : 0);
		}
		show("by", s, n);
		printf(",\"nf\":%d,\"xf\":%d,\"forb\":[", w ? 0 : 1, exfat);
		for (i = 0; i < nforb; i++)
			printf("%s%ld", i ? "," : "", (long)forb[i]);
		printf("]}\n");
	}
	return 0;
}
