/* Calls the random functions with known entropy (getrandom answered from a
 * table chosen by the seed on each line; every line runs in a new thread and
 * so with a fresh generator) and prints what came out, or counts of it.
 *  <id> bnd  <seed> <width> <max hex> <draws> <ptr>
 *  <id> odd  <seed> <width> <max hex> <draws> <ptr>
 *  <id> pair <seed> <width, or 1 float, 2 double> <max hex> <draws> <ptr>
 *  <id> nul  <seed>
 *  <id> unit <seed> d|f <draws>
 *  <id> bits <seed> <draws>
 *  <id> seq  <seed> <requests: number of bytes, or w8 w16 w32 w64 p8 p16 p32 p64, comma separated>
 *  <id> dif  <seed> <seeds> <requests as above, after an r for a reseed>
 *  <id> cha  <seed> <requests as above>
 *  <id> big  <seed> <bytes> <prefix bytes>
 *  <id> txt  <seed> str|b16|b32|b64 <count> <len> <alphabet hex or ->
 *  <id> tst  <seed> str|b16|b32|b64 <count> <draws> <alphabet hex or ->
 *  <id> shf  <seed> <items> <size> <base null> <malloc fails>
 *  <id> shs  <seed> <items> <size> <draws>
 */
#define _GNU_SOURCE
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "futils/random.h"

static uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
static uint64_t seed, nfetch, seedpos;
static long flip = -2;
static uint8_t entropy[4096];
static size_t nent;
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned fl)
{
	uint8_t *p = buf;
	size_t i;
	uint64_t s = mix(seed * 1000003 + nfetch++);
	for (i = 0; i < n && nent + i < sizeof(entropy); i++)
		entropy[nent + i] = mix(s + i) >> 13;
	nent = nent + n < sizeof(entropy) ? nent + n : sizeof(entropy);
	if (flip != -2) {	/* all bytes since the start, one of their bits flipped */
		for (i = 0; i < n; i++, seedpos++)
			p[i] = mix(mix(seed) + seedpos) >> 13 ^ (flip >> 3 == (long)seedpos ? 1 << (flip & 7) : 0);
		return n;
	}
	for (i = 0; i < n; i++)
		p[i] = mix(s + i) >> 13;
	return n;
}
int __wrap_getentropy(void *buf, size_t n) { __wrap_getrandom(buf, n, 0); return 0; }

static int failmalloc;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n)
{
	if (failmalloc) {
		errno = ENOMEM;
		return NULL;
	}
	return __real_malloc(n);
}
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b)
{
	if (failmalloc) {
		errno = ENOMEM;
		return NULL;
	}
	return __real_calloc(a, b);
}

/* memory that ends at an inaccessible page and starts after a known border */
#define AREA (24u << 20)
static uint8_t *area;
#define BORDER 64
static uint8_t *place(size_t n, int poison)
{
	uint8_t *p = area + AREA - n;
	memset(p, poison, n);
	memset(p - BORDER, 0x5c, BORDER);
	return p;
}
static int border_ok(const uint8_t *p)
{
	int i;
	for (i = 1; i <= BORDER; i++)
		if (p[-i] != 0x5c)
			return 0;
	return 1;
}

static char *line;
static int off;
static const char *id;

static void limbs(uint64_t v)
{
	printf("[%d,%d,%d,%d]", (int)(v >> 48), (int)(v >> 32 & 0xffff), (int)(v >> 16 & 0xffff), (int)(v & 0xffff));
}
static void ints(const char *k, const long *v, int n)
{
	int i;
	printf(",\"%s\":[", k);
	for (i = 0; i < n; i++)
		printf("%s%ld", i ? "," : "", v[i]);
	printf("]");
}

static uint64_t draw(int w, uint64_t max, int ptr, int *ret)
{
	uint8_t a = 1;
	uint16_t b = 1;
	uint32_t c = 1;
	uint64_t d = 1;
	*ret = 0;
	if (!ptr)
		return w == 8 ? futils_randomr8_maximum(max) : w == 16 ? futils_randomr16_maximum(max) :
		       w == 32 ? futils_randomr32_maximum(max) : futils_randomr64_maximum(max);
	switch (w) {
	case 8: *ret = futils_random8_maximum(&a, max); return a;
	case 16: *ret = futils_random16_maximum(&b, max); return b;
	case 32: *ret = futils_random32_maximum(&c, max); return c;
	default: *ret = futils_random64_maximum(&d, max); return d;
	}
}

static void bnd(void)
{
	int w, ptr, r, ret = 0, nb, full;
	unsigned long long max;
	long n, i;
	static long hist[4096], low[16], one[64];
	uint64_t hi = 0;
	sscanf(line + off, "%d %llx %ld %d", &w, &max, &n, &ptr);
	full = max < 4096;
	nb = full ? (int)max + 1 : 16;
	memset(hist, 0, sizeof(hist));
	memset(low, 0, sizeof(low));
	memset(one, 0, sizeof(one));
	for (i = 0; i < n; i++) {
		uint64_t v = draw(w, max, ptr, &r);
		ret |= r;
		if (v > hi)
			hi = v;
		if (full)
			hist[v > max ? 0 : v]++;
		else {
			unsigned __int128 q = (unsigned __int128)(v > max ? 0 : v) * 16 / ((unsigned __int128)max + 1);
			hist[(int)q]++;
			low[v & 15]++;
			for (int b = 0; b < 64; b++)
				one[b] += v >> b & 1;
		}
	}
	printf("{\"id\":%s,\"k\":\"bnd\",\"w\":%d,\"max\":", id, w);
	limbs(max);
	printf(",\"hi\":");
	limbs(hi);
	printf(",\"n\":%ld,\"ret\":%d,\"full\":%d", n, ret, full);
	ints("hist", hist, nb);
	ints("low", low, full ? 0 : 16);
	ints("one", one, full ? 0 : 64);
	printf("}\n");
}

/* residues of draws, of all and of those in the lowest sixteenth of the range */
static void odd(void)
{
	int w, ptr, r, ret = 0, j, k, i2;
	unsigned long long max;
	long n, i, lo = 0;
	static long c[2][16][16];
	sscanf(line + off, "%d %llx %ld %d", &w, &max, &n, &ptr);
	memset(c, 0, sizeof(c));
	for (i = 0; i < n; i++) {
		uint64_t v = draw(w, max, ptr, &r);
		int in = v <= max / 16;
		ret |= r;
		lo += in;
		for (j = 3; j < 16; j += 2) {
			k = v % j;
			c[0][j][k]++;
			c[1][j][k] += in;
		}
	}
	printf("{\"id\":%s,\"k\":\"odd\",\"w\":%d,\"max\":", id, w);
	limbs(max);
	printf(",\"ret\":%d,\"n\":[%ld,%ld],\"c\":[", ret, n, lo);
	for (i2 = 0; i2 < 2; i2++) {
		printf("%s[", i2 ? "," : "");
		for (j = 3; j < 16; j += 2) {
			printf("%s[", j > 3 ? "," : "");
			for (k = 0; k < j; k++)
				printf("%s%ld", k ? "," : "", c[i2][j][k]);
			printf("]");
		}
		printf("]");
	}
	printf("]}\n");
}

/* how often two bits of a value, or of two values in a row, are equal */
static void pair(void)
{
	int w, ptr, r, ret = 0, nb, a, b;
	unsigned long long max;
	long n, i;
	static long in[64][64], nx[64][64];
	uint64_t v, last = 0, x;
	sscanf(line + off, "%d %llx %ld %d", &w, &max, &n, &ptr);
	nb = max ? 64 - __builtin_clzll(max) : 0;
	memset(in, 0, sizeof(in));
	memset(nx, 0, sizeof(nx));
	for (i = 0; i <= n; i++) {
		if (w == 1)
			v = (uint64_t)ldexp((double)futils_randomrf(), 24);
		else if (w == 2)
			v = (uint64_t)ldexp(futils_randomrd(), 53);
		else {
			v = draw(w, max, ptr, &r);
			ret |= r;
		}
		if (i > 0)
			for (a = 0; a < nb; a++) {
				x = v >> a & 1 ? v : ~v;
				for (b = 0; b < a; b++)
					in[a][b] += x >> b & 1;
				x = v >> a & 1 ? last : ~last;
				for (b = 0; b < nb; b++)
					nx[a][b] += x >> b & 1;
			}
		last = v;
	}
	printf("{\"id\":%s,\"k\":\"pair\",\"w\":%d,\"max\":", id, w);
	limbs(max);
	printf(",\"ret\":%d,\"n\":%ld,\"in\":[", ret, n);
	for (a = 0; a < nb; a++) {
		printf("%s[", a ? "," : "");
		for (b = 0; b < a; b++)
			printf("%s%ld", b ? "," : "", in[a][b]);
		printf("]");
	}
	printf("],\"nx\":[");
	for (a = 0; a < nb; a++) {
		printf("%s[", a ? "," : "");
		for (b = 0; b < nb; b++)
			printf("%s%ld", b ? "," : "", nx[a][b]);
		printf("]");
	}
	printf("]}\n");
}

static void nul(void)
{
	printf("{\"id\":%s,\"k\":\"nul\",\"ret\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]}\n", id,
	       futils_random8_maximum(NULL, 5), futils_random16_maximum(NULL, 5), futils_random32_maximum(NULL, 5),
	       futils_random64_maximum(NULL, 5), futils_random8_maximum(NULL, 0), futils_random64_maximum(NULL, 0),
	       futils_random8(NULL), futils_random16(NULL), futils_random32(NULL), futils_random64(NULL),
	       futils_random_bytes(NULL, 4));
}

static void unit(void)
{
	char k[4];
	long n, i;
	int b;
	sscanf(line + off, "%3s %ld", k, &n);
	printf("{\"id\":%s,\"k\":\"unit\",\"f\":\"%s\",\"v\":[", id, k);
	static long one[64], q[16];
	memset(one, 0, sizeof(one));
	memset(q, 0, sizeof(q));
	int nb = k[0] == 'd' ? 53 : 24;
	for (i = 0; i < n; i++) {
		double v = k[0] == 'd' ? futils_randomrd() : (double)futils_randomrf();
		double s = ldexp(v, nb);
		int exact = isfinite(v) && s == floor(s);
		int in = isfinite(v) && v >= 0 && v < 1;
		uint64_t m = in && exact ? (uint64_t)s : 0;
		for (b = 0; b < nb; b++)
			one[b] += m >> b & 1;
		q[m >> (nb - 4)]++;
		if (i < 300 || !in || !exact)
			printf("%s[%d,%d]", i ? "," : "", exact, in);
	}
	printf("],\"n\":%ld", n);
	ints("one", one, nb);
	ints("q", q, 16);
	printf("}\n");
}

static void bits(void)
{
	long n, i;
	static long one[4][64];
	int b, w;
	memset(one, 0, sizeof(one));
	sscanf(line + off, "%ld", &n);
	for (i = 0; i < n; i++) {
		uint64_t v[4];
		v[0] = futils_randomr8();
		v[1] = futils_randomr16();
		v[2] = futils_randomr32();
		v[3] = futils_randomr64();
		for (w = 0; w < 4; w++)
			for (b = 0; b < 64; b++)
				one[w][b] += v[w] >> b & 1;
	}
	printf("{\"id\":%s,\"k\":\"bits\",\"n\":%ld", id, n);
	ints("b8", one[0], 8);
	ints("b16", one[1], 16);
	ints("b32", one[2], 32);
	ints("b64", one[3], 64);
	printf("}\n");
}

/* the requests of one line, twice, with different memory before */
struct seqres { uint8_t *out; size_t n, cap; int bad, ret; };
static char *reqs;
static size_t bound[4096], nbound;	/* where requests end */
static int poison;
static void put(struct seqres *s, const void *p, size_t n)
{
	if (s->n + n > s->cap)
		s->out = realloc(s->out, s->cap = (s->n + n) * 2);
	memcpy(s->out + s->n, p, n);
	s->n += n;
	if (nbound < 4096)
		bound[nbound++] = s->n;
}
static void *seq_body(void *a)
{
	struct seqres *s = a;
	char *p = reqs;
	nfetch = 0;
	nbound = 0;
	while (*p && *p != '\n') {
		if (*p == 'w' || *p == 'p') {
			int ptr = *p == 'p', w = atoi(p + 1);
			uint8_t *m = place(w / 8, poison);
			uint64_t v = 0;
			if (ptr)
				s->ret |= w == 8 ? futils_random8(m) : w == 16 ? futils_random16((void *)m) :
					  w == 32 ? futils_random32((void *)m) : futils_random64((void *)m);
			else {
				v = w == 8 ? futils_randomr8() : w == 16 ? futils_randomr16() : w == 32 ? futils_randomr32() :
				    futils_randomr64();
				memcpy(m, &v, w / 8);
			}
			if (!border_ok(m))
				s->bad++;
			put(s, m, w / 8);
			p++;
		} else {
			int via = *p == 'b';
			long n = atol(p + via);
			uint8_t *m = place(n, poison);
			if (via)
				s->ret |= futils_random_bytes(m, n);
			else
				futils_random(m, n);
			if (!border_ok(m))
				s->bad++;
			put(s, m, n);
			p += via;
		}
		while (*p >= '0' && *p <= '9')
			p++;
		while (*p == ',')
			p++;
	}
	return NULL;
}
static void seq(void)
{
	struct seqres r[2];
	int k;
	size_t i, unwritten = 0;
	pthread_t t;
	memset(r, 0, sizeof(r));
	reqs = line + off;
	while (*reqs == ' ')
		reqs++;
	for (k = 0; k < 2; k++) {
		poison = k ? 0xff : 0;
		pthread_create(&t, NULL, seq_body, &r[k]);
		pthread_join(t, NULL);
	}
	for (i = 0; i < r[0].n; i++)
		unwritten += r[0].out[i] == 0 && r[1].out[i] == 0xff;
	printf("{\"id\":%s,\"k\":\"seq\",\"n\":%zu,\"bad\":%d,\"ret\":%d,\"unwritten\":%zu,\"out\":\"", id, r[0].n, r[0].bad + r[1].bad,
	       r[0].ret | r[1].ret, unwritten);
	for (i = 0; i < r[0].n; i++)
		printf("%02x", r[0].out[i]);
	printf("\",\"want\":%d}\n", 0);
	free(r[0].out);
	free(r[1].out);
}
/* ---- an explanation of the output: pieces of ChaCha20 keystreams, and how
 * their keys came from the seed or other keystream.  Only searched here: the
 * specification computes the keystreams and compares. */
#define KEY 44
#define SLEN 2048
struct piece { int s; long off, len; };
struct stream {
	uint8_t key[KEY], *b;
	long len, end;		/* bytes computed, place after the last one put out */
	struct piece from[2];
	int nfrom;
	long gap[8];		/* where bytes were not put out, latest first */
};
static struct stream ks[64];
static int nks;
static struct piece *how1;
static long nexpl;
static void cblock(const uint8_t *k, uint32_t c, uint8_t *out)
{
	uint32_t s[16], x[16];
	int i;
	memcpy(s, "expand 32-byte k", 16);
	memcpy(s + 4, k, 32);
	s[12] = c;
	memcpy(s + 13, k + 32, 12);
	memcpy(x, s, sizeof(x));
#define RL(v, n) ((v) << (n) | (v) >> (32 - (n)))
#define QQ(a, b, c, d) (a += b, d = RL(d ^ a, 16), c += d, b = RL(b ^ c, 12), a += b, d = RL(d ^ a, 8), c += d, b = RL(b ^ c, 7))
	for (i = 0; i < 10; i++) {
		QQ(x[0], x[4], x[8], x[12]); QQ(x[1], x[5], x[9], x[13]); QQ(x[2], x[6], x[10], x[14]); QQ(x[3], x[7], x[11], x[15]);
		QQ(x[0], x[5], x[10], x[15]); QQ(x[1], x[6], x[11], x[12]); QQ(x[2], x[7], x[8], x[13]); QQ(x[3], x[4], x[9], x[14]);
	}
	for (i = 0; i < 16; i++)
		x[i] += s[i];
	memcpy(out, x, 64);
}
static void sgrow(struct stream *t, long len)
{
	long i;
	if (len <= t->len)
		return;
	len = (len + 63) / 64 * 64;
	t->b = realloc(t->b, len);
	for (i = t->len; i < len; i += 64)
		cblock(t->key, i / 64, t->b + i);
	t->len = len;
}
static long sfind(struct stream *t, const uint8_t *p, long n)
{
	uint8_t *q = memmem(t->b, t->len, p, n);
	return q ? q - t->b : -1;
}
/* does the keystream of this key contain p? (not searched for ever) */
static long nsearch;
static int scand(struct stream *c, const uint8_t *p, long n, long *off)
{
	uint8_t b[SLEN];
	uint8_t *q;
	long i;
	if (nsearch++ > 2000000)
		return 0;
	for (i = 0; i < SLEN / 4; i += 64)
		cblock(c->key, i / 64, b + i);
	q = memmem(b, SLEN / 4, p, n);
	*off = q - b;
	return q != NULL;
}
static int sadd(const struct stream *c)
{
	if (nks == 64)
		return -1;
	ks[nks] = *c;
	ks[nks].b = NULL;
	ks[nks].len = ks[nks].end = 0;
	memset(ks[nks].gap, 0, sizeof(ks[nks].gap));
	sgrow(&ks[nks], SLEN);
	return nks++;
}
static void swindow(struct stream *c, int a, long off)
{
	memcpy(c->key, ks[a].b + off, KEY);
	c->from[0] = (struct piece){ a, off, KEY };
	c->nfrom = 1;
}
static void smixed(struct stream *c, int a, long off, int i, int b)
{
	memcpy(c->key, ks[a].b + off, i);
	memcpy(c->key + i, ks[b].b, KEY - i);
	c->from[0] = (struct piece){ a, off, i };
	c->from[1] = (struct piece){ b, 0, KEY - i };
	c->nfrom = 2;
}
/* keys that are likely: calls f for each until it holds */
static int slikely(int lo, int (*f)(struct stream *, const uint8_t *, long), const uint8_t *p, long n)
{
	struct stream c;
	int a, b, i, k;
	for (a = nks - 1; a >= 0; a--) {
		if (ks[a].end > 512)	/* hardly one that keys are taken from */
			continue;
		for (k = 0; k < 12 && a >= lo; k++) {
			long off = k == 0 ? 0 : k < 4 ? ks[a].end + (k - 1) * KEY : ks[a].gap[k - 4];
			if (k >= 4 && off == 0)
				continue;
			if (off + KEY > ks[a].len)
				continue;
			swindow(&c, a, off);
			if (f(&c, p, n))
				return 1;
		}
		for (b = nks - 1; b > a && b >= lo; b--)
			for (k = 0; k < 3 && ks[b].end <= 512; k++)
				for (i = 1; i < KEY; i++) {
					if (ks[a].end + k * KEY + i > ks[a].len)
						continue;
					smixed(&c, a, ks[a].end + k * KEY, i, b);
					if (f(&c, p, n))
						return 1;
				}
	}
	return 0;
}
static int stry(struct stream *c, const uint8_t *p, long n)
{
	long off;
	return scand(c, p, n, &off) && sadd(c) >= 0;
}
static int sany(int lo, const uint8_t *p, long n)
{
	struct stream c;
	int a;
	long off;
	for (a = nks - 1; a >= lo; a--)
		for (off = 0; off + KEY <= ks[a].len; off++) {
			swindow(&c, a, off);
			if (stry(&c, p, n))
				return 1;
		}
	return 0;
}
/* a key nothing was put out from, and one that comes from it */
static int stwice(struct stream *c, const uint8_t *p, long n)
{
	struct stream d = *c;
	int k = sadd(&d);
	if (k < 0)
		return 0;
	if (slikely(k, stry, p, n))
		return 1;
	nks = k;
	return 0;
}
static int stwiceany(struct stream *c, const uint8_t *p, long n)
{
	struct stream d = *c;
	int k = sadd(&d);
	if (k < 0)
		return 0;
	if (sany(k, p, n))
		return 1;
	nks = k;
	return 0;
}
static int slocate(const uint8_t *p, long n, int *s, long *off)
{
	int a;
	for (a = nks - 1; a >= 0; a--)
		if ((*off = sfind(&ks[a], p, n)) >= 0) {
			*s = a;
			return 1;
		}
	if (n < 8)
		return 0;
	a = nks;
	if (slikely(0, stry, p, n) || sany(nks - 1, p, n) || sany(0, p, n) || slikely(0, stwice, p, n) || slikely(0, stwiceany, p, n)) {
		*s = nks - 1;
		*off = sfind(&ks[*s], p, n);
		return 1;
	}
	nks = a;
	return 0;
}
static long stake(int s, long off, const uint8_t *p, long n)
{
	long m = 0;
	while (m < n) {
		if (off + m >= ks[s].len)
			sgrow(&ks[s], ks[s].len + 1024);
		if (ks[s].b[off + m] != p[m])
			break;
		m++;
	}
	how1 = realloc(how1, (nexpl + 1) * sizeof(*how1));
	how1[nexpl++] = (struct piece){ s, off, m };
	if (off > ks[s].end && ks[s].end > 0) {
		memmove(ks[s].gap + 1, ks[s].gap, sizeof(ks[s].gap) - sizeof(ks[s].gap[0]));
		ks[s].gap[0] = ks[s].end;
	}
	if (off + m > ks[s].end)
		ks[s].end = off + m;
	return m;
}
static int explain(const uint8_t *p, long n)
{
	long pos = 0, off, off2;
	int s, s2, l;
	while (pos < n) {
		long rest = n - pos;
		if (slocate(p + pos, rest < 8 ? rest : 8, &s, &off)) {
			pos += stake(s, off, p + pos, rest);
			continue;
		}
		/* a few bytes that are left of a keystream, then those of another */
		for (l = 1; l < 8 && l < rest; l++)
			if (slocate(p + pos, l, &s, &off) && rest - l >= 8 && slocate(p + pos + l, 8, &s2, &off2))
				break;
		if (l == 8 || l >= rest) {
			/* or a few bytes of a keystream that more is put out from later */
			size_t i;
			int old = nks, tried = 0;
			for (i = 0; i < nbound && tried < 6 && nks == old; i++)
				if ((long)bound[i] > pos && (long)bound[i] + 8 <= n) {
					slocate(p + bound[i], 8, &s, &off);
					tried++;
				}
			if (nks == old)
				return 0;
			for (l = 7; l > 0; l--)
				if (l <= rest && slocate(p + pos, l, &s, &off))
					break;
			if (l == 0)
				return 0;
		}
		stake(s, off, p + pos, l);
		pos += l;
	}
	return 1;
}
static void cha(void)
{
	static int gaveup;
	struct seqres r;
	pthread_t t;
	struct stream c;
	long i, j;
	int ok = 0;
	memset(&r, 0, sizeof(r));
	reqs = line + off;
	while (*reqs == ' ')
		reqs++;
	poison = 0;
	nent = 0;
	pthread_create(&t, NULL, seq_body, &r);
	pthread_join(t, NULL);
	nks = nexpl = nsearch = 0;
	/* the key is somewhere in what the system gave */
	for (j = 0; j + KEY <= (long)nent && !ok && gaveup < 2; j++) {
		memcpy(c.key, entropy + j, KEY);
		c.nfrom = 0;
		c.from[0] = (struct piece){ -1, j, KEY };
		nks = nexpl = 0;
		sadd(&c);
		ok = explain(r.out, r.n);
	}
	if (getenv("CHA_DEBUG"))
		fprintf(stderr, "%ld\n", nsearch);
	gaveup += !ok;		/* such searches are long, and a verdict is certain */
	printf("{\"id\":%s,\"k\":\"cha\",\"n\":%zu,\"bad\":%d,\"ret\":%d,\"ok\":%d,\"seed\":[", id, r.n, r.bad, r.ret, ok);
	for (i = 0; i < (long)nent; i++)
		printf("%s%d", i ? "," : "", entropy[i]);
	printf("],\"out\":[");
	for (i = 0; i < (long)r.n; i++)
		printf("%s%d", i ? "," : "", r.out[i]);
	printf("],\"keys\":[");
	for (i = 0; i < nks && ok; i++) {
		long top = 0;	/* blocks needed */
		int q, k;
		for (j = 0; j < nexpl; j++)
			if (how1[j].s == i && how1[j].off + how1[j].len > top)
				top = how1[j].off + how1[j].len;
		for (k = 0; k < nks; k++)
			for (q = 0; q < ks[k].nfrom; q++)
				if (ks[k].from[q].s == i && ks[k].from[q].off + ks[k].from[q].len > top)
					top = ks[k].from[q].off + ks[k].from[q].len;
		printf("%s{\"n\":%ld,\"p\":[", i ? "," : "", (top + 63) / 64);
		for (q = 0; q < (ks[i].nfrom ? ks[i].nfrom : 1); q++)
			printf("%s[%d,%ld,%ld]", q ? "," : "", ks[i].from[q].s + 1, ks[i].from[q].off, ks[i].from[q].len);
		printf("]}");
	}
	printf("],\"how\":[");
	for (i = 0; i < nexpl && ok; i++)
		printf("%s[%d,%ld,%ld]", i ? "," : "", how1[i].s + 1, how1[i].off, how1[i].len);
	printf("]}\n");
	for (i = 0; i < nks; i++)
		free(ks[i].b);
	free(r.out);
}
/* what one flipped bit of the seed changes */
#define DIFMAX 2048
static void *dif_body(void *a)
{
	struct seqres *s = a;
	seedpos = 0;
	if (reqs[0] == 'r') {
		futils_random_reseed();
		reqs++;
		seq_body(s);
		reqs--;
	} else
		seq_body(s);
	return NULL;
}
static size_t dif_out(uint64_t sd, long fl, uint8_t *out)
{
	struct seqres r;
	pthread_t t;
	memset(&r, 0, sizeof(r));
	seed = sd;
	flip = fl;
	poison = 0;
	pthread_create(&t, NULL, dif_body, &r);
	pthread_join(t, NULL);
	if (r.n > DIFMAX || r.bad || r.ret)
		_exit(78);
	memcpy(out, r.out, r.n);
	free(r.out);
	return r.n;
}
static void dif(void)
{
	static uint8_t base[DIFMAX], x[DIFMAX], (*d)[DIFMAX];
	static long place1[DIFMAX * 8], step[512], (*part)[16], *all, *second;
	long i, k, n = 0, bits = 0, reps, used;
	size_t j;
	uint64_t s0 = seed;
	sscanf(line + off, "%ld%ln", &reps, &used);
	reqs = line + off + used;
	while (*reqs == ' ')
		reqs++;
	memset(place1, 0, sizeof(place1));
	memset(step, 0, sizeof(step));
	for (k = 0; k < reps; k++) {
		n = dif_out(s0 * 4099 + k, -1, base);
		if (k == 0) {
			bits = seedpos * 8;
			d = calloc(bits, sizeof(*d));
			part = calloc(bits, sizeof(*part));
			all = calloc(bits, sizeof(*all));
			second = calloc(bits, sizeof(*second));
		}
		for (i = 0; i < bits; i++) {
			dif_out(s0 * 4099 + k, i, x);
			for (j = 0; j < (size_t)n; j++) {
				uint8_t c = x[j] ^ base[j];
				int b, w = __builtin_popcount(c);
				all[i] += w;
				part[i][j / 4 % 16] += w;
				second[i] += k % 2 ? __builtin_popcount(c ^ d[i][j]) : 0;
				d[i][j] = c;
				for (b = 0; b < 8; b++)
					place1[j * 8 + b] += c >> b & 1;
				if (j + 64 < (size_t)n)
					for (b = 0, c = x[j] ^ x[j + 64]; b < 8; b++)
						step[j % 64 * 8 + b] += c >> b & 1;
			}
		}
	}
	printf("{\"id\":%s,\"k\":\"dif\",\"n\":%ld,\"reps\":%ld,\"bits\":%ld", id, n, reps, bits);
	ints("all", all, bits);
	ints("second", second, bits);
	ints("place", place1, n * 8);
	ints("step", step, 512);
	printf(",\"part\":[");
	for (i = 0; i < bits; i++) {
		int b;
		printf("%s[", i ? "," : "");
		for (b = 0; b < 16; b++)
			printf("%s%ld", b ? "," : "", part[i][b]);
		printf("]");
	}
	printf("]}\n");
	if (bits) {
		free(d);
		free(part);
		free(all);
		free(second);
	}
	flip = -2;
}
/* where one output ends and the next begins: always from the same state of the generator */
static void seam(void)
{
	long pre, a, b, n, i, j;
	static uint8_t x[8192], y[4096];
	sscanf(line + off, "%ld %ld %ld %ld", &pre, &a, &b, &n);
	printf("{\"id\":%s,\"k\":\"seam\",\"p\":[", id);
	for (i = 0; i < n; i++) {
		futils_random_reseed();
		futils_random(x, pre);
		futils_random(x + pre, a);
		futils_random(y, b);
		futils_random(y + b, 8);
		printf("%s[\"", i ? "," : "");
		for (j = 0; j < 8; j++)
			printf("%02x", x[pre + a - 8 + j]);
		printf("\",\"");
		for (j = 0; j < 8; j++)
			printf("%02x", y[j]);
		printf("\"]");
	}
	printf("]}\n");
}
/* one very large request: samples of it at distances of every power of two */
static void big(void)
{
	long n, pre, i, k, c = 0;
	sscanf(line + off, "%ld %ld", &n, &pre);
	uint8_t *m = place(pre, 0);
	futils_random(m, pre);
	m = place(n, 0);
	futils_random(m, n);
	printf("{\"id\":%s,\"k\":\"big\",\"bad\":%d,\"s\":[", id, !border_ok(m));
	for (i = 0; i < 24; i++) {
		long base = (mix(i + seed) % 64) * 64;
		for (k = 0; k < 40; k++) {
			long o = base + (k ? 1l << (k + 5) : 0);
			int b;
			if (o + 16 > n)
				break;
			printf("%s[%ld,\"", c++ ? "," : "", o);
			for (b = 0; b < 8; b++)
				printf("%02x", m[o + b]);
			printf("\"]");
		}
	}
	printf("],\"tail\":\"");
	for (i = n > 600 ? n - 600 : 0; i < n; i++)
		printf("%02x", m[i]);
	printf("\"}\n");
}

/* requests beyond 32 bits: the middle of the buffer is the same memory over and over */
static void huge(void)
{
	const unsigned long C = 16ul << 20;
	unsigned long n, size, o, i;
	int fd = memfd_create("huge", 0);
	sscanf(line + off, "%lu", &n);
	size = (n + C - 1) / C * C;
	uint8_t *m = mmap(NULL, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (fd < 0 || ftruncate(fd, 3 * C) || m == MAP_FAILED)
		exit(77);
	for (o = 0; o < size; o += C)
		if (mmap(m + o, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, o == 0 ? 0 : o + C < size ? C : 2 * C) == MAP_FAILED)
			exit(77);
	close(fd);
	o = size - n;
	futils_random(m + o, n);
	int bad = 0;
	for (i = 0; i < o; i++)
		bad += m[i] != 0;
	printf("{\"id\":%s,\"k\":\"huge\",\"bad\":%d,\"head\":\"", id, bad);
	for (i = 0; i < 600; i++)
		printf("%02x", m[o + i]);
	printf("\",\"tail\":\"");
	for (i = size - 600; i < size; i++)
		printf("%02x", m[i]);
	printf("\"}\n");
	munmap(m, size + 4096);
}

static char alpha[1024];
static int alen;
static void get_alpha(const char *h)
{
	unsigned v;
	alen = 0;
	if (*h != '-')
		while (sscanf(h + 2 * alen, "%2x", &v) == 1)
			alpha[alen++] = (char)v;
	alpha[alen] = 0;
}
static int text(const char *kind, char *buf, size_t len, size_t count)
{
	if (!strcmp(kind, "str"))
		return futils_random_string(buf, len, count, alpha);
	if (!strcmp(kind, "b16"))
		return futils_random_base16(buf, len, count);
	if (!strcmp(kind, "b32"))
		return futils_random_base32(buf, len, count);
	return futils_random_base64(buf, len, count);
}
static void txt(void)
{
	char kind[8], ah[2200] = "-";
	long count, len, i;
	int ret, k, bad = 0, unw = 0;
	static uint8_t copy[2][70000];
	sscanf(line + off, "%7s %ld %ld %2199s", kind, &count, &len, ah);
	get_alpha(ah);
	for (k = 0; k < 2; k++) {
		uint8_t *m = place(len, k ? 0xa7 : 0x03);
		ret = text(kind, (char *)m, len, count);
		bad += !border_ok(m);
		memcpy(copy[k], m, len);
	}
	/* the text, up to its terminator; then what follows has to be as before */
	long n = 0, n2 = 0, dirty = 0;
	while (n < len && copy[1][n] && copy[1][n] != 0xa7)
		n++;
	while (n2 < len && copy[0][n2] && copy[0][n2] != 3)
		n2++;
	for (i = n + 1; i < len; i++)
		dirty += copy[1][i] != 0xa7;
	for (i = n2 + 1; i < len; i++)
		dirty += copy[0][i] != 3;
	printf("{\"id\":%s,\"k\":\"txt\",\"f\":\"%s\",\"count\":[%ld,%ld],\"len\":%ld,\"ret\":%d,\"bad\":%d,\"dirty\":%ld,\"n\":%ld,\"n2\":%ld,"
	       "\"term\":%d,\"alpha\":[", id, kind, count / 65536, count % 65536, len, ret, bad, dirty, n, n2,
	       len ? n < len && copy[1][n] == 0 && n2 < len && copy[0][n2] == 0 : 0);
	for (i = 0; i < alen; i++)
		printf("%s%d", i ? "," : "", (uint8_t)alpha[i]);
	printf("],\"t\":[");
	for (i = 0; i < n; i++)
		printf("%s%d", i ? "," : "", copy[1][i]);
	printf("]}\n");
}
/* many texts: frequencies of the characters at each position, and of each
 * pair of index bits differing, for all pairs of positions */
#define MAXPOS 48
static void tst(void)
{
	char kind[8], ah[2200] = "-";
	long count, n, i;
	static long hist[MAXPOS][256], x[MAXPOS][MAXPOS][8][8], joint[MAXPOS][4096];
	int p, q, a, b, len, nb = 0, A;
	static const char *al[] = { "0123456789abcdef", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
				    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" };
	sscanf(line + off, "%7s %ld %ld %2199s", kind, &count, &n, ah);
	get_alpha(ah);
	if (kind[0] == 'b')
		alen = strlen(strcpy(alpha, al[kind[1] == '1' ? 0 : kind[1] == '3' ? 1 : 2]));
	for (A = 0, i = 0; i < alen; i++)
		A += !memchr(alpha, alpha[i], i);
	while ((1 << nb) < A)
		nb++;
	memset(hist, 0, sizeof(hist));
	memset(x, 0, sizeof(x));
	memset(joint, 0, sizeof(joint));
	static char buf[4096];
	len = text(kind, buf, sizeof(buf), count);
	if (len > MAXPOS)
		len = MAXPOS;
	static int rank[256];
	for (i = 0; i < 256; i++)
		rank[i] = -1;
	/* a character of the alphabet goes by the place where it is first listed, and is told how often it is listed */
	int mult[256] = { 0 }, chars = 0;
	for (i = 0; i < alen; i++) {
		uint8_t c = alpha[i];
		if (rank[c] < 0)
			rank[c] = chars++;
		mult[rank[c]]++;
	}
	for (i = 0; i < n; i++) {
		int r[MAXPOS];
		text(kind, buf, sizeof(buf), count);
		for (p = 0; p < len; p++) {
			r[p] = rank[(uint8_t)buf[p]];
			if (r[p] >= 0)
				hist[p][r[p]]++;
			else
				r[p] = 0;      /* padding: counted as never any character */
		}
		for (p = 0; p < len; p++)
			for (q = p + 1; q < len; q++)
				for (a = 0; a < nb; a++)
					for (b = 0; b < nb; b++)
						x[p][q][a][b] += (r[p] >> a ^ r[q] >> b) & 1;
		if (A <= 64)
			for (p = 0; p + 1 < len; p++)
				joint[p][r[p] * A + r[p + 1]]++;
	}
	printf("{\"id\":%s,\"k\":\"tst\",\"f\":\"%s\",\"count\":%ld,\"n\":%ld,\"len\":%d,\"A\":%d,\"nb\":%d,\"listed\":%d,\"mult\":[", id, kind, count, n,
	       len, A, nb, alen);
	for (i = 0; i < A; i++)
		printf("%s%d", i ? "," : "", mult[i]);
	printf("],\"hist\":[");
	for (p = 0; p < len; p++) {
		printf("%s[", p ? "," : "");
		for (i = 0; i < A; i++)
			printf("%s%ld", i ? "," : "", hist[p][i]);
		printf("]");
	}
	printf("],\"x\":[");
	int c = 0;
	for (p = 0; p < len; p++)
		for (q = p + 1; q < len; q++) {
			printf("%s[%d,%d", c++ ? "," : "", p, q);
			for (a = 0; a < nb; a++)
				for (b = 0; b < nb; b++)
					printf(",%ld", x[p][q][a][b]);
			printf("]");
		}
	printf("],\"joint\":[");
	if (A <= 64 && n >= 40 * (long)alen * alen)
		for (p = 0; p + 1 < len; p++) {
			printf("%s[", p ? "," : "");
			for (i = 0; i < A * A; i++)
				printf("%s%ld", i ? "," : "", joint[p][i]);
			printf("]");
		}
	printf("]}\n");
}

static void item(uint8_t *p, long i, long size)
{
	long k;
	for (k = 0; k < size; k++)
		p[k] = k < 3 ? i >> (8 * k) : mix(i * 131 + k);
}
static void shf(void)
{
	long n, size, i, k;
	int bnull, mf, ret;
	static uint8_t it[65536];
	sscanf(line + off, "%ld %ld %d %d", &n, &size, &bnull, &mf);
	uint8_t *m = place(n * size, 0);
	for (i = 0; i < n; i++)
		item(m + i * size, i, size);
	failmalloc = mf;
	ret = futils_random_shuffle(bnull ? NULL : m, n, size);
	failmalloc = 0;
	printf("{\"id\":%s,\"k\":\"shf\",\"n\":%ld,\"size\":%ld,\"nul\":%d,\"mf\":%d,\"ret\":%d,\"bad\":%d,\"p\":[", id, n, size, bnull, mf,
	       ret, !border_ok(m));
	for (i = 0; i < n && size; i++) {
		/* which item is this? */
		long w = 0;
		for (k = 0; k < 3 && k < size; k++)
			w |= (long)m[i * size + k] << (8 * k);
		item(it, w, size);
		if (w >= n || memcmp(it, m + i * size, size))
			w = -1;
		printf("%s%ld", i ? "," : "", w);
	}
	printf("]}\n");
}
static void shs(void)
{
	long n, size, draws, d, i, j, nperm = 1;
	static long pos[32][32], perm[720], blk[8][8], pair[32][32];
	sscanf(line + off, "%ld %ld %ld", &n, &size, &draws);
	memset(pos, 0, sizeof(pos));
	memset(perm, 0, sizeof(perm));
	memset(blk, 0, sizeof(blk));
	memset(pair, 0, sizeof(pair));
	for (i = 2; i <= n && n <= 6; i++)
		nperm *= i;
	uint8_t *m = place(n * size, 0);
	for (d = 0; d < draws; d++) {
		for (i = 0; i < n; i++)
			item(m + i * size, i, size);
		futils_random_shuffle(m, n, size);
		if (n <= 32) {
			for (i = 0; i < n; i++) {
				pos[i][m[i * size] % 32]++;
				if (i + 1 < n)
					pair[m[i * size] % 32][m[(i + 1) * size] % 32]++;
			}
			if (n <= 6) {
				long r = 0;
				for (i = 0; i < n; i++) {
					long c = 0;
					for (j = i + 1; j < n; j++)
						c += m[j * size] < m[i * size];
					r = r * (n - i) + c;
				}
				perm[r < 720 ? r : 0]++;
			}
		} else
			for (i = 0; i < n; i++) {
				long w = 0, k;
				for (k = 0; k < 3 && k < size; k++)
					w |= (long)m[i * size + k] << (8 * k);
				blk[i * 8 / n][(w % n) * 8 / n]++;
			}
	}
	printf("{\"id\":%s,\"k\":\"shs\",\"n\":%ld,\"size\":%ld,\"draws\":%ld", id, n, size, draws);
	ints("perm", perm, n <= 6 ? nperm : 0);
	printf(",\"pos\":[");
	for (i = 0; i < n && n <= 32; i++) {
		printf("%s[", i ? "," : "");
		for (j = 0; j < n; j++)
			printf("%s%ld", j ? "," : "", pos[i][j]);
		printf("]");
	}
	printf("],\"pair\":[");
	for (i = 0; i < n && n <= 32; i++) {
		printf("%s[", i ? "," : "");
		for (j = 0; j < n; j++)
			printf("%s%ld", j ? "," : "", pair[i][j]);
		printf("]");
	}
	printf("]");
	ints("blk", blk[0], n > 32 ? 64 : 0);
	printf("}\n");
}

static void *one(void *f)
{
	((void (*)(void))f)();
	return NULL;
}
int main(void)
{
	static size_t cap;
	uint8_t *m = mmap(NULL, AREA + 4096 * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED || mprotect(m + 4096 + AREA, 4096, PROT_NONE))
		return 77;
	area = m + 4096;
	while (getline(&line, &cap, stdin) > 0) {
		static char idb[32], k[8];
		unsigned long long s;
		pthread_t t;
		void (*f)(void);
		sscanf(line, "%31s %7s %llu%n", idb, k, &s, &off);
		id = idb;
		seed = s;
		nfetch = 0;
		f = !strcmp(k, "bnd") ? bnd : !strcmp(k, "odd") ? odd : !strcmp(k, "pair") ? pair : !strcmp(k, "nul") ? nul : !strcmp(k, "unit") ? unit : !strcmp(k, "bits") ? bits :
		    !strcmp(k, "seq") ? seq : !strcmp(k, "dif") ? dif : !strcmp(k, "cha") ? cha : !strcmp(k, "big") ? big : !strcmp(k, "huge") ? huge : !strcmp(k, "seam") ? seam : !strcmp(k, "txt") ? txt : !strcmp(k, "tst") ? tst :
		    !strcmp(k, "shf") ? shf : shs;
		if (f == seq || f == dif || f == cha)
			f();
		else {
			pthread_create(&t, NULL, one, f);
			pthread_join(t, NULL);
		}
		fflush(stdout);
	}
	return 0;
}
