/* R08: what the generator handed out is looked for in the memory of the
 * process, as whoever captures that memory would.
 *  <id> <seed> <program>
 * program, separated by commas: g<n> (n bytes) b w d q (8, 16, 32, 64 bit
 * values) m<n> (n values below a bound) t<n> (n characters of text) r (reseed)
 * T...: the operations up to the next T by another thread.
 * After each operation all writable memory is read, stacks left out: which
 * bytes handed out lie there, which keys of the system's, and what the
 * keystreams of everything that looks like a key amount to. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "futils/random.h"

#define MAXL (1 << 18)
#define TAB (1 << 20)
#define MAXO 64
#define MAXH 6
struct op { char k; int n, th, sb, nm, nd, nk; int mem[MAXH][2], der[MAXH][2], key[MAXH]; };
static struct arena {
	uint8_t led[MAXL];           /* all that was handed out */
	int start[MAXO + 1];
	int nl;
	int tab[TAB];                /* windows of the ledger: 1 + offset */
	int done;                    /* windows entered up to here */
	uint8_t seed[64][64];        /* what the system handed out */
	int nseed, seedlen[64];
	struct op o[MAXO];
	int no, th, bad;
	char maps[1 << 16];
	uint64_t rng;
	uint8_t ks[64 * 64 + 64];
	struct { uintptr_t a, b; } skip[16], tls[32];
	int nskip, ntls;
	char prog[512];
	uint8_t out[1 << 16];
	uint64_t scanned, tried;
} *A;

static uint64_t next(uint64_t *s)
{
	uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static ssize_t feed(void *buf, size_t n)
{
	size_t i;
	uint8_t *b = buf, x;
	if (A->nseed < 64) {
		A->seedlen[A->nseed] = n > 64 ? 64 : n;
		for (i = 0; i < n; i++) {
			x = next(&A->rng) >> 11;
			b[i] = x;
			if (i < 64)
				A->seed[A->nseed][i] = x;
		}
		A->nseed++;
	} else
		A->bad = 1;
	return n;
}
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned int flags)
{
	(void)flags;
	return feed(buf, n);
}
int __wrap_getentropy(void *buf, size_t n)
{
	feed(buf, n);
	return 0;
}
/* the system's device, where it takes the place of getrandom() */
static char isdev[256];
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	int fd = __real_open(p, fl, 0600);
	if (fd >= 0 && fd < 256)
		isdev[fd] = !strncmp(p, "/dev/", 5) && strstr(p, "random");
	return fd;
}
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	return fd >= 0 && fd < 256 && isdev[fd] ? feed(buf, n) : __real_read(fd, buf, n);
}
static uint64_t ld(const uint8_t *p)
{
	uint64_t v;
	memcpy(&v, p, 8);
	return v;
}
static unsigned int slot(uint64_t v)
{
	return (v * 0x9e3779b97f4a7c15ull) >> 44;
}
static void enter(void)
{
	for (; A->done + 8 <= A->nl; A->done++) {
		unsigned int s = slot(ld(A->led + A->done));
		while (A->tab[s])
			s = (s + 1) % TAB;
		A->tab[s] = 1 + A->done;
	}
}
static int find(const uint8_t *p)
{
	uint64_t v = ld(p);
	unsigned int s;
	for (s = slot(v); A->tab[s]; s = (s + 1) % TAB)
		if (ld(A->led + A->tab[s] - 1) == v)
			return A->tab[s] - 1;
	return -1;
}
static void hit(int (*h)[2], int *n, int off)
{
	int j = 0;
	while (j + 1 <= A->no && A->start[j + 1] <= off && j + 1 <= A->no)
		j++;
	if (*n < MAXH) {
		h[*n][0] = j + 1;
		h[*n][1] = off - A->start[j];
		(*n)++;
	}
}
#define QR(a, b, c, d) \
	(x[a] += x[b], x[d] ^= x[a], x[d] = x[d] << 16 | x[d] >> 16, \
	 x[c] += x[d], x[b] ^= x[c], x[b] = x[b] << 12 | x[b] >> 20, \
	 x[a] += x[b], x[d] ^= x[a], x[d] = x[d] << 8 | x[d] >> 24, \
	 x[c] += x[d], x[b] ^= x[c], x[b] = x[b] << 7 | x[b] >> 25)
static void block(const uint8_t *key, uint32_t ctr, const uint8_t *nonce, uint8_t *out)
{
	uint32_t in[16], x[16];
	int i;
	memcpy(in, "expand 32-byte k", 16);
	memcpy(in + 4, key, 32);
	in[12] = ctr;
	memcpy(in + 13, nonce, 12);
	memcpy(x, in, 64);
	for (i = 0; i < 10; i++) {
		QR(0, 4, 8, 12); QR(1, 5, 9, 13); QR(2, 6, 10, 14); QR(3, 7, 11, 15);
		QR(0, 5, 10, 15); QR(1, 6, 11, 12); QR(2, 7, 8, 13); QR(3, 4, 9, 14);
	}
	for (i = 0; i < 16; i++)
		x[i] += in[i];
	memcpy(out, x, 64);
}
static void attack(struct op *o, const uint8_t *key, uint32_t from, int nb, const uint8_t *nonce)
{
	int i, h;
	A->tried++;
	for (i = 0; i < nb; i++)
		block(key, from + i, nonce, A->ks + 64 * i);
	for (i = 0; i + 8 <= 64 * nb; i++)
		if ((h = find(A->ks + i)) >= 0) {
			hit(o->der, &o->nd, h);
			i += 7;
		}
}
static int keylike(const uint8_t *p, int n)
{
	int i, z = 0;
	for (i = 0; i < n; i++)
		z += !p[i];
	return z <= 3;
}
static void scan(struct op *o, uintptr_t a, uintptr_t b)
{
	const uint8_t *p = (const uint8_t *)a, *e = (const uint8_t *)b, *last = NULL;
	int h, i, k;
	A->scanned += b - a;
	for (; p + 8 <= e; p++) {
		if (!*p)
			continue;
		if ((h = find(p)) >= 0 && (!last || p >= last + 8)) {
			hit(o->mem, &o->nm, h);
			last = p;
		}
		for (k = 0; k < A->nseed; k++)
			for (i = 0; i + 8 <= A->seedlen[k]; i += 4)
				if (*p == A->seed[k][i] && !memcmp(p, A->seed[k] + i, 8)) {
					int j;
					for (j = 0; j < o->nk && o->key[j] != k + 1; j++)
						;
					if (j == o->nk && o->nk < MAXH)
						o->key[o->nk++] = k + 1;
				}
		if (p + 48 <= e && keylike(p, 32)) {
			uint32_t c;
			memcpy(&c, p + 32, 4);
			/* a state: key, counter, nonce */
			attack(o, p, c > 40 ? c - 40 : 0, c > 40 ? 44 : c + 4, p + 36);
			/* a key with its nonce */
			if (keylike(p + 32, 12))
				attack(o, p, 0, 12, p + 32);
		}
	}
}
static int tlsof(struct dl_phdr_info *in, size_t sz, void *u)
{
	int i;
	(void)u;
	if (sz < sizeof(*in) || !in->dlpi_tls_data)
		return 0;
	for (i = 0; i < in->dlpi_phnum; i++)
		if (in->dlpi_phdr[i].p_type == PT_TLS && A->ntls < 32) {
			A->tls[A->ntls].a = (uintptr_t)in->dlpi_tls_data;
			A->tls[A->ntls++].b = (uintptr_t)in->dlpi_tls_data + in->dlpi_phdr[i].p_memsz;
		}
	return 0;
}
static void look(struct op *o)
{
	int fd = open("/proc/self/maps", O_RDONLY), n = 0, r, i;
	char *l, *q;
	if (fd < 0)
		_exit(77);
	while ((r = read(fd, A->maps + n, sizeof(A->maps) - 1 - n)) > 0)
		n += r;
	close(fd);
	A->maps[n] = 0;
	enter();
	A->ntls = 0;
	dl_iterate_phdr(tlsof, NULL);
	for (l = A->maps; *l; l = q + 1) {
		uintptr_t a, b;
		int skip = 0;
		char *e;
		q = strchr(l, '\n');
		if (!q)
			break;
		*q = 0;
		a = strtoul(l, &e, 16);
		b = strtoul(e + 1, &e, 16);
		if (strncmp(e, " rw", 3) || strstr(l, "[stack]") || strstr(l, "[v"))
			continue;
		if (a < (uintptr_t)(A + 1) && b > (uintptr_t)A)
			continue;
		for (i = 0; i < A->nskip; i++)
			skip |= a < A->skip[i].b && b > A->skip[i].a;
		if (!skip)
			scan(o, a, b);
	}
	if (A->th)
		for (i = 0; i < A->ntls; i++)
			scan(o, A->tls[i].a, A->tls[i].b);
}
static int perform(int at)
{
	char *p = A->prog + at;
	int i;
	while (*p) {
		struct op *o;
		int n;
		if (*p == 'T')
			break;
		if (A->no == MAXO - 1)
			break;
		o = &A->o[A->no];
		A->start[A->no] = A->nl;
		o->k = *p++;
		n = *p >= '0' && *p <= '9' ? strtol(p, &p, 10) : 0;
		if (*p == ',')
			p++;
		o->n = n;
		o->th = A->th;
		switch (o->k) {
		case 'g':
			futils_random(A->led + A->nl, n);
			break;
		case 'b':
			A->led[A->nl] = futils_randomr8();
			o->n = 1;
			break;
		case 'w': {
			uint16_t v = futils_randomr16();
			memcpy(A->led + A->nl, &v, o->n = 2);
			break;
		}
		case 'd': {
			uint32_t v = futils_randomr32();
			memcpy(A->led + A->nl, &v, o->n = 4);
			break;
		}
		case 'q': {
			uint64_t v = futils_randomr64();
			memcpy(A->led + A->nl, &v, o->n = 8);
			break;
		}
		case 'm': /* no rejection: the bytes drawn are the value */
			for (i = 0; i < n; i++) {
				uint64_t v = futils_randomr64_maximum(i % 2 ? UINT64_MAX : UINT32_MAX);
				memcpy(A->led + A->nl, &v, i % 2 ? 8 : 4);
				A->nl += i % 2 ? 8 : 4;
			}
			o->n = 6 * n;
			n = 0;
			break;
		case 't':
			if (futils_random_base16((char *)A->out, 2 * n + 1, n) < 0)
				A->bad = 1;
			for (i = 0; i < n; i++) {
				unsigned int v;
				sscanf((char *)A->out + 2 * i, "%2x", &v);
				A->led[A->nl + i] = v;
			}
			break;
		case 'r':
			if (futils_random_reseed())
				A->bad = 1;
			o->n = 0;
			break;
		default:
			_exit(77);
		}
		if (o->k != 'm')
			A->nl += o->n;
		o->sb = A->nseed;
		A->start[++A->no] = A->nl;
		if (A->nl > MAXL - 70000)
			_exit(77);
		look(o);
	}
	return p - A->prog;
}
static int pos;
static void *other(void *u)
{
	FILE *f;
	char l[512];
	uintptr_t a, b, me = (uintptr_t)l;
	(void)u;
	f = fopen("/proc/self/maps", "r");
	while (fgets(l, sizeof(l), f))
		if (sscanf(l, "%lx-%lx", &a, &b) == 2 && me >= a && me < b) {
			A->skip[A->nskip].a = a;
			A->skip[A->nskip++].b = b;
		}
	fclose(f);
	pos = perform(pos);
	return NULL;
}
int main(void)
{
	static char line[1024];
	A = mmap(NULL, sizeof(*A), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (A == MAP_FAILED)
		return 77;
	while (fgets(line, sizeof(line), stdin)) {
		int i, j, st;
		char id[32];
		pid_t c;
		uint64_t seed;
		memset(A, 0, sizeof(*A));
		if (sscanf(line, "%31s %lu %511s", id, &seed, A->prog) != 3)
			return 77;
		A->rng = seed * 0x2545f4914f6cdd1dull;
		fflush(stdout);
		c = fork();
		if (!c) {
			int th = 0;
			alarm(60);
			for (pos = 0; A->prog[pos];) {
				if (A->prog[pos] == 'T') {
					pos++;
					th = !th;
					continue;
				}
				if (th && A->nskip < 16) {
					pthread_t t;
					A->th++;
					i = A->th;
					if (pthread_create(&t, NULL, other, NULL))
						_exit(77);
					pthread_join(t, NULL);
					A->th = 0;
					/* threads are numbered, the main one is 0 */
					for (j = 0; j < A->no; j++)
						if (A->o[j].th == i)
							A->o[j].th = 100 + A->nskip;
				} else
					pos = perform(pos);
				if (A->no >= MAXO - 1)
					break;
			}
			_exit(0);
		}
		if (waitpid(c, &st, 0) != c || (WIFEXITED(st) && WEXITSTATUS(st) == 77))
			return 77;
		printf("{\"id\":%s,\"prog\":\"%s\",\"st\":%d,\"bad\":%d,\"scanned\":%lu,\"tried\":%lu,\"ops\":[", id, A->prog, st, A->bad,
		       A->scanned / 1024, A->tried);
		for (i = 0; i < A->no; i++) {
			struct op *o = &A->o[i];
			printf("%s{\"op\":\"%c\",\"n\":%d,\"th\":%d,\"sb\":%d,\"mem\":[", i ? "," : "", o->k, o->n, o->th, o->sb);
			for (j = 0; j < o->nm; j++)
				printf("%s[%d,%d]", j ? "," : "", o->mem[j][0], o->mem[j][1]);
			printf("],\"der\":[");
			for (j = 0; j < o->nd; j++)
				printf("%s[%d,%d]", j ? "," : "", o->der[j][0], o->der[j][1]);
			printf("],\"key\":[");
			for (j = 0; j < o->nk; j++)
				printf("%s%d", j ? "," : "", o->key[j]);
			printf("]}");
		}
		printf("]}\n");
		fflush(stdout);
	}
	return 0;
}
