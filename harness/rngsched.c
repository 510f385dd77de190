/* R04: explores interleavings of threads generating and reseeding.  Real
 * threads (the generator's state is per thread) run one at a time; the baton
 * may pass at every access of the library to static memory, around every
 * fetch of entropy and at every call.  Entropy comes from a table, so a
 * schedule can be repeated with one fetch answered differently: the outputs
 * that change are the ones that derive from that fetch.  One history per
 * distinct behaviour is printed. */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "futils/random.h"

#define MAXT 4
#define MAXP 40
#define MAXF 64
#define MAXE 400
#define MAXOPS 8
#define OUTLEN 16

static uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

/* ------------------------------------------------------------ one execution */
enum { E_CALL_G, E_CALL_R, E_RET_G, E_RET_R, E_FETCH, E_FORK };
struct ev { int k, t, ret, id; uint8_t out[OUTLEN]; };
struct run {
	int ne, nf, npt;
	struct ev e[MAXE];
	int dec[4096], alt[4096];   /* decision taken and number of alternatives at each point */
};
static struct run *cur;      /* shared with forked children */
static int nthreads, altered;       /* fetch answered differently, or -1 */
static uint64_t seed0;
struct op { char c; int k; char sub[8]; };
static struct op prog[MAXT][MAXOPS];
static int nops[MAXT];
static int fn;               /* function used to generate */
static int in_many;          /* inside a long run of reseeds */
static __thread int failing;

static pthread_t th[MAXT];
static sem_t sem[MAXT], done;
static int active[MAXT], running, sched_on;
static __thread int me = -1;
static int nplan, plan[4096];
static long consecutive;

static void event(int k, int t, int ret, int id, const void *out)
{
	struct ev *e;
	if (cur->ne >= MAXE)
		return;
	e = &cur->e[cur->ne++];
	e->k = k; e->t = t; e->ret = ret; e->id = id;
	if (out)
		memcpy(e->out, out, OUTLEN);
}

static int pick(int must_leave)
{
	int c[MAXT], n = 0, i, d;
	if (!must_leave)
		c[n++] = me;
	for (i = 1; i <= MAXT; i++) {
		int x = (me + i) % MAXT;
		if (x != me && active[x])
			c[n++] = x;
	}
	if (!n)
		return -1;
	if (n == 1 || cur->npt >= 4096)
		return c[0];
	d = cur->npt < nplan ? plan[cur->npt] : 0;
	if (d >= n)
		d = 0;
	cur->dec[cur->npt] = d;
	cur->alt[cur->npt++] = must_leave ? -n : n;    /* leaving is not a preemption */
	return c[d];
}
static void point(void)
{
	int to;
	if (!sched_on || me < 0)
		return;
	if (++consecutive > 3000) {        /* spinning on something: let others run */
		int i;
		consecutive = 0;
		for (i = 1; i < MAXT; i++)
			if (active[(me + i) % MAXT]) {
				to = (me + i) % MAXT;
				goto go;
			}
		return;
	}
	to = pick(0);
	if (to == me)
		return;
go:
	consecutive = 0;
	running = to;
	sem_post(&sem[to]);
	while (sem_wait(&sem[me])) {}
}

/* ------------------------------------------------------------------ entropy */
static void entropy(void *buf, size_t n)
{
	uint8_t *p = buf;
	size_t i;
	int id;
	if (in_many)
		id = cur->nf - 1;
	else
		id = cur->nf++;
	static uint64_t many;
	uint64_t s = mix(seed0 + 1000003ull * (id + 1) + (altered == id ? 77777777 : 0) + (in_many ? ++many << 40 : 0));
	for (i = 0; i < n; i++)
		p[i] = mix(s + i) >> 11;
	if (!in_many)
		event(E_FETCH, me, 0, id, NULL);
}
static int mode;             /* 0: getrandom works; 1: only the device does, in small pieces */
static int sparse;           /* the baton passes at accesses to static memory and after calls only */
static void minor(void)
{
	if (!sparse)
		point();
}
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned fl)
{
	minor();
	if (failing || mode) {
		errno = ENOSYS;
		return -1;
	}
	entropy(buf, n);
	minor();
	return n;
}
int __wrap_getentropy(void *buf, size_t n)
{
	return __wrap_getrandom(buf, n, 0) < 0 ? -1 : 0;
}
static char isdev[1024];
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	int fd;
	if (failing) {
		errno = EMFILE;
		return -1;
	}
	fd = __real_open(p, fl, 0600);
	if (fd >= 0 && !strncmp(p, "/dev/", 5) && strstr(p, "random") && fd < 1024)
		isdev[fd] = 1;
	return fd;
}
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl); }
int __real_close(int);
int __wrap_close(int fd)
{
	if (fd >= 0 && fd < 1024)
		isdev[fd] = 0;
	return __real_close(fd);
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	if (fd >= 0 && fd < 1024 && isdev[fd]) {
		if (n > 30)
			n = 30;
		minor();
		entropy(buf, n);
		minor();
		return n;
	}
	return __real_read(fd, buf, n);
}

/* ------------------------------------------------- instrumented memory (tsan) */
extern char __data_start, _end;
static inline void mem(void *a)
{
	if ((char *)a >= &__data_start && (char *)a < &_end)
		point();
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define A(n) void __tsan_read##n(void *a) { mem(a); } void __tsan_write##n(void *a) { mem(a); } \
	void __tsan_unaligned_read##n(void *a) { mem(a); } void __tsan_unaligned_write##n(void *a) { mem(a); } \
	void __tsan_volatile_read##n(void *a) { mem(a); } void __tsan_volatile_write##n(void *a) { mem(a); } \
	void __tsan_read_write##n(void *a) { mem(a); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *a, size_t n) { mem(a); }
void __tsan_write_range(void *a, size_t n) { mem(a); }
void __tsan_vptr_update(void **a, void *v) {}
void __tsan_vptr_read(void **a) {}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { mem((void *)a); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { mem((void *)a); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) \
	{ mem((void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) \
	{ mem((void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) \
	{ mem((void *)a); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
/* locks a rewritten generator might use */
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (me < 0 || !sched_on)
		return __real_pthread_mutex_lock(m);
	while (pthread_mutex_trylock(m)) {
		int to = pick(1);
		if (to < 0)
			return __real_pthread_mutex_lock(m);
		consecutive = 0;
		running = to;
		sem_post(&sem[to]);
		while (sem_wait(&sem[me])) {}
	}
	return 0;
}

/* ----------------------------------------------------------------- programs */
/* OUTLEN bytes by one of the functions of the library; the first ones do not
 * draw again (the accesses they make do not depend on the values drawn) */
#define NFN 28
#define FILL(T, call) do { T *v = (T *)b; for (i = 0; i < (int)(OUTLEN / sizeof(T)); i++) { call; } } while (0)
static void fill(uint8_t *b)
{
	char t[OUTLEN + 1];
	int i;
	memset(t, 0, sizeof(t));
	switch (fn) {
	case 0: futils_random(b, OUTLEN); break;
	case 1: FILL(uint8_t, v[i] = futils_randomr8()); break;
	case 2: FILL(uint16_t, v[i] = futils_randomr16()); break;
	case 3: FILL(uint32_t, v[i] = futils_randomr32()); break;
	case 4: FILL(uint64_t, v[i] = futils_randomr64()); break;
	case 5: FILL(double, v[i] = futils_randomrd()); break;
	case 6: FILL(float, v[i] = futils_randomrf()); break;
	case 7: futils_random_base16(t, sizeof(t), OUTLEN / 2); memcpy(b, t, OUTLEN); break;
	case 8: futils_random_base32(t, sizeof(t), OUTLEN); memcpy(b, t, OUTLEN); break;
	case 9: futils_random_base64(t, sizeof(t), 12); memcpy(b, t, OUTLEN); break;
	case 10: futils_random_bytes(b, OUTLEN); break;
	case 11: FILL(uint8_t, futils_random8(&v[i])); break;
	case 12: FILL(uint16_t, futils_random16(&v[i])); break;
	case 13: FILL(uint32_t, futils_random32(&v[i])); break;
	case 14: FILL(uint64_t, futils_random64(&v[i])); break;
	case 15: FILL(uint8_t, v[i] = futils_randomr8_maximum(250)); break;
	case 16: FILL(uint16_t, v[i] = futils_randomr16_maximum(40000)); break;
	case 17: FILL(uint32_t, v[i] = futils_randomr32_maximum(3000000000u)); break;
	case 18: FILL(uint64_t, v[i] = futils_randomr64_maximum(10000000000000000000ull)); break;
	case 19: FILL(uint8_t, futils_random8_maximum(&v[i], 200)); break;
	case 20: FILL(uint16_t, futils_random16_maximum(&v[i], 60000)); break;
	case 21: FILL(uint32_t, futils_random32_maximum(&v[i], 16777214)); break;
	case 22: FILL(uint64_t, futils_random64_maximum(&v[i], 1ull << 47)); break;
	case 23: FILL(uint64_t, v[i] = futils_randomr64_maximum((1ull << 40) - 2)); break;
	case 24: futils_random_string(t, sizeof(t), OUTLEN, "0123456789abcdefghijklmnopqrstuv"); memcpy(b, t, OUTLEN); break;
	case 25: futils_random_string(t, sizeof(t), OUTLEN, "0123456789abcdefghijklmnopqrstuvwxyz"); memcpy(b, t, OUTLEN); break;
	case 26: for (i = 0; i < OUTLEN; i++) b[i] = i; futils_random_shuffle(b, OUTLEN, 1); break;
	case 27: FILL(uint64_t, v[i] = futils_randomr64_maximum((1ull << 56) - 2)); break;
	}
}
static void do_gen(void)
{
	uint8_t b[OUTLEN] __attribute__((aligned(16)));
	event(E_CALL_G, me, 0, 0, NULL);
	minor();
	fill(b);
	event(E_RET_G, me, 0, 0, b);
	point();
}
static void do_reseed(int fail)
{
	int r;
	event(E_CALL_R, me, 0, fail, NULL);
	failing = fail;
	minor();
	r = futils_random_reseed();
	failing = 0;
	event(E_RET_R, me, r, 0, NULL);
	point();
}
static void run_ops(const char *s)
{
	for (; *s; s++)
		if (*s == 'g')
			do_gen();
		else if (*s == 'r')
			do_reseed(0);
}
static void do_op(struct op *o)
{
	int i;
	if (o->c == 'g') {
		do_gen();
	} else if (o->c == 'r') {
		do_reseed(0);
	} else if (o->c == 'x') {
		do_reseed(1);
	} else if (o->c == 'm') {      /* many reseeds; one fetch in the history */
		event(E_CALL_R, me, 0, 0, NULL);
		event(E_FETCH, me, 0, cur->nf++, NULL);
		in_many = 1;
		int r = 0, s = sched_on;
		sched_on = 0;
		for (i = 0; i < o->k; i++)
			r |= futils_random_reseed();
		in_many = 0;
		sched_on = s;
		event(E_RET_R, me, r, 0, NULL);
		point();
	} else if (o->c == 'f') {
		pid_t p;
		int st, s = sched_on, m = me;
		event(E_FORK, me, 0, me + 10, NULL);
		p = fork();
		if (!p) {
			sched_on = 0;
			me = m + 10;
			run_ops(o->sub);
			_exit(0);
		}
		waitpid(p, &st, 0);
		if (st)
			_exit(99);
	}
}
static void *body(void *a)
{
	int i, to, left;
	me = (int)(long)a;
	while (sem_wait(&sem[me])) {}
	for (i = 0; i < nops[me]; i++)
		do_op(&prog[me][i]);
	active[me] = 0;
	to = pick(1);
	if (to < 0)
		sem_post(&done);
	else {
		consecutive = 0;
		running = to;
		sem_post(&sem[to]);
	}
	return NULL;
}
static void execute_here(struct run *r, int alter)
{
	long i;
	cur = r;
	r->ne = r->nf = r->npt = 0;
	altered = alter;
	consecutive = 0;
	sem_init(&done, 0, 0);
	for (i = 0; i < nthreads; i++) {
		sem_init(&sem[i], 0, 0);
		active[i] = 1;
	}
	for (i = 0; i < nthreads; i++)
		if (pthread_create(&th[i], NULL, body, (void *)i)) {
			fprintf(stderr, "pthread_create\n");
			_exit(77);
		}
	sched_on = 1;
	sem_post(&sem[0]);
	while (sem_wait(&done)) {}
	sched_on = 0;
	for (i = 0; i < nthreads; i++) {
		pthread_join(th[i], NULL);
		sem_destroy(&sem[i]);
	}
	sem_destroy(&done);
}

/* each execution in a process of its own: nothing is left from the last one */
static void execute(struct run *r, int alter)
{
	pid_t p;
	int st;
	fflush(stdout);
	p = fork();
	if (!p) {
		execute_here(r, alter);
		_exit(0);
	}
	if (p < 0 || waitpid(p, &st, 0) != p)
		_exit(77);
	if (st) {
		fprintf(stderr, "an execution ended with status %d\n", st);
		exit(1);
	}
}

/* ---------------------------------------------------------------- histories */
static uint64_t seen[1 << 18];
static int fresh(uint64_t h)
{
	uint64_t i = h & ((1 << 18) - 1);
	h |= 1;
	while (seen[i]) {
		if (seen[i] == h)
			return 0;
		i = (i + 1) & ((1 << 18) - 1);
	}
	seen[i] = h;
	return 1;
}

static struct run *base, *other;

static int report(int id, int force)
{
	static uint64_t deps[MAXE];
	static int cls[MAXE];
	uint64_t h = 1;
	int i, j, n, same;
	memset(deps, 0, sizeof(deps));
	for (j = 0; j < base->nf && j < MAXF; j++) {
		execute(other, j);
		if (other->ne != base->ne || other->nf != base->nf) {
			printf("{\"id\":%d,\"err\":1}\n", id);
			return 1;
		}
		for (i = 0; i < base->ne; i++) {
			if (base->e[i].k != other->e[i].k || base->e[i].t != other->e[i].t) {
				printf("{\"id\":%d,\"err\":1}\n", id);
				return 1;
			}
			if (base->e[i].k == E_RET_G && memcmp(base->e[i].out, other->e[i].out, OUTLEN))
				deps[i] |= 1ull << j;
		}
	}
	/* outputs that are equal get the same class */
	for (i = n = 0; i < base->ne; i++)
		if (base->e[i].k == E_RET_G) {
			for (j = 0; j < i; j++)
				if (base->e[j].k == E_RET_G && !memcmp(base->e[i].out, base->e[j].out, OUTLEN))
					break;
			cls[i] = j < i ? cls[j] : ++n;
		}
	for (i = 0; i < base->ne; i++) {
		h = mix(h ^ (base->e[i].k * 1000003ull + base->e[i].t * 17 + base->e[i].ret * 31 + base->e[i].id));
		if (base->e[i].k == E_RET_G)
			h = mix(h ^ deps[i]) + cls[i];
	}
	if (!fresh(h) && !force)
		return 0;
	printf("{\"id\":%d,\"h\":[", id);
	for (i = 0; i < base->ne; i++) {
		static const char *nm[] = { "cg", "cr", "rg", "rr", "f", "k" };
		struct ev *e = &base->e[i];
		printf("%s{\"e\":\"%s\",\"t\":%d", i ? "," : "", nm[e->k], e->t);
		if (e->k == E_FETCH || e->k == E_FORK)
			printf(",\"f\":%d", e->id);
		if (e->k == E_CALL_R)
			printf(",\"x\":%d", e->id);
		if (e->k == E_RET_R)
			printf(",\"r\":%d", e->ret);
		if (e->k == E_RET_G) {
			int c = 0;
			printf(",\"o\":%d,\"d\":[", cls[i]);
			for (j = 0; j < base->nf && j < MAXF; j++)
				if (deps[i] >> j & 1)
					printf("%s%d", c++ ? "," : "", j);
			printf("]");
		}
		printf("}");
	}
	printf("]}\n");
	return 1;
}

int main(void)
{
	static char line[4096];
	base = mmap(NULL, sizeof(*base), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	other = mmap(NULL, sizeof(*other), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	/* <id> <mode> <seed> <preemption bound> <max executions> <program/program/..> <function> */
	while (fgets(line, sizeof(line), stdin)) {
		char pr[2048], *s;
		int id, bound, i, n = 0;
		long maxex, ex = 0;
		unsigned long long sd;
		if (sscanf(line, "%d %d %llu %d %ld %2000s %d", &id, &mode, &sd, &bound, &maxex, pr, &fn) != 7)
			continue;
		sparse = mode >> 1;
		mode &= 1;
		seed0 = mix(sd);
		nthreads = 1;
		memset(nops, 0, sizeof(nops));
		for (s = pr; *s; s++) {
			struct op *o;
			if (*s == '/') {
				nthreads++;
				continue;
			}
			o = &prog[nthreads - 1][nops[nthreads - 1]++];
			memset(o, 0, sizeof(*o));
			o->c = *s;
			if (*s == 'm')
				o->k = strtol(s + 1, &s, 10), s--;
			if (*s == 'f') {              /* f(ops of the child) */
				int k = 0;
				for (s += 2; *s != ')'; s++)
					o->sub[k++] = *s;
			}
		}
		memset(seen, 0, sizeof(seen));
		nplan = 0;
		for (;;) {
			int save, k, cost;
			execute(base, -1);
			ex++;
			/* freeze this schedule for the runs with altered entropy */
			save = base->npt;
			memcpy(plan, base->dec, sizeof(int) * save);
			nplan = save;
			n += report(id, 0);
			if (ex >= maxex)
				break;
			/* next schedule, depth first, bounded number of preemptions */
			for (k = save - 1; k >= 0; k--) {
				int al = base->alt[k] < 0 ? -base->alt[k] : base->alt[k];
				if (plan[k] + 1 >= al)
					continue;
				for (cost = 0, i = 0; i < k; i++)
					cost += base->alt[i] > 0 && plan[i] > 0;
				cost += base->alt[k] > 0;
				if (cost > bound)
					continue;
				plan[k]++;
				nplan = k + 1;
				break;
			}
			if (k < 0)
				break;
		}
		printf("{\"id\":%d,\"end\":1,\"ex\":%ld,\"n\":%d}\n", id, ex, n);
		fflush(stdout);
	}
	return 0;
}
