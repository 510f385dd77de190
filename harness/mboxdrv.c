/* Runs mailbox scenarios of real dynmbox/mbox code under the deterministic
 * scheduler and prints each distinct call/return history as one JSON line.
 *
 * stdin, one scenario per line:
 *  kind budget mem eintr spurious early random seed maxruns permille maxsz pipesz pre | ops | ops | ...
 * kind: dyn|fix.  pre: comma list of sizes pushed (N) / read ("r") before the
 * threads start, or "-".  ops of a thread, blank separated:
 *  pN push  bN/T blocking push with timeout T ms  k read  w wait readable
 *  d read until error  z T sleep  iK invalid call number K  c wait-and-read
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include "fiber.h"
#include "futils/dynmbox.h"
#include "futils/mbox.h"

#define MAXT 5
#define MAXOPS 400
#define GUARD 64

struct op { char k; size_t sz; unsigned tmo; };
static struct op ops[MAXT][MAXOPS];
static int nops[MAXT], nthreads;
static int is_dyn;
static struct dynmbox *db;
static struct mbox *fb;
static size_t maxsz;
static int rfd;
static char hist[1 << 20];
static int hlen;
static unsigned msgid;
static int inop;
static int observe = 1;

#define EV(...) do { \
	if (hlen < (int)sizeof(hist) - 400) \
		hlen += snprintf(hist + hlen, sizeof(hist) - hlen, __VA_ARGS__); \
	} while (0)

static uint64_t hashb(const uint8_t *p, size_t n)
{
	uint64_t h = 1469598103934665603ull ^ n;
	size_t i;
	for (i = 0; i + 8 <= n; i += 8) {
		uint64_t w;
		__builtin_memcpy(&w, p + i, 8);
		h = (h ^ w) * 0x100000001b3ull;
		h ^= h >> 29;
	}
	for (; i < n; i++) {
		h = (h ^ p[i]) * 0x100000001b3ull;
		h ^= h >> 29;
	}
	return h;
}
static void fill(uint8_t *p, size_t n, unsigned id)
{
	size_t i;
	uint64_t x = id * 0x9e3779b97f4a7c15ull + 1;
	/* vary the style of contents: pseudo random, zeros with an id, 0xff */
	for (i = 0; i < n; i++) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		p[i] = (id % 4 == 3) ? 0 : (uint8_t)x;
	}
	for (i = 0; i < n && i < 4; i++)
		p[i] = (uint8_t)(id >> (8 * i)) ^ (n > 1 ? 0 : (uint8_t)x);
	if (n > 4)
		p[n - 1] = (uint8_t)(id * 31);
}
static int readable(void)
{
	struct pollfd p = { .fd = rfd, .events = POLLIN };
	int __real_poll(struct pollfd *, nfds_t, int);
	return __real_poll(&p, 1, 0) > 0;
}
static void obs(void)
{
	if (observe && inop == 0)
		EV(",{\"e\":\"obs\",\"r\":%d}", readable());
}
static size_t blocked_sz[FIB_MAX];
static char vbuf[40];
static const char *val(const uint8_t *p, size_t n)
{
	snprintf(vbuf, sizeof(vbuf), "%zu:%08x", n, (unsigned)(hashb(p, n) >> 17));
	return vbuf;
}

/* the "res" of a call is patched into the call event once known */
static int t_res_pos[FIB_MAX];
static uint64_t t_start[FIB_MAX];
static void ev_call(int t, const char *op, const char *v, unsigned tmo)
{
	inop++;
	EV(",{\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"v\":\"%s\",\"tmo\":[%u,%u],\"res\":", t, op, v,
	   tmo / 1000, (tmo % 1000) * 1000);
	t_res_pos[t] = hlen;
	EV("-9999   ,\"out\":\"");
	EV("                    \"}");
	t_start[t] = fib_now_us();
}
static void ev_ret(int t, long res, const char *out)
{
	char tmp[32];
	uint64_t el = fib_now_us() - t_start[t];
	int n = snprintf(tmp, sizeof(tmp), "%-8ld", res);
	if (n > 8)
		n = 8;
	memcpy(hist + t_res_pos[t], tmp, n);
	if (out) {
		/* overwrite the blank filled out field, keep it left aligned */
		size_t k = strlen(out);
		if (k > 20)
			k = 20;
		memcpy(hist + t_res_pos[t] + 8 + 8, out, k);
	}
	inop--;
	EV(",{\"e\":\"ret\",\"t\":%d,\"el\":[%llu,%llu],\"raced\":%d}", t,
	   (unsigned long long)(el / 1000000), (unsigned long long)(el % 1000000), fib_time_raced());
	obs();
}

static long do_push(int t, size_t n, int blocking, unsigned tmo)
{
	uint8_t *m = malloc(n + 1);
	long r;
	fill(m, n, ++msgid);
	ev_call(t, blocking ? "pushb" : "push", val(m, n), tmo);
	blocked_sz[t] = n;
	if (is_dyn)
		r = blocking ? dynmbox_push_block(db, m, n, tmo) : dynmbox_push(db, m, n);
	else
		r = blocking ? mbox_push_block(fb, m, tmo) : mbox_push(fb, m);
	blocked_sz[t] = (size_t)-1;
	ev_ret(t, r, NULL);
	free(m);
	return r;
}
static long do_peek(int t)
{
	size_t cap = maxsz + GUARD, i;
	uint8_t *m = malloc(cap);
	long r;
	int over = 0;
	memset(m, 0xa5, cap);
	ev_call(t, "peek", "", 0);
	if (is_dyn)
		r = dynmbox_peek(db, m);
	else
		r = mbox_peek(fb, m);
	for (i = maxsz; i < cap; i++)
		over |= m[i] != 0xa5;
	if (over)
		ev_ret(t, r, "overrun");
	else if (r >= 0 && (size_t)r <= maxsz)
		ev_ret(t, r, val(m, is_dyn ? (size_t)r : maxsz));
	else
		ev_ret(t, r, "");
	free(m);
	return r;
}
static void do_invalid(int t, int k)
{
	static uint8_t junk[70000];
	long r = 0;
	ev_call(t, "inval", "", 0);
	switch (k) {
	case 0: r = is_dyn ? dynmbox_push(db, NULL, 1) : mbox_push(fb, NULL); break;
	case 1: r = is_dyn ? dynmbox_push(NULL, junk, 1) : mbox_push(NULL, junk); break;
	case 2: r = is_dyn ? dynmbox_peek(db, NULL) : mbox_peek(fb, NULL); break;
	case 3: r = is_dyn ? dynmbox_peek(NULL, junk) : mbox_peek(NULL, junk); break;
	case 4: r = is_dyn ? dynmbox_push(db, junk, maxsz + 1) : -EINVAL; break;
	case 5: r = is_dyn ? dynmbox_push_block(db, junk, maxsz + 1, 0)
			   : mbox_push_block(fb, junk, (unsigned)INT_MAX + 1u); break;
	case 6: r = is_dyn ? dynmbox_push_block(db, NULL, 1, 10) : mbox_push_block(fb, NULL, 10); break;
	case 7: r = is_dyn ? dynmbox_push_block(NULL, junk, 1, 0) : mbox_push_block(NULL, junk, 0); break;
	case 8: r = is_dyn ? dynmbox_push(db, junk, (size_t)-1) : mbox_push_block(fb, junk, UINT_MAX); break;
	case 9: r = is_dyn ? dynmbox_push_block(db, junk, (size_t)-3, 0) : -EINVAL; break;
	}
	ev_ret(t, r, NULL);
}

/* many empty messages in a row by a thread alone: pushed until one is refused,
 * read until none is left; how often the descriptor was quiet in between */
static void do_many(int t, int push, unsigned long max)
{
	unsigned long n = 0, quiet = 0;
	long r = 0;
	uint8_t m[GUARD + 8];
	const char *v = NULL;
	int odd = 0;
	uint8_t *buf = malloc(maxsz + GUARD);
	if (inop)
		abort();        /* for scenarios of one thread only */
	while (n < max) {
		r = push ? dynmbox_push(db, m, 0) : dynmbox_peek(db, buf);
		if (r < 0)
			break;
		odd |= r != 0;
		n++;
		quiet += !readable();
		fib_progress();
	}
	v = val(m, 0);
	EV(",{\"e\":\"many\",\"op\":\"%s\",\"v\":\"%s\",\"n\":%lu,\"odd\":%d,\"res\":%ld,\"quiet\":%lu,\"r\":%d}",
	   push ? "push" : "peek", v, n, odd, r, quiet, readable());
	free(buf);
}

static void body(void *arg)
{
	int t = (int)(long)arg, i;
	for (i = 0; i < nops[t]; i++) {
		struct op *o = &ops[t][i];
		switch (o->k) {
		case 'p': do_push(t + 1, o->sz, 0, 0); break;
		case 'b': do_push(t + 1, o->sz, 1, o->tmo); break;
		case 'k': do_peek(t + 1); break;
		case 'w': fib_wait_readable(rfd); break;
		case 'c': fib_wait_readable(rfd); do_peek(t + 1); break;
		case 'd': { int n = 0; while (do_peek(t + 1) >= 0 && n++ < 50) ; break; }
		case 'i': do_invalid(t + 1, (int)o->sz); break;
		case 'P': do_many(t + 1, 1, o->sz); break;
		case 'K': do_many(t + 1, 0, o->sz); break;
		case 's': fib_step_wall((int64_t)(int)o->tmo * 1000); break;
		case 'z': {
			int __wrap_usleep(unsigned);
			__wrap_usleep(o->tmo * 1000u);
			break;
		}
		}
	}
}
static void closer_one(void *arg) { do_peek(9); }
static void closer_all(void *arg)
{
	int n = 0;
	while (do_peek(9) >= 0 && n++ < 100000)
		fib_progress();
	/* capacity is whole again */
	do_push(9, maxsz, 0, 0);
	do_peek(9);
	do_peek(9);
}

/* every thread is blocked: would a blocked push fit right now? */
static int probe_res;
static size_t probe_sz;
static void prober(void *arg)
{
	static uint8_t z[70000];
	probe_res = dynmbox_push(db, z, probe_sz);
}
static int probe(void)
{
	int i, bad = 0;
	for (i = 0; i < FIB_MAX; i++) {
		if (blocked_sz[i] == (size_t)-1)
			continue;
		probe_res = -9999;
		probe_sz = blocked_sz[i];
		fib_spawn(prober, NULL);
		fib_run();
		EV(",{\"e\":\"probe\",\"res\":%d}", probe_res);
		bad |= probe_res != -EAGAIN;
	}
	return bad;
}

static unsigned long run_stuck, run_live;
static int run_once(const int *pre, int npre, int pipesz)
{
	int i, st, guard = 0;
	hlen = 0;
	hist[0] = 0;
	msgid = 0;
	inop = 0;
	memset(blocked_sz, 0xff, sizeof(blocked_sz));
	fib_begin();
	if (is_dyn) {
		db = dynmbox_new(maxsz);
		rfd = dynmbox_get_read_fd(db);
	} else {
		fb = mbox_new(maxsz);
		rfd = mbox_get_read_fd(fb);
	}
	if (is_dyn ? !db : !fb) {
		EV(",{\"e\":\"nobox\"}");
		return 0;
	}
	int slots = 1;
	if (pipesz && fcntl(rfd, F_SETPIPE_SZ, pipesz) >= 0)
		;
	i = fcntl(rfd, F_GETPIPE_SZ);
	if (i > 0)
		slots = i / 4096;
	EV("{\"e\":\"init\",\"slots\":%d}", slots);
	observe = npre < 40;
	for (i = 0; i < npre; i++) {
		if (pre[i] < 0)
			do_peek(8);
		else
			do_push(8, pre[i], 0, 0);
	}
	observe = 1;
	obs();
	for (i = 0; i < nthreads; i++)
		fib_spawn(body, (void *)(long)i);
	st = fib_run();
	while (st == FIB_STUCK && guard++ < 3000) {
		run_stuck++;
		/* which threads sleep inside a call is known from the history */
		EV(",{\"e\":\"stuck\",\"r\":%d}", readable());
		if (inop == 0) {        /* only readers waiting for more */
			fib_stop_waiting();
			st = fib_run();
			continue;
		}
		if (is_dyn && probe()) {
			st = FIB_LIVELOCK;
			break;
		}
		fib_spawn(closer_one, NULL);
		st = fib_run();
	}
	if (st == FIB_LIVELOCK) {
		run_live++;
		EV(",{\"e\":\"livelock\"}");
	} else if (st == FIB_STUCK) {
		EV(",{\"e\":\"stuck\",\"r\":%d},{\"e\":\"livelock\"}", readable());
	} else {
		fib_spawn(closer_all, NULL);
		st = fib_run();
		if (st != FIB_DONE)
			EV(",{\"e\":\"livelock\"}");
	}
	if (st == FIB_DONE) {
		if (is_dyn)
			dynmbox_destroy(db);
		else
			mbox_destroy(fb);
	} else {
		close(fib_last_pipe[0]);
		close(fib_last_pipe[1]);
	}
	return 0;
}

/* set of history hashes already printed */
static uint64_t *seen;
static size_t nseen, capseen;
static int seen_add(uint64_t h)
{
	size_t i;
	if (!h)
		h = 1;
	if (nseen * 2 >= capseen) {
		size_t nc = capseen ? capseen * 2 : 4096;
		uint64_t *ns = calloc(nc, 8);
		for (i = 0; i < capseen; i++)
			if (seen[i]) {
				size_t j = seen[i] % nc;
				while (ns[j])
					j = (j + 1) % nc;
				ns[j] = seen[i];
			}
		free(seen);
		seen = ns;
		capseen = nc;
	}
	i = h % capseen;
	while (seen[i]) {
		if (seen[i] == h)
			return 0;
		i = (i + 1) % capseen;
	}
	seen[i] = h;
	nseen++;
	return 1;
}

static double wall(void)
{
	struct timespec ts;
	int __real_clock_gettime(clockid_t, struct timespec *);
	__real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static char *curline;
static void onabrt(int sig)
{
	char b[200];
	int n = snprintf(b, sizeof(b), "signal %d in scenario: %.120s\n", sig, curline ? curline : "?");
	fflush(stdout);
	if (write(2, b, n)) {}
	signal(sig, SIG_DFL);
	raise(sig);
}

/* creation of mailboxes of the sizes named on stdin ("kind size") */
static int do_sizes(void)
{
	char kind[8];
	size_t sz, i;
	static uint8_t m[70000], o[70000];
	int in = fcntl(0, F_DUPFD, 40);
	FILE *f = fdopen(in, "r");
	close(0);
	while (fscanf(f, "%7s %zu", kind, &sz) == 2) {
		/* with and without the lowest descriptor there is, 0 */
		if (sz & 1)
			open("/dev/null", O_RDWR);
		int dyn = !strcmp(kind, "dyn"), fd, same = 1;
		void *b = dyn ? (void *)dynmbox_new(sz) : (void *)mbox_new(sz);
		printf("{\"kind\":\"%s\",\"sz\":%zu,\"made\":%d", kind, sz > 2000000000 ? (size_t)2000000000 : sz, !!b);
		if (b && sz < 69000) {
			long p, r, e, be = 0;
			fill(m, sz, 77);
			memset(o, 0xa5, sizeof(o));
			fd = dyn ? dynmbox_get_read_fd(b) : mbox_get_read_fd(b);
			e = dyn ? dynmbox_peek(b, o) : mbox_peek(b, o);
			p = dyn ? dynmbox_push(b, m, sz) : mbox_push(b, m);
			r = dyn ? dynmbox_peek(b, o) : mbox_peek(b, o);
			if (dyn)
				be = dynmbox_push(b, m, sz + 1);
			for (i = 0; i < sz; i++)
				same &= m[i] == o[i];
			for (; i < sizeof(o); i++)
				same &= o[i] == 0xa5;
			printf(",\"max\":%ld,\"fd\":%d,\"emptyread\":%ld,\"push\":%ld,\"readlen\":%ld,\"same\":%d,\"beyond\":%ld,"
			       "\"nullfd\":%d,\"nullmax\":%ld",
			       dyn ? (long)dynmbox_get_max_size(b) : 0, fd, e, p, r, same, be,
			       dyn ? dynmbox_get_read_fd(NULL) : mbox_get_read_fd(NULL), dyn ? (long)dynmbox_get_max_size(NULL) : 0);
		}
		puts("}");
		if (b)
			dyn ? dynmbox_destroy(b) : mbox_destroy(b);
		close(0);
	}
	dynmbox_destroy(NULL);
	mbox_destroy(NULL);
	return 0;
}

int main(int argc, char **argv)
{
	static char line[65536];
	if (argc > 1 && !strcmp(argv[1], "sizes"))
		return do_sizes();
	int sc = 0, n;
	double per = argc > 1 ? atof(argv[1]) : 1e9;
	signal(SIGABRT, onabrt);
	signal(SIGSEGV, onabrt);
	signal(SIGPIPE, SIG_IGN);
	while (fgets(line, sizeof(line), stdin)) {
		char kind[8], prestr[8192];
		struct fib_cfg c = { 0 };
		long maxruns;
		int pipesz, off = 0, pre[2000], npre = 0;
		unsigned long long seed;
		curline = line;
		if (sscanf(line, "%7s %d %d %d %d %d %d %llu %ld %d %zu %d %8191s %n", kind, &c.budget,
			   &c.mem_yield, &c.eintr, &c.spurious, &c.early_fire, &c.random, &seed,
			   &maxruns, &c.preempt_permille, &maxsz, &pipesz, prestr, &off) < 13)
			continue;
		is_dyn = !strcmp(kind, "dyn");
		c.seed = seed;
		if (strcmp(prestr, "-")) {
			char *p = strtok(prestr, ",");
			for (; p && npre < 2000; p = strtok(NULL, ","))
				pre[npre++] = *p == 'r' ? -1 : atoi(p);
		}
		nthreads = 0;
		char *s = line + off;
		memset(nops, 0, sizeof(nops));
		for (s = strtok(s, " \n"); s; s = strtok(NULL, " \n")) {
			if (*s == '|') {
				nthreads++;
				continue;
			}
			struct op *o = &ops[nthreads - 1][nops[nthreads - 1]++];
			o->k = *s;
			o->sz = 0;
			o->tmo = 0;
			if (*s == 'z')
				o->tmo = strtoul(s + 1, NULL, 10);
			else if (*s == 's')
				o->tmo = (unsigned)atoi(s + 1);
			else if (s[1])
				o->sz = strtoul(s + 1, NULL, 10);
			char *sl = strchr(s, '/');
			if (sl)
				o->tmo = strtoul(sl + 1, NULL, 10);
		}
		fib_configure(&c);
		long runs = 0, distinct = 0;
		int more = 1;
		double t0 = wall();
		while (more && runs < maxruns && wall() - t0 < per) {
			run_once(pre, npre, pipesz);
			runs++;
			if (seen_add(hashb((uint8_t *)hist, hlen) ^ sc * 0x9e37ull)) {
				distinct++;
				printf("{\"sc\":%d,\"ev\":[%s]}\n", sc, hist);
			}
			more = fib_next();
		}
		fprintf(stderr, "STAT %d %ld %ld %d\n", sc, runs, distinct, !more);
		sc++;
	}
	fprintf(stderr, "TOTAL switches=%lu points=%lu eintr=%lu spurious=%lu fires=%lu stuck=%lu live=%lu\n",
		fib_switches, fib_points, fib_eintrs, fib_spurious, fib_fires, run_stuck, run_live);
	return 0;
}
