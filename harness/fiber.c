#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "fiber.h"

int __real_poll(struct pollfd *, nfds_t, int);
#define REALPOLL __real_poll
#define STACK (512 * 1024)
#define MAXDEPTH 60000
#define MAXOPT 10

enum st { F_FREE, F_RUN, F_MUTEX, F_COND, F_POLL, F_SLEEP, F_DONE };

struct fiber {
	ucontext_t ctx;
	char *stack;
	void (*fn)(void *);
	void *arg;
	enum st st;
	const void *obj;         /* mutex or cond */
	struct pollfd *pfd;
	nfds_t npfd;
	int timed, userwait;
	int wall;                /* the deadline is a wall clock time */
	uint64_t deadline;       /* monotonic virtual us */
	int wake;                /* reason: 0 normal, 1 timeout, 2 spurious */
	int storm;               /* its next blocking calls that get interrupted */
};

static struct fib_cfg C;
static int no_user_wait;
static struct fiber F[FIB_MAX];
static int nf, cur = -1;
static ucontext_t mainctx;
static uint64_t now_us;
static uint64_t steps;
static int livelock, time_raced;
unsigned long fib_switches, fib_points, fib_eintrs, fib_spurious, fib_fires;
int fib_last_pipe[2] = { -1, -1 };

/* realtime - monotonic offset, whole microseconds */
#define RT_OFF0 1700000000000000ll
static int64_t rt_off = RT_OFF0;      /* moves when the wall clock is set */
#define RT_OFF ((uint64_t)rt_off)
#define MONO0 5000000000ull

/* ------------------------------------------------------------- choices */
static struct { unsigned char n, pick; unsigned char cost[MAXOPT]; int used; } D[MAXDEPTH];
static int depth, prefix_len, used;
static uint64_t rng;

uint64_t fib_rand(void)
{
	rng += 0x9e3779b97f4a7c15ull;
	uint64_t z = rng;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

void fib_configure(const struct fib_cfg *cfg)
{
	C = *cfg;
	rng = cfg->seed * 7919 + 13;
	prefix_len = 0;
	if (!C.max_steps)
		C.max_steps = 100000;
}

/* option 0 is the default; cost[i] counts against the budget */
static int choose(int n, const unsigned char *cost)
{
	int pick = 0, i;
	if (n <= 1)
		return 0;
	if (n > MAXOPT)
		n = MAXOPT;
	fib_points++;
	if (C.random) {
		int free_opts = 0, idx[MAXOPT];
		for (i = 0; i < n; i++)
			if (cost[i] == 0)
				idx[free_opts++] = i;
		if (used < C.budget && free_opts < n &&
		    (int)(fib_rand() % 1000) < C.preempt_permille) {
			do
				pick = fib_rand() % n;
			while (cost[pick] == 0);
		} else if (free_opts > 0) {
			pick = idx[fib_rand() % free_opts];
		}
		used += cost[pick];
		return pick;
	}
	if (depth >= MAXDEPTH)
		return 0;
	if (depth < prefix_len) {
		pick = D[depth].pick;
		if (pick >= n)
			pick = 0;
	}
	D[depth].n = n;
	D[depth].pick = pick;
	memmove(D[depth].cost, cost, n);
	D[depth].used = used;
	used += cost[pick];
	depth++;
	return pick;
}

int fib_next(void)
{
	int p, a;
	if (C.random)
		return 1;
	for (p = depth - 1; p >= 0; p--) {
		for (a = D[p].pick + 1; a < D[p].n; a++) {
			if (D[p].used + D[p].cost[a] <= C.budget) {
				D[p].pick = a;
				prefix_len = p + 1;
				return 1;
			}
		}
	}
	return 0;
}

/* ------------------------------------------------------- fake mutexes */
#define NMTX 64
static struct { const void *m; int owner; int init; } MT[NMTX];
static int *mtx(const void *m)
{
	int i, fr = -1;
	for (i = 0; i < NMTX; i++) {
		if (MT[i].m == m)
			return &MT[i].owner;
		if (!MT[i].m && fr < 0)
			fr = i;
	}
	assert(fr >= 0);
	MT[fr].m = m;
	MT[fr].owner = -1;
	return &MT[fr].owner;
}

/* --------------------------------------------------------- scheduling */
static int pollable(struct fiber *f)
{
	struct pollfd *copy = f->pfd;
	return REALPOLL(copy, f->npfd, 0) > 0;
}

static int runnable(int i)
{
	struct fiber *f = &F[i];
	switch (f->st) {
	case F_RUN:
		return 1;
	case F_MUTEX:
		return *mtx(f->obj) == -1;
	case F_POLL:
		return pollable(f);
	default:
		return 0;
	}
}

static void switch_to(int i)
{
	int me = cur;
	if (i == me)
		return;
	fib_switches++;
	cur = i;
	if (me < 0)
		swapcontext(&mainctx, &F[i].ctx);
	else if (i < 0)
		swapcontext(&F[me].ctx, &mainctx);
	else
		swapcontext(&F[me].ctx, &F[i].ctx);
}

static int earliest(void)
{
	int i, e = -1;
	for (i = 0; i < nf; i++)
		if (F[i].timed && (F[i].st == F_COND || F[i].st == F_POLL || F[i].st == F_SLEEP))
			if (e < 0 || F[i].deadline < F[e].deadline)
				e = i;
	return e;
}

static void fire(int e)
{
	if (F[e].deadline > now_us)
		now_us = F[e].deadline;
	F[e].wake = 1;
	F[e].st = F_RUN;
	fib_fires++;
}

/* pick who runs next; called by a fiber that may (st == F_RUN) or may not go
 * on, or by a finished fiber */
static void schedule(void)
{
	unsigned char cost[MAXOPT];
	int kind[MAXOPT], who[MAXOPT], n, i, e, pick;
	int me = cur;

	for (;;) {
		if (++steps > C.max_steps) {
			livelock = 1;
			switch_to(-1);
			return;
		}
		n = 0;
		int me_run = me >= 0 && runnable(me);
		if (me_run) {
			cost[n] = 0; kind[n] = 0; who[n++] = me;
		}
		int any = me_run;
		for (i = 0; i < nf && n < MAXOPT - 3; i++) {
			if (i == me || !runnable(i))
				continue;
			any = 1;
			cost[n] = me_run ? 1 : 0; kind[n] = 0; who[n++] = i;
		}
		e = earliest();
		if (e >= 0 && (!any || C.early_fire)) {
			cost[n] = any ? 1 : 0; kind[n] = 1; who[n++] = e;
		}
		if (C.spurious) {
			for (i = 0; i < nf && n < MAXOPT; i++) {
				if (F[i].st == F_COND) {
					cost[n] = 1; kind[n] = 2; who[n++] = i;
					break;
				}
			}
		}
		if (n == 0 || (!any && e < 0)) {
			switch_to(-1); /* all done or stuck */
			return;
		}
		pick = choose(n, cost);
		i = who[pick];
		if (kind[pick] == 1) {
			if (any)
				time_raced = 1;
			fire(i);
			continue;
		}
		if (kind[pick] == 2) {
			F[i].wake = 2;
			F[i].st = F_RUN;
			fib_spurious++;
			continue;
		}
		F[i].st = F_RUN;
		switch_to(i);
		return;
	}
}

void fib_yield(void)
{
	if (cur >= 0)
		schedule();
}

int fib_self(void) { return cur; }
int fib_is_blocked(int id) { return F[id].st != F_DONE; }
uint64_t fib_now_us(void) { return now_us; }
int fib_time_raced(void) { return time_raced; }

static void tramp(int i)
{
	F[i].fn(F[i].arg);
	F[i].st = F_DONE;
	schedule();
}

void fib_begin(void)
{
	int i;
	for (i = 0; i < FIB_MAX; i++) {
		F[i].st = F_FREE;
		F[i].userwait = 0;
	}
	no_user_wait = 0;
	nf = 0;
	cur = -1;
	now_us = MONO0;
	rt_off = RT_OFF0;
	steps = 0;
	livelock = 0;
	time_raced = 0;
	depth = 0;
	used = 0;
	memset(MT, 0, sizeof(MT));
}

int fib_spawn(void (*fn)(void *), void *arg)
{
	int i;
	for (i = 8; i < nf; i++)
		if (F[i].st == F_DONE)
			break;
	if (i >= nf)
		i = nf++;
	assert(i < FIB_MAX);
	if (!F[i].stack)
		F[i].stack = malloc(STACK);
	getcontext(&F[i].ctx);
	F[i].ctx.uc_stack.ss_sp = F[i].stack;
	F[i].ctx.uc_stack.ss_size = STACK;
	F[i].ctx.uc_link = NULL;
	F[i].fn = fn;
	F[i].arg = arg;
	F[i].st = F_RUN;
	F[i].timed = 0;
	F[i].wake = 0;
	F[i].storm = 0;
	makecontext(&F[i].ctx, (void (*)(void))tramp, 1, i);
	return i;
}

void fib_progress(void)
{
	steps = 0;
}

int fib_run(void)
{
	int i;
	cur = -1;
	schedule();
	cur = -1;
	if (livelock)
		return FIB_LIVELOCK;
	/* nobody left to run and a mutex waited for: its owner never gives it back */
	for (i = 0; i < nf; i++)
		if (F[i].st == F_MUTEX)
			return FIB_LIVELOCK;
	for (i = 0; i < nf; i++)
		if (F[i].st != F_DONE)
			return FIB_STUCK;
	return FIB_DONE;
}

/* C.eintr: 1 single interruptions, 2 failing clocks, 4 storms of interruptions,
 * 8 a wait interrupted when its deadline has just passed */
#define STORM 300
static int inject_eintr(void)
{
	static const unsigned char cost[2] = { 0, 1 };
	if (cur >= 0 && (C.eintr & 4)) {
		if (F[cur].storm == 0 && choose(2, cost) == 1)
			F[cur].storm = STORM;
		if (F[cur].storm > 0) {
			F[cur].storm--;
			fib_eintrs++;
			return 1;
		}
	}
	if (cur < 0 || !(C.eintr & 1))
		return 0;
	if (choose(2, cost) == 1) {
		fib_eintrs++;
		return 1;
	}
	return 0;
}

/* ------------------------------------------------------ wrapped calls */
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	*mtx(m) = -1;
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	int i;
	for (i = 0; i < NMTX; i++)
		if (MT[i].m == m)
			MT[i].m = NULL;
	return 0;
}
static void lock_blocking(const void *m)
{
	int *o = mtx(m);
	while (*o != -1) {
		F[cur].st = F_MUTEX;
		F[cur].obj = m;
		F[cur].timed = 0;
		schedule();
		o = mtx(m);
	}
	*o = cur;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (cur < 0) {
		*mtx(m) = -2;
		return 0;
	}
	fib_yield();
	lock_blocking(m);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	fib_yield();
	int *o = mtx(m);
	if (*o != -1)
		return EBUSY;
	*o = cur < 0 ? -2 : cur;
	return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	*mtx(m) = -1;
	fib_yield();
	return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int __real_pthread_condattr_getclock(const pthread_condattr_t *a, clockid_t *clk);
#define NCV 64
static struct { const void *c; clockid_t clk; } CV[NCV];
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	int i;
	clockid_t clk = CLOCK_REALTIME;
	if (a)
		pthread_condattr_getclock(a, &clk);
	for (i = 0; i < NCV; i++) {
		if (!CV[i].c || CV[i].c == c) {
			CV[i].c = c;
			CV[i].clk = clk;
			break;
		}
	}
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	int i;
	for (i = 0; i < NCV; i++)
		if (CV[i].c == c)
			CV[i].c = NULL;
	for (i = 0; i < nf; i++)
		if (F[i].st == F_COND && F[i].obj == c)
			return EBUSY;
	return 0;
}
static int cond_common(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
	int w;
	assert(cur >= 0);
	struct fiber *f = &F[cur];
	f->timed = 0;
	f->wall = ts && clk == CLOCK_REALTIME;
	if (ts) {
		if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
			return EINVAL;
		__int128 d = (__int128)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
		if (clk == CLOCK_REALTIME)
			d -= rt_off;
		f->timed = 1;
		f->deadline = d < 0 ? 0 : (d > (__int128)1 << 62 ? 1ull << 62 : (uint64_t)d);
	}
	fib_yield();
	*mtx(m) = -1;
	f->st = F_COND;
	f->obj = c;
	f->wake = 0;
	if (f->timed && f->deadline <= now_us) {
		f->st = F_RUN;
		f->wake = 1;
	}
	schedule();
	w = f->wake;
	f->timed = f->wall = 0;
	lock_blocking(m);
	return w == 1 ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	return cond_common(c, m, 0, NULL);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	int i;
	clockid_t clk = CLOCK_REALTIME;
	for (i = 0; i < NCV; i++)
		if (CV[i].c == c)
			clk = CV[i].clk;
	return cond_common(c, m, clk, ts);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
	return cond_common(c, m, clk, ts);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	unsigned char cost[MAXOPT] = { 0 };
	int who[MAXOPT], n = 0, i;
	fib_yield();
	for (i = 0; i < nf; i++)
		if (F[i].st == F_COND && F[i].obj == c)
			who[n++] = i;
	if (n) {
		i = who[choose(n, cost)];
		F[i].st = F_RUN;
		F[i].wake = 0;
	}
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	int i;
	fib_yield();
	for (i = 0; i < nf; i++)
		if (F[i].st == F_COND && F[i].obj == c) {
			F[i].st = F_RUN;
			F[i].wake = 0;
		}
	return 0;
}

/* ---- time ---- */
/* the wall clock is set: waits until a wall clock time end earlier or later */
void fib_step_wall(int64_t us)
{
	int i;
	fib_yield();
	rt_off += us;
	for (i = 0; i < nf; i++) {
		struct fiber *f = &F[i];
		int64_t d;
		if (!f->timed || !f->wall || f->deadline >= 1ull << 61)
			continue;
		d = (int64_t)f->deadline - us;
		f->deadline = d < (int64_t)now_us ? now_us : (uint64_t)d;
	}
}
static void put_ts(struct timespec *ts, uint64_t us)
{
	ts->tv_sec = us / 1000000;
	ts->tv_nsec = (us % 1000000) * 1000;
}
static int clock_fails(void)
{
	static const unsigned char cost[2] = { 0, 1 };
	if (cur < 0 || !(C.eintr & 2) || choose(2, cost) == 0)
		return 0;
	errno = ENOSYS;
	return 1;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	uint64_t us = now_us + RT_OFF;
	if (clock_fails())
		return -1;
	tv->tv_sec = us / 1000000;
	tv->tv_usec = us % 1000000;
	return 0;
}
int __wrap_clock_gettime(clockid_t clk, struct timespec *ts)
{
	int rt = clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE;
	if (clock_fails())
		return -1;
	put_ts(ts, now_us + (rt ? RT_OFF : 0));
	return 0;
}
time_t __wrap_time(time_t *t)
{
	time_t v = (now_us + RT_OFF) / 1000000;
	if (t)
		*t = v;
	return v;
}
static void sleep_us(uint64_t us)
{
	if (cur < 0) {
		now_us += us;
		return;
	}
	F[cur].st = F_SLEEP;
	F[cur].timed = 1;
	F[cur].wall = 0;
	F[cur].deadline = now_us + us;
	schedule();
	F[cur].timed = 0;
}
int __wrap_nanosleep(const struct timespec *req, struct timespec *rem)
{
	sleep_us((uint64_t)req->tv_sec * 1000000 + (req->tv_nsec + 999) / 1000);
	return 0;
}
int __wrap_clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
	uint64_t us = (uint64_t)req->tv_sec * 1000000 + (req->tv_nsec + 999) / 1000;
	if (flags & TIMER_ABSTIME) {
		uint64_t base = now_us + (clk == CLOCK_REALTIME ? RT_OFF : 0);
		us = us > base ? us - base : 0;
	}
	sleep_us(us);
	return 0;
}
int __wrap_usleep(useconds_t us) { sleep_us(us); return 0; }
int __wrap_sched_yield(void) { fib_yield(); return 0; }

/* ---- descriptors ---- */
int __real_pipe(int fds[2]);
int __real_pipe2(int fds[2], int flags);
int __wrap_pipe(int fds[2])
{
	int r = __real_pipe(fds);
	if (r == 0)
		memmove(fib_last_pipe, fds, sizeof(fib_last_pipe));
	return r;
}
int __wrap_pipe2(int fds[2], int flags)
{
	int r = __real_pipe2(fds, flags);
	if (r == 0)
		memmove(fib_last_pipe, fds, sizeof(fib_last_pipe));
	return r;
}
/* wait (virtually) while a blocking descriptor is not ready; 1: interrupted */
static int wait_fd(int fd, short ev)
{
	struct pollfd p = { .fd = fd, .events = ev };
	int fl;
	if (cur < 0)
		return 0;
	fib_yield();
	if (inject_eintr())
		return 1;
	fl = fcntl(fd, F_GETFL);
	if (fl < 0 || (fl & O_NONBLOCK))
		return 0;
	if (REALPOLL(&p, 1, 0) > 0)
		return 0;
	F[cur].st = F_POLL;
	F[cur].pfd = &p;
	F[cur].npfd = 1;
	F[cur].timed = 0;
	schedule();
	return 0;
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (wait_fd(fd, POLLIN)) {
		errno = EINTR;
		return -1;
	}
	return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (wait_fd(fd, POLLOUT)) {
		errno = EINTR;
		return -1;
	}
	return __real_write(fd, b, n);
}
static int do_poll(struct pollfd *fds, nfds_t n, int timed, uint64_t us)
{
	int r, w;
	if (cur < 0) {
		r = REALPOLL(fds, n, 0);
		if (r == 0 && timed)
			now_us += us;
		return r;
	}
	fib_yield();
	if (inject_eintr()) {
		errno = EINTR;
		return -1;
	}
	r = REALPOLL(fds, n, 0);
	if (r != 0 || (timed && us == 0))
		return r;
	struct fiber *f = &F[cur];
	f->st = F_POLL;
	f->pfd = fds;
	f->npfd = n;
	f->timed = timed;
	f->deadline = now_us + us;
	f->wake = 0;
	/* a signal may also arrive some time into the wait */
	if (C.eintr & 1) {
		static const unsigned char cost[3] = { 0, 1, 1 };
		int p = choose(timed && us > 2 ? 3 : 2, cost);
		if (p == 1) {
			/* interrupted by a signal after others ran */
			fib_eintrs++;
			f->st = F_RUN;
			fib_yield();
			errno = EINTR;
			return -1;
		}
		if (p == 2) {
			/* interrupted half-way through the wait */
			fib_eintrs++;
			f->deadline = now_us + us / 2;
			schedule();
			w = f->wake;
			f->timed = 0;
			f->wake = 0;
			if (w == 1) {
				errno = EINTR;
				return -1;
			}
			return REALPOLL(fds, n, 0);
		}
	}
	/* the thread may get the processor only after its deadline: a signal
	 * that came in between then counts, whatever the time */
	w = 0;
	if (timed && us > 2 && (C.eintr & 8)) {
		static const unsigned char cost[2] = { 0, 1 };
		w = choose(2, cost);
	}
	schedule();
	if (w && f->wake == 1 && REALPOLL(fds, n, 0) == 0) {
		fib_eintrs++;
		now_us += 1500;
		f->timed = 0;
		f->wake = 0;
		errno = EINTR;
		return -1;
	}
	f->timed = 0;
	f->wake = 0;
	r = REALPOLL(fds, n, 0);
	return r;
}
int __wrap_poll(struct pollfd *fds, nfds_t n, int timeout)
{
	return do_poll(fds, n, timeout >= 0, timeout >= 0 ? (uint64_t)timeout * 1000 : 0);
}
int __wrap_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const void *sig)
{
	return do_poll(fds, n, ts != NULL,
		ts ? (uint64_t)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000 : 0);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	struct pollfd p[16];
	int i, k = 0, res;
	for (i = 0; i < n && k < 16; i++) {
		short ev = 0;
		if (r && FD_ISSET(i, r)) ev |= POLLIN;
		if (w && FD_ISSET(i, w)) ev |= POLLOUT;
		if (ev) {
			p[k].fd = i; p[k].events = ev; p[k].revents = 0; k++;
		}
	}
	res = do_poll(p, k, tv != NULL, tv ? (uint64_t)tv->tv_sec * 1000000 + tv->tv_usec : 0);
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
	if (res > 0) {
		for (i = 0; i < k; i++) {
			if (r && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) FD_SET(p[i].fd, r);
			if (w && (p[i].revents & (POLLOUT | POLLERR))) FD_SET(p[i].fd, w);
		}
	}
	return res;
}
/* nobody will feed the waiting fibers any more: let them go on */
void fib_stop_waiting(void)
{
	int i;
	no_user_wait = 1;
	for (i = 0; i < FIB_MAX; i++)
		if (F[i].st == F_POLL && F[i].userwait)
			F[i].st = F_RUN;
}
void fib_wait_readable(int fd)
{
	struct pollfd p = { .fd = fd, .events = POLLIN };
	assert(cur >= 0);
	fib_yield();
	if (no_user_wait || REALPOLL(&p, 1, 0) > 0)
		return;
	F[cur].st = F_POLL;
	F[cur].userwait = 1;
	F[cur].pfd = &p;
	F[cur].npfd = 1;
	F[cur].timed = 0;
	schedule();
	F[cur].userwait = 0;
}

/* --------------------------------- instrumented memory accesses (tsan ABI) */
static inline void mem(void *a)
{
	if (cur < 0 || !C.mem_yield)
		return;
	if ((char *)a >= F[cur].stack && (char *)a < F[cur].stack + STACK)
		return;
	fib_yield();
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
	void __tsan_read##n(void *a) { mem(a); } \
	void __tsan_write##n(void *a) { mem(a); } \
	void __tsan_unaligned_read##n(void *a) { mem(a); } \
	void __tsan_unaligned_write##n(void *a) { mem(a); } \
	void __tsan_volatile_read##n(void *a) { mem(a); } \
	void __tsan_volatile_write##n(void *a) { mem(a); } \
	void __tsan_read_write##n(void *a) { mem(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { mem(a); }
void __tsan_write_range(void *a, size_t n) { mem(a); }
void __tsan_vptr_update(void **a, void *v) {}
void __tsan_vptr_read(void **a) {}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { mem((void *)a); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { mem((void *)a); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { mem((void *)a); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) \
	{ mem((void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) \
	{ mem((void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) \
	{ mem((void *)a); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* copies made by instrumented code may be torn by a switch */
void *__real_memcpy(void *d, const void *s, size_t n);
static int external_mem(const void *a)
{
	return !(cur >= 0 && (const char *)a >= F[cur].stack && (const char *)a < F[cur].stack + STACK);
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
	if (cur >= 0 && C.mem_yield && n && (external_mem(d) || external_mem(s))) {
		size_t h = n / 2;
		fib_yield();
		memmove(d, s, h);
		if (h)
			fib_yield();
		memmove((char *)d + h, (const char *)s + h, n - h);
		return d;
	}
	return memmove(d, s, n);
}
