/* Driver of timetools.c and systimetools.c: executes the operation named on
 * each input line and prints a record of what happened.  All clocks are
 * virtual (link-time wraps); the real clock can not be set (see main). */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <inttypes.h>
#include <poll.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "futils/timetools.h"
#include "futils/systimetools.h"

typedef __int128 i128;
#define NSEC 1000000000LL

/* ------------------------------------------------------------ printing */
static void big_u(uint64_t v, int neg)
{
	int first = 1;
	printf("{\"neg\":%s,\"m\":[", neg && v ? "true" : "false");
	for (; v; v /= 1000, first = 0)
		printf("%s%d", first ? "" : ",", (int)(v % 1000));
	printf("]}");
}
static void big(int64_t v) { big_u(v < 0 ? -(uint64_t)v : (uint64_t)v, v < 0); }
static void pts(const char *n, int64_t s, int64_t ns)
{
	printf(",\"%s\":{\"s\":", n);
	big(s);
	printf(",\"n\":");
	big(ns);
	printf("}");
}
static void pbig(const char *n, int64_t v) { printf(",\"%s\":", n); big(v); }
static void pbigu(const char *n, uint64_t v) { printf(",\"%s\":", n); big_u(v, 0); }

/* -------------------------------------------------------- virtual world */
static i128 w_mono, w_off;		/* now, in ns; realtime = mono + off */
static int64_t w_step;			/* what passes before each reading */
static int w_fail, w_errno, w_failed;	/* fail the nth call */
static int w_calls;
static int64_t w_intr[64];		/* sleeping time until each signal */
static int w_nintr, w_iintr;
static int w_set_calls, w_set_errno;
static struct timeval w_set_tv;
static int w_on;

static int world_call(void)
{
	w_calls++;
	w_mono += w_step;
	if (w_fail && w_calls == w_fail) {
		w_failed = 1;
		errno = w_errno;
		return -1;
	}
	return 0;
}
/* a coarse clock stands still between two ticks */
#define TICK (4000000)
static i128 world_now(clockid_t id)
{
	switch (id) {
	case CLOCK_MONOTONIC_COARSE:
		return w_mono - w_mono % TICK;
	case CLOCK_REALTIME_COARSE:
		return w_mono - w_mono % TICK + w_off;
	case CLOCK_MONOTONIC:
	case CLOCK_MONOTONIC_RAW:
		return w_mono;
	case CLOCK_BOOTTIME:
		return w_mono + 777 * (i128)NSEC;
	case CLOCK_REALTIME:
		return w_mono + w_off;
	default:
		return 12345;
	}
}
int __real_clock_gettime(clockid_t id, struct timespec *ts);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	if (!w_on)
		return __real_clock_gettime(id, ts);
	if (world_call() < 0)
		return -1;
	i128 t = world_now(id);
	ts->tv_sec = t / NSEC;
	ts->tv_nsec = t % NSEC;
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (world_call() < 0)
		return -1;
	i128 t = world_now(CLOCK_REALTIME);
	tv->tv_sec = t / NSEC;
	tv->tv_usec = (t % NSEC) / 1000;
	return 0;
}
time_t __wrap_time(time_t *p)
{
	if (w_on)
		w_mono += w_step;
	time_t t = world_now(CLOCK_REALTIME) / NSEC;
	if (p)
		*p = t;
	return t;
}
static int world_set(const struct timeval *tv)
{
	w_set_calls++;
	w_set_tv = *tv;
	if (w_set_errno) {
		errno = w_set_errno;
		return -1;
	}
	w_off = (i128)tv->tv_sec * NSEC + (i128)tv->tv_usec * 1000 - w_mono;
	return 0;
}
int __wrap_settimeofday(const struct timeval *tv, const void *tz) { return world_set(tv); }
int __wrap_clock_settime(clockid_t id, const struct timespec *ts)
{
	struct timeval tv = { ts->tv_sec, ts->tv_nsec / 1000 };
	if (id != CLOCK_REALTIME) {
		errno = EINVAL;
		return -1;
	}
	return world_set(&tv);
}
/* sleep for ns; returns what is left when a signal interrupts it */
static i128 world_sleep(i128 ns)
{
	if (ns < 0)
		ns = 0;
	if (w_iintr < w_nintr) {
		if (w_intr[w_iintr] < ns) {
			i128 d = w_intr[w_iintr++];
			w_mono += d;
			return ns - d;
		}
		w_intr[w_iintr] -= ns;
	}
	w_mono += ns;
	return 0;
}
static int bad_ts(const struct timespec *t) { return t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= NSEC; }
static int sleep_ts(clockid_t id, int flags, const struct timespec *req, struct timespec *rem)
{
	struct timespec rq = *req;
	if (bad_ts(&rq))
		return EINVAL;
	w_calls++;
	if (w_fail && w_calls == w_fail) {
		w_failed = 1;
		return w_errno;
	}
	i128 ns = (i128)rq.tv_sec * NSEC + rq.tv_nsec;
	if (flags & TIMER_ABSTIME)
		ns -= world_now(id);
	ns = world_sleep(ns);
	if (ns > 0) {
		if (rem && !(flags & TIMER_ABSTIME)) {
			rem->tv_sec = ns / NSEC;
			rem->tv_nsec = ns % NSEC;
		}
		return EINTR;
	}
	return 0;
}
int __wrap_nanosleep(const struct timespec *req, struct timespec *rem)
{
	int e = sleep_ts(CLOCK_MONOTONIC, 0, req, rem);
	if (e) {
		errno = e;
		return -1;
	}
	return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem)
{
	return sleep_ts(id, flags, req, rem);
}
static int sleep_ns(i128 ns)
{
	w_calls++;
	if (w_fail && w_calls == w_fail) {
		w_failed = 1;
		errno = w_errno;
		return -1;
	}
	if (world_sleep(ns) > 0) {
		errno = EINTR;
		return -1;
	}
	return 0;
}
int __wrap_usleep(useconds_t us) { return sleep_ns((i128)us * 1000); }
unsigned __wrap_sleep(unsigned s)
{
	i128 left = world_sleep((i128)s * NSEC);
	return (left + NSEC - 1) / NSEC;
}
int __wrap_poll(struct pollfd *f, nfds_t n, int ms)
{
	assert(n == 0 && ms >= 0 && "harness: poll");
	return sleep_ns((i128)ms * 1000000);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	assert(n == 0 && tv && "harness: select");
	return sleep_ns((i128)tv->tv_sec * NSEC + (i128)tv->tv_usec * 1000);
}

/* --------------------------------------------------------------- inputs */
static char *tok_save;
static char *tok(void)
{
	char *t = strtok_r(NULL, " \n", &tok_save);
	assert(t && "harness: missing token");
	return t;
}
static int64_t ti(void)
{
	char *t = tok();
	return t[0] == '-' ? (int64_t)strtoll(t, NULL, 10) : (int64_t)strtoull(t, NULL, 10);
}
static uint64_t tu(void) { return strtoull(tok(), NULL, 10); }
static struct timespec tts(void)
{
	struct timespec t;
	t.tv_sec = ti();
	t.tv_nsec = ti();
	return t;
}
#define PAT 0x5a5a5a5a5a5a5a5aULL

/* a string whose end is the end of accessible memory */
static char *guard;
static size_t guard_len = 8192;
static char *place(const char *s, size_t n)
{
	char *p = guard + guard_len - n - 1;
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
static size_t unhex(const char *h, char *out)
{
	size_t n = 0;
	if (h[0] == '-')
		return 0;
	for (; h[0] && h[1]; h += 2) {
		unsigned v;
		sscanf(h, "%2x", &v);
		out[n++] = v;
	}
	return n;
}
static void pbytes(const char *name, const void *p, size_t n)
{
	printf(",\"%s\":[", name);
	for (size_t i = 0; i < n; i++)
		printf("%s%d", i ? "," : "", ((const unsigned char *)p)[i]);
	printf("]");
}
/* an instant as day and second of the day */
static void pinst(const char *n, uint64_t e)
{
	int64_t v = (int64_t)e, d = v / 86400, s = v % 86400;
	if (s < 0) {
		s += 86400;
		d--;
	}
	if (d > 1000000000 || d < -1000000000) {
		d = 2000000000;
		s = -1;
	}
	printf(",\"%s\":{\"day\":%" PRId64 ",\"sod\":%" PRId64 "}", n, d, s);
}

static void do_diff(void)
{
	int alias = ti(), nul = ti(), ret;
	struct timespec a = tts(), b = tts(), r = { PAT, PAT };
	struct timespec a0 = a, b0 = b, *p = alias == 1 ? &a : alias == 2 ? &b : &r;
	ret = time_timespec_diff(nul & 1 ? NULL : &a, nul & 2 ? NULL : &b, nul & 4 ? NULL : p);
	printf("\"k\":\"diff\",\"nul\":%d,\"ret\":%d,\"alias\":%d", nul, ret, alias);
	pts("a", a0.tv_sec, a0.tv_nsec);
	pts("b", b0.tv_sec, b0.tv_nsec);
	pts("r", p->tv_sec, p->tv_nsec);
}
static void do_diffus(void)
{
	int nul = ti(), ret, sign = 99;
	struct timespec a = tts(), b = tts();
	uint64_t v = PAT;
	ret = time_timespec_diff_us(nul & 1 ? NULL : &a, nul & 2 ? NULL : &b, nul & 4 ? NULL : &v,
				    nul & 8 ? NULL : &sign);
	printf("\"k\":\"diffus\",\"nul\":%d,\"ret\":%d,\"sign\":%d", nul, ret, sign);
	pts("a", a.tv_sec, a.tv_nsec);
	pts("b", b.tv_sec, b.tv_nsec);
	pbigu("v", v);
}
static void do_range(void)
{
	int nul = ti(), ret;
	struct timespec a = tts(), b = tts();
	uint64_t range = tu(), v = PAT;
	ret = time_timespec_diff_in_range(nul & 1 ? NULL : &a, nul & 2 ? NULL : &b, range, nul & 4 ? NULL : &v);
	printf("\"k\":\"range\",\"nul\":%d,\"ret\":%d,\"w\":%d", nul, ret, v != PAT);
	pts("a", a.tv_sec, a.tv_nsec);
	pts("b", b.tv_sec, b.tv_nsec);
	pbigu("range", range);
	pbigu("v", v);
}
static void do_cmp(void)
{
	int nul = ti(), ret;
	struct timespec a = tts(), b = tts();
	ret = time_timespec_cmp(nul & 1 ? NULL : &a, nul & 2 ? NULL : &b);
	printf("\"k\":\"cmp\",\"nul\":%d,\"ret\":%d", nul, ret);
	pts("a", a.tv_sec, a.tv_nsec);
	pts("b", b.tv_sec, b.tv_nsec);
}
static void do_add(void)
{
	int us = ti(), alias = ti(), nul = ti(), ret;
	struct timespec a = tts(), r = { PAT, PAT }, a0 = a, *p = alias ? &a : &r;
	int64_t d = ti();
	ret = (us ? time_timespec_add_us : time_timespec_add_ns)(nul & 1 ? NULL : &a, d, nul & 2 ? NULL : p);
	printf("\"k\":\"add\",\"nul\":%d,\"ret\":%d,\"u\":%d,\"alias\":%d", nul, ret, us, alias);
	pts("a", a0.tv_sec, a0.tv_nsec);
	pbig("d", d);
	pts("r", p->tv_sec, p->tv_nsec);
}
static void do_to(void)
{
	int u = ti(), nul = ti(), ret;
	struct timespec a = tts();
	uint64_t v = PAT;
	ret = (u == 0 ? time_timespec_to_ns : u == 1 ? time_timespec_to_us : time_timespec_to_ms)
		(nul & 1 ? NULL : &a, nul & 2 ? NULL : &v);
	printf("\"k\":\"to\",\"nul\":%d,\"ret\":%d,\"u\":%d,\"w\":%d", nul, ret, u, v != PAT);
	pts("a", a.tv_sec, a.tv_nsec);
	pbigu("v", v);
}
static void do_from(void)
{
	int u = ti(), nul = ti(), ret;
	uint64_t v = tu();
	struct timespec r = { PAT, PAT };
	ret = (u == 0 ? time_ns_to_timespec : u == 1 ? time_us_to_timespec : time_ms_to_timespec)
		(nul & 1 ? NULL : &v, nul & 2 ? NULL : &r);
	printf("\"k\":\"from\",\"nul\":%d,\"ret\":%d,\"u\":%d,\"w\":%d", nul, ret, u,
	       r.tv_sec != (time_t)PAT || r.tv_nsec != (long)PAT);
	pbigu("v", v);
	pts("r", r.tv_sec, r.tv_nsec);
}
static void do_tv(void)
{
	int ms = ti(), nul = ti(), ret;
	struct timeval a;
	struct timespec r = { PAT, PAT };
	uint32_t v = (uint32_t)PAT;
	a.tv_sec = ti();
	a.tv_usec = ti();
	if (ms)
		ret = time_timeval_to_ms(nul & 1 ? NULL : &a, nul & 2 ? NULL : &v);
	else
		ret = time_timeval_to_timespec(nul & 1 ? NULL : &a, nul & 2 ? NULL : &r);
	printf("\"k\":\"%s\",\"nul\":%d,\"ret\":%d,\"w\":%d", ms ? "tvms" : "tv", nul, ret,
	       ms ? v != (uint32_t)PAT : (r.tv_sec != (time_t)PAT || r.tv_nsec != (long)PAT));
	pts("a", a.tv_sec, a.tv_usec);
	if (ms)
		pbigu("v", v);
	else
		pts("r", r.tv_sec, r.tv_nsec);
}

/* ---------------------------------------------------------------- clocks */
static void world(void)		/* mono s ns, off s ns, step, fail, errno */
{
	int64_t s = ti(), n = ti();
	w_mono = (i128)s * NSEC + n;
	s = ti(), n = ti();
	w_off = (i128)s * NSEC + n;
	w_step = ti();
	w_fail = ti();
	w_errno = ti();
	w_failed = w_calls = w_nintr = w_iintr = w_set_calls = w_set_errno = 0;
}
static void pnow(const char *n, i128 t)
{
	int neg = t < 0;
	if (neg)
		t = -t;
	pts(n, (neg ? -1 : 1) * (int64_t)(t / NSEC), (neg ? -1 : 1) * (int64_t)(t % NSEC));
}
static void pworld(i128 b)
{
	pnow("mb", b);
	pnow("me", w_mono);
	pnow("off", w_off);
	printf(",\"failed\":%d,\"err\":%d,\"calls\":%d", w_failed, w_errno, w_calls);
}
static void do_get(void)
{
	int rt = ti(), ret;
	struct timespec r = { PAT, PAT };
	world();
	i128 b = w_mono;
	w_on = 1;
	ret = (rt ? time_get_realtime : time_get_monotonic)(&r);
	w_on = 0;
	printf("\"k\":\"get\",\"rt\":%d,\"ret\":%d", rt, ret);
	pts("r", r.tv_sec, r.tv_nsec);
	pworld(b);
}
static void do_diffnow(void)
{
	int nul = ti(), alias = ti(), ret;
	struct timespec a = tts(), a0 = a, r = { PAT, PAT }, *p = alias ? &a : &r;
	world();
	i128 b = w_mono;
	w_on = 1;
	ret = time_timespec_diff_now(nul & 1 ? NULL : &a, nul & 2 ? NULL : p);
	w_on = 0;
	printf("\"k\":\"diffnow\",\"nul\":%d,\"ret\":%d", nul, ret);
	pts("a", a0.tv_sec, a0.tv_nsec);
	pts("r", p->tv_sec, p->tv_nsec);
	pworld(b);
}
static void do_m2r(void)
{
	int ms = ti(), nul = ti(), ret;
	uint64_t mt = tu(), r = PAT;
	world();
	i128 b = w_mono;
	w_on = 1;
	ret = (ms ? time_monotonic_to_realtime_ms : time_monotonic_to_realtime_us)(mt, nul ? NULL : &r);
	w_on = 0;
	printf("\"k\":\"m2r\",\"ms\":%d,\"nul\":%d,\"ret\":%d,\"w\":%d", ms, nul, ret, r != PAT);
	pbigu("mt", mt);
	pbigu("r", r);
	pworld(b);
}
static void do_sleep(void)
{
	uint32_t ms = tu();
	int ret, n, i;
	world();
	n = ti();
	for (i = 0; i < n; i++)
		w_intr[i] = ti();
	w_nintr = n;
	i128 b = w_mono;
	w_on = 1;
	ret = time_msleep(ms);
	w_on = 0;
	printf("\"k\":\"sleep\",\"ret\":%d,\"nint\":%d", ret, w_iintr);
	pbigu("ms", ms);
	pworld(b);
}
static void do_local(void)
{
	int what = ti(), nul = ti(), ret;
	world();
	uint64_t e = PAT;
	uint16_t ms = 0x5a5a;
	int32_t off = 0x5a5a5a5a;
	i128 b = w_mono;
	w_on = 1;
	if (what == 0)
		ret = time_local_get(nul & 1 ? NULL : &e, nul & 4 ? NULL : &off);
	else
		ret = time_local_ms_get(nul & 1 ? NULL : &e, nul & 2 ? NULL : &ms, nul & 4 ? NULL : &off);
	w_on = 0;
	printf("\"k\":\"local\",\"what\":%d,\"nul\":%d,\"ret\":%d,\"ms\":%d,\"o\":%d,\"tz\":%s", what, nul, ret, ms, off,
	       getenv("VF_ZONE"));
	pbigu("e", e);
	pworld(b);
}
static void do_setlocal(void)
{
	uint64_t e = tu();
	int32_t off = ti();
	int err = ti(), ret;
	w_mono = 1000 * NSEC;
	w_off = 5;
	w_step = 0;
	w_fail = w_failed = w_calls = 0;
	w_set_calls = 0;
	w_set_errno = err;
	memset(&w_set_tv, 0x5a, sizeof(w_set_tv));
	w_on = 1;
	ret = time_local_set(e, off);
	w_on = 0;
	printf("\"k\":\"setlocal\",\"ret\":%d,\"calls\":%d,\"err\":%d", ret, w_set_calls, err);
	pbigu("e", e);
	pts("tv", w_set_tv.tv_sec, w_set_tv.tv_usec);
	w_set_errno = 0;
}

#ifdef BUILD_LIBPUTILS
/* ------------------------------------------------------------ properties */
#include <putils/properties.h>
static struct { char k[SYS_PROP_KEY_MAX], v[SYS_PROP_VALUE_MAX]; } prop[16];
static int nprop, prop_fail;
static int prop_find(const char *k)
{
	int i;
	for (i = 0; i < nprop && strcmp(prop[i].k, k); i++)
		;
	return i;
}
int sys_prop_set(const char *k, const char *v)
{
	int i = prop_find(k);
	if (prop_fail)
		return -prop_fail;
	if (strlen(k) >= SYS_PROP_KEY_MAX || strlen(v) >= SYS_PROP_VALUE_MAX)
		return -EINVAL;
	assert(i < 16 && "harness: too many properties");
	strcpy(prop[i].k, k);
	strcpy(prop[i].v, v);
	if (i == nprop)
		nprop++;
	return 0;
}
int sys_prop_get(const char *k, char *v, const char *def)
{
	int i = prop_find(k);
	memset(v, 0x5a, SYS_PROP_VALUE_MAX);
	strcpy(v, i < nprop ? prop[i].v : def ? def : "");
	return strlen(v);
}
/* one life of the system: the offsets set and read back */
static void do_props(void)
{
	int n = ti(), i;
	nprop = 0;
	world();
	w_on = 1;
	printf("\"k\":\"props\",\"ev\":[");
	for (i = 0; i < n; i++) {
		uint64_t e = tu(), e2 = PAT;
		int32_t off = ti(), o2 = 0x5a5a5a5a;
		int err = ti(), perr = ti(), what = ti(), ret, ret2;
		w_set_errno = err;
		w_set_calls = 0;
		prop_fail = perr;
		ret = time_local_set(e, off);
		prop_fail = w_set_errno = 0;
		ret2 = what == 0 ? time_local_get(&e2, &o2) : time_local_ms_get(what == 1 ? &e2 : NULL, NULL, &o2);
		printf("%s{\"ret\":%d,\"off\":%d,\"err\":%d,\"perr\":%d,\"calls\":%d,\"ret2\":%d,\"o\":%d}", i ? "," : "", ret, off, err,
		       perr, w_set_calls, ret2, o2);
	}
	printf("]");
	w_on = 0;
}
/* m2rsim ms hex-text-of-the-property mt world */
static void do_m2rsim(void)
{
	int ms = ti(), ret;
	char txt[256];
	size_t len = unhex(tok(), txt);
	txt[len] = 0;
	int64_t rt0 = ti();
	uint64_t mt = tu(), r = PAT;
	nprop = 0;
	sys_prop_set("ro.simulator.clock_rt0_us", txt);
	world();
	i128 b = w_mono;
	w_on = 1;
	ret = (ms ? time_monotonic_to_realtime_ms : time_monotonic_to_realtime_us)(mt, &r);
	w_on = 0;
	printf("\"k\":\"m2rsim\",\"ms\":%d,\"ret\":%d,\"w\":%d,\"len\":%d", ms, ret, r != PAT, (int)len);
	pbytes("txt", txt, len);
	pbig("rt0", rt0);
	pbigu("mt", mt);
	pbigu("r", r);
	pworld(b);
}
#endif

/* ------------------------------------------------------------------ text */
static uint64_t tinst(void)
{
	int64_t d = ti(), s = ti();
	return (uint64_t)(d * 86400 + s);
}
static void do_fmt(void)
{
	uint64_t e = tinst();
	int off = ti(), fmt = ti(), n = ti(), nul = ti(), ret;
	char *p = guard + guard_len - n, *chk = guard + guard_len - n - 64;
	memset(guard, 0x5a, guard_len);
	ret = time_local_format(e, off, fmt, nul ? NULL : p, n);
	int dirty = 0;
	for (int i = 0; i < 64; i++)
		dirty |= chk[i] != 0x5a;
	int len = strnlen(p, n);
	printf("\"k\":\"fmt\",\"ret\":%d,\"fmt\":%d,\"n\":%d,\"nul\":%d,\"off\":%d,\"dirty\":%d,\"term\":%d", ret, fmt, n, nul,
	       off, dirty, len < n);
	pinst("t", e);
	pbytes("s", p, len);
}
static void do_parse(void)
{
	char buf[4096];
	size_t n = unhex(tok(), buf);
	int nul = ti(), ret;
	uint64_t e = PAT;
	int32_t off = 0x5a5a5a5a;
	char *p = place(buf, n);
	ret = time_local_parse(nul & 1 ? NULL : p, nul & 2 ? NULL : &e, nul & 4 ? NULL : &off);
	printf("\"k\":\"parse\",\"ret\":%d,\"nul\":%d,\"w\":%d,\"off\":%d", ret, nul, e != PAT || off != 0x5a5a5a5a, off);
	pbytes("s", buf, n);
	pinst("t", e);
}
static void ptm(const struct tm *tm)
{
	printf(",\"tm\":{\"y\":%d,\"mo\":%d,\"d\":%d,\"h\":%d,\"mi\":%d,\"s\":%d,\"wd\":%d,\"yd\":%d,\"off\":%ld}",
	       tm->tm_year, tm->tm_mon, tm->tm_mday, tm->tm_hour, tm->tm_min, tm->tm_sec, tm->tm_wday, tm->tm_yday,
	       tm->tm_gmtoff);
}
static void do_totm(void)
{
	uint64_t e = tinst(), e2 = PAT;
	int off = ti(), nul = ti(), ret, ret2 = 0;
	int32_t off2 = 0x5a5a5a5a;
	struct tm tm;
	memset(&tm, 0x5a, sizeof(tm));
	ret = time_local_to_tm(e, off, nul & 1 ? NULL : &tm);
	struct tm tm2 = tm;
	if (ret == 0)
		ret2 = time_local_from_tm(nul & 2 ? NULL : &tm2, nul & 4 ? NULL : &e2, nul & 8 ? NULL : &off2);
	printf("\"k\":\"totm\",\"ret\":%d,\"nul\":%d,\"off\":%d,\"ret2\":%d,\"off2\":%d,\"keep\":%d", ret, nul, off, ret2, off2,
	       memcmp(&tm, &tm2, sizeof(tm)) == 0);
	pinst("t", e);
	pinst("t2", e2);
	if (ret == 0)
		ptm(&tm);
}
/* ctx: sequence of I, D:<hex>, H:<hex>, T:<hex>, G, and NULL variants d h t g i */
static void do_ctx(void)
{
	int n = ti();
	struct time_ctx c;
	char buf[4096];
	memset(&c, 0, sizeof(c));
	printf("\"ev\":[");
	for (int i = 0; i < n; i++) {
		char *t = tok();
		int ret = 0;
		uint64_t e = PAT;
		int32_t off = 0x5a5a5a5a;
		char *p = NULL;
		size_t len = 0;
		if (t[1] == ':') {
			len = unhex(t + 2, buf);
			p = place(buf, len);
		}
		switch (t[0]) {
		case 'I': ret = time_ctx_init(&c); break;
		case 'D': ret = time_ctx_set_date(&c, p); break;
		case 'H': ret = time_ctx_set_hour(&c, p); break;
		case 'T': ret = time_ctx_set_time(&c, p); break;
		case 'G': ret = time_ctx_get_local(&c, &e, &off); break;
		case 'i': ret = time_ctx_init(NULL); break;
		case 'd': ret = time_ctx_set_date(NULL, "2018-01-01"); break;
		case 'h': ret = time_ctx_set_hour(NULL, "00:00:00Z"); break;
		case 't': ret = time_ctx_set_time(NULL, "2018-01-01T00:00:00Z"); break;
		case 'g': ret = time_ctx_get_local(&c, NULL, &off); break;
		case 'j': ret = time_ctx_get_local(&c, &e, NULL); break;
		case 'k': ret = time_ctx_get_local(NULL, &e, &off); break;
		case '0': ret = time_ctx_set_date(&c, NULL); break;
		case '1': ret = time_ctx_set_hour(&c, NULL); break;
		case '2': ret = time_ctx_set_time(&c, NULL); break;
		}
		printf("%s{\"op\":\"%c\",\"ret\":%d,\"w\":%d,\"off\":%d", i ? "," : "", t[0], ret,
		       e != PAT || off != 0x5a5a5a5a, off);
		pbytes("s", buf, len);
		pinst("t", e);
		printf("}");
	}
	printf("]");
}

int main(void)
{
	static char line[1 << 16];
	/* whatever the code under test does, it can not set the clock */
	if (getuid() == 0 && (setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)))
		return 77;
	guard = mmap(NULL, guard_len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	assert(guard != MAP_FAILED);
	mprotect(guard + guard_len, 4096, PROT_NONE);
	while (fgets(line, sizeof(line), stdin)) {
		char *id = strtok_r(line, " \n", &tok_save), *op = tok();
		memset(guard, 0x5a, guard_len);
		printf("{\"id\":%s,", id);
		static const struct { const char *n; void (*f)(void); } ops[] = {
			{ "diff", do_diff }, { "diffus", do_diffus }, { "range", do_range }, { "cmp", do_cmp },
			{ "add", do_add }, { "to", do_to }, { "from", do_from }, { "tv", do_tv }, { "get", do_get },
			{ "diffnow", do_diffnow }, { "m2r", do_m2r }, { "sleep", do_sleep }, { "local", do_local },
			{ "setlocal", do_setlocal }, { "fmt", do_fmt }, { "parse", do_parse }, { "totm", do_totm },
			{ "ctx", do_ctx },
#ifdef BUILD_LIBPUTILS
			{ "props", do_props }, { "m2rsim", do_m2rsim },
#endif
		};
		size_t i;
		for (i = 0; i < sizeof(ops) / sizeof(ops[0]); i++)
			if (!strcmp(ops[i].n, op))
				break;
		assert(i < sizeof(ops) / sizeof(ops[0]) && "harness: unknown op");
		ops[i].f();
		printf("}\n");
	}
	return 0;
}
