/* P01: calls on separate objects, at the same time and one after another.
 *  <id> <preemption bound> <max executions> <program>
 * program: threads separated by '/', calls by ','; a call is <function>.<v>,
 * v selecting its arguments.  Real threads run one at a time; the baton may
 * pass at every access of the library to static memory (its own or that of
 * other modules) and around every library call that could have state of the
 * process in it.  What each call yields is recorded beside what it yields
 * alone in a process of its own; one record per distinct outcome. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <link.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <iconv.h>
#include "futils/futils.h"
#include "futils/fs.h"
#include "futils/inotify.h"

#define MAXT 3
#define MAXC 6
#define MAXR 700
#define MAXN 6000

struct call { int f, v; };
static struct call prog[MAXT][MAXC];
static int ncalls[MAXT], nthreads;
struct run {
	int npt, finished;
	int dec[MAXN], alt[MAXN];
	char res[MAXT][MAXC][MAXR];
	char attr[2][MAXR];
};
static struct run *cur, *base, *solo;
static char alone[MAXT][MAXC][MAXR];

/* ---------------------------------------------------------------- scheduling */
static pthread_t th[MAXT];
static sem_t sem[MAXT], done;
static int active[MAXT], sched_on, nosched;
static __thread int me = -1;
static int nplan, plan[MAXN];
static long consecutive;

static int pick(int must_leave)
{
	int c[MAXT], n = 0, i, d;
	if (!must_leave)
		c[n++] = me;
	for (i = 1; i <= MAXT; i++) {
		int x = (me + i) % MAXT;
		if (x != me && active[x])
			c[n++] = x;
	}
	if (!n)
		return -1;
	if (n == 1 || cur->npt >= MAXN)
		return c[0];
	d = cur->npt < nplan ? plan[cur->npt] : 0;
	if (d >= n)
		d = 0;
	cur->dec[cur->npt] = d;
	cur->alt[cur->npt++] = must_leave ? -n : n;
	return c[d];
}
static void go(int to)
{
	consecutive = 0;
	sem_post(&sem[to]);
	while (sem_wait(&sem[me])) {}
}
static void point(void)
{
	int to, e = errno;
	if (!sched_on || me < 0 || nosched)
		return;
	if (++consecutive > 20000) {       /* spinning on something: let others run */
		int i;
		for (i = 1; i < MAXT; i++)
			if (active[(me + i) % MAXT]) {
				go((me + i) % MAXT);
				errno = e;
				return;
			}
	}
	to = pick(0);
	if (to != me)
		go(to);
	errno = e;
}

/* ------------------------------------------------- instrumented memory (tsan) */
static struct { uintptr_t a, b; } seg[64];
static int nseg;
static int modules(struct dl_phdr_info *in, size_t sz, void *u)
{
	int i;
	(void)sz; (void)u;
	for (i = 0; i < in->dlpi_phnum; i++)
		if (in->dlpi_phdr[i].p_type == PT_LOAD && (in->dlpi_phdr[i].p_flags & PF_W) && nseg < 64) {
			seg[nseg].a = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr;
			seg[nseg].b = seg[nseg].a + in->dlpi_phdr[i].p_memsz;
			nseg++;
		}
	return 0;
}
static inline void mem(const volatile void *a)
{
	int i;
	for (i = 0; i < nseg; i++)
		if ((uintptr_t)a >= seg[i].a && (uintptr_t)a < seg[i].b) {
			point();
			return;
		}
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define A(n) void __tsan_read##n(void *a) { mem(a); } void __tsan_write##n(void *a) { mem(a); } \
	void __tsan_unaligned_read##n(void *a) { mem(a); } void __tsan_unaligned_write##n(void *a) { mem(a); } \
	void __tsan_volatile_read##n(void *a) { mem(a); } void __tsan_volatile_write##n(void *a) { mem(a); } \
	void __tsan_read_write##n(void *a) { mem(a); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *a, size_t n) { mem(a); }
void __tsan_write_range(void *a, size_t n) { mem(a); }
void __tsan_vptr_update(void **a, void *v) {}
void __tsan_vptr_read(void **a) {}
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { mem(a); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { mem(a); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { mem(a); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { mem(a); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { mem(a); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { mem(a); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { mem(a); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { mem(a); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) \
	{ mem(a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) \
	{ mem(a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) \
	{ mem(a); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* ----------------------------------------------------- calls of the C library */
#define W(T, name, params, args) \
	T __real_##name params; \
	T __wrap_##name params { T r; point(); r = __real_##name args; point(); return r; }
#define WM(T, name, params, args, p, q) \
	T __real_##name params; \
	T __wrap_##name params { mem(p); mem(q); return __real_##name args; }
WM(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n), a, b)
WM(void *, memmove, (void *a, const void *b, size_t n), (a, b, n), a, b)
WM(void *, memset, (void *a, int b, size_t n), (a, b, n), a, a)
WM(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), a, b)
WM(char *, strcpy, (char *a, const char *b), (a, b), a, b)
WM(char *, strncpy, (char *a, const char *b, size_t n), (a, b, n), a, b)
WM(char *, strcat, (char *a, const char *b), (a, b), a, b)
WM(size_t, strlen, (const char *a), (a), a, a)
WM(int, strcmp, (const char *a, const char *b), (a, b), a, b)
WM(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), a, b)
W(char *, strtok, (char *a, const char *b), (a, b))
W(struct tm *, localtime, (const time_t *t), (t))
W(struct tm *, gmtime, (const time_t *t), (t))
W(struct tm *, localtime_r, (const time_t *t, struct tm *m), (t, m))
W(struct tm *, gmtime_r, (const time_t *t, struct tm *m), (t, m))
W(time_t, mktime, (struct tm *m), (m))
W(time_t, timegm, (struct tm *m), (m))
W(size_t, strftime, (char *s, size_t n, const char *f, const struct tm *m), (s, n, f, m))
W(char *, strptime, (const char *s, const char *f, struct tm *m), (s, f, m))
W(int, setenv, (const char *a, const char *b, int o), (a, b, o))
W(int, unsetenv, (const char *a), (a))
W(int, putenv, (char *a), (a))
W(char *, getenv, (const char *a), (a))
W(char *, setlocale, (int c, const char *l), (c, l))
W(locale_t, uselocale, (locale_t l), (l))
W(iconv_t, iconv_open, (const char *a, const char *b), (a, b))
W(size_t, iconv, (iconv_t c, char **a, size_t *b, char **d, size_t *e), (c, a, b, d, e))
W(int, iconv_close, (iconv_t c), (c))
W(size_t, mbrtowc, (wchar_t *w, const char *s, size_t n, mbstate_t *p), (w, s, n, p))
W(size_t, mbstowcs, (wchar_t *w, const char *s, size_t n), (w, s, n))
W(size_t, wcstombs, (char *s, const wchar_t *w, size_t n), (s, w, n))
W(int, mbtowc, (wchar_t *w, const char *s, size_t n), (w, s, n))
W(int, wctomb, (char *s, wchar_t w), (s, w))
W(int, chdir, (const char *p), (p))
W(int, fchdir, (int d), (d))
W(mode_t, umask, (mode_t m), (m))
W(char *, getcwd, (char *b, size_t n), (b, n))
W(char *, realpath, (const char *p, char *b), (p, b))
W(int, close, (int d), (d))
W(ssize_t, read, (int d, void *b, size_t n), (d, b, n))
W(ssize_t, write, (int d, const void *b, size_t n), (d, b, n))
W(int, rename, (const char *a, const char *b), (a, b))
W(int, unlink, (const char *a), (a))
W(int, remove, (const char *a), (a))
W(int, stat, (const char *p, struct stat *s), (p, s))
W(int, lstat, (const char *p, struct stat *s), (p, s))
W(int, fstat, (int d, struct stat *s), (d, s))
W(int, fstatat, (int d, const char *p, struct stat *s, int f), (d, p, s, f))
W(DIR *, opendir, (const char *p), (p))
W(DIR *, fdopendir, (int d), (d))
W(struct dirent *, readdir, (DIR *d), (d))
W(int, closedir, (DIR *d), (d))
W(FILE *, fopen, (const char *p, const char *m), (p, m))
W(FILE *, fdopen, (int d, const char *m), (d, m))
W(int, fclose, (FILE *f), (f))
W(int, fflush, (FILE *f), (f))
W(size_t, fwrite, (const void *p, size_t s, size_t n, FILE *f), (p, s, n, f))
W(size_t, fread, (void *p, size_t s, size_t n, FILE *f), (p, s, n, f))
W(int, pipe, (int *p), (p))
W(int, clock_gettime, (clockid_t c, struct timespec *t), (c, t))
W(sighandler_t, signal, (int s, sighandler_t h), (s, h))
W(int, sigaction, (int s, const struct sigaction *a, struct sigaction *b), (s, a, b))
W(int, sigprocmask, (int h, const sigset_t *a, sigset_t *b), (h, a, b))
W(int, pthread_sigmask, (int h, const sigset_t *a, sigset_t *b), (h, a, b))
W(int, setrlimit, (__rlimit_resource_t k, const struct rlimit *a), (k, a))
W(int, inotify_init, (void), ())
W(int, inotify_init1, (int f), (f))
W(int, inotify_add_watch, (int d, const char *p, uint32_t m), (d, p, m))
/* the same under their names for large files */
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat64(const char *p, struct stat *s) { return __wrap_lstat(p, s); }
int __wrap_fstat64(int d, struct stat *s) { return __wrap_fstat(d, s); }
int __wrap_fstatat64(int d, const char *p, struct stat *s, int f) { return __wrap_fstatat(d, p, s, f); }
struct dirent *__wrap_readdir64(DIR *d) { return __wrap_readdir(d); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
/* nothing here is about durability, but what is made durable is told */
static void synced(int d);
int __wrap_fsync(int d)
{
	point();
	synced(d);
	d = fcntl(d, F_GETFD) < 0 ? -1 : 0;
	point();
	return d;
}
int __wrap_fdatasync(int d) { return __wrap_fsync(d); }
void __wrap_sync(void) { point(); }
/* never for real */
int __wrap_settimeofday(const struct timeval *t, const struct timezone *z) { (void)t; (void)z; point(); return 0; }
int __wrap_clock_settime(clockid_t c, const struct timespec *t) { (void)c; (void)t; point(); return 0; }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	int r, m = 0;
	va_list ap;
	va_start(ap, fl);
	if (fl & (O_CREAT | O_TMPFILE))
		m = va_arg(ap, int);
	va_end(ap);
	point();
	r = __real_open(p, fl, m);
	point();
	return r;
}
int __wrap_open64(const char *p, int fl, ...)
{
	int m = 0;
	va_list ap;
	va_start(ap, fl);
	if (fl & (O_CREAT | O_TMPFILE))
		m = va_arg(ap, int);
	va_end(ap);
	return __wrap_open(p, fl, m);
}
int __real_openat(int, const char *, int, ...);
int __wrap_openat(int d, const char *p, int fl, ...)
{
	int r, m = 0;
	va_list ap;
	va_start(ap, fl);
	if (fl & (O_CREAT | O_TMPFILE))
		m = va_arg(ap, int);
	va_end(ap);
	point();
	r = __real_openat(d, p, fl, m);
	point();
	return r;
}
int __wrap_snprintf(char *s, size_t n, const char *f, ...)
{
	int r;
	va_list ap;
	mem(s);
	va_start(ap, f);
	r = vsnprintf(s, n, f, ap);
	va_end(ap);
	mem(s);
	return r;
}
int __wrap_sprintf(char *s, const char *f, ...)
{
	int r;
	va_list ap;
	mem(s);
	va_start(ap, f);
	r = vsprintf(s, f, ap);
	va_end(ap);
	mem(s);
	return r;
}
/* what waits for another thread gives way to it */
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int to;
	if (me < 0 || !sched_on)
		return __real_pthread_mutex_lock(m);
	point();
	while (pthread_mutex_trylock(m)) {
		to = pick(1);
		if (to < 0)
			return __real_pthread_mutex_lock(m);
		go(to);
	}
	return 0;
}
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
	int r;
	point();
	nosched++;
	r = __real_pthread_once(o, f);
	nosched--;
	return r;
}
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *g)
{
	int r;
	point();
	r = __real___cxa_guard_acquire(g);
	if (r)
		nosched++;
	return r;
}
void __wrap___cxa_guard_release(void *g) { nosched--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void *g) { nosched--; __real___cxa_guard_abort(g); }

/* --------------------------------------------------------------------- calls */
static __thread char *out;
static __thread int at;
static __thread char dir[64];       /* of this call */
static __attribute__((format(printf, 1, 2))) void say(const char *f, ...)
{
	va_list ap;
	int n;
	va_start(ap, f);
	n = vsnprintf(out + at, MAXR - at, f, ap);
	va_end(ap);
	at = at + n < MAXR - 1 ? at + n : MAXR - 1;
}
static void hex(const void *b, size_t n)
{
	const uint8_t *p = b;
	while (n--)
		say("%02x", *p++);
}
static int rootfd;
static void put(const char *f, const char *text)
{
	char p[128];
	int d;
	snprintf(p, sizeof(p), "%s/%s", dir, f);
	d = __real_openat(rootfd, p, O_CREAT | O_WRONLY | O_TRUNC, 0644);
	if (d < 0 || __real_write(d, text, strlen(text)) != (ssize_t)strlen(text)) {
		say(" no file");
		return;
	}
	__real_close(d);
}
/* arguments of all calls of a thread lie at the same addresses */
static __thread char tbuf[3][64];
static __thread wchar_t wbuf[3][16];
static const char *T(int i, const char *t) { return strncpy(tbuf[i], t, 63); }
static const wchar_t *WT(int i, const wchar_t *t) { return wcsncpy(wbuf[i], t, 15); }
static void synced(int d)
{
	char l[40], b[200];
	ssize_t n;
	if (me < 0 && !out)
		return;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", d);
	n = readlink(l, b, sizeof(b) - 1);
	b[n < 0 ? 0 : n] = 0;
	n = strlen(b);
	say(" [%s]", n > 24 ? b + n - 24 : b);
}
static const struct timespec TS[4] = { { 1700000000, 999999999 }, { 5, 1 }, { 951782399, 500000000 }, { 4102444799, 0 } };
static const int32_t OFF[4] = { 3600, -12600, 0, 50400 };

static void c_arith(int v)
{
	struct timespec r;
	uint64_t us;
	int s, e;
	const struct timespec *a = &TS[v], *b = &TS[(v + 1) % 4];
	e = time_timespec_diff(a, b, &r);
	if (!e)
		say("%ld.%ld ", (long)r.tv_sec, r.tv_nsec);
	e = time_timespec_diff_us(a, b, &us, &s);
	say("%d %lu %d ", e, us, s);
	e = time_timespec_diff_in_range(a, b, 1000000, &us);
	say("%d %lu %d ", e, us, time_timespec_cmp(a, b));
	e = time_timespec_add_ns(a, 1234567890123ll * (v + 1), &r);
	say("%d %ld.%ld ", e, (long)r.tv_sec, r.tv_nsec);
	e = time_timespec_add_us(a, -987654321ll - v, &r);
	say("%d %ld.%ld", e, (long)r.tv_sec, r.tv_nsec);
}
static void c_convert(int v)
{
	uint64_t n, u, m;
	struct timespec r;
	struct timeval tv = { TS[v].tv_sec % 4000000, 123456 + v };
	uint32_t ms;
	time_timespec_to_ns(&TS[v], &n);
	time_timespec_to_us(&TS[v], &u);
	time_timespec_to_ms(&TS[v], &m);
	say("%lu %lu %lu ", n, u, m);
	time_ns_to_timespec(&n, &r);
	say("%ld.%ld ", (long)r.tv_sec, r.tv_nsec);
	time_us_to_timespec(&n, &r);
	say("%ld.%ld ", (long)r.tv_sec, r.tv_nsec);
	time_ms_to_timespec(&n, &r);
	say("%ld.%ld ", (long)r.tv_sec, r.tv_nsec);
	time_timeval_to_timespec(&tv, &r);
	time_timeval_to_ms(&tv, &ms);
	say("%ld.%ld %u", (long)r.tv_sec, r.tv_nsec, ms);
}
static void c_format(int v)
{
	static const enum time_fmt F[3] = { TIME_FMT_SHORT, TIME_FMT_LONG, TIME_FMT_RFC1123 };
	char b[64];
	int i, r;
	for (i = 0; i < 3; i++) {
		r = time_local_format(TS[v].tv_sec, OFF[v], F[i], b, sizeof(b));
		say("%d %s;", r, b);
	}
	r = time_local_format(TS[v].tv_sec, OFF[v], F[1], b, 9);
	say("%d", r);
}
static void c_parse(int v)
{
	static const char *const D[4][3] = {
		{ "20231114T231320+0100", "2023-11-14T23:13:20+01:00", "Tue, 14 Nov 2023 23:13:20 +0100" },
		{ "19991231T235959-0330", "1999-12-31T23:59:59-03:30", "Fri, 31 Dec 1999 23:59:59 -0330" },
		{ "20000229T000000+0000", "2000-02-29T00:00:00Z", "Tue, 29 Feb 2000 00:00:00 +0000" },
		{ "20991301T000000+0000", "junk", "" } };
	uint64_t s = 7;
	int32_t o = 8;
	int i, r;
	for (i = 0; i < 3; i++) {
		r = time_local_parse(T(0, D[v][i]), &s, &o);
		say("%d %lu %d;", r, r ? 0 : s, r ? 0 : o);
	}
}
static void c_tm(int v)
{
	struct tm tm;
	uint64_t s = 0;
	int32_t o = 0;
	int r;
	memset(&tm, 0, sizeof(tm));
	r = time_local_to_tm(TS[v].tv_sec, OFF[v], &tm);
	say("%d %d-%d-%d %d:%d:%d %d %d ", r, tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday, tm.tm_yday);
	r = time_local_from_tm(&tm, &s, &o);
	say("%d %lu %d", r, s, o);
}
static void c_ctx(int v)
{
	static const char *const D[4] = { "2023-11-14", "20000229", "1999-12-31", "bad" };
	static const char *const H[4] = { "T231320+0100", "T000000+0000", "T23:59:59-03:30", "T101010+1400" };
	struct time_ctx x;
	uint64_t s = 0;
	int32_t o = 0;
	int r[6];
	r[0] = time_ctx_init(&x);
	if (v & 1)
		r[1] = time_ctx_set_hour(&x, T(1, H[v])), r[2] = time_ctx_set_date(&x, T(1, D[v]));
	else
		r[1] = time_ctx_set_date(&x, T(1, D[v])), r[2] = time_ctx_set_hour(&x, T(1, H[v]));
	r[3] = time_ctx_get_local(&x, &s, &o);
	say("%d %d %d %d %lu %d", r[0], r[1], r[2], r[3], r[3] ? 0 : s, r[3] ? 0 : o);
}
static void c_varint(int v)
{
	static const uint64_t V[4] = { 0x123456789abcdefull, 300, ~0ull, 0x8000000000000000ull };
	uint8_t b[16];
	size_t n = 0;
	uint64_t u = 0;
	int64_t i = 0;
	uint32_t u32 = 0;
	int32_t i32 = 0;
	uint16_t u16 = 0;
	int16_t i16 = 0;
	int r;
#define RW(w, x, T) \
	memset(b, 0, sizeof(b)); \
	r = futils_varint_write_##w(b, sizeof(b), (T)V[v], &n); \
	say("%d ", r); hex(b, n); \
	r = futils_varint_read_##w(b, n, &x, &n); \
	say(" %d %ld;", r, (long)x);
	RW(u64, u, uint64_t) RW(i64, i, int64_t) RW(u32, u32, uint32_t) RW(i32, i32, int32_t) RW(u16, u16, uint16_t) RW(i16, i16, int16_t)
}
static const char *const TXT[4] = { "h\xc3\xa9llo w\xe2\x82\xacrld", "plain/text", "a\xf0\x9f\x98\x80" "b/c\xc3\xa9", "bad\xc3" };
static const wchar_t *const BAD[4] = { L"/\x20ac", L"x", L"bl", L"\xe9/" };
static void c_utf8check(int v)
{
	const char *t = T(0, TXT[v]);
	say("%d %d %d %d", futils_string_check_utf8(t, 0, 0, NULL), futils_string_check_utf8(t, 12, 0, NULL),
	    futils_string_check_utf8(t, 0, 9, NULL), futils_string_check_utf8(t, 0, 0, WT(0, BAD[v])));
}
static void c_utf8fix(int v)
{
	char b[40];
	int r = futils_string_sanitize_utf8(T(0, TXT[v]), b, sizeof(b), WT(0, BAD[v]), v & 1 ? L'_' : L'\xe9');
	say("%d ", r);
	if (r >= 0)
		hex(b, strlen(b));
	r = futils_string_sanitize_utf8(T(0, TXT[v]), b, 8, WT(0, BAD[(v + 1) % 4]), L'x');
	say(" %d ", r);
	if (r >= 0)
		hex(b, strlen(b));
}
static __thread int freed;
static void hfree(void *p) { freed += *(int *)p; point(); }
static void c_hash(int v)
{
	struct hash h;
	struct hash_entry *e;
	int i, x[8], r;
	void *p;
	freed = 0;
	r = futils_hash_init(&h, 3 + v, hfree);
	say("%d ", r);
	for (i = 0; i < 8; i++) {
		x[i] = 1 + i * 3 + v;
		say("%d", futils_hash_insert(&h, (i * 7 + v) % 6, &x[i]));
	}
	for (i = 0; i < 8; i++) {
		p = NULL;
		r = futils_hash_lookup(&h, i, &p);
		say(" %d:%d", r, p ? *(int *)p : 0);
	}
	say(" r%d", futils_hash_remove(&h, v));
	list_walk_entry_forward(&h.entries, e, node) {
		say(",%u", e->key);
	}
	say(" d%d f%d", futils_hash_destroy(&h), freed);
}
struct ent { int k; struct list_node node; };
static void c_list(int v)
{
	struct list_node l, m;
	struct ent e[6], *x, *t;
	int i;
	list_init(&l);
	list_init(&m);
	for (i = 0; i < 6; i++) {
		e[i].k = i * (v + 2);
		if ((i + v) % 3)
			list_add_before(&l, &e[i].node);
		else
			list_add_after(&l, &e[i].node);
	}
	list_move_after(&l, &e[v].node);
	list_del(&e[v + 1].node);
	list_push(&m, &e[v + 1].node);
	list_walk_entry_forward_safe(&l, x, t, node) {
		say("%d,", x->k);
		if (x->k % 4 == 0)
			list_del(&x->node);
	}
	x = list_pop(&m, struct ent, node);
	say(" %d %d %zu %d", x ? x->k : -1, list_is_empty(&m), list_length(&l), list_is_empty(&l));
}
static void c_mbox(int v)
{
	uint8_t a[64], b[64];
	struct mbox *x = mbox_new(9 + v * 10);
	int i;
	say("%d ", x != NULL);
	if (!x)
		return;
	for (i = 0; i < 3; i++) {
		memset(a, 'a' + v * 5 + i, sizeof(a));
		say("%d", i == 1 ? mbox_push_block(x, a, 1000) : mbox_push(x, a));
	}
	for (i = 0; i < 4; i++) {
		memset(b, 0, sizeof(b));
		say(" %d", mbox_peek(x, b));
		hex(b, 12);
	}
	mbox_destroy(x);
}
static void c_dynmbox(int v)
{
	uint8_t a[64], b[64];
	struct dynmbox *x = dynmbox_new(40);
	int i;
	say("%d ", x != NULL);
	if (!x)
		return;
	for (i = 0; i < 3; i++) {
		memset(a, 'A' + v * 5 + i, sizeof(a));
		say("%d", i == 1 ? dynmbox_push_block(x, a, 5 + v * i, 1000) : dynmbox_push(x, a, 5 + v * i));
	}
	for (i = 0; i < 4; i++) {
		memset(b, 0, sizeof(b));
		say(" %zd", dynmbox_peek(x, b));
		hex(b, 16);
	}
	dynmbox_destroy(x);
}
static void content(const char *f)
{
	char p[128], b[100];
	int d, n;
	snprintf(p, sizeof(p), "%s/%s", dir, f);
	d = __real_openat(rootfd, p, O_RDONLY);
	if (d < 0) {
		say(" -");
		return;
	}
	n = __real_read(d, b, 90);
	__real_close(d);
	say(" ");
	hex(b, n < 0 ? 0 : n);
}
static void c_commit(int v)
{
	char p[128], t[40];
	struct futils_safew_file *f;
	int i;
	snprintf(p, sizeof(p), "%s/sw%d", dir, v);
	f = futils_safew_fopen(p);
	say("%d ", f != NULL);
	if (!f)
		return;
	memset(t, 'k' + v, sizeof(t));
	for (i = 0; i < 3; i++)
		say("%zu", futils_safew_fwrite(t, 1, 5 + v + i, f));
	say(" %d", futils_safew_fprintf(f, "<%s %d>", v & 1 ? "odd" : "even", v * 111));
	say(" %d", v & 2 ? futils_safew_fclose_commit(f) : futils_safew_fclose_commit_with_crc(f));
	snprintf(t, sizeof(t), "sw%d", v);
	content(t);
	say(" %d", futils_safew_file_check(p));
	content(t);
}
static void c_rollback(int v)
{
	char p[128];
	struct futils_safew_file *f;
	snprintf(p, sizeof(p), "%s/old", dir);
	f = futils_safew_fopen(p);
	say("%d ", f != NULL);
	if (!f)
		return;
	say("%d ", futils_safew_fprintf(f, "%0*d", 10 + v, v));
	say("%d", futils_safew_fclose_rollback(f));
	content("old");
	say(" %d", futils_safew_file_check(p));
}
static void c_dirsize(int v)
{
	char p[200], c[120];
	say("%ld", (long)futils_fs_dir_size(dir, v & 1));
	if (v & 2)
		return;
	if (!__real_getcwd(c, sizeof(c)))
		c[0] = 0;
	snprintf(p, sizeof(p), "%s/%s", c, dir);
	say(" %ld %ld", (long)futils_fs_dir_size(p, true), (long)futils_fs_dir_size("nowhere", true));
}
static void c_sync(int v)
{
	char p[128];
	snprintf(p, sizeof(p), "%s/%s", dir, v & 1 ? "old" : "sub/b");
	say("%d %d %d", sync_file(p), sync_folder(dir), sync_file_and_folder(p));
	snprintf(p, sizeof(p), "%s/none%d", dir, v);
	say(" %d %d", sync_file(p), sync_file_and_folder(p));
}
struct watched { int v, fd, n; };
static void seen(struct inotify_event *e, void *u)
{
	struct watched *w = u;
	say(" %x:%s:%d", e->mask, e->len ? e->name : "", w->v);
	point();
	/* another object, used while this one is */
	if (w->fd >= 0 && !w->n++) {
		struct watched in = { w->v + 10, -1, 0 };
		say("(");
		inotify_process_fd(w->fd, seen, &in);
		say(")");
	}
}
static void c_inotify(int v)
{
	char f[60];
	int i, fd = inotify_create(dir, IN_CREATE);
	struct watched w = { v, -1, 0 };
	say("%d", fd >= 0);
	if (fd < 0)
		return;
	snprintf(f, sizeof(f), "%s/sub", dir);
	if (v & 1)
		w.fd = inotify_create(f, IN_CREATE);
	for (i = 0; i < 3; i++) {
		snprintf(f, sizeof(f), "f%.*s%d", v * 8, "--------------------------------", i + v * 10);
		put(f, "");
		snprintf(f, sizeof(f), "sub/other%d", i + v * 10);
		put(f, "");
	}
	inotify_process_fd(fd, seen, &w);
	inotify_destroy(w.fd);
	inotify_destroy(fd);
}
static void c_flags(int v)
{
	int p[2], f;
	if (__real_pipe(p))
		_exit(77);
	say("%d", fd_has_close_on_exec(p[v & 1]));
	if (v & 2)
		say(" %d", fd_set_close_on_exec(p[v & 1]));
	say(" %d %d", fd_add_flags(p[v & 1], O_NONBLOCK), fd_has_close_on_exec(p[v & 1]));
	f = fcntl(p[v & 1], F_GETFL);
	say(" %d %d", !!(f & O_NONBLOCK), !!(fcntl(p[~v & 1], F_GETFL) & O_NONBLOCK));
	__real_close(p[0]);
	__real_close(p[1]);
}
void cxx_helpers(int v, char *b, int n);
static void c_cxx(int v)
{
	char b[300];
	cxx_helpers(v, b, sizeof(b));
	say("%s", b);
}
static void c_random(int v)
{
	static const char *const A[4] = { "xyz", "a", "klmnopqrs", "01" };
	char t[80];
	uint8_t b[40];
	int i, ok = 1, sum = 0, r;
	futils_random(b, sizeof(b));
	for (i = 0; i < 20; i++)
		ok &= futils_randomr16_maximum(10 + v) <= 10 + v;
	r = futils_random_base16(t, sizeof(t), 10 + v);
	ok &= r == 20 + 2 * v && strspn(t, "0123456789abcdef") == (size_t)r && !t[r];
	r = futils_random_string(t, sizeof(t), 9 + v, T(0, A[v]));
	ok &= strlen(t) == 9u + v && strspn(t, A[v]) == 9u + v;
	for (i = 0; i < 40; i++)
		b[i] = i;
	r = futils_random_shuffle(b, 40, 1);
	for (i = 0; i < 40; i++)
		sum += b[i] * b[i];
	say("%d %d", ok, sum);
	ok = futils_randomrd() < 1 && !futils_random_strong(b, 16);
	say(" %d %d", ok, v & 1 ? futils_random_reseed() : 0);
}
static void c_clock(int v)
{
	struct timespec a, b;
	uint64_t s = 0;
	int32_t o = 0;
	int r;
	r = time_get_monotonic(&a);
	say("%d ", r);
	r = time_get_monotonic(&b);
	say("%d %d ", r, time_timespec_cmp(&a, &b) <= 0);
	r = time_local_get(&s, &o);
	time_get_realtime(&b);
	say("%d %d %d", r, o, (long)s > b.tv_sec - 30 && (long)s <= b.tv_sec);
	(void)v;
}
static void attributes(void)
{
	char b[400];
	struct sigaction sa;
	sigset_t ss;
	struct rlimit rl;
	const char *z;
	int i;
	say("%s ", __real_getcwd(b, sizeof(b)) ? strrchr(b, '/') : "gone");
	i = __real_umask(026);
	__real_umask(i);
	say("%o ", i);
	z = __real_getenv("TZ");
	say("%s %ld ", z ? z : "none", timezone);
	say("%s ", __real_setlocale(LC_ALL, NULL));
	for (i = 1; i < 32; i++) {
		__real_sigaction(i, NULL, &sa);
		say("%c", sa.sa_handler == SIG_DFL ? 'd' : sa.sa_handler == SIG_IGN ? 'i' : 'h');
	}
	__real_pthread_sigmask(SIG_SETMASK, NULL, &ss);
	say(" ");
	for (i = 1; i < 32; i++)
		say("%d", sigismember(&ss, i));
	getrlimit(RLIMIT_NOFILE, &rl);
	say(" %ld", (long)rl.rlim_cur);
}
static void c_watch(int v)
{
	int i;
	/* only what changes is told */
	char first[MAXR];
	attributes();
	memcpy(first, out, sizeof(first));
	for (i = 0; i < 2 + v; i++) {
		point();
		at = 0;
		attributes();
		if (strcmp(first, out))
			return;
	}
}
static const struct { const char *name; void (*f)(int); int files; } C[] = {
	{ "arith", c_arith, 0 }, { "convert", c_convert, 0 }, { "format", c_format, 0 }, { "parse", c_parse, 0 }, { "tm", c_tm, 0 },
	{ "ctx", c_ctx, 0 }, { "varint", c_varint, 0 }, { "utf8check", c_utf8check, 0 }, { "utf8fix", c_utf8fix, 0 }, { "hash", c_hash, 0 },
	{ "list", c_list, 0 }, { "mbox", c_mbox, 0 }, { "dynmbox", c_dynmbox, 0 }, { "commit", c_commit, 1 }, { "rollback", c_rollback, 1 },
	{ "dirsize", c_dirsize, 1 }, { "sync", c_sync, 1 }, { "inotify", c_inotify, 1 }, { "flags", c_flags, 0 }, { "cxx", c_cxx, 0 },
	{ "random", c_random, 0 }, { "clock", c_clock, 0 }, { "watch", c_watch, 0 },
};
#define NC ((int)(sizeof(C) / sizeof(C[0])))

/* ---------------------------------------------------------------- executions */
static int rmone(const char *p, const struct stat *s, int t, struct FTW *f)
{
	(void)s; (void)t; (void)f;
	return __real_remove(p);
}
static void prepare(int t, int k)
{
	char p[900];
	if (!C[prog[t][k].f].files)
		return;
	snprintf(dir, sizeof(dir), "d%d%d", t, k);
	if (!access(dir, F_OK))
		nftw(dir, rmone, 8, FTW_DEPTH | FTW_PHYS);
	if (mkdir(dir, 0755))
		_exit(77);
	snprintf(p, sizeof(p), "%s/sub", dir);
	mkdir(p, 0755);
	put("old", t ? "the second version" : "first");
	put("sub/b", k ? "bbbbbbb" : "bb");
	if (C[prog[t][k].f].f == c_dirsize) {
		snprintf(p, sizeof(p), "%s/sub/deep", dir);
		mkdir(p, 0755);
		put("sub/deep/c", "ccccc");
		if (prog[t][k].v & 1) {
			char q[900], *e;
			int d;
			snprintf(p, sizeof(p), "%s/sub/%0250d", dir, 1);
			e = p + strlen(p);
			if (mkdir(p, 0755))
				_exit(77);
			snprintf(q, sizeof(q), "%s/%0250d", p, 2);
			d = __real_open(q, O_CREAT | O_WRONLY, 0644);
			if (d < 0 || ftruncate(d, 1000))
				_exit(77);
			__real_close(d);
			*e = 0;
		}
	}
}
static void *body(void *a)
{
	int i, to;
	me = (int)(long)a;
	while (sem_wait(&sem[me])) {}
	for (i = 0; i < ncalls[me]; i++) {
		out = cur->res[me][i];
		at = 0;
		snprintf(dir, sizeof(dir), "d%d%d", me, i);
		C[prog[me][i].f].f(prog[me][i].v);
		point();
	}
	active[me] = 0;
	to = pick(1);
	if (to < 0)
		sem_post(&done);
	else {
		consecutive = 0;
		sem_post(&sem[to]);
	}
	return NULL;
}
static int execute(struct run *r, int ot, int ok)
{
	pid_t p;
	long i, k;
	int st;
	memset(r->res, 0, sizeof(r->res));
	memset(r->attr, 0, sizeof(r->attr));
	r->npt = r->finished = 0;
	cur = r;
	for (i = 0; i < nthreads; i++)
		for (k = 0; k < ncalls[i]; k++)
			if (ot < 0 || (ot == i && ok == k))
				prepare(i, k);
	fflush(stdout);
	p = fork();
	if (!p) {
		struct rlimit z = { 0, 0 }, cpu = { 10, 11 };
		cpu_set_t one;
		/* threads take turns: one processor does */
		CPU_ZERO(&one);
		CPU_SET(sched_getcpu(), &one);
		sched_setaffinity(0, sizeof(one), &one);
		__real_setrlimit(RLIMIT_CORE, &z);
		__real_setrlimit(RLIMIT_CPU, &cpu);
		alarm(30);
		if (ot >= 0) {
			out = r->res[ot][ok];
			at = 0;
			snprintf(dir, sizeof(dir), "d%d%d", ot, ok);
			C[prog[ot][ok].f].f(prog[ot][ok].v);
			r->finished = 1;
			_exit(0);
		}
		out = r->attr[0];
		at = 0;
		attributes();
		sem_init(&done, 0, 0);
		for (i = 0; i < nthreads; i++) {
			sem_init(&sem[i], 0, 0);
			active[i] = 1;
		}
		for (i = 0; i < nthreads; i++)
			if (pthread_create(&th[i], NULL, body, (void *)i))
				_exit(77);
		sched_on = 1;
		sem_post(&sem[0]);
		while (sem_wait(&done)) {}
		sched_on = 0;
		for (i = 0; i < nthreads; i++)
			pthread_join(th[i], NULL);
		out = r->attr[1];
		at = 0;
		attributes();
		r->finished = 1;
		_exit(0);
	}
	if (p < 0 || waitpid(p, &st, 0) != p || (WIFEXITED(st) && WEXITSTATUS(st) == 77))
		exit(77);
	return st;
}
static uint64_t known[1 << 12];
static int fresh(uint64_t h)
{
	unsigned int i = h % (1 << 12);
	h |= 1;
	while (known[i]) {
		if (known[i] == h)
			return 0;
		i = (i + 1) % (1 << 12);
	}
	known[i] = h;
	return 1;
}
static void quote(const char *k, const char *s)
{
	printf("\"%s\":\"", k);
	for (; *s; s++)
		if ((unsigned char)*s < 32 || (unsigned char)*s > 126 || *s == '"' || *s == '\\')
			printf("~%02x", (unsigned char)*s);
		else
			putchar(*s);
	putchar('"');
}
int main(void)
{
	static char line[1024];
	long i, k;
	setenv("TZ", "XYZ3:30", 1);
	tzset();
	umask(026);
	rootfd = __real_open(".", O_RDONLY | O_DIRECTORY);
	mallopt(M_PERTURB, 0x5a);
	dl_iterate_phdr(modules, NULL);
	base = mmap(NULL, sizeof(*base), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	solo = mmap(NULL, sizeof(*solo), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (fgets(line, sizeof(line), stdin)) {
		int id, bound, n = 0, st, stalone[MAXT][MAXC];
		long maxex, ex = 0;
		char pr[512], *s;
		if (sscanf(line, "%d %d %ld %500s", &id, &bound, &maxex, pr) != 4)
			return 77;
		memset(ncalls, 0, sizeof(ncalls));
		nthreads = 1;
		for (s = pr; *s;) {
			struct call *c = &prog[nthreads - 1][ncalls[nthreads - 1]++];
			c->f = strtol(s, &s, 10);
			if (c->f >= NC || *s != '.')
				return 77;
			c->v = strtol(s + 1, &s, 10);
			if (*s == '/')
				nthreads++;
			if (*s)
				s++;
		}
		for (i = 0; i < nthreads; i++)
			for (k = 0; k < ncalls[i]; k++) {
				stalone[i][k] = execute(solo, i, k);
				memcpy(alone[i][k], solo->res[i][k], MAXR);
			}
		memset(known, 0, sizeof(known));
		nplan = 0;
		printf("{\"id\":%d,\"prog\":\"%s\",\"outs\":[", id, pr);
		for (;;) {
			int save, cost, j, c;
			uint64_t h = 1469598103934665603ull;
			const char *q;
			st = execute(base, -1, -1);
			ex++;
			save = base->npt;
			memcpy(plan, base->dec, sizeof(int) * save);
			nplan = save;
			for (q = (char *)base->res; q < (char *)base->res + sizeof(base->res) + sizeof(base->attr); q++)
				if (*q)
					h = (h ^ (uint64_t)(q - (char *)base->res) * 977) * 1099511628211ull, h = (h ^ *q) * 1099511628211ull;
			h ^= st * 77;
			if (fresh(h) && n < 40) {
				printf("%s{\"st\":%d,\"end\":%d,", n ? "," : "", st, base->finished);
				quote("a0", base->attr[0]);
				putchar(',');
				quote("a1", base->attr[1]);
				printf(",\"calls\":[");
				for (i = 0, c = 0; i < nthreads; i++)
					for (k = 0; k < ncalls[i]; k++) {
						printf("%s{\"t\":%ld,\"f\":\"%s\",\"v\":%d,\"s\":%d,", c++ ? "," : "", i, C[prog[i][k].f].name, prog[i][k].v, stalone[i][k]);
						quote("got", base->res[i][k]);
						putchar(',');
						quote("alone", alone[i][k]);
						putchar('}');
					}
				printf("]}");
				n++;
			}
			if (ex >= maxex)
				break;
			for (k = save - 1; k >= 0; k--) {
				int al = base->alt[k] < 0 ? -base->alt[k] : base->alt[k];
				if (plan[k] + 1 >= al)
					continue;
				for (cost = 0, j = 0; j < k; j++)
					cost += base->alt[j] > 0 && plan[j] > 0;
				cost += base->alt[k] > 0;
				if (cost > bound)
					continue;
				plan[k]++;
				nplan = k + 1;
				break;
			}
			if (k < 0)
				break;
		}
		printf("],\"ex\":%ld}\n", ex);
		fflush(stdout);
	}
	return 0;
}
