/* F03: the descriptor helpers, and what constructors and destructors leave
 * behind.
 *  <id> flag <fn> <kind> <pre> <arg> <failcmd> <err>
 *    fn: set has add; kind: r w rw (a file), pr pw (pipe), sock, evt, dir, bad
 *    (a number), closed; pre: flags set before: c(loexec) n(onblock) a(ppend)
 *    t (noatime) y(async), "-"; arg: flags added; failcmd: number of the fcntl
 *    that fails, or -1
 *  <id> obj <kind> <variant> <fail> <at> <err>
 *    fail: - a (allocation) w (pipe, pipe2, inotify_...) s (system call on a
 *    file) */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <iconv.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wchar.h>
#include "acct.h"
#include "futils/dynmbox.h"
#include "futils/fdutils.h"
#include "futils/hash.h"
#include "futils/inotify.h"
#include "futils/mbox.h"
#include "futils/random.h"
#include "futils/safew.h"
#include "futils/string.h"
#include "futils/synctools.h"
#include "futils/fs.h"
#include "sysmon.h"

#define ENV(c)                                                                                                                             \
	do {                                                                                                                               \
		if (c) {                                                                                                                   \
			perror(#c);                                                                                                        \
			exit(77);                                                                                                          \
		}                                                                                                                          \
	} while (0)

/* ------------------------------------------------------------- fcntl */
static int fail_cmd = -1, fail_err, fail_hit, in_lib;
extern int __real_fcntl(int, int, ...);
extern int __real_fcntl64(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long a;
	va_start(ap, cmd);
	a = va_arg(ap, long);
	va_end(ap);
	if (in_lib && cmd == fail_cmd) {
		fail_hit++;
		errno = fail_err;
		return -1;
	}
	return __real_fcntl(fd, cmd, a);
}
int __wrap_fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	long a;
	va_start(ap, cmd);
	a = va_arg(ap, long);
	va_end(ap);
	return __wrap_fcntl(fd, cmd, a);
}
static const struct { char c; int f; } FL[] = { { 'n', O_NONBLOCK }, { 'a', O_APPEND }, { 't', O_NOATIME }, { 'y', O_ASYNC } };
static int flags_of(const char *s)
{
	int i, f = 0;
	for (; *s; s++)
		for (i = 0; i < 4; i++)
			if (FL[i].c == *s)
				f |= FL[i].f;
	return f;
}
/* flags as a set of letters; the rest of them as a number */
static void show(const char *name, int fd)
{
	int fl = __real_fcntl(fd, F_GETFL), df = __real_fcntl(fd, F_GETFD), i, first = 1;
	printf("\"%s\":{\"ok\":%d,\"s\":[", name, df >= 0);
	if (df >= 0 && (df & FD_CLOEXEC)) {
		printf("\"c\"");
		first = 0;
	}
	for (i = 0; i < 4; i++)
		if (fl >= 0 && (fl & FL[i].f)) {
			printf("%s\"%c\"", first ? "" : ",", FL[i].c);
			first = 0;
			fl &= ~FL[i].f;
		}
	printf("],\"rest\":%d,\"fdrest\":%d}", fl, df >= 0 ? df & ~FD_CLOEXEC : df);
}
static void flag(const char *id, char *s)
{
	char fn[8], kind[8], pre[16], arg[16];
	int fc, err, fd = -1, other, r, p[2] = { -1, -1 };
	ENV(sscanf(s, "%7s %7s %15s %15s %d %d", fn, kind, pre, arg, &fc, &err) != 6);
	if (kind[0] == 'r' && !kind[1])
		fd = open("file", O_CREAT | O_RDONLY, 0600);
	else if (!strcmp(kind, "w"))
		fd = open("file", O_CREAT | O_WRONLY, 0600);
	else if (!strcmp(kind, "rw"))
		fd = open("file", O_CREAT | O_RDWR, 0600);
	else if (kind[0] == 'p') {
		ENV(pipe(p));
		fd = p[kind[1] == 'w'];
	} else if (!strcmp(kind, "sock")) {
		ENV(socketpair(AF_UNIX, SOCK_STREAM, 0, p));
		fd = p[0];
	} else if (!strcmp(kind, "evt"))
		fd = eventfd(0, 0);
	else if (!strcmp(kind, "dir"))
		fd = open(".", O_RDONLY | O_DIRECTORY);
	other = -1;
	if (fd >= 0) {
		int f = flags_of(pre);
		if (f)
			ENV(__real_fcntl(fd, F_SETFL, __real_fcntl(fd, F_GETFL) | f));
		other = dup(fd);
		if (strchr(pre, 'C'))
			__real_fcntl(other, F_SETFD, FD_CLOEXEC);
		if (strchr(pre, 'c'))
			ENV(__real_fcntl(fd, F_SETFD, FD_CLOEXEC));
	}
	if (!strcmp(kind, "bad"))
		fd = atoi(pre);
	if (!strcmp(kind, "closed")) {
		fd = open("file", O_CREAT | O_RDONLY, 0600);
		close(fd);
	}
	printf("{\"id\":%s,\"k\":\"flag\",\"fn\":\"%s\",\"kind\":\"%s\",\"failcmd\":%d,\"err\":%d,\"add\":[", id, fn, kind, fc, err);
	for (r = 0; arg[r] && arg[0] != '-'; r++)
		printf("%s\"%c\"", r ? "," : "", arg[r]);
	printf("],");
	show("before", fd);
	printf(",");
	show("obefore", other);
	/* fcntl numbers: F_GETFD 1 F_SETFD 2 F_GETFL 3 F_SETFL 4 */
	fail_cmd = fc;
	fail_err = err;
	fail_hit = 0;
	in_lib = 1;
	errno = 0;
	if (fn[0] == 's')
		r = fd_set_close_on_exec(fd);
	else if (fn[0] == 'h')
		r = fd_has_close_on_exec(fd);
	else
		r = fd_add_flags(fd, flags_of(arg));
	in_lib = 0;
	printf(",\"hit\":%d,\"ret\":%d,", fail_hit, r);
	show("after", fd);
	printf(",");
	show("oafter", other);
	printf("}\n");
	if (strcmp(kind, "bad") && strcmp(kind, "closed")) {
		close(fd);
		close(other);
		if (p[0] >= 0) {
			close(p[0]);
			close(p[1]);
		}
	}
}

/* ----------------------------------------------------------- objects */
static int wcall, wfail_at = -1, wfail_err, whit;
static int wfails(void)
{
	if (acct_on && wcall++ == wfail_at) {
		whit = 1;
		errno = wfail_err;
		return 1;
	}
	return 0;
}
extern int __real_pipe(int *), __real_pipe2(int *, int), __real_inotify_init(void), __real_inotify_init1(int),
	__real_inotify_add_watch(int, const char *, uint32_t);
int __wrap_pipe(int *p) { return wfails() ? -1 : __real_pipe(p); }
int __wrap_pipe2(int *p, int f) { return wfails() ? -1 : __real_pipe2(p, f); }
int __wrap_inotify_init(void) { return wfails() ? -1 : __real_inotify_init(); }
int __wrap_inotify_init1(int f) { return wfails() ? -1 : __real_inotify_init1(f); }
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t m) { return wfails() ? -1 : __real_inotify_add_watch(fd, p, m); }
static int niconv;
extern iconv_t __real_iconv_open(const char *, const char *);
extern int __real_iconv_close(iconv_t);
iconv_t __wrap_iconv_open(const char *a, const char *b)
{
	iconv_t c;
	if (wfails())
		return (iconv_t)-1;
	c = __real_iconv_open(a, b);
	if (c != (iconv_t)-1)
		niconv++;
	return c;
}
int __wrap_iconv_close(iconv_t c)
{
	niconv--;
	return __real_iconv_close(c);
}

static char *out;
static void snap(const char *name)
{
	int i, first = 1;
	out += sprintf(out, ",\"%s\":{\"live\":%d,\"fds\":[", name, acct_live() + 100 * niconv);
	for (i = 0; i < 200; i++) {
		int f = __real_fcntl(i, F_GETFD);
		if (f < 0)
			continue;
		out += sprintf(out, "%s[%d,%d]", first ? "" : ",", i, f & FD_CLOEXEC ? 1 : 0);
		first = 0;
	}
	out += sprintf(out, "]}");
}
static int seen;
static void nop(struct inotify_event *e, void *d) { (void)e; (void)d; seen++; }
static void *rnd_thread(void *p)
{
	uint8_t b[100];
	futils_random(b, sizeof(b));
	*(int *)p = futils_randomr32() | 1;
	return NULL;
}
static void hfree_(void *p) { (void)p; }
/* creates, uses and destroys; "lib" brackets count only the library's doings */
#define LIB(x)                                                                                                                             \
	do {                                                                                                                               \
		acct_on = 1;                                                                                                               \
		sm_resume();                                                                                                               \
		x;                                                                                                                         \
		sm_pause();                                                                                                                \
		acct_on = 0;                                                                                                               \
	} while (0)
static int object(const char *kind, int v)
{
	uint8_t buf[70000];
	int i, ok = 0;
	memset(buf, 7, sizeof(buf));
	snap("s0");
	if (!strcmp(kind, "mbox")) {
		struct mbox *m;
		int sizes[] = { 1, 8, 100, 4095, 0, 4096 };
		LIB(m = mbox_new(sizes[v % 6]));
		ok = m != NULL;
		snap("s1");
		if (m)
			for (i = 0; i < v; i++) {
				LIB(mbox_push(m, buf));
				if (i & 1)
					LIB(mbox_peek(m, buf));
			}
		LIB(mbox_destroy(m));
	} else if (!strcmp(kind, "dynmbox")) {
		struct dynmbox *m;
		int sizes[] = { 1, 8, 1000, 60000, 0, 10000000 };
		LIB(m = dynmbox_new(sizes[v % 6]));
		ok = m != NULL;
		snap("s1");
		if (m)
			for (i = 0; i < v; i++) {
				LIB(dynmbox_push(m, buf, i % 9));
				if (i & 1)
					LIB(dynmbox_peek(m, buf));
			}
		LIB(dynmbox_destroy(m));
	} else if (!strcmp(kind, "inotify")) {
		int fd;
		const char *p[] = { ".", "file", "missing", "missing/x", "" };
		LIB(fd = inotify_create(p[v % 5], v >= 5 ? 0 : IN_ALL_EVENTS));
		ok = fd >= 0;
		snap("s1");
		if (fd >= 0) {
			for (i = 0; i < 40; i++) {
				char n[32];
				sprintf(n, "n%d-%d", i, (int)getpid());
				close(open(n, O_CREAT | O_WRONLY, 0600));
				unlink(n);
			}
			if (v < 5)
				LIB(inotify_process_fd(fd, nop, NULL));
		}
		LIB(inotify_destroy(fd));
	} else if (!strcmp(kind, "hash")) {
		struct hash h;
		int r, c;
		LIB(r = futils_hash_init(&h, v, hfree_));
		ok = r == 0;
		snap("s1");
		if (r == 0) {
			for (i = 0; i < 12; i++) {
				LIB(futils_hash_insert(&h, i * 5, buf + i));
				LIB(futils_hash_insert_const(&h, i * 5 + 1, buf + i));
				LIB(futils_hash_insert(&h, i * 5, buf));
			}
			for (c = 0; c < v % 7; c++)
				LIB(futils_hash_remove(&h, c * 5));
			if (v % 3 == 0)
				LIB(futils_hash_remove_all(&h));
			LIB(futils_hash_destroy(&h));
		}
	} else if (!strcmp(kind, "random")) {
		if (v == 0) {
			LIB(i = futils_random_strong(buf, 600));
			ok = i == 0;
			snap("s1");
		} else {
			pthread_t t[3];
			int r[3] = { 0 };
			LIB(
				for (i = 0; i < v; i++) pthread_create(&t[i], NULL, rnd_thread, &r[i]);
				for (i = 0; i < v; i++) pthread_join(t[i], NULL););
			ok = 1;
			snap("s1");
		}
	} else if (!strcmp(kind, "safew")) {
		struct futils_safew_file *f;
		char n[64];
		sprintf(n, "safe-%d", (int)getpid());
		LIB(f = futils_safew_fopen(v == 9 ? "nodir/x" : n));
		ok = f != NULL;
		snap("s1");
		if (f) {
			LIB(futils_safew_fwrite(buf, 1, 5000, f));
			LIB(futils_safew_fprintf(f, "%d", 5));
			if (v % 3 == 0)
				LIB(futils_safew_fclose_rollback(f));
			else if (v % 3 == 1)
				LIB(futils_safew_fclose_commit(f));
			else
				LIB(futils_safew_fclose_commit_with_crc(f));
		}
		LIB(futils_safew_file_check(n));
	} else if (!strcmp(kind, "utf8")) {
		const char *in[] = { "abc", "\xff", "a\xc3\xa9", "\xc3", "", "aaaaaaaaaaaaaaaaaaaaaaaaa\xf4\x90\x80\x80" };
		char o[8];
		LIB(i = futils_string_sanitize_utf8(in[v % 6], o, 8, L"b", v >= 6 ? 0x110000 : L'x'));
		ok = i >= 0;
		snap("s1");
		LIB(futils_string_check_utf8(in[v % 6], v >= 6 ? 3 : 0, v >= 12 ? 2 : 0, v & 1 ? L"c" : NULL));
	} else if (!strcmp(kind, "sync")) {
		const char *p[] = { "./file", "file", "missing/x", "./missing", "./." };
		LIB(i = sync_file_and_folder(p[v % 5]));
		LIB(futils_fs_dir_size(".", v & 1));
		ok = i == 0;
		snap("s1");
	}
	snap("s2");
	return ok;
}
static void obj(const char *id, char *s)
{
	char kind[16], fail, z = 0;
	int v, at, err, st;
	pid_t p;
	static char *area;
	ENV(sscanf(s, "%15s %d %c %d %d %c", kind, &v, &fail, &at, &err, &z) < 5);
	sm_reset();
	if (fail == 's') {
		memset(&sm_faults[0], 0, sizeof(sm_faults[0]));
		sm_faults[0].op = -1;
		sm_faults[0].at = at;
		sm_faults[0].err = err;
		sm_nfaults = 1;
	}
	fflush(stdout);
	p = fork();
	ENV(p < 0);
	if (!p) {
		alarm(30);
		signal(SIGPIPE, SIG_DFL);
		out = area = sm->user;
		out[0] = 0;
		acct_reset(fail == 'a' ? at : -1);
		wfail_at = fail == 'w' ? at : -1;
		wfail_err = err;
		sm_all_paths = 1;
		if (sm_start("/"))
			_exit(77);
		sm_pause();
		int ok0 = -1, seen0 = 0;
		if (z) {
			/* once more where the lowest descriptor there is, 0, is free */
			ok0 = object(kind, v);
			seen0 = seen;
			seen = 0;
			out = area;
			out[0] = 0;
			acct_reset(-1);
			sm_pause();
			close(0);
		}
		/* the counters go on over the LIB brackets */
		sm->ret = object(kind, v);
		out += sprintf(out, ",\"ok0\":%d,\"ev0\":%d,\"ev\":%d", ok0, seen0, seen);
		sm->nos = acct_hit + whit + (fail == 's' ? sm->faults_hit : 0);
		_exit(0);
	}
	ENV(waitpid(p, &st, 0) != p);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
		exit(77);
	printf("{\"id\":%s,\"k\":\"obj\",\"kind\":\"%s\",\"v\":%d,\"fail\":\"%c\",\"st\":%d,\"ok\":%ld,\"hit\":%d%s}\n", id, kind, v, fail, st, sm->ret,
	       sm->nos, st ? "" : sm->user);
}
int main(void)
{
	static char *line;
	static size_t cap;
	sm_init();
	close(open("file", O_CREAT | O_WRONLY, 0600));
	while (getline(&line, &cap, stdin) > 0) {
		char id[32], what[8];
		int off;
		ENV(sscanf(line, "%31s %7s%n", id, what, &off) != 2);
		if (what[0] == 'f')
			flag(id, line + off);
		else
			obj(id, line + off);
	}
	return 0;
}
