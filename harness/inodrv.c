/* I01: inotify processing.  A script per line:
 *  <id> {<op>}...
 *   c<n>  create a file with a name of n bytes      (IN_CREATE)
 *   m     make a directory                          (IN_CREATE|IN_ISDIR)
 *   d     delete the oldest file                    (IN_DELETE)
 *   r<n>  rename the newest file, n: new name's length (IN_MOVED_FROM, _TO)
 *   w     write to the newest file                  (IN_MODIFY)
 *   a     chmod the newest file                     (IN_ATTRIB)
 *   s     write to the watched file                 (IN_MODIFY, no name)
 *   i     remove the watched file's watch           (IN_IGNORED)
 *   b<n>  like c, in the second directory
 *   x<n>  n events more than the queue of the kernel holds (skipped where it holds very many)
 *   p     process;  p@<h>:<op>,<op>;...  with operations at hooks: I before
 *         ioctl, J after it, R before read, S after it, M at an allocation, K<k> in the k-th
 *         callback; e: first read is interrupted, n: an allocation fails
 *  The record ends with one more processing call. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "acct.h"
#include "futils/inotify.h"

#define ENV(c)                                                                                                                             \
	do {                                                                                                                               \
		if (c) {                                                                                                                   \
			perror(#c);                                                                                                        \
			exit(77);                                                                                                          \
		}                                                                                                                          \
	} while (0)

static FILE *o;
static int first, fd, wfile, serial, nren, in_proc, ncb, read_eintr, hit, alloc_fail;
static char d1[64], d2[64];
static long max_events = 1000000;       /* what the kernel's queue holds */
#define MAXF 9000
static char *fname[MAXF];
static int fhead, ftail;
static const char *hooks;

static void q(uint32_t m, int w, const char *n, int c)
{
	fprintf(o, "%s{\"t\":\"q\",\"m\":\"%x\",\"w\":%d,\"n\":\"%s\",\"c\":%d}", first ? "" : ",", m, w, n, c);
	first = 0;
}
static char *newname(int n)
{
	char *s = malloc(n + 40);
	int l = sprintf(s, "%x", serial++);
	while (l < n)
		s[l++] = 'g' + (l + n) % 13;
	s[n > 0 ? (n > 255 ? 255 : n < 1 ? 1 : l) : l] = 0;
	return s;
}
static void touch(const char *dir, const char *n)
{
	char p[400];
	sprintf(p, "%s/%s", dir, n);
	ENV(mknod(p, S_IFREG | 0600, 0));
}
static void path(char *p, const char *n) { sprintf(p, "%s/%s", d1, n); }
static void wr(const char *p)
{
	int f = open(p, O_WRONLY | O_APPEND);
	ENV(f < 0 || write(f, "x", 1) != 1);
	close(f);
}
static void op(const char *s)
{
	char p[400], p2[400], *n;
	int save = errno, on = acct_on;
	acct_on = 0;
	switch (*s) {
	case 'c':
		n = newname(atoi(s + 1));
		touch(d1, n);
		ENV(ftail >= MAXF);
		fname[ftail++] = n;
		q(IN_CREATE, 1, n, 0);
		break;
	case 'b':
		n = newname(atoi(s + 1));
		touch(d2, n);
		q(IN_CREATE, 2, n, 0);
		free(n);
		break;
	case 'm':
		n = newname(6);
		path(p, n);
		ENV(mkdir(p, 0700));
		q(IN_CREATE | IN_ISDIR, 1, n, 0);
		free(n);
		break;
	case 'd':
		if (fhead == ftail)
			break;
		path(p, fname[fhead]);
		ENV(unlink(p));
		q(IN_DELETE, 1, fname[fhead], 0);
		fhead++;
		break;
	case 'r':
		if (fhead == ftail)
			break;
		n = newname(atoi(s + 1));
		path(p, fname[ftail - 1]);
		path(p2, n);
		ENV(rename(p, p2));
		nren++;
		q(IN_MOVED_FROM, 1, fname[ftail - 1], nren);
		q(IN_MOVED_TO, 1, n, nren);
		fname[ftail - 1] = n;
		break;
	case 'w':
		if (fhead == ftail)
			break;
		path(p, fname[ftail - 1]);
		wr(p);
		q(IN_MODIFY, 1, fname[ftail - 1], 0);
		break;
	case 'a':
		if (fhead == ftail)
			break;
		path(p, fname[ftail - 1]);
		ENV(chmod(p, 0600));
		q(IN_ATTRIB, 1, fname[ftail - 1], 0);
		break;
	case 's':
		sprintf(p, "%s-f", d1);
		wr(p);
		if (wfile)
			q(IN_MODIFY, wfile, "", 0);
		break;
	case 'x': {
		int k, n = max_events > 20000 || !wfile ? 0 : max_events + atoi(s + 1);
		for (k = 0; k < n; k++) {
			sprintf(p, "%s-f", d1);
			if (k & 1) {
				wr(p);
				q(IN_MODIFY, wfile, "", 0);
			} else {
				ENV(chmod(d1, 0700));
				q(IN_ATTRIB | IN_ISDIR, 1, "", 0);
			}
		}
		break;
	}
	case 'i':
		if (!wfile)
			break;
		ENV(inotify_rm_watch(fd, wfile));
		q(IN_IGNORED, wfile, "", 0);
		wfile = 0;
		break;
	}
	acct_on = on;
	errno = save;
}
static void hook(char c, int k)
{
	const char *h = hooks;
	char one[32];
	if (!in_proc || !h)
		return;
	/* @<hook>[k]:<op>,<op>; ... */
	while (*h) {
		char hc = *h++;
		int hk = strtol(h, (char **)&h, 10), l, mine = hc == c && hk == k;
		if (*h == ':')
			h++;
		while (*h && *h != ';') {
			l = strcspn(h, ",;");
			if (mine && l < 31) {
				memcpy(one, h, l);
				one[l] = 0;
				op(one);
			}
			h += l;
			if (*h == ',')
				h++;
		}
		if (*h == ';')
			h++;
	}
}
/* the hooks; each occurrence counts on from 0 */
static int nio, nrd, nal;
extern int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int f, unsigned long r, ...)
{
	va_list ap;
	void *a;
	int ret;
	va_start(ap, r);
	a = va_arg(ap, void *);
	va_end(ap);
	hook('I', nio);
	ret = __real_ioctl(f, r, a);
	hook('J', nio++);
	return ret;
}
extern ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int f, void *b, size_t n)
{
	ssize_t ret;
	if (!in_proc)
		return __real_read(f, b, n);
	hook('R', nrd);
	if (read_eintr) {
		read_eintr = 0;
		hit = 1;
		errno = EINTR;
		return -1;
	}
	ret = __real_read(f, b, n);
	hook('S', nrd++);
	return ret;
}
static int token;
static void cb(struct inotify_event *e, void *data)
{
	int l = e->len ? (int)strnlen(e->name, e->len) : 0, pad = 1, i;
	for (i = l; i < (int)e->len; i++)
		pad &= !e->name[i];
	if (e->len && l == (int)e->len)
		pad = 0;
	fprintf(o, "%s{\"t\":\"cb\",\"m\":\"%x\",\"w\":%d,\"n\":\"%.*s\",\"c\":%u,\"data\":%d,\"pad\":%d}", first ? "" : ",", e->mask, e->wd, l, e->name,
		e->cookie & 0x7fffffff, data == &token, pad);
	first = 0;
	hook('K', ncb++);
}
static void process(const char *s)
{
	in_proc = 1;
	ncb = nio = nrd = nal = hit = read_eintr = alloc_fail = 0;
	hooks = NULL;
	for (; *s && *s != '@'; s++) {
		if (*s == 'e')
			read_eintr = 1;
		if (*s == 'n')
			alloc_fail = 1;
	}
	if (*s == '@')
		hooks = s + 1;
	fprintf(o, "%s{\"t\":\"b\"}", first ? "" : ",");
	first = 0;
	alarm(20);
	acct_reset(alloc_fail ? 0 : -1);
	acct_on = 1;
	inotify_process_fd(fd, cb, &token);
	acct_on = 0;
	alarm(0);
	in_proc = 0;
	if (acct_hit)
		hit = 1;
	fprintf(o, ",{\"t\":\"e\",\"hit\":%d}", hit);
}
int main(void)
{
	static char *line;
	static size_t cap;
	FILE *mx = fopen("/proc/sys/fs/inotify/max_queued_events", "r");
	if (mx) {
		if (fscanf(mx, "%ld", &max_events) != 1)
			max_events = 1000000;
		fclose(mx);
	}
	while (getline(&line, &cap, stdin) > 0) {
		char *id, *t, *save, p[100];
		int live = 0, i;
		size_t sz;
		char *mem = NULL;
		o = open_memstream(&mem, &sz);
		first = 1;
		serial = nren = fhead = ftail = 0;
		id = strtok_r(line, " \n", &save);
		sprintf(d1, "A%s", id);
		sprintf(d2, "B%s", id);
		ENV(mkdir(d1, 0700) || mkdir(d2, 0700));
		sprintf(p, "%s-f", d1);
		close(open(p, O_CREAT | O_WRONLY, 0600));
		fd = inotify_create(d1, IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO | IN_MODIFY | IN_ATTRIB);
		ENV(fd < 0);
		ENV(inotify_add_watch(fd, d2, IN_CREATE) != 2);
		wfile = inotify_add_watch(fd, p, IN_MODIFY);
		ENV(wfile != 3);
		printf("{\"id\":%s,\"log\":[", id);
		fflush(stdout);
		while ((t = strtok_r(NULL, " \n", &save))) {
			if (*t == 'p') {
				process(t + 1);
				live += acct_live();
			} else
				op(t);
		}
		process("");
		live += acct_live();
		fclose(o);
		fputs(mem, stdout);
		free(mem);
		printf("],\"st\":0,\"live\":%d,\"max\":%ld}\n", live, max_events);
		inotify_destroy(fd);
		for (i = fhead; i < ftail; i++)
			free(fname[i]);
	}
	return 0;
}
