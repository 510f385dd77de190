/* F02: the sync helpers on a small tree in the working directory, their
 * system calls observed and made to fail.
 *  <id> <fn> <abs> <path> <alloc> <nfaults> {<kind> <at> <err>}...
 * fn: file folder both; abs: 0 relative, 1 the working directory is put before
 * it, 2 as it is; kind: o f c (open, fsync, close); err 0: answer 0 without
 * doing it (used with fsync outside of the working directory). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "acct.h"
#include "futils/synctools.h"
#include "sysmon.h"

#define ENV(c)                                                                                                                             \
	do {                                                                                                                               \
		if (c) {                                                                                                                   \
			perror(#c);                                                                                                        \
			exit(77);                                                                                                          \
		}                                                                                                                          \
	} while (0)
/* the tree; the numbers are those of specs/files/SyncTree.tla */
static const char *obj[] = { NULL, ".", "f", "d", "d/g", "d/e", "d/e/h", "d/e/.h", "sp ace", "..", "/", "/etc" };
#define NOBJ 12
static struct stat st[NOBJ];
static const char *files[] = { "f", "d/g", "d/e/h", "d/e/.h", "sp ace" };
static void put(const char *p)
{
	int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600);
	ENV(fd < 0 || write(fd, p, strlen(p)) != (ssize_t)strlen(p));
	close(fd);
}
static int intact(void)
{
	char b[64];
	int i, ok = 1;
	for (i = 0; i < 5; i++) {
		int fd = open(files[i], O_RDONLY);
		ssize_t n = read(fd, b, sizeof(b));
		ok &= n == (ssize_t)strlen(files[i]) && !memcmp(b, files[i], n);
		close(fd);
	}
	ok &= access("d/missing", F_OK) != 0 && access("missing", F_OK) != 0;
	return ok;
}
static int label(unsigned long dev, unsigned long ino)
{
	int i;
	for (i = 1; i < NOBJ; i++)
		if (st[i].st_dev == dev && st[i].st_ino == ino)
			return i;
	return 0;
}
static int count_fds(void)
{
	int i, n = 0;
	for (i = 0; i < 512; i++)
		n += fcntl(i, F_GETFD) >= 0;
	return n;
}
int main(void)
{
	static char *line, cwd[4096], path[8192];
	static size_t cap;
	int i;
	ENV(!getcwd(cwd, sizeof(cwd)));
	ENV(mkdir("d", 0700) || mkdir("d/e", 0700));
	for (i = 0; i < 5; i++)
		put(files[i]);
	ENV(symlink("d", "l") || symlink("../f", "d/m") || symlink("e/h", "d/n"));
	for (i = 1; i < NOBJ; i++)
		ENV(stat(obj[i], &st[i]));
	sm_init();
	while (getline(&line, &cap, stdin) > 0) {
		char id[32], fn[16], hex[4096], *s = line;
		int abs, alloc, nf, off, n = 0, w, first = 1;
		pid_t p;
		ENV(sscanf(s, "%31s %15s %d %4095s %d %d%n", id, fn, &abs, hex, &alloc, &nf, &off) != 6);
		s += off;
		path[0] = 0;
		if (abs == 1)
			sprintf(path, "%s/", cwd);
		off = strlen(path);
		for (i = 0; hex[0] != '-' && hex[i]; i += 2, n++)
			sscanf(hex + i, "%2hhx", (unsigned char *)&path[off + n]);
		path[off + n] = 0;
		sm_reset();
		for (i = 0; i < nf; i++) {
			char k;
			struct sm_fault *q = &sm_faults[i];
			memset(q, 0, sizeof(*q));
			ENV(sscanf(s, " %c %d %d%n", &k, &q->at, &q->err, &w) != 3);
			s += w;
			q->op = k == 'o' ? SM_OPEN : k == 'f' ? SM_FSYNC : SM_CLOSE;
			q->fake = !q->err;
		}
		sm_nfaults = nf;
		fflush(stdout);
		p = fork();
		ENV(p < 0);
		if (!p) {
			int before = count_fds(), r;
			sm_all_paths = sm_want_ino = 1;
			alarm(30);
			if (sm_start(cwd))
				_exit(77);
			acct_reset(alloc);
			acct_on = 1;
			errno = 1234;
			r = fn[1] == 'i' ? sync_file(abs == 3 ? NULL : path) : fn[1] == 'o' && fn[0] == 'f' ? sync_folder(abs == 3 ? NULL : path)
							    : sync_file_and_folder(path);
			acct_on = 0;
			sm_pause();
			sm->ret = r;
			snprintf(sm->user, sizeof(sm->user), "%d %d", count_fds() - before + 1000 * acct_live(), acct_hit);
			_exit(0);
		}
		ENV(waitpid(p, &w, 0) != p);
		if (WIFEXITED(w) && WEXITSTATUS(w) == 77)
			return 77;
		int leak = 0, ahit = 0;
		sscanf(sm->user, "%d %d", &leak, &ahit);
		printf("{\"id\":%s,\"fn\":\"%s\",\"abs\":%d,\"st\":%d,\"ret\":%ld,\"leak\":%d,\"ahit\":%d,\"intact\":%d,\"hit\":%d,\"path\":[", id, fn, abs, w,
		       sm->ret, leak, ahit, intact(), sm->faults_hit);
		for (i = 0; i < n; i++)
			printf("%s%d", i ? "," : "", (unsigned char)path[off + i]);
		printf("],\"ops\":[");
		for (i = 0; i < sm->n; i++) {
			struct sm_rec *R = &sm->rec[i];
			int whole = R->op == SM_FSYNC && R->nr != 74; /* not fsync(2) */
			if (R->op != SM_OPEN && R->op != SM_FSYNC && R->op != SM_CLOSE)
				continue;
			printf("%s{\"op\":\"%s\",\"o\":%d,\"ret\":%ld}", first ? "" : ",", whole ? "other" : sm_opname(R->op),
			       R->op == SM_CLOSE ? 0 : label(R->dev, R->ino), R->ret);
			first = 0;
		}
		printf("]}\n");
	}
	return 0;
}
