/* F01: futils_fs_dir_size on directory trees made for each case below the
 * working directory.
 *  <id> <rec> <form> <faults> <nnodes> {<parent> <kind> <size> <name> <target>}...
 * form: abs slash rel dot link pad<N> (an absolute path of N bytes);
 * kind: f d l p s; parent: 0 for the directory itself, else a node's number;
 * name, target: hexadecimal, "-" for none; faults: 1: the call is repeated
 * with every operation and allocation failing in turn. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include "acct.h"
#include "futils/fs.h"
#include "sysmon.h"

#define MAXN 400
struct node { int p, len; char k; long long z; char name[300], to[600]; } N[MAXN + 1];
static int nn;
static char cwd[2048], path[8192];
static int count_fds(void)
{
	int i, n = 0;
	for (i = 0; i < 512; i++)
		n += fcntl(i, F_GETFD) >= 0;
	return n;
}
static int unhex(const char *h, char *o)
{
	int n = 0;
	if (*h == '-')
		h = "";
	for (; h[0] && h[1]; h += 2) {
		unsigned v;
		sscanf(h, "%2x", &v);
		o[n++] = (char)v;
	}
	o[n] = 0;
	return n;
}
#define ENV(c)                                                                                                                             \
	do {                                                                                                                               \
		if (c) {                                                                                                                   \
			perror(#c);                                                                                                        \
			exit(77);                                                                                                          \
		}                                                                                                                          \
	} while (0)
/* permissions and marks say nothing about a size */
static const int modes[10] = { 0600, 0644, 0755, 0444, 01644, 02755, 04755, 07777, 0001, 01000 };
static void make(int top, int idx)
{
	int i, fd;
	for (i = 1; i <= nn; i++) {
		struct node *n = &N[i];
		if (n->p != idx)
			continue;
		switch (n->k) {
		case 'f':
			fd = openat(top, n->name, O_CREAT | O_EXCL | O_WRONLY, 0600);
			ENV(fd < 0);
			ENV(ftruncate(fd, n->z));
			ENV(fchmod(fd, modes[(i * 7 + (int)(n->z & 7)) % 10]));
			close(fd);
			break;
		case 'd':
			ENV(mkdirat(top, n->name, 0700));
			fd = openat(top, n->name, O_RDONLY | O_DIRECTORY);
			ENV(fd < 0);
			make(fd, i);
			ENV(fchmod(fd, 0700 | modes[i % 10]));
			close(fd);
			break;
		case 'l': ENV(symlinkat(n->to, top, n->name)); break;
		case 'p': ENV(mkfifoat(top, n->name, 0600)); break;
		case 's': ENV(mknodat(top, n->name, S_IFSOCK | 0600, 0)); break;
		}
	}
}
static void big(const char *k, long long v)
{
	int first = 1;
	unsigned long long u = v < 0 ? 0ull - v : v;
	printf("\"%s\":{\"neg\":%s,\"m\":[", k, v < 0 ? "true" : "false");
	for (; u; u /= 1000, first = 0)
		printf("%s%d", first ? "" : ",", (int)(u % 1000));
	printf("]}");
}
static int runs;
static int call(int rec, const char *kind, int op, int at, int err, int mfail, int dt)
{
	pid_t p;
	int st;
	long long ret;
	sm_reset();
	if (op >= 0) {
		memset(&sm_faults[0], 0, sizeof(sm_faults[0]));
		sm_faults[0].op = op;
		sm_faults[0].at = at;
		sm_faults[0].err = err;
		sm_nfaults = 1;
	}
	fflush(stdout);
	p = fork();
	ENV(p < 0);
	if (!p) {
		int before = count_fds();
		sm_all_paths = 1;
		sm_dt_unknown = dt;
		alarm(30);
		if (sm_start(cwd))
			_exit(77);
		acct_reset(mfail);
		acct_on = 1;
		ret = futils_fs_dir_size(path, rec);
		acct_on = 0;
		sm_pause();
		memcpy(sm->user, &ret, sizeof(ret));
		sm->ret = count_fds() - before + 1000 * acct_live();
		sm->user[100] = mfail >= 0 && acct_hit;
		memcpy(sm->user + 200, &acct_n, sizeof(acct_n));
		_exit(0);
	}
	ENV(waitpid(p, &st, 0) != p);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
		exit(77);
	memcpy(&ret, sm->user, sizeof(ret));
	printf("%s{\"f\":\"%s\",\"err\":%d,\"hit\":%d,\"st\":%d,\"leak\":%ld,", runs++ ? "," : "", kind, err,
	       op >= 0 ? sm->faults_hit : sm->user[100], st, sm->ret);
	big("ret", st ? 0 : ret);
	printf("}");
	return st;
}
static void one(int rec, int faults)
{
	static const int errs[] = { EIO, EACCES, ENOMEM, EMFILE, ELOOP };
	static const struct { int op; const char *n; } kinds[] = { { SM_OPEN, "open" }, { SM_GETDENTS, "list" }, { SM_STAT, "stat" }, { SM_CLOSE, "close" } };
	int cnt[SM_NOPS] = { 0 }, i, k, allocs;
	printf("\"runs\":[");
	runs = 0;
	if (!faults) {
		/* in the process itself */
		long long ret;
		int before = count_fds();
		acct_reset(-1);
		acct_on = 1;
		alarm(60);
		ret = futils_fs_dir_size(path, rec);
		alarm(0);
		acct_on = 0;
		printf("{\"f\":\"\",\"err\":0,\"hit\":0,\"st\":0,\"leak\":%d,", count_fds() - before + 1000 * acct_live());
		big("ret", ret);
		printf("}]");
		return;
	}
	if (call(rec, "", -1, 0, 0, -1, 0) == 0) {
		memcpy(&allocs, sm->user + 200, sizeof(allocs));
		for (i = 0; i < sm->n; i++)
			cnt[sm->rec[i].op]++;
		call(rec, "", -1, 0, 0, -1, 1);
		for (k = 0; k < 4; k++)
			for (i = 0; i < cnt[kinds[k].op] && i < 60; i++)
				call(rec, kinds[k].n, kinds[k].op, i, errs[(i + k) % 5], -1, i & 1);
		for (i = 0; i < allocs && i < 40; i++)
			call(rec, "alloc", -1, 0, ENOMEM, i, 0);
	}
	printf("]");
}

int main(void)
{
	static char *line;
	static size_t cap;
	sm_init();
	ENV(!getcwd(cwd, sizeof(cwd)));
	ENV(strlen(cwd) > 200);
	while (getline(&line, &cap, stdin) > 0) {
		char id[32], form[32], top[64], *s = line, name[600];
		int rec, faults, off, i, fd;
		ENV(sscanf(s, "%31s %d %31s %d %d%n", id, &rec, form, &faults, &nn, &off) != 5 || nn > MAXN);
		s += off;
		for (i = 1; i <= nn; i++) {
			static char to[1300];
			ENV(sscanf(s, " %d %c %lld %599s %1299s%n", &N[i].p, &N[i].k, &N[i].z, name, to, &off) != 5);
			s += off;
			N[i].len = unhex(name, N[i].name);
			unhex(to, N[i].to);
		}
		snprintf(top, sizeof(top), "T%s", id);
		ENV(mkdir(top, 0700));
		snprintf(path, sizeof(path), "%s/%s", cwd, top);
		if (!strncmp(form, "pad", 3)) {
			int want = atoi(form + 3), l = (int)strlen(path), f2;
			fd = open(top, O_RDONLY | O_DIRECTORY);
			while (l < want) {
				int left = want - l - 1, n = left > 250 ? (left - 250 == 1 ? 249 : 200) : left;
				if (left <= 0) {
					path[l++] = '/';
					path[l] = 0;
					break;
				}
				memset(name, 'p', n);
				name[n] = 0;
				ENV(mkdirat(fd, name, 0700));
				f2 = openat(fd, name, O_RDONLY | O_DIRECTORY);
				ENV(f2 < 0);
				close(fd);
				fd = f2;
				path[l++] = '/';
				strcpy(path + l, name);
				l += n;
			}
			ENV((int)strlen(path) != want);
		} else {
			fd = open(top, O_RDONLY | O_DIRECTORY);
			if (!strcmp(form, "slash"))
				strcat(path, "/");
			else if (!strcmp(form, "rel"))
				strcpy(path, top);
			else if (!strcmp(form, "dot")) {
				ENV(chdir(top));
				strcpy(path, ".");
			} else if (!strcmp(form, "link")) {
				snprintf(name, sizeof(name), "L%s", id);
				ENV(symlink(top, name));
				snprintf(path, sizeof(path), "%s/%s", cwd, name);
			} else if (!strcmp(form, "none"))
				strcat(path, "/missing");
			else if (!strcmp(form, "file")) {
				close(openat(fd, "the file", O_CREAT | O_WRONLY, 0600));
				strcat(path, "/the file");
			}
		}
		ENV(fd < 0);
		make(fd, 0);
		close(fd);
		printf("{\"id\":%s,\"rec\":%d,\"form\":\"%s\",\"plen\":%d,\"nodes\":[", id, rec, form, (int)strlen(path));
		for (i = 1; i <= nn; i++) {
			printf("%s{\"p\":%d,\"k\":\"%c\",\"n\":%d,", i > 1 ? "," : "", N[i].p, N[i].k, N[i].len);
			big("z", N[i].z);
			printf("}");
		}
		printf("],");
		one(rec, faults);
		printf("}\n");
		fflush(stdout);
		ENV(chdir(cwd));
	}
	return 0;
}
