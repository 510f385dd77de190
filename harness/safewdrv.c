/* Runs one scenario of the safe-write API per input line, in a forked child
 * under sysmon, inside a scratch directory; prints what happened as JSON.
 *
 *  id prog size1 size2 state faults path
 * prog:  check | w:<items>:<end>   items: w<n> p<n> (fwrite/fprintf of n bytes), joined by ','
 *        m<n>: fwrite of n bytes as n/7 items of 7 (plus rest)
 *        b<n>: fwrite of one item of n bytes, which may be no byte at all
 *        end: commit crc rollback none; further sessions after '+'
 * state: P,T,C,K tokens joined by ','; '-' absent, 1/2 version 1/2 (or its
 *        checksum), e empty, h1/h2 first half, z1/z2 zeros of that length,
 *        g other bytes, s1/s2 checksum cut short
 * faults: '-' or items joined by ',':  <at>[+]:<errno> | <at>:k | <at>:s<n>
 *        with an optional prefix naming the kind: write@3:5
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "futils/safew.h"
#include "sysmon.h"

static char dirp[256];
static int alloc_at, alloc_n, in_child;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
static int deny(void) { if (in_child && alloc_at && ++alloc_n == alloc_at) { sm->faults_hit++; errno = ENOMEM; return 1; } return 0; }
void *__wrap_malloc(size_t n) { return deny() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return deny() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return deny() ? NULL : __real_realloc(p, n); }
static uint8_t *V[3];
static size_t VN[3];
static uint8_t C[3][64];
static size_t CN[3];
static const char *sfx[4] = { "", ".tmp", ".crc", ".crc.tmp" };
static char base[256];

/* any bytes, those next to the ends of the ranges often; no zero bytes where
 * they go through fprintf */
static void gen(int v, size_t n, int text)
{
	static const uint8_t edge[] = { 255, 0, 128, 127, 26, 10, 13, 1, 254, 37 };
	uint64_t x = 0x9e3779b97f4a7c15ull * (v + 1) + n;
	size_t i;
	free(V[v]);
	V[v] = malloc(n + 1);
	VN[v] = n;
	for (i = 0; i < n; i++) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		V[v][i] = (x >> 40) & 3 ? x >> 11 : edge[(x >> 20) % sizeof(edge)];
		if (!V[v][i] && text)
			V[v][i] = 255;
	}
	if (n)
		V[v][n / 2] = v == 1 ? 'a' : 'b';
	V[v][n] = 0;
}
static void full(char *b, size_t n, int i)
{
	snprintf(b, n, "%s%s", base, sfx[i]);
}
static void put(const char *p, const uint8_t *d, size_t n)
{
	int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || (n && write(fd, d, n) != (ssize_t)n)) {
		perror(p);
		exit(77);
	}
	close(fd);
}
static void clean(void)
{
	DIR *d = opendir(".");
	struct dirent *e;
	while ((e = readdir(d)))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
			unlink(e->d_name);
	closedir(d);
}
static void setup(const char *st)
{
	int i;
	char b[300];
	static uint8_t z[1 << 20];
	static const uint8_t junk[] = { 0xde, 0xad, 0xbe, 0xef, 0x01 }, ones[] = { 255, 255, 255, 255, 255 };
	for (i = 0; i < 4; i++) {
		int v = st[1] == '2' ? 2 : 1, crc = i >= 2;
		const uint8_t *d = crc ? C[v] : V[v];
		size_t n = crc ? CN[v] : VN[v];
		full(b, sizeof(b), i);
		switch (*st) {
		case '-': break;
		case '1': put(b, crc ? C[1] : V[1], crc ? CN[1] : VN[1]); break;
		case '2': put(b, crc ? C[2] : V[2], crc ? CN[2] : VN[2]); break;
		case 'e': put(b, z, 0); break;
		case 'h': case 's': put(b, d, crc ? 2 : n / 2); break;
		case 'b': case 'm': case 'f': case 'l': {      /* one byte off: the last, middle, first; one too many */
			uint8_t *t = malloc(n + 1);
			memcpy(t, d, n);
			t[n] = 'l';
			if (n)
				t[*st == 'b' ? n - 1 : *st == 'm' ? n / 2 : 0] ^= *st == 'l' ? 0 : *st == 'f' ? 0x80 : 1;
			put(b, t, n + (*st == 'l'));
			free(t);
			break;
		}
		case 'z': put(b, z, n < sizeof(z) ? n : sizeof(z)); break;
		case 'g': put(b, junk, crc ? 4 : 5); break;
		case 'G': put(b, ones, crc ? 4 : 5); break;
		}
		st = strchr(st, ',');
		if (!st)
			break;
		st++;
	}
}
/* token of a file's present content */
static void tok(const char *p, int crc, char *out)
{
	static uint8_t b[1 << 21];
	int fd = open(p, O_RDONLY), v;
	ssize_t n;
	if (fd < 0) {
		strcpy(out, "-");
		return;
	}
	n = read(fd, b, sizeof(b));
	close(fd);
	for (v = 1; v <= 2; v++)
		if (n == (ssize_t)(crc ? CN[v] : VN[v]) && !memcmp(b, crc ? C[v] : V[v], n)) {
			sprintf(out, "%d", v);
			return;
		}
	sprintf(out, n ? "x" : "e");
}

static void emit(const char *s) { strncat(sm->user, s, sizeof(sm->user) - strlen(sm->user) - 1); }

static void child(char *prog, const char *path)
{
	char t[64];
	if (sm_start(dirp)) {
		perror("seccomp");
		_exit(77);
	}
	in_child = 1;
	if (!strcmp(prog, "check")) {
		sm->ret = futils_safew_file_check(path);
		sprintf(t, "%d", sm_open_watched());
		emit(t);
		_exit(0);
	}
	char *sess = prog;
	while (sess) {
		char *next = strchr(sess, '+');
		size_t pos = 0;
		struct futils_safew_file *f;
		char *it, *end;
		long r = -9999;
		int ver = 2;
		if (next)
			*next++ = 0;
		/* w:items:end or W: (version 1) */
		ver = *sess == 'W' ? 1 : 2;
		it = sess + 2;
		end = strchr(it, ':');
		*end++ = 0;
		sm->ret = -9999;
		f = futils_safew_fopen(path);
		if (!f) {
			sm->ret = -5000;
			emit("O");
			sess = next;
			continue;
		}
		while (*it) {
			char k = *it++;
			size_t n = strtoul(it, &it, 10), done;
			if (*it == ',')
				it++;
			if (pos + n > VN[ver])
				n = VN[ver] - pos;
			if (k == 'w') {
				done = futils_safew_fwrite(V[ver] + pos, 1, n, f);
				emit(done == n ? "=" : "!");
			} else if (k == 'm') {
				done = futils_safew_fwrite(V[ver] + pos, 7, n / 7, f);
				emit(done == n / 7 ? "=" : "!");
				done = futils_safew_fwrite(V[ver] + pos + n / 7 * 7, 1, n % 7, f);
				emit(done == n % 7 ? "=" : "!");
			} else if (k == 'b') {
				done = futils_safew_fwrite(V[ver] + pos, n, 1, f);
				emit(done == (n > 0) ? "=" : "!");
			} else if (k == 'q') {     /* stop writing after an error, as a careful caller does */
				done = futils_safew_fwrite(V[ver] + pos, 1, n, f);
				emit(done == n ? "=" : "!");
				if (done != n)
					break;
			} else {
				r = futils_safew_fprintf(f, "%.*s", (int)n, (char *)V[ver] + pos);
				emit(r == (long)n ? "=" : "!");
			}
			pos += n;
		}
		if (!strcmp(end, "commit"))
			r = futils_safew_fclose_commit(f);
		else if (!strcmp(end, "crc"))
			r = futils_safew_fclose_commit_with_crc(f);
		else if (!strcmp(end, "rollback"))
			r = futils_safew_fclose_rollback(f);
		else
			r = 0;
		sm->ret = r;
		emit("/");
		sess = next;
	}
	sprintf(t, "%d", sm_open_watched());
	emit(t);
	_exit(0);
}

static const char *nameidx(const char *n)
{
	static const char *N[4] = { "P", "T", "C", "K" };
	char b[300];
	int i;
	for (i = 0; i < 4; i++) {
		snprintf(b, sizeof(b), "%s%s", base, sfx[i]);
		if (!strncmp(b, n, 63))
			if (strlen(n) >= 63 || !strcmp(b, n))
				return N[i];
	}
	return n;
}

static void parse_faults(char *s)
{
	char *p;
	alloc_at = alloc_n = 0;
	if (!strcmp(s, "-"))
		return;
	for (p = strtok(s, ","); p; p = strtok(NULL, ",")) {
		if (!strncmp(p, "alloc@", 6)) {
			alloc_at = atoi(p + 6);
			continue;
		}
		struct sm_fault *q = &sm_faults[sm_nfaults++];
		char *at = strchr(p, '@'), *e;
		int i;
		memset(q, 0, sizeof(*q));
		q->op = -1;
		if (at) {
			*at = 0;
			for (i = 0; i < SM_NOPS; i++)
				if (!strcmp(p, sm_opname(i)))
					q->op = i;
			p = at + 1;
		}
		q->at = strtol(p, &e, 10);
		if (*e == '+') {
			q->persistent = 1;
			e++;
		}
		if (*e == ':')
			e++;
		if (*e == 'k')
			q->kill = 1;
		else if (*e == 's')
			q->shortio = atoi(e + 1);
		else
			q->err = atoi(e);
	}
}

/* the checksum file of a version, learnt from the code under test */
static int learn(int v)
{
	int i, st;
	char b[300];
	pid_t pid;
	clean();
	strcpy(base, "f");
	pid = fork();
	if (!pid) {
		struct futils_safew_file *f = futils_safew_fopen("f");
		if (f)
			futils_safew_fwrite(V[v], 1, VN[v], f);
		_exit(f && !futils_safew_fclose_commit_with_crc(f) ? 0 : 1);
	}
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st))
		return -1;
	FILE *fp = fopen("f.crc", "r");
	CN[v] = 0;
	if (fp) {
		CN[v] = fread(C[v], 1, sizeof(C[v]), fp);
		fclose(fp);
	}
	clean();
	return 0;
}

int main(int argc, char **argv)
{
	static char line[4096], prog[1024], state[64], faults[512], path[512];
	char id[32], t[4][8];
	unsigned long s1, s2, ls1 = -1, ls2 = -1;
	int lt = -1;
	int i, st;
	if (argc < 2 || chdir(argv[1]) || !getcwd(dirp, sizeof(dirp)))
		return 77;
	umask(022);
	sm_init();
	while (fgets(line, sizeof(line), stdin)) {
		if (sscanf(line, "%31s %1023s %lu %lu %63s %511s %511s", id, prog, &s1, &s2, state, faults, path) != 7)
			continue;
		int text = strchr(prog, 'p') != NULL;
		if (s1 != ls1 || s2 != ls2 || text != lt) {
			gen(1, s1, text);
			gen(2, s2, text);
			lt = text;
			ls1 = s1;
			ls2 = s2;
			if (learn(1) || learn(2)) {
				printf("{\"id\":\"%s\",\"learn\":0}\n", id);
				ls1 = -1;
				continue;
			}
		}
		const char *bn = strrchr(path, '/');
		snprintf(base, sizeof(base), "%s", bn ? bn + 1 : path);
		setup(state);
		sm_reset();
		parse_faults(faults);
		sm_refs[0].p = V[1]; sm_refs[0].n = VN[1];
		sm_refs[1].p = V[2]; sm_refs[1].n = VN[2];
		sm_refs[2].p = C[1]; sm_refs[2].n = CN[1];
		sm_refs[3].p = C[2]; sm_refs[3].n = CN[2];
		fflush(stdout);
		pid_t pid = fork();
		if (!pid) {
			alarm(20);
			child(prog, path);
		}
		waitpid(pid, &st, 0);
		int crash = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
		if (crash == 77)
			return 77;
		for (i = 0; i < 4; i++) {
			char b[300];
			full(b, sizeof(b), i);
			tok(b, i >= 2, t[i]);
		}
		/* anything else lying about */
		int extra = 0;
		DIR *d = opendir(".");
		struct dirent *e;
		while ((e = readdir(d))) {
			int known = !strcmp(e->d_name, ".") || !strcmp(e->d_name, "..");
			for (i = 0; i < 4; i++) {
				char b[300];
				full(b, sizeof(b), i);
				known |= !strcmp(b, e->d_name);
			}
			extra += !known;
		}
		closedir(d);
		printf("{\"id\":\"%s\",\"n1\":%lu,\"n2\":%lu,\"cn\":%lu,\"crash\":%d,\"killed\":%d,\"ret\":%ld,"
		       "\"user\":\"%s\",\"hit\":%d,\"fin\":[\"%s\",\"%s\",\"%s\",\"%s\"],\"extra\":%d,\"nops\":%d",
		       id, s1, s2, (unsigned long)CN[2], crash, sm->killed, sm->ret,
		       sm->user, sm->faults_hit, t[0], t[1], t[2], t[3], extra, sm->n);
		if (argc > 2) {     /* with the operations */
			printf(",\"ops\":[");
			for (i = 0; i < sm->n; i++) {
				struct sm_rec *r = &sm->rec[i];
				printf("%s{\"o\":\"%s\",\"n\":\"%s\",\"m\":\"%s\",\"fd\":%d,\"r\":%ld,\"cr\":%d,\"tr\":%d,\"w\":%d,\"off\":%ld,\"len\":%ld,\"ma\":%u}",
				       i ? "," : "", sm_opname(r->op), strcmp(r->n1, "*") ? nameidx(r->n1) : "*", nameidx(r->n2), r->fd, r->ret,
				       !!(r->flags & O_CREAT), !!(r->flags & O_TRUNC),
				       (r->flags & O_ACCMODE) != O_RDONLY, r->off, r->len, r->match & 15);
			}
			printf("]");
		}
		printf("}\n");
		clean();
	}
	return 0;
}
