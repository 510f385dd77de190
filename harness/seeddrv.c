/* R07: the generator's seeding in a process whose system calls are observed
 * and made to fail.
 *  <id> <program> <nfaults> {<kind> <at> <persistent> <what>}...
 * program: g (16 bytes) G (700 bytes) w (16 bytes by words) r (reseed)
 * F (the rest in a forked child); faults as in entdrv.c.  The bytes the system hands out are known;
 * the program is repeated with one of them changed, for each of them: the
 * outputs that change are the ones that derive from it. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "futils/random.h"
#include "sysmon.h"

#define MAXO 24
struct res { int n; struct { int ret, a, b, sa, sb; uint64_t h; } o[MAXO]; int leak, done; };
static struct res base, var;
static int st0, st1;

static uint64_t hash(const uint8_t *b, int n)
{
	uint64_t h = 1469598103934665603ull;
	while (n--)
		h = (h ^ *b++) * 1099511628211ull;
	return h;
}
static int run(const char *prog, int alter, struct res *r)
{
	int st;
	pid_t p;
	struct res *s = (struct res *)sm->user;
	_Static_assert(sizeof(struct res) <= sizeof(sm->user), "room");
	memset(s, 0, sizeof(*s));
	/* faults stay as they were parsed */
	sm->nos = sm->n = sm->killed = sm->overflow = sm->faults_hit = 0;
	p = fork();
	if (!p) {
		uint8_t b[700];
		uint64_t w[2];
		struct rlimit z = { 0, 0 };
		setrlimit(RLIMIT_CORE, &z);
		fclose(stderr);
		sm_all_paths = sm_os_known = 1;
		sm_os_alter = alter;
		alarm(20);
		if (sm_start("/nonexistent-dir-of-nobody"))
			_exit(77);
		for (; *prog; prog++) {
			int i = s->n;
			if (*prog == 'F') {
				int cs;
				pid_t c = fork();
				if (c) {
					if (waitpid(c, &cs, 0) != c)
						_exit(77);
					if (WIFSIGNALED(cs))
						abort();
					_exit(WEXITSTATUS(cs));
				}
				continue;
			}
			s->o[i].a = sm->nos;
			s->o[i].sa = sm->n;
			s->n = i + 1;
			if (*prog == 'r')
				s->o[i].ret = futils_random_reseed();
			else if (*prog == 'w') {
				w[0] = futils_randomr64();
				w[1] = (uint64_t)futils_randomr32() << 32 | (uint32_t)futils_randomr16() << 16 | futils_randomr8() << 8 | futils_randomr8();
				s->o[i].h = hash((void *)w, sizeof(w));
			} else {
				futils_random(b, *prog == 'g' ? 16 : 700);
				s->o[i].h = hash(b, *prog == 'g' ? 16 : 700);
			}
			s->o[i].b = sm->nos;
			s->o[i].sb = sm->n;
			s->done = i + 1;
		}
		sm_pause();
		s->leak = sm_open_watched();
		_exit(0);
	}
	if (waitpid(p, &st, 0) != p || (WIFEXITED(st) && WEXITSTATUS(st) == 77))
		exit(77);
	*r = *s;
	return st;
}
int main(void)
{
	static char *line;
	static size_t cap;
	sm_init();
	while (getline(&line, &cap, stdin) > 0) {
		char id[32], prog[64];
		int nf, off, i, k, n = 0, same = 1, nos;
		static char dep[MAXO][4096];
		sscanf(line, "%31s %63s %d%n", id, prog, &nf, &off);
		sm_reset();
		for (i = 0; i < nf; i++) {
			char kk, w[16];
			int at, pers;
			struct sm_fault *q = &sm_faults[i];
			sscanf(line + off, " %c %d %d %15s%n", &kk, &at, &pers, w, &n);
			off += n;
			memset(q, 0, sizeof(*q));
			q->op = kk == 'g' ? SM_GETRANDOM : kk == 'o' ? SM_OPEN : kk == 'r' ? SM_READ : SM_CLOSE;
			q->at = at;
			q->persistent = pers;
			if (w[0] == 'e')
				q->err = atoi(w + 1);
			else if (w[0] == 's')
				q->shortio = atoi(w + 1);
			else
				q->zero = 1;
		}
		sm_nfaults = nf;
		fflush(stdout);
		st0 = run(prog, -1, &base);
		nos = sm->nos;
		printf("{\"id\":%s,\"prog\":\"%s\",\"st\":%d,\"leak\":%d,\"over\":%d,\"sys\":[", id, prog, st0, base.leak, sm->overflow);
		for (i = 0; i < sm->n; i++) {
			struct sm_rec *R = &sm->rec[i];
			printf("%s[\"%s\",%ld,%d]", i ? "," : "", sm_opname(R->op), R->ret, R->injected);
		}
		memset(dep, 0, sizeof(dep));
		for (k = -1; k < nos && k < 4096; k++) {
			fflush(stdout);
			st1 = run(prog, k, &var);
			same &= st1 == st0 && var.n == base.n && var.done == base.done && sm->nos == nos;
			for (i = 0; i < base.n; i++) {
				same &= var.o[i].ret == base.o[i].ret && var.o[i].a == base.o[i].a;
				if (k < 0)
					same &= var.o[i].h == base.o[i].h;
				else
					dep[i][k] = var.o[i].h != base.o[i].h;
			}
		}
		printf("],\"same\":%d,\"ops\":[", same);
		for (i = 0; i < base.n; i++) {
			int c, first = 1, cls;
			for (cls = 0; base.o[cls].h != base.o[i].h; cls++)
				;
			for (c = 0; prog[c] == 'F' || c < i + (strchr(prog, 'F') && strchr(prog, 'F') - prog <= i); c++)
				;
			printf("%s{\"op\":\"%c\",\"done\":%d,\"ret\":%d,\"a\":%d,\"b\":%d,\"sa\":%d,\"sb\":%d,\"cls\":%d,\"d\":[", i ? "," : "", prog[c],
			       i < base.done, base.o[i].ret, base.o[i].a, i < base.done ? base.o[i].b : nos, base.o[i].sa,
			       i < base.done ? base.o[i].sb : 9999, cls);
			for (k = 0; k < nos; k++)
				if (dep[i][k]) {
					printf("%s%d", first ? "" : ",", k);
					first = 0;
				}
			printf("]}");
		}
		printf("]}\n");
	}
	return 0;
}
