/* R05: one call of futils_random_strong in a process whose system calls are
 * observed and made to fail.
 *  <id> <len> <null> <nfaults> {<kind> <at> <persistent> <what>}...
 *  kind: g (getrandom) o (open) r (read) c (close); what: e<errno>, s<n> (1/n of it), z (answers 0) */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "futils/random.h"
#include "sysmon.h"

#define AREA (1 << 16)

/*  <id> big <len> <cap> <device>: a large request, answered in pieces of at most cap bytes.  The buffer is the same 16 MiB over
 *  and over: only the places that are handed out matter. */
#define CHUNK (16ul << 20)
static void pos(unsigned long x) { printf("[%lu,%lu]", x >> 20, x & 0xfffff); }
static int big(const char *l)
{
	char id[32];
	unsigned long len, cap, size, o;
	int dev, st, i, fd;
	pid_t p;
	uint8_t *m;
	sscanf(l, "%31s big %lu %lu %d", id, &len, &cap, &dev);
	size = (len + CHUNK - 1) / CHUNK * CHUNK;
	fd = memfd_create("big", 0);
	m = mmap(NULL, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (fd < 0 || ftruncate(fd, CHUNK) || m == MAP_FAILED)
		return 77;
	for (o = 0; o < size; o += CHUNK)
		if (mmap(m + o, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
			return 77;
	close(fd);
	sm_reset();
	sm_nfaults = dev;
	memset(sm_faults, 0, sizeof(sm_faults));
	sm_faults[0] = (struct sm_fault){ .op = SM_GETRANDOM, .persistent = 1, .err = ENOSYS };
	sm_big_lo = (unsigned long)m + size - len;
	sm_big_hi = (unsigned long)m + size;
	fflush(stdout);
	p = fork();
	if (!p) {
		sm_all_paths = 1;
		sm_big_cap = cap;
		alarm(300);
		if (sm_start("/nonexistent-dir-of-nobody"))
			_exit(77);
		int r = futils_random_strong((void *)sm_big_lo, len);
		sm_pause();
		sm->ret = r;
		snprintf(sm->user, sizeof(sm->user), "%d", sm_open_watched());
		_exit(0);
	}
	if (waitpid(p, &st, 0) != p || (WIFEXITED(st) && WEXITSTATUS(st) == 77))
		return 77;
	printf("{\"id\":%s,\"k\":\"big\",\"st\":%d,\"ret\":%ld,\"leak\":%d,\"over\":%d,\"len\":", id, st, sm->ret, atoi(sm->user), sm->nbig >= 512);
	pos(len);
	printf(",\"to\":[");
	for (i = 0; i < sm->nbig; i++) {
		printf("%s[", i ? "," : "");
		pos(sm->big[i][0] - sm_big_lo);
		printf(",");
		pos(sm->big[i][1] - sm_big_lo);
		printf("]");
	}
	printf("],\"elsewhere\":");
	pos(sm->elsewhere);
	printf("}\n");
	munmap(m, size + 4096);
	return 0;
}
int main(void)
{
	static char *line;
	static size_t cap;
	uint8_t *m = mmap(NULL, AREA + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED || mprotect(m + AREA, 4096, PROT_NONE))
		return 77;
	sm_init();
	while (getline(&line, &cap, stdin) > 0) {
		char id[32];
		int len, null, nf, off, i, st, n = 0, border = 1;
		pid_t p;
		uint8_t *b;
		if (strstr(line, " big ")) {
			if (big(line))
				return 77;
			continue;
		}
		sscanf(line, "%31s %d %d %d%n", id, &len, &null, &nf, &off);
		sm_reset();
		for (i = 0; i < nf; i++) {
			char k, w[16];
			int at, pers;
			struct sm_fault *q = &sm_faults[i];
			sscanf(line + off, " %c %d %d %15s%n", &k, &at, &pers, w, &n);
			off += n;
			memset(q, 0, sizeof(*q));
			q->op = k == 'g' ? SM_GETRANDOM : k == 'o' ? SM_OPEN : k == 'r' ? SM_READ : SM_CLOSE;
			q->at = at;
			q->persistent = pers;
			if (w[0] == 'e')
				q->err = atoi(w + 1);
			else if (w[0] == 's')
				q->shortio = atoi(w + 1);
			else
				q->zero = 1;
		}
		sm_nfaults = nf;
		b = m + AREA - len;
		memset(m, 0xff, AREA);
		fflush(stdout);
		p = fork();
		if (!p) {
			sm_all_paths = 1;
			sm_os_known = 1;
			alarm(20);
			if (sm_start("/nonexistent-dir-of-nobody"))
				_exit(77);
			if (null & 2)   /* a device opened now is descriptor 0 */
				close(0);
			int r = futils_random_strong(null & 1 ? NULL : b, len);
			sm_pause();
			sm->ret = r;
			snprintf(sm->user, sizeof(sm->user), "%d", sm_open_watched());
			_exit(0);
		}
		if (waitpid(p, &st, 0) != p || (WIFEXITED(st) && WEXITSTATUS(st) == 77))
			return 77;
		for (i = 0; i < AREA - len; i++)
			border &= m[i] == 0xff;
		printf("{\"id\":%s,\"k\":\"call\",\"len\":%d,\"nul\":%d,\"st\":%d,\"ret\":%ld,\"border\":%d,\"leak\":%d,\"over\":%d,\"ops\":[", id, len, null & 1, st,
		       sm->ret, border, atoi(sm->user), sm->overflow);
		for (i = 0; i < sm->n; i++) {
			struct sm_rec *R = &sm->rec[i];
			printf("%s[\"%s\",%ld,%d,%d]", i ? "," : "", sm_opname(R->op), R->ret, R->injected,
			       R->op == SM_OPEN ? R->flags : 0);
		}
		printf("],\"os\":[");
		for (i = 0; i < sm->nos; i++)
			printf("%s%d", i ? "," : "", sm->os[i]);
		printf("],\"buf\":[");
		for (i = 0; i < len && !null; i++)
			printf("%s%d", i ? "," : "", b[i]);
		printf("]}\n");
	}
	return 0;
}
