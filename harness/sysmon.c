#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include "sysmon.h"

#define MAGIC 0x5a17c0deu

struct sm_shared *sm;
struct sm_ref sm_refs[SM_MAXREF];
struct sm_fault sm_faults[8];
unsigned long sm_big_lo, sm_big_hi, sm_big_cap;
int sm_nfaults, sm_want_ino, sm_all_paths, sm_os_known, sm_dt_unknown, sm_os_alter = -1;
static char dir[512];
static size_t dirlen;
static int paused, active;
struct fdinfo { int used; char name[64]; long pos; int append; };
static struct fdinfo fds[1024];

static const int traps[] = {
	__NR_openat, __NR_open, __NR_creat, __NR_close, __NR_read, __NR_pread64, __NR_readv, __NR_write, __NR_writev,
	__NR_pwrite64, __NR_fsync, __NR_fdatasync, __NR_sync_file_range, __NR_sync, __NR_syncfs, __NR_rename,
	__NR_renameat, __NR_renameat2, __NR_unlink, __NR_unlinkat, __NR_truncate, __NR_ftruncate, __NR_link,
	__NR_linkat, __NR_symlink, __NR_symlinkat, __NR_copy_file_range, __NR_sendfile, __NR_getdents64,
	__NR_newfstatat, __NR_lstat, __NR_stat, __NR_fstat, __NR_statx, __NR_getrandom, __NR_dup, __NR_dup2, __NR_dup3, __NR_fcntl,
	__NR_lseek,
};

static long raw(long nr, long a, long b, long c, long d, long e)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = (long)MAGIC;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
			 : "rcx", "r11", "memory");
	return ret;
}

void sm_init(void)
{
	sm = mmap(NULL, sizeof(*sm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sm == MAP_FAILED) {
		perror("mmap");
		_exit(77);
	}
}
void sm_reset(void)
{
	sm->nbig = 0;
	sm->elsewhere = 0;
	sm->nos = sm->n = sm->killed = sm->overflow = sm->faults_hit = 0;
	sm->ret = -9999;
	sm->user[0] = 0;
	sm_nfaults = 0;
}

/* name of a path relative to the watched directory, or NULL */
static const char *rel(const char *p)
{
	if (!p)
		return NULL;
	if (*p != '/') {
		while (p[0] == '.' && p[1] == '/') {
			p += 2;
			while (*p == '/')
				p++;
		}
		return p;
	}
	if (!strncmp(p, dir, dirlen) && (p[dirlen] == '/' || !p[dirlen])) {
		p += dirlen;
		while (*p == '/')
			p++;
		while (p[0] == '.' && p[1] == '/') {
			p += 2;
			while (*p == '/')
				p++;
		}
		return *p ? p : ".";
	}
	return NULL;
}
static void cpy(char *d, const char *s)
{
	size_t i;
	for (i = 0; s && s[i] && i < 63; i++)
		d[i] = s[i];
	d[i] = 0;
}
static struct fdinfo *F(int fd)
{
	return fd >= 0 && fd < 1024 && fds[fd].used ? &fds[fd] : NULL;
}

static uint32_t match(const uint8_t *p, size_t n, long off)
{
	uint32_t m = 0;
	int i;
	for (i = 0; i < SM_MAXREF; i++)
		if (sm_refs[i].p && off >= 0 && (size_t)off + n <= sm_refs[i].n && !memcmp(p, sm_refs[i].p + off, n))
			m |= 1u << i;
	return m;
}

static int counted(int op) { return op != SM_STAT || sm_all_paths; }

static void on_sys(int sig, siginfo_t *si, void *uc_)
{
	ucontext_t *uc = uc_;
	greg_t *g = uc->uc_mcontext.gregs;
	long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8];
	int op = -1, i, log = 0, err = 0, inj = 0;
	struct sm_rec R;
	const char *p1 = NULL, *p2 = NULL;
	struct fdinfo *f = NULL;
	long ret;

	if (paused || !active) {
		g[REG_RAX] = raw(nr, a, b, c, d, e);
		return;
	}
	memset(&R, 0, sizeof(R));
	R.nr = (int)nr;
	R.fd = -1;
	R.off = -1;
	switch (nr) {
	case __NR_openat: op = SM_OPEN; p1 = (const char *)b; R.flags = (int)c; break;
	case __NR_open: op = SM_OPEN; p1 = (const char *)a; R.flags = (int)b; break;
	case __NR_creat: op = SM_OPEN; p1 = (const char *)a; R.flags = O_CREAT | O_TRUNC | O_WRONLY; break;
	case __NR_close: op = SM_CLOSE; f = F((int)a); R.fd = (int)a; break;
	case __NR_read: case __NR_pread64: case __NR_readv:
		op = SM_READ; f = F((int)a); R.fd = (int)a; R.len = nr == __NR_readv ? -1 : c; break;
	case __NR_write: case __NR_pwrite64: case __NR_writev:
		op = SM_WRITE; f = F((int)a); R.fd = (int)a; R.len = nr == __NR_writev ? -1 : c; break;
	case __NR_fsync: case __NR_fdatasync: op = SM_FSYNC; f = F((int)a); R.fd = (int)a; break;
	case __NR_sync: case __NR_syncfs: op = SM_FSYNC; log = 1; cpy(R.n1, "*"); break;
	case __NR_rename: op = SM_RENAME; p1 = (const char *)a; p2 = (const char *)b; break;
	case __NR_renameat: case __NR_renameat2: op = SM_RENAME; p1 = (const char *)b; p2 = (const char *)d; break;
	case __NR_unlink: op = SM_UNLINK; p1 = (const char *)a; break;
	case __NR_unlinkat: op = SM_UNLINK; p1 = (const char *)b; break;
	case __NR_truncate: op = SM_TRUNC; p1 = (const char *)a; R.len = b; break;
	case __NR_ftruncate: op = SM_TRUNC; f = F((int)a); R.fd = (int)a; R.len = b; break;
	case __NR_getdents64: op = SM_GETDENTS; f = F((int)a); R.fd = (int)a; break;
	case __NR_newfstatat: op = SM_STAT; p1 = (const char *)b;
		if (p1 && !*p1) { f = F((int)a); R.fd = (int)a; p1 = NULL; } break;
	case __NR_statx: op = SM_STAT; p1 = (const char *)b;
		if (p1 && !*p1) { f = F((int)a); R.fd = (int)a; p1 = NULL; } break;
	case __NR_lstat: case __NR_stat: op = SM_STAT; p1 = (const char *)a; break;
	case __NR_fstat: op = SM_STAT; f = F((int)a); R.fd = (int)a; break;
	case __NR_getrandom: op = SM_GETRANDOM; log = 1; R.len = b; break;
	case __NR_lseek:
		ret = raw(nr, a, b, c, d, e);
		if (ret >= 0 && F((int)a))
			F((int)a)->pos = ret;
		g[REG_RAX] = ret;
		return;
	case __NR_dup: case __NR_dup2: case __NR_dup3: case __NR_fcntl:
		ret = raw(nr, a, b, c, d, e);
		if (ret >= 0 && F((int)a) && ret < 1024 && (nr != __NR_fcntl || b == F_DUPFD || b == F_DUPFD_CLOEXEC))
			fds[ret] = fds[(int)a];
		g[REG_RAX] = ret;
		return;
	default: op = SM_OTHER; log = 1; break;
	}
	if (p1 && rel(p1)) {
		log = 1;
		cpy(R.n1, rel(p1));
		/* names relative to a watched directory descriptor */
		if (*p1 != '/' && (nr == __NR_openat || nr == __NR_newfstatat || nr == __NR_statx || nr == __NR_unlinkat) && F((int)a)) {
			char t[64];
			snprintf(t, sizeof(t), "%.30s/%.30s", F((int)a)->name, rel(p1));
			cpy(R.n1, t);
		}
	} else if (p1 && sm_all_paths) {
		log = 1;
		cpy(R.n1, p1);
	}
	if (p2 && rel(p2)) {
		log = 1;
		cpy(R.n2, rel(p2));
	}
	if (f) {
		log = 1;
		cpy(R.n1, f->name);
	}
	if (!log) {
		g[REG_RAX] = raw(nr, a, b, c, d, e);
		return;
	}
	R.op = op;
	/* faults */
	long part = 0, zero = 0, fake = 0;
	if (counted(op)) {
		int idx = sm->n;
		static int perkind[SM_NOPS];
		int kidx = perkind[op]++;
		for (i = 0; i < sm_nfaults; i++) {
			struct sm_fault *q = &sm_faults[i];
			int at = q->op < 0 ? idx : kidx;
			if (q->op >= 0 && q->op != op)
				continue;
			if (at == q->at || (q->persistent && at >= q->at)) {
				if (q->kill) {
					sm->killed = 1;
					raw(__NR_exit_group, 0, 0, 0, 0, 0);
				}
				if (q->fake) {
					fake = 1;
					continue;
				}
				if (q->zero)
					zero = op == SM_READ || op == SM_GETRANDOM;
				else if (q->shortio) {
					if ((op == SM_WRITE || op == SM_READ || op == SM_GETRANDOM) && R.len > 1)
						part = R.len / q->shortio ? R.len / q->shortio : 1;
					if (part >= R.len)
						part = R.len - 1;
				} else
					err = q->err;
				inj = 1;
				sm->faults_hit++;
			}
		}
	}
	if (f && op == SM_WRITE)
		R.off = nr == __NR_pwrite64 ? d : f->append ? -1 : f->pos;
	if (err) {
		ret = -err;
		if (op == SM_CLOSE && a >= 0)      /* the descriptor is gone all the same */
			raw(nr, a, b, c, d, e);
	} else if (zero || fake) {
		ret = 0;
	} else if (sm_big_cap && (op == SM_GETRANDOM || (op == SM_READ && f && strstr(f->name, "random")))) {
		unsigned long o = op == SM_GETRANDOM ? a : b, n = op == SM_GETRANDOM ? b : c;
		if (n > sm_big_cap)
			n = sm_big_cap;
		ret = n;
		if (o < sm_big_lo || o >= sm_big_hi) {
			memset((void *)o, 0x5a, n);
			sm->elsewhere += n;
		} else if (n > sm_big_hi - o) {
			ret = -EFAULT;
		} else if (sm->nbig && sm->big[sm->nbig - 1][1] == o) {
			sm->big[sm->nbig - 1][1] = o + n;
		} else if (n && sm->nbig < 512) {
			sm->big[sm->nbig][0] = o;
			sm->big[sm->nbig++][1] = o + n;
		}
	} else if (part) {
		if (op == SM_GETRANDOM)
			ret = raw(nr, a, part, c, d, e);
		else
			ret = raw(nr, a, b, part, d, e);
	} else
		ret = raw(nr, a, b, c, d, e);
	if (sm_os_known && ret > 0 && (op == SM_GETRANDOM || (op == SM_READ && f && strstr(f->name, "random")))) {
		uint8_t *o = (uint8_t *)(op == SM_GETRANDOM ? a : b);
		for (i = 0; i < ret && sm->nos < (int)sizeof(sm->os); i++) {
			/* 1..250, looking irregular */
			uint32_t z = (uint32_t)(sm->nos + 1) * 2654435761u;
			z ^= z >> 15;
			z *= 2246822519u;
			o[i] = sm->os[sm->nos] = (1 + (z >> 13) % 250) ^ (sm->nos == sm_os_alter ? 4 : 0);
			sm->nos++;
		}
	}
	if (sm_dt_unknown && op == SM_GETDENTS && ret > 0) {
		long o = 0;
		while (o + 19 <= ret) {
			unsigned short rl;
			((uint8_t *)b)[o + 18] = 0;
			memcpy(&rl, (uint8_t *)b + o + 16, 2);
			o += rl;
		}
	}
	R.ret = ret;
	R.injected = inj;
	if (sm_want_ino && ((op == SM_OPEN && ret >= 0) || op == SM_FSYNC)) {
		struct stat sb;
		if (!raw(__NR_fstat, op == SM_OPEN ? ret : a, (long)&sb, 0, 0, 0)) {
			R.dev = sb.st_dev;
			R.ino = sb.st_ino;
		}
	}
	if (op == SM_OPEN && ret >= 0 && ret < 1024) {
		R.fd = (int)ret;
		fds[ret].used = 1;
		cpy(fds[ret].name, R.n1);
		fds[ret].pos = 0;
		fds[ret].append = !!(R.flags & O_APPEND);
	}
	if (op == SM_CLOSE && f)
		f->used = 0;
	if (op == SM_WRITE && f && ret > 0) {
		if (nr == __NR_writev) {
			const struct iovec *v = (const struct iovec *)b;
			long o = R.off, left = ret;
			R.match = ~0u;
			for (i = 0; i < c && left > 0; i++) {
				long k = (long)v[i].iov_len < left ? (long)v[i].iov_len : left;
				if (k)
					R.match &= match(v[i].iov_base, k, o);
				o += k;
				left -= k;
			}
		} else
			R.match = match((const uint8_t *)b, ret, R.off);
		R.len = ret;
		if (nr != __NR_pwrite64)
			f->pos += ret;
	}
	if (op == SM_READ && f && ret > 0 && nr != __NR_pread64) {
		R.off = f->pos;
		f->pos += ret;
	}
	if (sm_big_cap && (op == SM_GETRANDOM || op == SM_READ)) {
		;
	} else if (sm->n < SM_MAXREC)
		sm->rec[sm->n++] = R;
	else
		sm->overflow = 1;
	g[REG_RAX] = ret;
}

void sm_pause(void) { paused = 1; }
void sm_resume(void) { paused = 0; }
int sm_open_watched(void)
{
	int i, n = 0;
	for (i = 0; i < 1024; i++)
		n += fds[i].used;
	return n;
}

int sm_start(const char *d)
{
	enum { NT = sizeof(traps) / sizeof(traps[0]) };
	struct sock_filter f[NT + 16];
	struct sock_fprog prog;
	struct sigaction sa;
	int n = 0, i;
	snprintf(dir, sizeof(dir), "%s", d);
	dirlen = strlen(dir);
	memset(fds, 0, sizeof(fds));
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_sys;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	if (sigaction(SIGSYS, &sa, NULL))
		return -1;
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[5]));
	f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (i = 0; i < NT; i++)
		f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, traps[i], NT - i, 0);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	prog.len = n;
	prog.filter = f;
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
		return -1;
	if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog))
		return -1;
	active = 1;
	return 0;
}

const char *sm_opname(int op)
{
	static const char *n[] = { "open", "close", "read", "write", "fsync", "rename", "unlink", "trunc", "stat",
				   "getdents", "getrandom", "other" };
	return op >= 0 && op < SM_NOPS ? n[op] : "?";
}
