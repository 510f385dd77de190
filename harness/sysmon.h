/* Observes and perturbs the file system calls a piece of code makes, from
 * inside the process: a seccomp filter traps them, the SIGSYS handler logs
 * them in shared memory, carries them out, or makes them fail.  To be used in
 * a forked child only (a filter cannot be removed). */
#ifndef VF_SYSMON_H
#define VF_SYSMON_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

enum sm_op { SM_OPEN, SM_CLOSE, SM_READ, SM_WRITE, SM_FSYNC, SM_RENAME, SM_UNLINK, SM_TRUNC, SM_STAT, SM_GETDENTS,
	     SM_GETRANDOM, SM_OTHER, SM_NOPS };

struct sm_rec {
	int op;              /* enum sm_op */
	int nr;              /* system call number */
	int fd;              /* descriptor used, or returned by open */
	int flags;           /* open flags */
	long ret;            /* result: >= 0 or -errno */
	long off, len;       /* position and length of a write/read */
	uint32_t match;      /* references whose bytes the data equals at off */
	int injected;
	unsigned long dev, ino; /* what open and fsync worked on, with sm_want_ino */
	char n1[64], n2[64]; /* names, relative to the watched directory */
};

#define SM_MAXREC 4096
#define SM_MAXREF 6

struct sm_fault {
	int at;              /* index of the operation (of the counted ones) */
	int persistent;      /* and all following ones of the same kind */
	int err;             /* errno; 0 with kill or shortio set */
	int kill;            /* process dies instead of doing it */
	int zero;            /* read and getrandom answer 0 */
	int fake;            /* answer 0 without doing it */
	int shortio;         /* only this fraction (1/n) of the data moves */
	int op;              /* only operations of this kind count, or -1 */
};

struct sm_shared {
	volatile int n, killed, overflow;
	volatile int faults_hit;
	long ret;            /* for the user */
	char user[8192];
	unsigned long big[512][2], elsewhere;   /* stretches handed out, merged; bytes handed out to other places */
	int nbig;
	int nos;             /* bytes of the random source handed out */
	uint8_t os[65536];
	struct sm_rec rec[SM_MAXREC];
};

struct sm_ref { const uint8_t *p; size_t n; };

extern struct sm_shared *sm;             /* mapped by sm_init() */
extern struct sm_ref sm_refs[SM_MAXREF];
extern struct sm_fault sm_faults[8];
extern int sm_nfaults;
/* requests of any size: random sources hand out at most sm_big_cap bytes at a
 * time into [sm_big_lo, sm_big_hi), without writing them */
extern unsigned long sm_big_lo, sm_big_hi, sm_big_cap;
extern int sm_os_known;                  /* random sources answer with known bytes */
extern int sm_os_alter;                  /* this one of the known bytes is another one */
extern int sm_dt_unknown;                /* directory entries come without their type */
extern int sm_want_ino;
extern int sm_all_paths;                 /* log calls outside the directory too */

void sm_init(void);                      /* in the parent, once */
void sm_reset(void);                     /* in the parent, before each fork */
int sm_start(const char *dir);           /* in the child; dir: watched prefix */
void sm_pause(void);
void sm_resume(void);
int sm_open_watched(void);               /* descriptors opened and not closed */
const char *sm_opname(int op);
#endif
