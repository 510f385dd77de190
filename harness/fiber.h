/* Deterministic cooperative scheduler used to enumerate interleavings of the
 * real library code: every pthread mutex/condition call, clock call and
 * blocking system call of the code under test is redirected here (ld --wrap),
 * threads are ucontext fibers, time is virtual. */
#ifndef VF_FIBER_H
#define VF_FIBER_H
#include <stdint.h>
#include <stddef.h>

#define FIB_MAX 24

enum { FIB_DONE = 0, FIB_STUCK = 1, FIB_LIVELOCK = 2 };

struct fib_cfg {
	int random;          /* 0: depth first enumeration, 1: random */
	int budget;          /* bound on preemptions + injected events */
	int mem_yield;       /* yield at instrumented memory accesses */
	int eintr;           /* allow EINTR injection */
	int spurious;        /* allow spurious wake-ups */
	int early_fire;      /* allow timers to fire while others can run */
	uint64_t seed;
	int preempt_permille;/* random mode */
	uint64_t max_steps;
};

void fib_configure(const struct fib_cfg *cfg);
/* start a new execution */
void fib_begin(void);
int fib_spawn(void (*fn)(void *), void *arg);
int fib_run(void);
/* after a run: prepare next schedule; 0 when enumeration is exhausted */
int fib_next(void);
void fib_yield(void);
int fib_self(void);
int fib_is_blocked(int id);
/* block the calling fiber until fd is readable */
void fib_wait_readable(int fd);
void fib_stop_waiting(void);
/* a long run of calls made progress: its steps are no livelock */
void fib_progress(void);
uint64_t fib_now_us(void);
void fib_step_wall(int64_t us);
int fib_time_raced(void);
extern unsigned long fib_switches, fib_points, fib_eintrs, fib_spurious, fib_fires;
uint64_t fib_rand(void);
/* last pipe created by the code under test */
extern int fib_last_pipe[2];
#endif
