#include <errno.h>
#include <stddef.h>
#include <string.h>
#include "acct.h"

#define CAP (1 << 16)
int acct_on, acct_fail_at = -1, acct_hit, acct_n;
static void *live[CAP];
static int nlive;

extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);

int acct_live(void) { return nlive; }
void acct_reset(int fail_at)
{
	acct_fail_at = fail_at;
	acct_hit = acct_n = nlive = 0;
}
static int fails(void)
{
	if (!acct_on)
		return 0;
	if (acct_n++ == acct_fail_at) {
		acct_hit = 1;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}
static void *add(void *p)
{
	if (acct_on && p && nlive < CAP)
		live[nlive++] = p;
	return p;
}
static int drop(void *p)
{
	int i;
	for (i = nlive - 1; i >= 0; i--)
		if (live[i] == p) {
			live[i] = live[--nlive];
			return 1;
		}
	return 0;
}
void *__wrap_malloc(size_t n) { return fails() ? NULL : add(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return fails() ? NULL : add(__real_calloc(n, m)); }
void *__wrap_realloc(void *p, size_t n)
{
	void *q;
	if (fails())
		return NULL;
	q = __real_realloc(p, n);
	if (q || !n) {
		drop(p);
		add(q);
	}
	return q;
}
void __wrap_free(void *p)
{
	if (p)
		drop(p);
	__real_free(p);
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	return p ? memcpy(p, s, n) : NULL;
}
char *__wrap_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = __wrap_malloc(n + 1);
	if (!p)
		return NULL;
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
