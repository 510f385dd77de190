/* Accounts for the allocations of the code under test and makes one fail.
 * Link with --wrap= of ACCT's functions (acct_wraps in vf/checks/files.py). */
#ifndef VF_ACCT_H
#define VF_ACCT_H
extern int acct_on;          /* count and fail only while set */
extern int acct_fail_at;     /* index of the allocation that fails, or -1 */
extern int acct_hit;         /* it did */
extern int acct_n;           /* allocations so far */
int acct_live(void);         /* allocated and not freed */
void acct_reset(int fail_at);
#endif
