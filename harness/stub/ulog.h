/* Stand-in for libulog's ulog.h (libulog is not available offline).
 * It keeps the macro interface and drops every message. */
#ifndef VF_STUB_ULOG_H
#define VF_STUB_ULOG_H
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C" {
#endif
static inline void __attribute__((format(printf, 1, 2), unused))
vf_ulog_drop(const char *fmt, ...)
{
	(void)fmt;
}
#ifdef __cplusplus
}
#endif

struct vf_ulog_cookie { int unused; };
#define ULOG_DECLARE_TAG(_tag) \
	extern int vf_ulog_tag_unused
#define ULOG_EXPORT_API
#define ULOG_CRIT 2
#define ULOG_ERR 3
#define ULOG_WARN 4
#define ULOG_NOTICE 5
#define ULOG_INFO 6
#define ULOG_DEBUG 7
#define ULOG_PRI(_p, ...) vf_ulog_drop(__VA_ARGS__)
#define ULOGC(...) vf_ulog_drop(__VA_ARGS__)
#define ULOGE(...) vf_ulog_drop(__VA_ARGS__)
#define ULOGW(...) vf_ulog_drop(__VA_ARGS__)
#define ULOGN(...) vf_ulog_drop(__VA_ARGS__)
#define ULOGI(...) vf_ulog_drop(__VA_ARGS__)
#define ULOGD(...) vf_ulog_drop(__VA_ARGS__)
#define ULOG_ERRNO(_fmt, _err, ...) \
	do { (void)(_err); vf_ulog_drop(_fmt, ##__VA_ARGS__); } while (0)
#define ULOGE_ERRNO(_err, _fmt, ...) ULOG_ERRNO(_fmt, _err, ##__VA_ARGS__)
#define ULOGW_ERRNO(_err, _fmt, ...) ULOG_ERRNO(_fmt, _err, ##__VA_ARGS__)
#define ULOGI_ERRNO(_err, _fmt, ...) ULOG_ERRNO(_fmt, _err, ##__VA_ARGS__)
#define ULOG_ERRNO_RETURN_IF(_cond, _err) \
	do { if (_cond) { (void)(_err); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_cond, _err) \
	do { if (_cond) { int vf_e_ = (_err); return -vf_e_; } } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_cond, _err, _val) \
	do { if (_cond) { (void)(_err); return (_val); } } while (0)
#endif
