/* Interface of libputils, as far as libfutils uses it; implemented by the
 * drivers that are linked with a library built with BUILD_LIBPUTILS. */
#ifndef VF_PUTILS_PROPERTIES_H
#define VF_PUTILS_PROPERTIES_H
#define SYS_PROP_KEY_MAX 32
#define SYS_PROP_VALUE_MAX 92
int sys_prop_set(const char *key, const char *value);
/* returns the length of the value; the default (or the empty string) when the
 * property does not exist */
int sys_prop_get(const char *key, char *value, const char *default_value);
#endif
