/* Stand-in for the BSD header: only what cpuinfo uses. */
#ifndef VF_SYS_SYSCTL_H
#define VF_SYS_SYSCTL_H
#include <stddef.h>
int sysctlbyname(const char* name, void* old, size_t* old_size, const void* new_value, size_t new_size);
#endif
