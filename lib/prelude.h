/*
 * Force-included in front of every translation unit (the harness and the files
 * taken from /repo), both when the solver encoding is generated and when a
 * counterexample is replayed natively.
 *
 * 1. Pull in every libc header the sources use.
 * 2. Switch the predefined architecture macros when the flavour under check is
 *    not the host's (pointer width comes from the compiler, plain-char
 *    signedness from -f[un]signed-char).
 * 3. Rename the environment's entry points (files, allocator, cpuid, ...) to
 *    vf_* stand-ins which the harness defines.
 */
#ifndef VF_PRELUDE_H
#define VF_PRELUDE_H

#include <alloca.h>
#include <assert.h>
#include <ctype.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#if defined(VF_ARCH_X86)
#include <cpuid.h>
#endif

#if defined(VF_ARCH_ARM64) || defined(VF_ARCH_ARM) || defined(VF_ARCH_RISCV64) || defined(VF_ARCH_WASM)
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef __i486__
#undef __i586__
#undef __i686__
#undef i386
#endif
#if defined(VF_ARCH_ARM64)
#define __aarch64__ 1
#elif defined(VF_ARCH_ARM)
#define __arm__ 1
#define __ARM_ARCH 7
#elif defined(VF_ARCH_RISCV64)
#define __riscv 1
#define __riscv_xlen 64
#elif defined(VF_ARCH_WASM)
#define __wasm__ 1
#define __EMSCRIPTEN__ 1
#undef __linux__
#undef __linux
#undef linux
#endif

/* ---- environment stand-ins ------------------------------------------- */

#if defined(VF_STUB_FILES)
int vf_open(const char* path, int flags);
ssize_t vf_read(int fd, void* buffer, size_t capacity);
int vf_close(int fd);
#define open(path, ...) vf_open((path), __VA_ARGS__)
#define read(fd, buffer, capacity) vf_read((fd), (buffer), (capacity))
#define close(fd) vf_close(fd)
#endif

#if defined(VF_STUB_ALLOC)
void* vf_malloc(size_t size);
void* vf_calloc_hint(size_t count, size_t size, const char* hint);
void vf_free(void* ptr);
#define malloc(size) vf_malloc(size)
#define calloc(count, size) vf_calloc_hint((count), (size), #size)
#define free(ptr) vf_free(ptr)
#endif

#if defined(VF_STUB_MEM)
int vf_memcmp(const void* a, const void* b, size_t n);
void* vf_memset(void* p, int c, size_t n);
void* vf_memmove(void* d, const void* s, size_t n);
#define memcmp vf_memcmp
#define memset vf_memset
#define memmove vf_memmove
#endif

#if defined(VF_STUB_COPY)
/* whole-structure memcpy as an assignment: byte-wise it is unaffordable */
#include <cpuinfo.h>
#define VF_COPY(name, type) \
	static inline void* vf_copy_##name(void* d, const void* s, size_t n) { \
		if (n == sizeof(type)) { \
			*(type*)d = *(const type*)s; \
			return d; \
		} \
		return memcpy(d, s, n); \
	}
VF_COPY(processor, struct cpuinfo_processor)
VF_COPY(core, struct cpuinfo_core)
VF_COPY(cluster, struct cpuinfo_cluster)
VF_COPY(package, struct cpuinfo_package)
static inline void* vf_copy_any(void* d, const void* s, size_t n) {
	return memcpy(d, s, n);
}
#define memcpy(d, s, n) \
	_Generic((d), struct cpuinfo_processor*: vf_copy_processor, struct cpuinfo_core*: vf_copy_core, \
		struct cpuinfo_cluster*: vf_copy_cluster, struct cpuinfo_package*: vf_copy_package, default: vf_copy_any)((d), (s), (n))
#endif

#if defined(VF_STUB_PRCTL)
#include <sys/prctl.h>
int vf_prctl(int option, ...);
#define prctl vf_prctl
#endif

#if defined(VF_STUB_AUXV)
#include <sys/auxv.h>
unsigned long vf_getauxval(unsigned long type);
#define getauxval vf_getauxval
#endif

#if defined(VF_STUB_FORMAT)
int vf_vsnprintf(char* s, size_t n, const char* format, va_list args);
int vf_snprintf(char* s, size_t n, const char* format, ...);
#define vsnprintf vf_vsnprintf
#define snprintf vf_snprintf
#endif

#if defined(VF_STUB_QSORT)
void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*));
#define qsort(base, count, size, compare) vf_qsort((base), (count), (size), (compare))
#endif

#if defined(VF_STUB_ABORT)
void vf_abort(void);
#define abort() vf_abort()
#endif

#if defined(VF_STUB_ONCE)
int vf_pthread_once(pthread_once_t* guard, void (*routine)(void));
#define pthread_once vf_pthread_once
#endif

#if defined(VF_STUB_SIGNBIT)
int vf_signbit(float x);
#undef signbit
#define signbit(x) vf_signbit(x)
#endif

#if defined(VF_STUB_STRSTR)
char* vf_strstr(const char* text, const char* word);
#define strstr vf_strstr
#endif

#if defined(VF_STUB_SYSCALL)
long vf_syscall(long number, ...);
#define syscall vf_syscall
#endif

#if defined(VF_STUB_AFFINITY)
int vf_sched_getaffinity(int pid, size_t size, cpu_set_t* set);
int vf_sched_setaffinity(int pid, size_t size, const cpu_set_t* set);
#define sched_getaffinity vf_sched_getaffinity
#define sched_setaffinity vf_sched_setaffinity
#endif

#if defined(VF_STUB_WRITE)
ssize_t vf_write(int fd, const void* buffer, size_t size);
int vf_vsnprintf(char* s, size_t n, const char* format, va_list args);
int vf_snprintf(char* s, size_t n, const char* format, ...);
#define write(fd, buffer, size) vf_write((fd), (buffer), (size))
#define vsnprintf vf_vsnprintf
#define snprintf vf_snprintf
#endif

#if defined(VF_ARCH_X86) && !defined(VF_REAL_CPUID)
void vf_cpuid(uint32_t leaf, uint32_t subleaf, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d);
uint64_t vf_xgetbv(uint32_t reg);
#undef __cpuid
#undef __cpuid_count
#define __cpuid(leaf, a, b, c, d) vf_cpuid((leaf), 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(leaf, subleaf, a, b, c, d) vf_cpuid((leaf), (subleaf), &(a), &(b), &(c), &(d))
/* xgetbv is an inline-assembly wrapper: keep it under another name, and send callers to the stand-in */
#define xgetbv vf_repo_xgetbv
#include <x86/cpuid.h>
#undef xgetbv
#define xgetbv(reg) vf_xgetbv(reg)
#endif

#endif
