/* Topology queries of the Apple and FreeBSD ports: every value, size and failure of every query. */
#include "vf.h"
#include <sys/sysctl.h>
#if defined(MACH)
#include <mach/api.h>
#include <TargetConditionals.h>
#else
#include <freebsd/api.h>
#endif

#undef malloc
#undef calloc
#undef free

static bool same_name(const char* a, const char* b) {
	for (uint32_t i = 0; i < 32; i++) {
		if (a[i] != b[i]) {
			return false;
		}
		if (a[i] == '\0') {
			return true;
		}
	}
	return false;
}

#define QUERIES 3
static const char* const names[QUERIES] = {
#if defined(MACH)
	"hw.physicalcpu_max", "hw.logicalcpu_max", "hw.packages",
#else
	"kern.smp.cores", "kern.smp.threads_per_core", "kern.smp.cpus",
#endif
};
static bool fails[QUERIES];
static int value[QUERIES];

static bool text_fails, text_fails_later;
#if defined(MACH)
static uint64_t configs[CONFIGS];
static uint32_t configs_count;
#define TEXT_NAME "hw.cacheconfig"
#else
#define TAG2 "<group level=\"2\" cache-level=\"0\">"
#define TAG1 "<group level=\"1\" "
#define TEXT_NAME "kern.sched.topology_spec"
static char text[sizeof(LAYOUT)];
static uint32_t text_length;
#endif

#if !defined(MACH)
static uint32_t live;
static bool no_memory;
#ifndef VF_REPLAY
static char pool[sizeof(LAYOUT)];
static size_t pool_size;
#endif
#endif

int sysctlbyname(const char* name, void* old, size_t* old_size, const void* new_value, size_t new_size) {
	vf_assert(new_value == NULL && new_size == 0, "nothing is set");
	for (uint32_t i = 0; i < QUERIES; i++) {
		if (same_name(name, names[i])) {
			if (fails[i]) {
				errno = ENOENT;
				return -1;
			}
			vf_assert(*old_size >= sizeof(int), "room for the value");
			*(int*)old = value[i];
			*old_size = sizeof(int);
			return 0;
		}
	}
	vf_assert(same_name(name, TEXT_NAME), "only known queries are made");
	if (old == NULL ? text_fails : text_fails_later) {
		errno = ENOENT;
		return -1;
	}
#if defined(MACH)
	const size_t size = configs_count * sizeof(uint64_t);
	if (old != NULL) {
		vf_assert(*old_size >= size, "room for the configuration");
		for (uint32_t i = 0; i < CONFIGS; i++) {
			if (i < configs_count) {
				((uint64_t*)old)[i] = configs[i];
			}
		}
	}
#else
	const size_t size = text_length;
	if (old != NULL) {
		vf_assert(*old_size >= size, "room for the description");
#ifndef VF_REPLAY
		vf_assert(*old_size <= pool_size, "no more room is claimed than allocated");
#endif
		for (uint32_t i = 0; i < sizeof(LAYOUT); i++) {
			if (i < text_length) {
				((char*)old)[i] = text[i];
			}
		}
	}
#endif
	*old_size = size;
	return 0;
}

#if !defined(MACH)
void* vf_calloc_hint(size_t count, size_t size, const char* hint) {
	(void)hint;
	if (no_memory) {
		return NULL;
	}
	vf_assert(live == 0, "one description at a time");
	live++;
#ifdef VF_REPLAY
	return calloc(count, size);
#else
	pool_size = count * size;
	return pool;
#endif
}

void* vf_malloc(size_t size) {
	return vf_calloc_hint(1, size, "");
}

void vf_free(void* p) {
	if (p != NULL) {
		vf_assert(live == 1, "freed once");
		live--;
#ifdef VF_REPLAY
		free(p);
#endif
	}
}

#ifdef VF_REPLAY
#undef strstr
char* vf_strstr(const char* text_, const char* word) {
	return strstr(text_, word);
}
#else
/* the standard's strstr for a start anywhere in the description: matches are sought at fixed places, which is cheap */
char* vf_strstr(const char* start, const char* word) {
	vf_assert(__CPROVER_same_object(start, pool) && start >= pool && start < pool + sizeof(pool), "the search starts in the description");
	const size_t offset = (size_t)(start - pool);
	vf_assert(pool_size >= sizeof(pool) && pool[sizeof(pool) - 1] == '\0', "the description is terminated");
	for (size_t k = 0; k < sizeof(pool); k++) {
		size_t i = 0;
		while (word[i] != '\0' && k + i < sizeof(pool) && pool[k + i] == word[i]) {
			i++;
		}
		if (k >= offset && word[i] == '\0') {
			return pool + k;
		}
	}
	return NULL;
}
#endif

static uint32_t count(const char* tag) {
	uint32_t n = 0;
	for (uint32_t i = 0; i < sizeof(LAYOUT); i++) {
		uint32_t j = 0;
		while (tag[j] != '\0' && i + j < text_length && text[i + j] == tag[j]) {
			j++;
		}
		n += tag[j] == '\0';
	}
	return n;
}
#endif

int main(void) {
	for (uint32_t i = 0; i < QUERIES; i++) {
		fails[i] = nd_bool();
		value[i] = (int)nd_u32();
	}
#ifndef READABLE
	text_fails = nd_bool();
	text_fails_later = nd_bool();
#endif
#if defined(MACH)
	configs_count = nd_range(0, CONFIGS);
	for (uint32_t i = 0; i < CONFIGS; i++) {
		configs[i] = nd_u64();
	}
	const struct cpuinfo_mach_topology t = cpuinfo_mach_detect_topology();
	vf_assert(t.packages >= 1 && t.packages <= t.cores && t.cores <= t.threads, "at least one package, no more packages than cores, no more cores than threads");
	const bool sane = !fails[0] && !fails[1] && value[0] > 0 && value[1] >= value[0];
	if (sane) {
		vf_assert(t.cores == (uint32_t)value[0] && t.threads == (uint32_t)value[1], "consistent counts are taken over");
		const bool packages = !TARGET_OS_IPHONE && !fails[2] && value[2] > 0 && value[2] <= value[0];
		vf_assert(t.packages == (packages ? (uint32_t)value[2] : 1), "consistent package counts are taken over");
		if (packages && value[2] == 2) {
			vf_witness("two packages");
		}
	}
	for (uint32_t i = 0; i < CPUINFO_MACH_MAX_CACHE_LEVELS; i++) {
		const bool given = !TARGET_OS_IPHONE && !text_fails && !text_fails_later && i < configs_count;
		vf_assert(t.threads_per_cache[i] == (given ? (uint32_t)configs[i] : 0), "sharing as reported, absent levels zero");
	}
	if (sane && value[1] > value[0]) {
		vf_witness("several threads per core");
	}
#else
#ifndef READABLE
	no_memory = nd_bool();
#endif
	/* a description with some characters replaced */
	const char layout[] = LAYOUT;
	for (uint32_t i = 0; i < sizeof(LAYOUT); i++) {
		text[i] = layout[i];
	}
#ifdef SMALL
	/* products of two large numbers are out of the solver's reach */
	vf_assume(value[SMALL] <= 7);
#endif
	static const uint32_t broken_at[] = {BROKEN};
	for (uint32_t i = 0; i < sizeof(broken_at) / sizeof(broken_at[0]) && i < sizeof(LAYOUT) - 1; i++) {
		text[broken_at[i]] = (char)nd_u8();
		vf_assume(text[broken_at[i]] != '\0');
	}
	text_length = sizeof(LAYOUT) - 1;
	const struct cpuinfo_freebsd_topology t = cpuinfo_freebsd_detect_topology();
	vf_assert(live == 0, "nothing leaks");
	const uint32_t tags2 = count(TAG2), tags1 = count(TAG1);
	const uint32_t groups = tags2 != 0 ? tags2 : tags1;
	const bool good = !text_fails && !text_fails_later && !no_memory && groups != 0 && !fails[0] && value[0] > 0 &&
		(uint32_t)value[0] >= groups && !fails[1] && value[1] > 0 && (uint64_t)value[0] * (uint64_t)value[1] <= INT_MAX;
	if (t.packages != 0) {
		vf_assert(t.packages <= t.cores && t.cores <= t.threads, "no more packages than cores, no more cores than threads");
		vf_assert((uint64_t)t.threads_per_core * t.cores == t.threads, "threads are cores times threads per core");
		vf_assert(!text_fails && !text_fails_later && !no_memory && !fails[0] && !fails[1], "failed queries are reported");
		vf_assert(t.packages == groups, "as many packages as the description has groups");
		vf_assert(t.cores == (uint32_t)value[0] && t.threads_per_core == (uint32_t)value[1], "counts are taken over");
	}
	if (good) {
		vf_assert(t.packages == groups, "a consistent description is accepted");
#ifdef WITNESS_OUTER
		if (groups == 2 && tags2 != 0) {
			vf_witness("two packages");
		}
#endif
		if (tags2 == 0) {
			vf_witness("innermost groups");
		}
	}
#endif
	return 0;
}
