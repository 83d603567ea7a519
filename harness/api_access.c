/* Accessors over arbitrary published state: gating, index bounds, current processor. */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#if defined(__linux__)
#include <linux/api.h>
#endif

#define N 3
#define HETEROGENEOUS (CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64 || CPUINFO_ARCH_RISCV64)

static struct cpuinfo_processor processors[N];
static struct cpuinfo_core cores[N];
static struct cpuinfo_cluster clusters[N];
static struct cpuinfo_package packages[N];
static struct cpuinfo_cache caches[cpuinfo_cache_level_max][N];
#if HETEROGENEOUS
static struct cpuinfo_uarch_info uarchs[N];
static uint32_t uarch_map[N];
static bool has_uarch_map;
extern const uint32_t* cpuinfo_linux_cpu_to_uarch_index_map;
#endif
#if defined(__linux__)
static const struct cpuinfo_processor* processor_map[N];
static const struct cpuinfo_core* core_map[N];
#endif

static bool initialized;
static bool query_fails;
static uint32_t query_cpu, cpu_max;

void vf_abort(void) {
	vf_assert(!initialized, "an initialised library does not stop the program");
	vf_witness("stopped before initialisation");
#ifdef VF_REPLAY
	_Exit(0);
#else
	vf_assume(0);
#endif
}

#if defined(__linux__)
long vf_syscall(long number, ...) {
	va_list args;
	va_start(args, number);
	unsigned* cpu = va_arg(args, unsigned*);
	va_end(args);
	vf_assert(number == __NR_getcpu, "only the current processor is asked for");
	if (query_fails) {
		return -1;
	}
	if (cpu != NULL) {
		*cpu = query_cpu;
	}
	return 0;
}
#endif

#define LIST(all, one, count_fn, array, count) \
	{ \
		const void* list = cpuinfo_get_##all(); \
		vf_assert(initialized, "no array before initialisation"); \
		vf_assert(list == (const void*)(array), "the published array is returned"); \
		break; \
	} \
	case __COUNTER__: { \
		const void* element = cpuinfo_get_##one(index); \
		vf_assert(initialized, "no element before initialisation"); \
		vf_assert(element == (index < (count) ? (const void*)&(array)[index] : NULL), "an element exactly below the count"); \
		break; \
	} \
	case __COUNTER__: { \
		const uint32_t n = cpuinfo_get_##count_fn(); \
		vf_assert(initialized, "no count before initialisation"); \
		vf_assert(n == (count), "the published count is returned"); \
		break; \
	}

int main(void) {
	const uint32_t index = nd_u32();
	cpuinfo_processors = processors;
	cpuinfo_processors_count = nd_range(0, N);
	cpuinfo_cores = cores;
	cpuinfo_cores_count = nd_range(0, N);
	cpuinfo_clusters = clusters;
	cpuinfo_clusters_count = nd_range(0, N);
	cpuinfo_packages = packages;
	cpuinfo_packages_count = nd_range(0, N);
	for (uint32_t i = 0; i < cpuinfo_cache_level_max; i++) {
		cpuinfo_cache[i] = caches[i];
		cpuinfo_cache_count[i] = nd_range(0, N);
	}
	cpuinfo_max_cache_size = nd_u32();
	const uint32_t processors_count = cpuinfo_processors_count, cores_count = cpuinfo_cores_count,
		       clusters_count = cpuinfo_clusters_count, packages_count = cpuinfo_packages_count,
		       max_cache_size = cpuinfo_max_cache_size;
	uint32_t cache_count[cpuinfo_cache_level_max];
	for (uint32_t i = 0; i < cpuinfo_cache_level_max; i++) {
		cache_count[i] = cpuinfo_cache_count[i];
	}
	query_fails = nd_bool();
	query_cpu = nd_u32();
	cpu_max = nd_range(0, N);
#if HETEROGENEOUS
	cpuinfo_uarchs = uarchs;
	cpuinfo_uarchs_count = nd_range(1, N);
	const uint32_t uarchs_count = cpuinfo_uarchs_count;
	has_uarch_map = nd_bool();
#else
	struct cpuinfo_uarch_info* uarchs = &cpuinfo_global_uarch;
	const uint32_t uarchs_count = 1;
#endif
#if defined(__linux__)
	cpuinfo_linux_cpu_max = cpu_max;
	cpuinfo_linux_cpu_to_processor_map = processor_map;
	cpuinfo_linux_cpu_to_core_map = core_map;
	for (uint32_t i = 0; i < N; i++) {
		const uint32_t p = nd_range(0, N), c = nd_range(0, N);
		processor_map[i] = p < processors_count ? &processors[p] : NULL;
		core_map[i] = c < cores_count ? &cores[c] : NULL;
#if HETEROGENEOUS
		uarch_map[i] = nd_range(0, uarchs_count - 1);
#endif
	}
#if HETEROGENEOUS
	cpuinfo_linux_cpu_to_uarch_index_map = has_uarch_map ? uarch_map : NULL;
#endif
	const bool known = !query_fails && query_cpu < cpu_max;
#else
	const bool known = false;
#endif
	initialized = nd_bool();
	cpuinfo_is_initialized = initialized;

	enum { FIRST = __COUNTER__ };
	const uint32_t which = nd_range(FIRST + 1, FIRST + 64);
	switch (which) {
		case __COUNTER__: LIST(processors, processor, processors_count, processors, processors_count)
		case __COUNTER__: LIST(cores, core, cores_count, cores, cores_count)
		case __COUNTER__: LIST(clusters, cluster, clusters_count, clusters, clusters_count)
		case __COUNTER__: LIST(packages, package, packages_count, packages, packages_count)
		case __COUNTER__: LIST(uarchs, uarch, uarchs_count, uarchs, uarchs_count)
		case __COUNTER__: LIST(l1i_caches, l1i_cache, l1i_caches_count, caches[cpuinfo_cache_level_1i], cache_count[cpuinfo_cache_level_1i])
		case __COUNTER__: LIST(l1d_caches, l1d_cache, l1d_caches_count, caches[cpuinfo_cache_level_1d], cache_count[cpuinfo_cache_level_1d])
		case __COUNTER__: LIST(l2_caches, l2_cache, l2_caches_count, caches[cpuinfo_cache_level_2], cache_count[cpuinfo_cache_level_2])
		case __COUNTER__: LIST(l3_caches, l3_cache, l3_caches_count, caches[cpuinfo_cache_level_3], cache_count[cpuinfo_cache_level_3])
		case __COUNTER__: LIST(l4_caches, l4_cache, l4_caches_count, caches[cpuinfo_cache_level_4], cache_count[cpuinfo_cache_level_4])
		case __COUNTER__: {
			const uint32_t size = cpuinfo_get_max_cache_size();
			vf_assert(initialized, "no size before initialisation");
			vf_assert(size == max_cache_size, "the published size is returned");
			break;
		}
		case __COUNTER__: {
			const struct cpuinfo_processor* processor = cpuinfo_get_current_processor();
			vf_assert(initialized, "no processor before initialisation");
#if defined(__linux__)
			vf_assert(processor == (known ? processor_map[query_cpu] : NULL), "the current processor as the system reports it, or nothing");
			if (known && processor != NULL) {
				vf_witness("current processor");
			}
#else
			vf_assert(processor == NULL, "no current processor without a system query");
#endif
			break;
		}
		case __COUNTER__: {
			const struct cpuinfo_core* core = cpuinfo_get_current_core();
			vf_assert(initialized, "no core before initialisation");
#if defined(__linux__)
			vf_assert(core == (known ? core_map[query_cpu] : NULL), "the current core as the system reports it, or nothing");
#else
			vf_assert(core == NULL, "no current core without a system query");
#endif
			break;
		}
		case __COUNTER__: {
			const uint32_t uarch = cpuinfo_get_current_uarch_index();
			vf_assert(initialized, "no microarchitecture before initialisation");
			vf_assert(uarch < uarchs_count, "the microarchitecture exists");
#if HETEROGENEOUS
			vf_assert(uarch == (has_uarch_map && known ? uarch_map[query_cpu] : 0), "the current microarchitecture, or the first");
#endif
			break;
		}
		case __COUNTER__: {
			const uint32_t uarch = cpuinfo_get_current_uarch_index_with_default(index);
			vf_assert(initialized, "no microarchitecture before initialisation");
#if HETEROGENEOUS
			vf_assert(uarch == (!has_uarch_map ? 0 : known ? uarch_map[query_cpu] : index), "the current microarchitecture, or the default");
			if (has_uarch_map && !known) {
				vf_witness("default microarchitecture");
			}
#else
			(void)known;
			vf_assert(uarch == 0, "one microarchitecture");
#endif
			break;
		}
		default:
			vf_assume(0);
	}
	vf_witness("accessor returned");
	return 0;
}
