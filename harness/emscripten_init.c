/* The synthetic topology of the Emscripten port, for every processor count and both host kinds. */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>

#ifndef N
#define N 9
#endif
#define POOL_N N
#ifdef FAULTS
#define ALLOC_MAY_FAIL() nd_bool()
#endif
#define POOLS(X) \
	X(processors, struct cpuinfo_processor) \
	X(cores, struct cpuinfo_core) \
	X(clusters, struct cpuinfo_cluster) \
	X(cache_a, struct cpuinfo_cache) \
	X(cache_b, struct cpuinfo_cache) \
	X(cache_c, struct cpuinfo_cache)
#define POOL_SAME_processors(x) ((x).core == NULL && (x).cluster == NULL && (x).package == NULL && (x).cache.l1i == NULL && (x).cache.l2 == NULL)
#define POOL_SAME_cores(x) ((x).processor_count == 0 && (x).cluster == NULL && (x).package == NULL)
#define POOL_SAME_clusters(x) ((x).processor_count == 0 && (x).core_count == 0 && (x).package == NULL)
#define POOL_SAME_cache_a(x) ((x).size == 0 && (x).processor_count == 0)
#define POOL_SAME_cache_b(x) ((x).size == 0 && (x).processor_count == 0)
#define POOL_SAME_cache_c(x) ((x).size == 0 && (x).processor_count == 0)
#include "pools.h"
#include "hierarchy.h"

static bool negative_nan;
static int logical_cores;

int vf_signbit(float x) {
	(void)x;
	return negative_nan;
}

int emscripten_num_logical_cores(void) {
	return logical_cores;
}

static void check_cache(const struct cpuinfo_cache* c) {
	vf_assert(c->size != 0 && c->size == c->associativity * c->sets * c->partitions * c->line_size, "a cache's size is the product of its parameters");
}

int main(void) {
	negative_nan = nd_bool();
	logical_cores = (int)nd_u32();
	vf_assume(logical_cores <= N);
	const uint32_t expected = logical_cores > 0 ? (uint32_t)logical_cores : 1;
#ifndef VF_REPLAY
	/* a pool per cache array whatever its size */
	pool_cache_a_count = pool_cache_b_count = pool_cache_c_count = 0;
#endif

	cpuinfo_emscripten_init();

	check_slack();
#ifdef FAULTS
	if (!cpuinfo_is_initialized) {
		vf_assert(allocation_failed, "initialisation fails only if an allocation failed");
		vf_assert(
			cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 && cpuinfo_packages_count == 0 &&
				cpuinfo_processors == NULL && cpuinfo_cores == NULL && cpuinfo_clusters == NULL && cpuinfo_packages == NULL,
			"nothing is published on failure");
		for (uint32_t i = 0; i < cpuinfo_cache_level_max; i++) {
			vf_assert(cpuinfo_cache[i] == NULL && cpuinfo_cache_count[i] == 0, "no cache is published on failure");
		}
		vf_assert(live_allocations() == 0, "nothing leaks on failure");
		if (allocations == 5) {
			vf_witness("the last allocation fails");
		}
		return 0;
	}
	vf_assert(!allocation_failed, "failures are reported");
#endif
	vf_assert(cpuinfo_is_initialized, "initialisation succeeds");
	vf_assert(cpuinfo_processors_count == expected, "as many processors as the host reports, at least one");
	vf_assert(
		is_live(cpuinfo_processors, cpuinfo_processors_count) && is_live(cpuinfo_cores, cpuinfo_cores_count) &&
			is_live(cpuinfo_clusters, cpuinfo_clusters_count) &&
			is_live(cpuinfo_cache[cpuinfo_cache_level_1i], cpuinfo_cache_count[cpuinfo_cache_level_1i]) &&
			is_live(cpuinfo_cache[cpuinfo_cache_level_1d], cpuinfo_cache_count[cpuinfo_cache_level_1d]) &&
			is_live(cpuinfo_cache[cpuinfo_cache_level_2], cpuinfo_cache_count[cpuinfo_cache_level_2]),
		"the published arrays hold the published counts");
#ifndef FAULTS
	check_hierarchy();
	vf_assert(cpuinfo_packages_count == 1, "one package");
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_1i, l1i);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_1d, l1d);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_2, l2);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_3, l3);
	vf_assert(cpuinfo_cache_count[cpuinfo_cache_level_4] == 0, "no fourth level");
	for (uint32_t i = 0; i < N; i++) {
		for (uint32_t l = 0; l < cpuinfo_cache_level_max; l++) {
			if (i < cpuinfo_cache_count[l]) {
				check_cache(&cpuinfo_cache[l][i]);
			}
		}
	}
	const struct cpuinfo_uarch_info* uarch = &cpuinfo_global_uarch;
	vf_assert(
		uarch->processor_count == cpuinfo_processors_count && uarch->core_count == cpuinfo_cores_count,
		"microarchitecture summary");
	vf_assert(cpuinfo_packages[0].name[CPUINFO_PACKAGE_NAME_MAX - 1] == '\0', "terminated package name");
	if (negative_nan && cpuinfo_cores_count * 2 == cpuinfo_processors_count) {
		vf_witness("x86 host with two threads per core");
	}
	if (!negative_nan && cpuinfo_clusters_count == 2 && cpuinfo_processors_count == 9) {
		vf_witness("two clusters");
	}
#else
	vf_assert(live_allocations() == 6, "nothing else stays allocated");
	vf_witness("success");
#endif
	return 0;
}
