/*
 * Assembly of the published topology on x86 Linux. The kernel's lists,
 * /proc/cpuinfo and CPUID decoding are replaced by arbitrary results; the
 * sorting and grouping code is the repository's.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <x86/api.h>
#include <x86/linux/api.h>

#ifndef N
#define N 3
#endif

#ifdef APIC_BITS
/* only some of the bits vary */
#define APIC_ID(x) ((x) & ((UINT32_C(1) << (APIC_BITS)) - 1) << (APIC_SHIFT))
#else
#define APIC_ID(x) (x)
#define APIC_BITS 12
#define APIC_SHIFT 4
#endif

#ifdef FAULTS
#define ALLOC_MAY_FAIL() nd_bool()
#endif
#define POOL_N N
#define POOL_SAME_linux(a) ((a).apic_id == 0 && (a).linux_id == 0 && (a).flags == 0)
#define POOL_SAME_processor(a) ((a).smt_id == 0 && (a).core == NULL && (a).cluster == NULL && (a).package == NULL && (a).linux_id == 0 && (a).apic_id == 0 && (a).cache.l1i == NULL && (a).cache.l1d == NULL && (a).cache.l2 == NULL && (a).cache.l3 == NULL && (a).cache.l4 == NULL)
#define POOL_SAME_core(a) ((a).processor_start == 0 && (a).processor_count == 0 && (a).core_id == 0 && (a).cluster == NULL && (a).package == NULL)
#define POOL_SAME_cluster(a) ((a).processor_start == 0 && (a).processor_count == 0 && (a).core_start == 0 && (a).core_count == 0 && (a).package == NULL)
#define POOL_SAME_package(a) ((a).processor_start == 0 && (a).processor_count == 0 && (a).core_start == 0 && (a).core_count == 0)
#define POOL_SAME_cache(a) ((a).size == 0 && (a).processor_start == 0 && (a).processor_count == 0)
#define POOL_SAME_pointer(a) ((a) == NULL)
#define POOL_SAME_l1i POOL_SAME_cache
#define POOL_SAME_l1d POOL_SAME_cache
#define POOL_SAME_l2 POOL_SAME_cache
#define POOL_SAME_l3 POOL_SAME_cache
#define POOL_SAME_l4 POOL_SAME_cache
#define POOL_SAME_processor_map POOL_SAME_pointer
#define POOL_SAME_core_map POOL_SAME_pointer
#define POOLS(X) \
	X(linux, struct cpuinfo_x86_linux_processor) \
	X(processor_map, struct cpuinfo_processor*) \
	X(core_map, struct cpuinfo_core*) \
	X(processor, struct cpuinfo_processor) \
	X(core, struct cpuinfo_core) \
	X(cluster, struct cpuinfo_cluster) \
	X(package, struct cpuinfo_package) \
	X(l1i, struct cpuinfo_cache) \
	X(l1d, struct cpuinfo_cache) \
	X(l2, struct cpuinfo_cache) \
	X(l3, struct cpuinfo_cache) \
	X(l4, struct cpuinfo_cache)
#include "pools.h"
#include "hierarchy.h"

/* ---- the machine ---- */

static struct {
	uint32_t present_count, possible_count; /* highest + 1; 0 = list unusable */
	bool present[N], possible[N], listed[N];
	uint32_t apic_id[N];
	bool proc_cpuinfo;
	uint32_t thread_bits, core_bits;
	struct cpuinfo_x86_cache cache[5];
} machine;

uint32_t cpuinfo_linux_get_max_processors_count(void) {
	return N;
}

uint32_t cpuinfo_linux_get_max_possible_processor(uint32_t max) {
	return machine.possible_count - 1;
}

uint32_t cpuinfo_linux_get_max_present_processor(uint32_t max) {
	return machine.present_count - 1;
}

static bool mark(const bool* list, uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	vf_assert(stride == sizeof(struct cpuinfo_x86_linux_processor), "array stride");
	for (uint32_t i = 0; i < N; i++) {
		if (i < max && list[i]) {
			((struct cpuinfo_x86_linux_processor*)((char*)flags - offsetof(struct cpuinfo_x86_linux_processor, flags)))[i].flags |= flag;
		}
	}
	return true;
}

bool cpuinfo_linux_detect_possible_processors(uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	return mark(machine.possible, max, flags, stride, flag);
}

bool cpuinfo_linux_detect_present_processors(uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	return mark(machine.present, max, flags, stride, flag);
}

bool cpuinfo_x86_linux_parse_proc_cpuinfo(uint32_t max, struct cpuinfo_x86_linux_processor processors[restrict static max]) {
	if (!machine.proc_cpuinfo) {
		return false;
	}
	for (uint32_t i = 0; i < N; i++) {
		if (i < max && machine.listed[i]) {
			processors[i].flags |= CPUINFO_LINUX_FLAG_PROC_CPUINFO | CPUINFO_LINUX_FLAG_APIC_ID;
			processors[i].apic_id = machine.apic_id[i];
		}
	}
	return true;
}

void cpuinfo_x86_init_processor(struct cpuinfo_x86_processor* processor) {
	processor->vendor = cpuinfo_vendor_intel;
	processor->uarch = cpuinfo_uarch_zen;
	processor->cpuid = 0xC06F2;
	processor->topology.thread_bits_length = machine.thread_bits;
	processor->topology.core_bits_offset = machine.thread_bits;
	processor->topology.core_bits_length = machine.core_bits;
	processor->cache.l1i = machine.cache[0];
	processor->cache.l1d = machine.cache[1];
	processor->cache.l2 = machine.cache[2];
	processor->cache.l3 = machine.cache[3];
	processor->cache.l4 = machine.cache[4];
}

uint32_t cpuinfo_x86_normalize_brand_string(const char raw_name[48], char normalized_name[48]) {
	normalized_name[0] = 'x';
	normalized_name[1] = '\0';
	return 1;
}

static const char* named[N + 1];
static uint32_t names;

uint32_t cpuinfo_x86_format_package_name(enum cpuinfo_vendor vendor, const char brand_string[48], char package_name[CPUINFO_PACKAGE_NAME_MAX]) {
	vf_assert(vendor == cpuinfo_vendor_intel && brand_string[0] == 'x', "the package is named after the processor");
	named[names] = package_name;
	names += names < N;
	return 1;
}

void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*)) {
	vf_assert(size == sizeof(struct cpuinfo_x86_linux_processor) && count <= N, "sort within the model");
	struct cpuinfo_x86_linux_processor* a = base;
	for (uint32_t pass = 0; pass + 1 < N; pass++) {
		for (uint32_t i = 0; i + 1 < N - pass; i++) {
			if (i + 1 < count) {
				const int order = compare(&a[i], &a[i + 1]);
				/* equal elements may end up in either order */
				if (order > 0 || order == 0 && nd_bool()) {
					const struct cpuinfo_x86_linux_processor t = a[i];
					a[i] = a[i + 1];
					a[i + 1] = t;
				}
			}
		}
	}
}

#ifndef FAULTS
/* When initialisation may fail is the other query's concern; here those paths end early, which keeps the encoding small. */
void cpuinfo_vlog_error(const char* format, va_list args) {
	vf_assume(0);
}

void cpuinfo_vlog_fatal(const char* format, va_list args) {
	vf_assume(0);
}
#endif

static struct cpuinfo_cache* const* published_cache(const struct cpuinfo_processor* p, uint32_t level) {
	return (struct cpuinfo_cache* const*)(level == 0 ? &p->cache.l1i : level == 1 ? &p->cache.l1d : level == 2 ? &p->cache.l2 : level == 3 ? &p->cache.l3 : &p->cache.l4);
}

int main(void) {
	const uint32_t count = nd_range(1, N);
	machine.present_count = nd_bool() ? count : 0;
	machine.possible_count = nd_bool() ? nd_range(count, N) : 0;
	bool any = false;
	uint32_t usable = 0;
	bool valid[N];
	for (uint32_t i = 0; i < N; i++) {
		machine.present[i] = nd_bool();
		machine.possible[i] = nd_bool();
		machine.listed[i] = nd_bool();
		machine.apic_id[i] = APIC_ID(nd_u32());
		/* the highest listed processor is what the list maxima say; 0xFFFFFFFF is the broadcast ID */
		vf_assume(machine.apic_id[i] != UINT32_MAX);
		if (machine.present_count != 0) {
			vf_assume(i < count ? true : !machine.present[i]);
		}
		if (machine.possible_count != 0) {
			vf_assume(i < machine.possible_count ? true : !machine.possible[i]);
		}
		valid[i] = machine.listed[i] && (machine.present_count == 0 || machine.present[i]) &&
			(machine.possible_count == 0 || machine.possible[i]);
		usable += valid[i];
	}
#ifdef FAULTS
	machine.proc_cpuinfo = nd_bool();
#else
	machine.proc_cpuinfo = true;
	vf_assume(usable != 0);
#endif
	machine.thread_bits = nd_range(0, 8);
	machine.core_bits = nd_range(0, 12);
	for (uint32_t l = 0; l < 5; l++) {
#ifdef LEVELS
		const bool there = (LEVELS >> l) & 1;
#else
		const bool there = nd_bool();
#endif
		if (there) {
			machine.cache[l].size = 4096 + l;
			machine.cache[l].associativity = 8 + l;
			machine.cache[l].sets = 16 + l;
			machine.cache[l].partitions = 1;
			machine.cache[l].line_size = 64;
			machine.cache[l].flags = l;
			machine.cache[l].apic_bits = nd_range(0, 16);
		}
	}

	cpuinfo_x86_linux_init();

	check_slack();
#ifdef FAULTS
	if (!cpuinfo_is_initialized) {
		vf_assert(
			allocation_failed || !machine.proc_cpuinfo || usable == 0, "initialisation fails only if something failed");
		vf_assert(
			cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 &&
				cpuinfo_packages_count == 0 && cpuinfo_processors == NULL && cpuinfo_cores == NULL &&
				cpuinfo_clusters == NULL && cpuinfo_packages == NULL && cpuinfo_linux_cpu_max == 0,
			"nothing is published on failure");
		for (uint32_t l = 0; l < 5; l++) {
			vf_assert(cpuinfo_cache_count[l] == 0 && cpuinfo_cache[l] == NULL, "no cache is published on failure");
		}
		vf_assert(live_allocations() == 0, "nothing leaks on failure");
		if (allocation_failed && allocations == 7) {
			vf_witness("a late allocation fails");
		}
		return 0;
	}
	vf_assert(!allocation_failed && machine.proc_cpuinfo && usable != 0, "failures are reported");
	uint32_t published = 6;
	for (uint32_t l = 0; l < 5; l++) {
		if (cpuinfo_cache_count[l] != 0) {
			vf_assert(is_live(cpuinfo_cache[l], cpuinfo_cache_count[l]), "published caches are allocated");
			published++;
		}
	}
	vf_assert(
		is_live(cpuinfo_processors, cpuinfo_processors_count) && is_live(cpuinfo_cores, cpuinfo_cores_count) &&
			is_live(cpuinfo_clusters, cpuinfo_clusters_count) && is_live(cpuinfo_packages, cpuinfo_packages_count) &&
			is_live(cpuinfo_linux_cpu_to_processor_map, cpuinfo_linux_cpu_max) &&
			is_live(cpuinfo_linux_cpu_to_core_map, cpuinfo_linux_cpu_max),
		"published arrays are allocated and not freed");
	vf_assert(live_allocations() == published, "nothing else stays allocated");
	if (published == 11) {
		vf_witness("success with all caches");
	}
#else

	vf_assert(cpuinfo_is_initialized, "initialisation succeeds");
	check_hierarchy();
	vf_assert(cpuinfo_processors_count == usable, "exactly the usable processors are published");

	const uint32_t core_shift = machine.thread_bits, package_shift = machine.thread_bits + machine.core_bits;
	uint32_t llc = 0;
	for (uint32_t l = 1; l < 5; l++) {
		if (machine.cache[l].size != 0) {
			llc = machine.cache[l].apic_bits;
		}
	}
	/* a cluster holds whole cores of one package that share the last cache */
	const uint32_t cluster_shift = llc < core_shift ? core_shift : llc > package_shift ? package_shift : llc;

	for (uint32_t i = 0; i < N; i++) {
		if (i >= cpuinfo_processors_count) {
			continue;
		}
		const struct cpuinfo_processor* p = &cpuinfo_processors[i];
		const bool known = (uint32_t)p->linux_id < N && valid[(uint32_t)p->linux_id % N];
		vf_assert(known, "a published processor is usable");
		vf_assert(p->apic_id == machine.apic_id[(uint32_t)p->linux_id % N], "APIC ID of that processor");
		for (uint32_t j = 0; j < i; j++) {
			const struct cpuinfo_processor* q = &cpuinfo_processors[j];
			vf_assert(p->linux_id != q->linux_id, "a processor is published once");
			vf_assert((p->core == q->core) == (p->apic_id >> core_shift == q->apic_id >> core_shift), "same core");
			vf_assert((p->package == q->package) == (p->apic_id >> package_shift == q->apic_id >> package_shift), "same package");
			vf_assert((p->cluster == q->cluster) == (p->apic_id >> cluster_shift == q->apic_id >> cluster_shift), "same cluster");
			for (uint32_t l = 0; l < 5; l++) {
				if (machine.cache[l].size != 0) {
					const uint32_t s = machine.cache[l].apic_bits;
					vf_assert(
						(*published_cache(p, l) == *published_cache(q, l)) == (p->apic_id >> s == q->apic_id >> s),
						"same cache");
				}
			}
		}
		for (uint32_t l = 0; l < 5; l++) {
			vf_assert((*published_cache(p, l) != NULL) == (machine.cache[l].size != 0), "caches that exist are attached");
		}
	}
	for (uint32_t j = 0; j < N; j++) {
		if (j < cpuinfo_cores_count) {
			const struct cpuinfo_core* c = &cpuinfo_cores[j];
			vf_assert(
				c->vendor == cpuinfo_vendor_intel && c->uarch == cpuinfo_uarch_zen && c->cpuid == 0xC06F2,
				"core identity");
		}
		if (j < cpuinfo_clusters_count) {
			const struct cpuinfo_cluster* c = &cpuinfo_clusters[j];
			vf_assert(
				c->vendor == cpuinfo_vendor_intel && c->uarch == cpuinfo_uarch_zen && c->cpuid == 0xC06F2,
				"cluster identity");
		}
		if (j < cpuinfo_packages_count) {
			bool is_named = false;
			for (uint32_t k = 0; k < N; k++) {
				is_named |= k < names && named[k] == cpuinfo_packages[j].name;
				/* numbering within the package */
				if (k < cpuinfo_cores_count && cpuinfo_cores[k].package == &cpuinfo_packages[j]) {
					vf_assert(cpuinfo_cores[k].core_id == k - cpuinfo_packages[j].core_start, "core number within the package");
				}
				if (k < cpuinfo_clusters_count && cpuinfo_clusters[k].package == &cpuinfo_packages[j]) {
					vf_assert(
						cpuinfo_clusters[k].cluster_id == k - cpuinfo_packages[j].cluster_start,
						"cluster number within the package");
				}
			}
			vf_assert(is_named, "every package is named");
		}
	}
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_1i, l1i);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_1d, l1d);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_2, l2);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_3, l3);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_4, l4);
	uint32_t outermost = 0;
	for (uint32_t l = 0; l < 5; l++) {
		vf_assert((cpuinfo_cache_count[l] != 0) == (machine.cache[l].size != 0), "caches that exist are published");
		if (l != 0 && machine.cache[l].size != 0) {
			outermost = machine.cache[l].size;
		}
		for (uint32_t j = 0; j < N; j++) {
			if (j < cpuinfo_cache_count[l]) {
				const struct cpuinfo_cache* c = &cpuinfo_cache[l][j];
				vf_assert(
					c->size == machine.cache[l].size && c->associativity == machine.cache[l].associativity &&
						c->sets == machine.cache[l].sets && c->partitions == machine.cache[l].partitions &&
						c->line_size == machine.cache[l].line_size && c->flags == machine.cache[l].flags,
					"cache geometry");
			}
		}
	}
	vf_assert(cpuinfo_max_cache_size == outermost, "maximum cache size is the outermost cache's");
	vf_assert(
		cpuinfo_global_uarch.uarch == cpuinfo_uarch_zen && cpuinfo_global_uarch.cpuid == 0xC06F2 &&
			cpuinfo_global_uarch.processor_count == cpuinfo_processors_count &&
			cpuinfo_global_uarch.core_count == cpuinfo_cores_count,
		"microarchitecture summary");

	vf_assert(cpuinfo_linux_cpu_max <= N, "lookup size");
	for (uint32_t i = 0; i < N; i++) {
		if (i < cpuinfo_linux_cpu_max) {
			const struct cpuinfo_processor* p = cpuinfo_linux_cpu_to_processor_map[i];
			vf_assert((p != NULL) == valid[i], "lookup by system number finds exactly the usable processors");
			if (p != NULL) {
				bool found = false;
				for (uint32_t k = 0; k < N; k++) {
					if (k < cpuinfo_processors_count && p == &cpuinfo_processors[k]) {
						found = true;
						vf_assert((uint32_t)cpuinfo_processors[k].linux_id == i, "lookup finds the processor with that number");
						vf_assert(
							cpuinfo_linux_cpu_to_core_map[i] == cpuinfo_processors[k].core,
							"lookup finds the core of that processor");
					}
				}
				vf_assert(found, "lookup yields a published processor");
			} else {
				vf_assert(cpuinfo_linux_cpu_to_core_map[i] == NULL, "no core for an unusable processor");
			}
		} else {
			vf_assert(!valid[i], "lookup covers every usable processor");
		}
	}
#if N >= 3
	if (cpuinfo_packages_count == 2 && cpuinfo_cores_count == 2 && cpuinfo_processors_count == 3) {
		vf_witness("two packages, one with SMT");
	}
	if (cpuinfo_processors_count == 2 && cpuinfo_linux_cpu_max == 3) {
		vf_witness("an unusable processor");
	}
#endif
	if (cpuinfo_cores_count == 1 && cpuinfo_processors_count == 2) {
		vf_witness("SMT");
	}
	if (cpuinfo_packages_count == 2) {
		vf_witness("two packages");
	}
#endif
	return 0;
}
