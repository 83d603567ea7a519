/*
 * Assembly of the published topology on ARM Linux, together with the
 * repository's cluster and core-ID inference. The kernel's files and the
 * chipset, core and cache tables are replaced by arbitrary results.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <arm/api.h>
#include <arm/linux/api.h>

#ifndef N
#define N 3
#endif

#ifdef FAULTS
#define ALLOC_MAY_FAIL() nd_bool()
#define MAY_FAIL() nd_bool()
#else
#define MAY_FAIL() false
#endif
#define POOL_N N
#define POOL_SAME_linux(a) ((a).flags == 0 && (a).midr == 0)
#define POOL_SAME_processor(a) ((a).core == NULL && (a).cluster == NULL && (a).package == NULL && (a).linux_id == 0 && (a).cache.l1i == NULL && (a).cache.l1d == NULL && (a).cache.l2 == NULL && (a).cache.l3 == NULL)
#define POOL_SAME_core(a) ((a).processor_start == 0 && (a).processor_count == 0 && (a).core_id == 0 && (a).cluster == NULL && (a).package == NULL)
#define POOL_SAME_cluster(a) ((a).processor_start == 0 && (a).processor_count == 0 && (a).core_start == 0 && (a).core_count == 0 && (a).package == NULL)
#define POOL_SAME_cache(a) ((a).size == 0 && (a).processor_start == 0 && (a).processor_count == 0)
#define POOL_SAME_uarch(a) ((a).uarch == 0 && (a).processor_count == 0 && (a).core_count == 0)
#define POOL_SAME_pointer(a) ((a) == NULL)
#define POOL_SAME_uarch_map(a) ((a) == 0)
#define POOL_SAME_l1i POOL_SAME_cache
#define POOL_SAME_l1d POOL_SAME_cache
#define POOL_SAME_l2 POOL_SAME_cache
#define POOL_SAME_l3 POOL_SAME_cache
#define POOL_SAME_processor_map POOL_SAME_pointer
#define POOL_SAME_core_map POOL_SAME_pointer
#define POOLS(X) \
	X(linux, struct cpuinfo_arm_linux_processor) \
	X(processor_map, struct cpuinfo_processor*) \
	X(core_map, struct cpuinfo_core*) \
	X(uarch_map, uint32_t) \
	X(processor, struct cpuinfo_processor) \
	X(core, struct cpuinfo_core) \
	X(cluster, struct cpuinfo_cluster) \
	X(uarch, struct cpuinfo_uarch_info) \
	X(l1i, struct cpuinfo_cache) \
	X(l1d, struct cpuinfo_cache) \
	X(l2, struct cpuinfo_cache) \
	X(l3, struct cpuinfo_cache)
#include "pools.h"
#include "hierarchy.h"

/* ---- the machine ---- */

static struct {
	uint32_t present_count, possible_count; /* highest + 1; 0 = list unusable */
	bool present[N], possible[N], listed[N];
	bool proc_cpuinfo;
	uint32_t midr[N], midr_flags[N];
	bool has_package_id[N];
	bool cluster_lists; /* kernel has cluster_cpus_list, else core_siblings_list */
	uint32_t group[N]; /* of that list */
	uint32_t max_frequency[N], min_frequency[N];
	uint32_t l2_size[N], l3_size[N]; /* by cluster */
	struct cpuinfo_arm_chipset chipset;
#if CPUINFO_ARCH_ARM
	bool own_l1i[N], own_l1d[N];
#endif
} machine;

#define L1I_SIZE 32768
#define L1D_SIZE 65536
#define OWN_L1I_SIZE 16384
#define OWN_L1D_SIZE 8192

uint32_t cpuinfo_linux_get_max_processors_count(void) {
	return N;
}

uint32_t cpuinfo_linux_get_max_possible_processor(uint32_t max) {
	return machine.possible_count - 1;
}

uint32_t cpuinfo_linux_get_max_present_processor(uint32_t max) {
	return machine.present_count - 1;
}

static bool mark(const bool* list, uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	vf_assert(stride == sizeof(struct cpuinfo_arm_linux_processor), "array stride");
	struct cpuinfo_arm_linux_processor* p =
		(struct cpuinfo_arm_linux_processor*)((char*)flags - offsetof(struct cpuinfo_arm_linux_processor, flags));
	for (uint32_t i = 0; i < N; i++) {
		if (i < max && list[i]) {
			p[i].flags |= flag;
		}
	}
	return true;
}

bool cpuinfo_linux_detect_possible_processors(uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	return mark(machine.possible, max, flags, stride, flag);
}

bool cpuinfo_linux_detect_present_processors(uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	return mark(machine.present, max, flags, stride, flag);
}

bool cpuinfo_arm_linux_parse_proc_cpuinfo(
	char hardware[restrict static CPUINFO_HARDWARE_VALUE_MAX],
	char revision[restrict static CPUINFO_REVISION_VALUE_MAX],
	uint32_t max,
	struct cpuinfo_arm_linux_processor processors[restrict static max]) {
	hardware[0] = '\0';
	revision[0] = '\0';
	if (!machine.proc_cpuinfo) {
		return false;
	}
	for (uint32_t i = 0; i < N; i++) {
		if (i < max && machine.listed[i]) {
			processors[i].flags |= CPUINFO_ARM_LINUX_VALID_PROCESSOR | machine.midr_flags[i];
			processors[i].midr = machine.midr[i];
#if CPUINFO_ARCH_ARM
			if (machine.own_l1i[i]) {
				processors[i].flags |= CPUINFO_ARM_LINUX_VALID_ICACHE;
				processors[i].proc_cpuinfo_cache.i_size = OWN_L1I_SIZE;
			}
			if (machine.own_l1d[i]) {
				processors[i].flags |= CPUINFO_ARM_LINUX_VALID_DCACHE;
				processors[i].proc_cpuinfo_cache.d_size = OWN_L1D_SIZE;
			}
#endif
		}
	}
	return true;
}

struct cpuinfo_arm_chipset cpuinfo_arm_linux_decode_chipset(
	const char hardware[restrict static CPUINFO_HARDWARE_VALUE_MAX],
	const char revision[restrict static CPUINFO_REVISION_VALUE_MAX],
	uint32_t cores,
	uint32_t max_cpu_freq_max) {
	return machine.chipset;
}

void cpuinfo_arm_chipset_to_string(
	const struct cpuinfo_arm_chipset chipset[restrict static 1],
	char name[restrict static CPUINFO_ARM_CHIPSET_NAME_MAX]) {
	name[0] = '\0';
}

#if CPUINFO_ARCH_ARM
bool cpuinfo_arm_linux_hwcap_from_getauxval(uint32_t hwcap[restrict static 1], uint64_t hwcap2[restrict static 1]) {
	return true;
}

void cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo(
	uint32_t features,
	uint64_t features2,
	uint32_t midr,
	uint32_t architecture_version,
	uint32_t architecture_flags,
	const struct cpuinfo_arm_chipset chipset[restrict static 1],
	struct cpuinfo_arm_isa isa[restrict static 1]) {
	isa->aes = true;
}
#else
void cpuinfo_arm_linux_hwcap_from_getauxval(uint32_t hwcap[restrict static 1], uint64_t hwcap2[restrict static 1]) {}

void cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(
	uint32_t features,
	uint64_t features2,
	uint32_t midr,
	const struct cpuinfo_arm_chipset chipset[restrict static 1],
	struct cpuinfo_arm_isa isa[restrict static 1]) {
	isa->aes = true;
}
#endif

uint32_t cpuinfo_linux_get_processor_max_frequency(uint32_t processor) {
	return machine.max_frequency[processor];
}

uint32_t cpuinfo_linux_get_processor_min_frequency(uint32_t processor) {
	return machine.min_frequency[processor];
}

bool cpuinfo_linux_get_processor_package_id(uint32_t processor, uint32_t package_id[restrict static 1]) {
	if (!machine.has_package_id[processor]) {
		return false;
	}
	*package_id = 0;
	return true;
}

/* hands over the maximal runs of processors in the same group */
static bool siblings(uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	if (MAY_FAIL()) {
		return false;
	}
	bool ok = true;
	for (uint32_t i = 0; i < N; i++) {
		const bool starts = i < max && machine.group[i] == machine.group[processor] &&
			(i == 0 || machine.group[i - 1] != machine.group[processor]);
		if (starts) {
			uint32_t end = i + 1;
			bool open = true;
			for (uint32_t k = i + 1; k < N; k++) {
				open = open && k < max && machine.group[k] == machine.group[processor];
				end += open;
			}
			ok &= callback(processor, i, end, context);
		}
	}
	return ok;
}

bool cpuinfo_linux_detect_cluster_cpus(uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	return machine.cluster_lists && siblings(max, processor, callback, context);
}

bool cpuinfo_linux_detect_core_siblings(uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	return siblings(max, processor, callback, context);
}

#define VENDOR_OF(midr) ((enum cpuinfo_vendor)((midr) >> 24))
#define UARCH_OF(midr) ((enum cpuinfo_uarch)((midr) >> 4 & 0xFFF))

void cpuinfo_arm_decode_vendor_uarch(
	uint32_t midr,
#if CPUINFO_ARCH_ARM
	bool has_vfpv4,
#endif
	enum cpuinfo_vendor vendor[restrict static 1],
	enum cpuinfo_uarch uarch[restrict static 1]) {
	*vendor = VENDOR_OF(midr);
	*uarch = UARCH_OF(midr);
}

void cpuinfo_arm_decode_cache(
	enum cpuinfo_uarch uarch,
	uint32_t cluster_cores,
	uint32_t midr,
	const struct cpuinfo_arm_chipset chipset[restrict static 1],
	uint32_t cluster_id,
	uint32_t arch_version,
	struct cpuinfo_cache l1i[restrict static 1],
	struct cpuinfo_cache l1d[restrict static 1],
	struct cpuinfo_cache l2[restrict static 1],
	struct cpuinfo_cache l3[restrict static 1]) {
	vf_assert(cluster_id < N, "cluster number");
	l1i->size = L1I_SIZE;
	l1d->size = L1D_SIZE;
	if (machine.l2_size[cluster_id] != 0) {
		l2->size = machine.l2_size[cluster_id];
	}
	if (machine.l3_size[cluster_id] != 0) {
		l3->size = machine.l3_size[cluster_id];
	}
}

uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor processor[restrict static 1]) {
	return 12345;
}

void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*)) {
	vf_assert(size == sizeof(struct cpuinfo_arm_linux_processor) && count <= N, "sort within the model");
	struct cpuinfo_arm_linux_processor* a = base;
	for (uint32_t pass = 0; pass + 1 < N; pass++) {
		for (uint32_t i = 0; i + 1 < N - pass; i++) {
			if (i + 1 < count) {
				const int order = compare(&a[i], &a[i + 1]);
				/* equal elements may end up in either order */
				if (order > 0 || order == 0 && nd_bool()) {
					const struct cpuinfo_arm_linux_processor t = a[i];
					a[i] = a[i + 1];
					a[i + 1] = t;
				}
			}
		}
	}
}

#ifndef FAULTS
/* When initialisation may fail is the other query's concern; here those paths end early, which keeps the encoding small. */
void cpuinfo_vlog_error(const char* format, va_list args) {
	vf_assume(0);
}

void cpuinfo_vlog_fatal(const char* format, va_list args) {
	vf_assume(0);
}
#endif

#define ALL_MIDR \
	(CPUINFO_ARM_LINUX_VALID_ARCHITECTURE | CPUINFO_ARM_LINUX_VALID_IMPLEMENTER | CPUINFO_ARM_LINUX_VALID_VARIANT | \
	 CPUINFO_ARM_LINUX_VALID_PART | CPUINFO_ARM_LINUX_VALID_REVISION)

static uint32_t known_mask(uint32_t flags) {
	return (flags & CPUINFO_ARM_LINUX_VALID_IMPLEMENTER ? 0xFF000000 : 0) |
		(flags & CPUINFO_ARM_LINUX_VALID_VARIANT ? 0x00F00000 : 0) |
		(flags & CPUINFO_ARM_LINUX_VALID_ARCHITECTURE ? 0x000F0000 : 0) | (flags & CPUINFO_ARM_LINUX_VALID_PART ? 0x0000FFF0 : 0) |
		(flags & CPUINFO_ARM_LINUX_VALID_REVISION ? 0x0000000F : 0);
}

static uint32_t usable_count;
static bool usable[N];

static void make_machine(void) {
	machine.proc_cpuinfo = true;
#ifdef FAULTS
	machine.proc_cpuinfo = nd_bool();
#endif
	machine.cluster_lists = nd_bool();
	for (uint32_t i = 0; i < N; i++) {
		machine.present[i] = nd_bool();
		machine.possible[i] = nd_bool();
		machine.listed[i] = nd_bool();
		machine.midr[i] = nd_u32();
		machine.midr_flags[i] = nd_u32() & (machine.listed[i] ? ALL_MIDR : 0);
		/* the parser stores only the fields it saw */
		vf_assume((machine.midr[i] & ~known_mask(machine.midr_flags[i])) == 0);
		/* all cores report their features through ID registers */
		vf_assume(!(machine.midr_flags[i] & CPUINFO_ARM_LINUX_VALID_ARCHITECTURE) || (machine.midr[i] & 0xF0000) == 0xF0000);
		machine.has_package_id[i] = nd_bool();
		machine.group[i] = nd_range(0, N - 1);
		machine.max_frequency[i] = nd_u32();
		machine.min_frequency[i] = nd_u32();
#if CPUINFO_ARCH_ARM
		machine.own_l1i[i] = machine.listed[i] && nd_bool();
		machine.own_l1d[i] = machine.listed[i] && nd_bool();
#endif
#ifdef CACHES
		machine.l2_size[i] = nd_range(0, 2) << 20;
		machine.l3_size[i] = nd_range(0, 2) << 21;
		vf_assume(machine.l3_size[i] == 0 || machine.l2_size[i] != 0);
#else
		machine.l2_size[i] = 1 << 20;
#endif
		/* processors the kernel puts into one cluster are alike */
		for (uint32_t j = 0; j < i; j++) {
			const uint32_t both = known_mask(machine.midr_flags[i]) & known_mask(machine.midr_flags[j]);
			vf_assume(machine.group[i] != machine.group[j] || ((machine.midr[i] ^ machine.midr[j]) & both) == 0);
		}
	}
#ifdef REPORTED
	/* the kernel reports everything, so that nothing is left to inference */
	for (uint32_t i = 0; i < N; i++) {
		vf_assume(machine.listed[i] && machine.has_package_id[i] && machine.midr_flags[i] == ALL_MIDR);
	}
#endif
	machine.chipset.vendor = (enum cpuinfo_arm_chipset_vendor)nd_range(0, 60);
	machine.chipset.series = (enum cpuinfo_arm_chipset_series)nd_range(0, 100);
	machine.chipset.model = nd_range(0, 65535);

	bool has_present = nd_bool(), has_possible = nd_bool();
	for (uint32_t i = 0; i < N; i++) {
		if (has_present && machine.present[i]) {
			machine.present_count = i + 1;
		}
		if (has_possible && machine.possible[i]) {
			machine.possible_count = i + 1;
		}
	}
	has_present = machine.present_count != 0;
	has_possible = machine.possible_count != 0;
	for (uint32_t i = 0; i < N; i++) {
		usable[i] = (has_present || has_possible) && (!has_present || machine.present[i]) &&
			(!has_possible || machine.possible[i]);
		usable_count += usable[i];
	}
}

#ifndef FAULTS
static bool is_big(uint32_t midr) {
	switch (midr & 0xFF00FFF0) {
		case 0x4100D070: /* Cortex-A57 */
		case 0x4100D080: /* Cortex-A72 */
		case 0x4100D090: /* Cortex-A73 */
		case 0x4100D0A0: /* Cortex-A75 */
		case 0x4100D0B0: /* Cortex-A76 */
		case 0x4100D0D0: /* Cortex-A77 */
		case 0x4100D410: /* Cortex-A78 */
		case 0x4100D440: /* Cortex-X1 */
		case 0x4100D470: /* Cortex-A710 */
		case 0x4100D480: /* Cortex-X2 */
		case 0x51002050: /* Kryo Gold */
		case 0x51008000: /* Kryo 280 Gold */
		case 0x51008020: /* Kryo 385 Gold */
		case 0x53000010: /* Exynos M1 */
			return true;
		default:
			return false;
	}
}

static bool is_little(uint32_t midr) {
	switch (midr & 0xFF00FFF0) {
		case 0x4100D030: /* Cortex-A53 */
		case 0x4100D050: /* Cortex-A55 */
		case 0x4100D460: /* Cortex-A510 */
		case 0x51002110: /* Kryo Silver */
		case 0x51008010: /* Kryo 280 Silver */
		case 0x51008030: /* Kryo 385 Silver */
			return true;
		default:
			return false;
	}
}
#endif

int main(void) {
	make_machine();
#ifndef FAULTS
	vf_assume(usable_count != 0);
#endif

	cpuinfo_arm_linux_init();

	check_slack();
#ifdef FAULTS
	if (!cpuinfo_is_initialized) {
		vf_assert(allocation_failed || !machine.proc_cpuinfo || usable_count == 0, "initialisation fails only if something failed");
		vf_assert(
			cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 &&
				cpuinfo_packages_count == 0 && cpuinfo_processors == NULL && cpuinfo_cores == NULL &&
				cpuinfo_clusters == NULL && cpuinfo_packages == NULL && cpuinfo_linux_cpu_max == 0 &&
				cpuinfo_uarchs == NULL && cpuinfo_uarchs_count == 0 && cpuinfo_cache[cpuinfo_cache_level_1i] == NULL &&
				cpuinfo_cache[cpuinfo_cache_level_1d] == NULL && cpuinfo_cache[cpuinfo_cache_level_2] == NULL &&
				cpuinfo_cache[cpuinfo_cache_level_3] == NULL,
			"nothing is published on failure");
		vf_assert(live_allocations() == 0, "nothing leaks on failure");
		if (allocation_failed && allocations == 10) {
			vf_witness("a late allocation fails");
		}
	} else {
		vf_assert(!allocation_failed && machine.proc_cpuinfo, "failures are reported");
		vf_assert(usable_count != 0, "a system without processors is reported as failure");
		uint32_t expected = 9;
		vf_assert(
			is_live(cpuinfo_processors, cpuinfo_processors_count) && is_live(cpuinfo_cores, cpuinfo_cores_count) &&
				is_live(cpuinfo_clusters, cpuinfo_clusters_count) && is_live(cpuinfo_uarchs, cpuinfo_uarchs_count) &&
				is_live(cpuinfo_linux_cpu_to_processor_map, cpuinfo_linux_cpu_max) &&
				is_live(cpuinfo_linux_cpu_to_core_map, cpuinfo_linux_cpu_max) &&
				is_live(cpuinfo_cache[cpuinfo_cache_level_1i], cpuinfo_cache_count[cpuinfo_cache_level_1i]) &&
				is_live(cpuinfo_cache[cpuinfo_cache_level_1d], cpuinfo_cache_count[cpuinfo_cache_level_1d]),
			"published arrays are allocated and not freed");
		expected = 8;
		if (cpuinfo_linux_cpu_to_uarch_index_map != NULL) {
			vf_assert(is_live(cpuinfo_linux_cpu_to_uarch_index_map, cpuinfo_linux_cpu_max), "index map");
			expected++;
		}
		if (cpuinfo_cache_count[cpuinfo_cache_level_2] != 0) {
			vf_assert(is_live(cpuinfo_cache[cpuinfo_cache_level_2], cpuinfo_cache_count[cpuinfo_cache_level_2]), "L2 caches");
			expected++;
		}
		if (cpuinfo_cache_count[cpuinfo_cache_level_3] != 0) {
			vf_assert(is_live(cpuinfo_cache[cpuinfo_cache_level_3], cpuinfo_cache_count[cpuinfo_cache_level_3]), "L3 caches");
			expected++;
		}
		vf_assert(live_allocations() == expected, "nothing else stays allocated");
		vf_witness("success");
	}
#else
	vf_assert(cpuinfo_is_initialized, "initialisation succeeds");
	check_hierarchy();
	vf_assert(cpuinfo_processors_count == usable_count, "exactly the usable processors are published");
	vf_assert(cpuinfo_cores_count == usable_count && cpuinfo_packages_count == 1, "one thread per core, one package");

	/* the one case in which the library may move a reported ID to another cluster: a single ID, given for the last processor listed */
	uint32_t with_id = 0, last_with_id = N, last_listed = N;
	for (uint32_t i = 0; i < N; i++) {
		if (usable[i] && machine.listed[i]) {
			last_listed = i;
			if ((machine.midr_flags[i] & CPUINFO_ARM_LINUX_VALID_IMPLEMENTER) && (machine.midr_flags[i] & CPUINFO_ARM_LINUX_VALID_PART)) {
				with_id++;
				last_with_id = i;
			}
		}
	}
	const bool ambiguous = with_id == 1 && last_with_id == last_listed;

	/* known for all members of its kernel cluster alike */
	bool frequency_known[N];
	for (uint32_t i = 0; i < N; i++) {
		frequency_known[i] = machine.has_package_id[i] && machine.max_frequency[i] != 0;
		for (uint32_t j = 0; j < N; j++) {
			frequency_known[i] &= machine.group[i] != machine.group[j] || machine.max_frequency[i] == machine.max_frequency[j];
		}
	}

	uint32_t in_uarchs = 0;
	for (uint32_t k = 0; k < N; k++) {
		if (k < cpuinfo_uarchs_count) {
			in_uarchs += cpuinfo_uarchs[k].processor_count;
			vf_assert(cpuinfo_uarchs[k].processor_count == cpuinfo_uarchs[k].core_count, "microarchitecture counts");
		}
	}
	vf_assert(cpuinfo_uarchs_count >= 1 && in_uarchs == cpuinfo_processors_count, "microarchitectures cover the processors");

	for (uint32_t i = 0; i < N; i++) {
		if (i >= cpuinfo_processors_count) {
			continue;
		}
		const struct cpuinfo_processor* p = &cpuinfo_processors[i];
		const uint32_t pi = (uint32_t)p->linux_id;
		vf_assert(pi < N && usable[pi % N], "a published processor is usable");
		uint32_t cluster = N;
		for (uint32_t k = 0; k < N; k++) {
			if (k < cpuinfo_clusters_count && p->cluster == &cpuinfo_clusters[k]) {
				cluster = k;
			}
		}
		for (uint32_t k = 0; k < N; k++) {
			if (k < cpuinfo_cores_count && p->core == &cpuinfo_cores[k]) {
				const struct cpuinfo_core* c = &cpuinfo_cores[k];
				vf_assert(
					c->vendor == VENDOR_OF(c->midr) && c->uarch == UARCH_OF(c->midr), "vendor and microarchitecture follow from the ID");
				vf_assert(
					cpuinfo_clusters[cluster % N].midr == c->midr && cpuinfo_clusters[cluster % N].uarch == c->uarch &&
						cpuinfo_clusters[cluster % N].vendor == c->vendor,
					"clusters are homogeneous");
				if ((machine.midr_flags[pi % N] & ALL_MIDR) == ALL_MIDR && !ambiguous) {
					vf_assert(c->midr == machine.midr[pi % N], "the ID the kernel reported is published");
				}
				const uint32_t* map = cpuinfo_linux_cpu_to_uarch_index_map;
				const uint32_t index = map == NULL ? 0 : map[pi % N];
				vf_assert(map != NULL || cpuinfo_uarchs_count == 1, "microarchitecture index");
				for (uint32_t u = 0; u < N; u++) {
					if (u == index) {
						vf_assert(
							index < cpuinfo_uarchs_count && cpuinfo_uarchs[u].uarch == c->uarch,
							"microarchitecture index agrees with the core");
					}
				}
				vf_assert(index < N, "microarchitecture index in range");
			}
		}
		for (uint32_t j = 0; j < i; j++) {
			const struct cpuinfo_processor* q = &cpuinfo_processors[j];
			const uint32_t qi = (uint32_t)q->linux_id;
			vf_assert(pi != qi, "a processor is published once");
			if (machine.has_package_id[pi % N] && machine.has_package_id[qi % N]) {
				vf_assert(
					(p->cluster == q->cluster) == (machine.group[pi % N] == machine.group[qi % N]),
					"clusters are the kernel's");
			}
		}

		/* the most capable cores come first */
		for (uint32_t j = 0; j < i; j++) {
			const struct cpuinfo_core* first = &cpuinfo_cores[j];
			const struct cpuinfo_core* second = &cpuinfo_cores[i];
			vf_assert(!(is_little(first->midr) && is_big(second->midr)), "big cores come before LITTLE cores");
			const uint32_t fi = (uint32_t)cpuinfo_processors[j].linux_id;
			if (first->midr == second->midr && frequency_known[fi % N] && frequency_known[pi % N]) {
				vf_assert(
					machine.max_frequency[fi % N] >= machine.max_frequency[pi % N],
					"of equal cores, faster ones come first");
			}
		}

		uint32_t l1i_size = L1I_SIZE, l1d_size = L1D_SIZE;
#if CPUINFO_ARCH_ARM
		l1i_size = machine.own_l1i[pi % N] ? OWN_L1I_SIZE : L1I_SIZE;
		l1d_size = machine.own_l1d[pi % N] ? OWN_L1D_SIZE : L1D_SIZE;
#endif
		for (uint32_t k = 0; k < N; k++) {
			if (k < cpuinfo_cache_count[cpuinfo_cache_level_1i] && p->cache.l1i == &cpuinfo_cache[cpuinfo_cache_level_1i][k]) {
				vf_assert(cpuinfo_cache[cpuinfo_cache_level_1i][k].size == l1i_size, "L1 instruction cache");
				vf_assert(cpuinfo_cache[cpuinfo_cache_level_1i][k].processor_count == 1, "L1 instruction cache is private");
			}
			if (k < cpuinfo_cache_count[cpuinfo_cache_level_1d] && p->cache.l1d == &cpuinfo_cache[cpuinfo_cache_level_1d][k]) {
				vf_assert(cpuinfo_cache[cpuinfo_cache_level_1d][k].size == l1d_size, "L1 data cache");
				vf_assert(cpuinfo_cache[cpuinfo_cache_level_1d][k].processor_count == 1, "L1 data cache is private");
			}
			if (k < cpuinfo_cache_count[cpuinfo_cache_level_2] && p->cache.l2 == &cpuinfo_cache[cpuinfo_cache_level_2][k]) {
				vf_assert(cpuinfo_cache[cpuinfo_cache_level_2][k].size == machine.l2_size[cluster % N], "L2 cache of the cluster");
			}
			if (k < cpuinfo_cache_count[cpuinfo_cache_level_3] && p->cache.l3 == &cpuinfo_cache[cpuinfo_cache_level_3][k]) {
				vf_assert(cpuinfo_cache[cpuinfo_cache_level_3][k].size == machine.l3_size[cluster % N], "L3 cache of the cluster");
			}
		}
		vf_assert(p->cache.l1i != NULL && p->cache.l1d != NULL && p->cache.l4 == NULL, "L1 caches");
		vf_assert((p->cache.l2 != NULL) == (machine.l2_size[cluster % N] != 0), "an L2 cache exactly if the core has one");
		vf_assert((p->cache.l3 != NULL) == (machine.l3_size[cluster % N] != 0), "an L3 cache exactly if the core has one");
	}
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_1i, l1i);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_1d, l1d);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_2, l2);
	CHECK_CACHE_LEVEL(cpuinfo_cache_level_3, l3);

	vf_assert(cpuinfo_linux_cpu_max <= N, "lookup size");
	for (uint32_t i = 0; i < N; i++) {
		if (i < cpuinfo_linux_cpu_max) {
			const struct cpuinfo_processor* p = cpuinfo_linux_cpu_to_processor_map[i];
			vf_assert((p != NULL) == usable[i], "lookup by system number finds exactly the usable processors");
			if (p != NULL) {
				bool found = false;
				for (uint32_t k = 0; k < N; k++) {
					if (k < cpuinfo_processors_count && p == &cpuinfo_processors[k]) {
						found = true;
						vf_assert((uint32_t)cpuinfo_processors[k].linux_id == i, "lookup finds the processor with that number");
						vf_assert(
							cpuinfo_linux_cpu_to_core_map[i] == cpuinfo_processors[k].core,
							"lookup finds the core of that processor");
					}
				}
				vf_assert(found, "lookup yields a published processor");
			} else {
				vf_assert(cpuinfo_linux_cpu_to_core_map[i] == NULL, "no core for an unusable processor");
			}
		} else {
			vf_assert(!usable[i], "lookup covers every usable processor");
		}
	}
	if (cpuinfo_processors_count == N && cpuinfo_clusters_count == 2 && cpuinfo_uarchs_count == 2) {
		vf_witness("two kinds of cores");
	}
	if (cpuinfo_clusters_count == 2 && cpuinfo_cache_count[cpuinfo_cache_level_2] == 2) {
		vf_witness("two L2 caches");
	}
#endif
	return 0;
}
