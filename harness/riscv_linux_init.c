/*
 * Assembly of the published topology on RISC-V Linux. The kernel's lists and
 * the hardware probe are replaced by arbitrary nested groupings.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <riscv/linux/api.h>

#ifndef N
#define N 3
#endif
#define NO_SMT_ID

#ifdef FAULTS
#define ALLOC_MAY_FAIL() nd_bool()
#define MAY_FAIL() fails()
#else
#define MAY_FAIL() false
#endif
#define POOL_N N
#define ZERO4(a, b, c, d) ((a) == 0 && (b) == 0 && (c) == 0 && (d) == 0)
#define POOL_SAME_linux(a) ((a).flags == 0)
#define POOL_SAME_processor(a) ((a).core == NULL && (a).cluster == NULL && (a).package == NULL && (a).linux_id == 0)
#define POOL_SAME_core(a) ((a).processor_start == 0 && (a).processor_count == 0 && (a).core_id == 0 && (a).cluster == NULL && (a).package == NULL)
#define POOL_SAME_cluster(a) (ZERO4((a).processor_start, (a).processor_count, (a).core_start, (a).core_count) && (a).package == NULL)
#define POOL_SAME_package(a) ZERO4((a).processor_start, (a).processor_count, (a).core_start, (a).core_count)
#define POOL_SAME_uarch(a) ((a).uarch == 0 && (a).processor_count == 0 && (a).core_count == 0)
#define POOL_SAME_processor_map(a) ((a) == NULL)
#define POOL_SAME_core_map(a) ((a) == NULL)
#define POOLS(X) \
	X(linux, struct cpuinfo_riscv_linux_processor) \
	X(processor_map, struct cpuinfo_processor*) \
	X(core_map, struct cpuinfo_core*) \
	X(processor, struct cpuinfo_processor) \
	X(core, struct cpuinfo_core) \
	X(cluster, struct cpuinfo_cluster) \
	X(package, struct cpuinfo_package) \
	X(uarch, struct cpuinfo_uarch_info)
/* the index map is allocated with the size of a pointer per element */
static uint32_t pool_uarch_map[2 * N];
#define POOL_SPECIAL(count, size, hint) \
	if (hinted(hint, "struct cpuinfo_uarch_info*") || hinted(hint, "uint32_t")) { \
		return allocated(pool_uarch_map, count, size); \
	}
#include "pools.h"
#include "hierarchy.h"

/* ---- the machine ---- */

static struct {
	bool present[N];
	uint32_t core[N], cluster[N], package[N]; /* group numbers */
	uint32_t core_id[N], frequency[N];
	enum cpuinfo_vendor vendor[N];
	bool failed;
} machine;

static bool fails(void) {
	if (nd_bool()) {
		machine.failed = true;
		return true;
	}
	return false;
}

uint32_t cpuinfo_linux_get_max_processors_count(void) {
	return N;
}

uint32_t cpuinfo_linux_get_max_present_processor(uint32_t max) {
	if (MAY_FAIL()) {
		return UINT32_MAX;
	}
	uint32_t last = 0;
	for (uint32_t i = 0; i < N; i++) {
		if (machine.present[i]) {
			last = i;
		}
	}
	return last;
}

bool cpuinfo_linux_detect_present_processors(uint32_t max, uint32_t* flags, uint32_t stride, uint32_t flag) {
	vf_assert(stride == sizeof(struct cpuinfo_riscv_linux_processor), "array stride");
	struct cpuinfo_riscv_linux_processor* p =
		(struct cpuinfo_riscv_linux_processor*)((char*)flags - offsetof(struct cpuinfo_riscv_linux_processor, flags));
	for (uint32_t i = 0; i < N; i++) {
		if (i < max && machine.present[i]) {
			p[i].flags |= flag;
		}
	}
	return !MAY_FAIL();
}

/* hands over the maximal runs of processors in the same group */
static bool siblings(const uint32_t* group, uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	if (MAY_FAIL()) {
		return false;
	}
	bool ok = true;
	for (uint32_t i = 0; i < N; i++) {
		const bool starts = machine.present[i] && group[i] == group[processor] &&
			(i == 0 || !(machine.present[i - 1] && group[i - 1] == group[processor]));
		if (starts) {
			uint32_t end = i + 1;
			bool open = true;
			for (uint32_t k = i + 1; k < N; k++) {
				open = open && machine.present[k] && group[k] == group[processor];
				end += open;
			}
			ok &= callback(processor, i, end < max ? end : max, context);
		}
	}
	return ok;
}

bool cpuinfo_linux_detect_core_cpus(uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	return siblings(machine.core, max, processor, callback, context);
}

bool cpuinfo_linux_detect_cluster_cpus(uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	return siblings(machine.cluster, max, processor, callback, context);
}

bool cpuinfo_linux_detect_package_cpus(uint32_t max, uint32_t processor, cpuinfo_siblings_callback callback, void* context) {
	return siblings(machine.package, max, processor, callback, context);
}

bool cpuinfo_linux_get_processor_core_id(uint32_t processor, uint32_t core_id[restrict static 1]) {
#ifdef FAULTS
	if (nd_bool()) {
		return false;
	}
#endif
	*core_id = machine.core_id[processor];
	return true;
}

uint32_t cpuinfo_linux_get_processor_cur_frequency(uint32_t processor) {
	return machine.frequency[processor];
}

void cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe(
	uint32_t processor,
	enum cpuinfo_vendor vendor[restrict static 1],
	enum cpuinfo_uarch uarch[restrict static 1]) {
	*vendor = machine.vendor[processor];
	*uarch = cpuinfo_uarch_unknown;
}

void cpuinfo_riscv_linux_decode_isa_from_hwcap(struct cpuinfo_riscv_isa isa[restrict static 1]) {
	isa->v = true;
}

void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*)) {
	vf_assert(size == sizeof(struct cpuinfo_riscv_linux_processor) && count <= N, "sort within the model");
	struct cpuinfo_riscv_linux_processor* a = base;
	for (uint32_t pass = 0; pass + 1 < N; pass++) {
		for (uint32_t i = 0; i + 1 < N - pass; i++) {
			if (i + 1 < count) {
				const int order = compare(&a[i], &a[i + 1]);
				/* equal elements may end up in either order */
				if (order > 0 || order == 0 && nd_bool()) {
					const struct cpuinfo_riscv_linux_processor t = a[i];
					a[i] = a[i + 1];
					a[i + 1] = t;
				}
			}
		}
	}
}

#ifndef FAULTS
/* When initialisation may fail is the other query's concern; here those paths end early, which keeps the encoding small. */
void cpuinfo_vlog_error(const char* format, va_list args) {
	vf_assume(0);
}

void cpuinfo_vlog_fatal(const char* format, va_list args) {
	vf_assume(0);
}
#endif

int main(void) {
	uint32_t usable = 0;
	for (uint32_t i = 0; i < N; i++) {
		machine.present[i] = nd_bool();
		usable += machine.present[i];
		machine.core[i] = nd_range(0, N - 1);
		machine.cluster[i] = nd_range(0, N - 1);
		machine.package[i] = nd_range(0, N - 1);
		machine.core_id[i] = nd_u32();
		machine.frequency[i] = nd_u32();
		machine.vendor[i] = nd_bool() ? cpuinfo_vendor_sifive : cpuinfo_vendor_unknown;
		/* cores nest in clusters, clusters in packages; the threads of a core are alike */
		for (uint32_t j = 0; j < i; j++) {
			vf_assume(machine.core[i] != machine.core[j] || machine.cluster[i] == machine.cluster[j]);
			vf_assume(machine.cluster[i] != machine.cluster[j] || machine.package[i] == machine.package[j]);
			vf_assume(
				machine.core[i] != machine.core[j] ||
				machine.vendor[i] == machine.vendor[j] && machine.frequency[i] == machine.frequency[j] &&
					machine.core_id[i] == machine.core_id[j]);
		}
	}
	vf_assume(usable != 0);

	cpuinfo_riscv_linux_init();

	check_slack();
#ifdef FAULTS
	if (!cpuinfo_is_initialized) {
		vf_assert(allocation_failed || machine.failed, "initialisation fails only if something failed");
		vf_assert(
			cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 &&
				cpuinfo_packages_count == 0 && cpuinfo_processors == NULL && cpuinfo_cores == NULL &&
				cpuinfo_clusters == NULL && cpuinfo_packages == NULL && cpuinfo_linux_cpu_max == 0 &&
				cpuinfo_uarchs == NULL && cpuinfo_uarchs_count == 0,
			"nothing is published on failure");
		vf_assert(live_allocations() == 0, "nothing leaks on failure");
		if (allocation_failed && allocations == 7) {
			vf_witness("a late allocation fails");
		}
	} else {
		vf_assert(!allocation_failed && !machine.failed, "failures are reported");
		vf_assert(
			is_live(cpuinfo_processors, cpuinfo_processors_count) && is_live(cpuinfo_cores, cpuinfo_cores_count) &&
				is_live(cpuinfo_clusters, cpuinfo_clusters_count) &&
				is_live(cpuinfo_packages, cpuinfo_packages_count) && is_live(cpuinfo_uarchs, cpuinfo_uarchs_count) &&
				is_live(cpuinfo_linux_cpu_to_processor_map, cpuinfo_linux_cpu_max) &&
				is_live(cpuinfo_linux_cpu_to_core_map, cpuinfo_linux_cpu_max) &&
				is_live(cpuinfo_linux_cpu_to_uarch_index_map, cpuinfo_linux_cpu_max),
			"published arrays are allocated and not freed");
		vf_assert(live_allocations() == 8, "nothing else stays allocated");
		vf_witness("success");
	}
#else
	vf_assert(cpuinfo_is_initialized, "initialisation succeeds");
	check_hierarchy();
	vf_assert(cpuinfo_processors_count == usable, "exactly the present processors are published");
	vf_assert(
		cpuinfo_uarchs_count == 1 && cpuinfo_uarchs[0].uarch == cpuinfo_uarch_unknown &&
			cpuinfo_uarchs[0].processor_count == cpuinfo_processors_count && cpuinfo_uarchs[0].core_count == cpuinfo_cores_count,
		"microarchitecture summary");
	vf_assert(cpuinfo_isa.v, "extensions are published");
	for (uint32_t i = 0; i < N; i++) {
		if (i >= cpuinfo_processors_count) {
			continue;
		}
		const struct cpuinfo_processor* p = &cpuinfo_processors[i];
		const uint32_t pi = (uint32_t)p->linux_id;
		vf_assert(pi < N && machine.present[pi % N], "a published processor is present");
		for (uint32_t k = 0; k < N; k++) {
			if (k < cpuinfo_cores_count && p->core == &cpuinfo_cores[k]) {
				vf_assert(
					cpuinfo_cores[k].vendor == machine.vendor[pi % N] && cpuinfo_cores[k].uarch == cpuinfo_uarch_unknown &&
						cpuinfo_cores[k].frequency == machine.frequency[pi % N] &&
						cpuinfo_cores[k].core_id == machine.core_id[pi % N],
					"a core is described by the kernel's data for its processors");
			}
		}
		for (uint32_t j = 0; j < i; j++) {
			const struct cpuinfo_processor* q = &cpuinfo_processors[j];
			const uint32_t qi = (uint32_t)q->linux_id;
			vf_assert(pi != qi, "a processor is published once");
			vf_assert((p->core == q->core) == (machine.core[pi % N] == machine.core[qi % N]), "same core");
			vf_assert((p->cluster == q->cluster) == (machine.cluster[pi % N] == machine.cluster[qi % N]), "same cluster");
			vf_assert((p->package == q->package) == (machine.package[pi % N] == machine.package[qi % N]), "same package");
		}
	}
	vf_assert(cpuinfo_linux_cpu_max <= N, "lookup size");
	for (uint32_t i = 0; i < N; i++) {
		if (i < cpuinfo_linux_cpu_max) {
			const struct cpuinfo_processor* p = cpuinfo_linux_cpu_to_processor_map[i];
			vf_assert((p != NULL) == machine.present[i], "lookup by system number finds exactly the present processors");
			vf_assert(cpuinfo_linux_cpu_to_uarch_index_map[i] == 0, "microarchitecture index in range");
			if (p != NULL) {
				bool found = false;
				for (uint32_t k = 0; k < N; k++) {
					if (k < cpuinfo_processors_count && p == &cpuinfo_processors[k]) {
						found = true;
						vf_assert((uint32_t)cpuinfo_processors[k].linux_id == i, "lookup finds the processor with that number");
						vf_assert(
							cpuinfo_linux_cpu_to_core_map[i] == cpuinfo_processors[k].core,
							"lookup finds the core of that processor");
					}
				}
				vf_assert(found, "lookup yields a published processor");
			} else {
				vf_assert(cpuinfo_linux_cpu_to_core_map[i] == NULL, "no core for an absent processor");
			}
		} else {
			vf_assert(!machine.present[i], "lookup covers every present processor");
		}
	}
	if (cpuinfo_processors_count == 3 && cpuinfo_cores_count == 2 && machine.core[0] == machine.core[2]) {
		vf_witness("interleaved threads");
	}
	if (cpuinfo_packages_count == 2 && cpuinfo_linux_cpu_max == 3 && cpuinfo_processors_count == 2) {
		vf_witness("two packages and a gap");
	}
#endif
	return 0;
}
