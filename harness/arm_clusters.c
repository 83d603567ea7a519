/*
 * Inference of core clusters and core IDs on ARM Linux from whatever part of
 * the information the kernel gives.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <arm/api.h>
#include <arm/linux/api.h>

#ifndef N
#define N 4
#endif

#define PARTS 5
static const uint32_t part_flag[PARTS] = {
	CPUINFO_ARM_LINUX_VALID_IMPLEMENTER,
	CPUINFO_ARM_LINUX_VALID_VARIANT,
	CPUINFO_ARM_LINUX_VALID_ARCHITECTURE,
	CPUINFO_ARM_LINUX_VALID_PART,
	CPUINFO_ARM_LINUX_VALID_REVISION,
};
static const uint32_t part_mask[PARTS] = {0xFF000000, 0x00F00000, 0x000F0000, 0x0000FFF0, 0x0000000F};

#define FULL \
	(CPUINFO_ARM_LINUX_VALID_ARCHITECTURE | CPUINFO_ARM_LINUX_VALID_IMPLEMENTER | CPUINFO_ARM_LINUX_VALID_VARIANT | \
	 CPUINFO_ARM_LINUX_VALID_PART | CPUINFO_ARM_LINUX_VALID_REVISION | CPUINFO_ARM_LINUX_VALID_PROCESSOR)
#define CORE_ID (CPUINFO_ARM_LINUX_VALID_IMPLEMENTER | CPUINFO_ARM_LINUX_VALID_PART)

static struct cpuinfo_arm_linux_processor before[N], p[N];

static uint32_t known_bits(uint32_t flags) {
	uint32_t mask = 0;
	for (uint32_t k = 0; k < PARTS; k++) {
		mask |= flags & part_flag[k] ? part_mask[k] : 0;
	}
	return mask;
}

/* whether what is known of two processors lets them be of one cluster */
static bool compatible(const struct cpuinfo_arm_linux_processor* a, const struct cpuinfo_arm_linux_processor* b) {
	const uint32_t both = a->flags & b->flags;
	return !((both & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) && a->max_frequency != b->max_frequency) &&
		!((both & CPUINFO_LINUX_FLAG_MIN_FREQUENCY) && a->min_frequency != b->min_frequency) &&
		((a->midr ^ b->midr) & known_bits(both)) == 0;
}

/* kernel with little information: cores that may be paired with the smaller one in a package */
static uint32_t little_for(uint32_t midr) {
	switch (midr & 0xFF0FFFF0) {
		case 0x410FD0A0: /* Cortex-A75 with Cortex-A55 */
			return 0x410FD050;
		case 0x410FD090: /* Cortex-A73, A72, A57 with Cortex-A53 */
		case 0x410FD080:
		case 0x410FD070:
		case 0x530F0010: /* Exynos M1 with Cortex-A53 */
			return 0x410FD030;
		case 0x410FC0F0: /* Cortex-A15, A17 with Cortex-A7 */
		case 0x410FC0E0:
			return 0x410FC070;
		case 0x510F2050: /* Kryo */
			return 0x510F2110;
		case 0x510F8000: /* Kryo 280 */
			return 0x510F8010;
		case 0x4E0F0030: /* Denver 2 with Cortex-A57 */
			return 0x410FD070;
		default:
			return midr & 0xFF0FFFF0;
	}
}

#ifdef CHIPSET
/* Cores of published chipsets, smallest cores first: bits 15:4 of the ID, and the implementer. */
#define ARM_CORE(part) (0x41000000 | (part) << 4)
#define A5 ARM_CORE(0xC05)
#define A7 ARM_CORE(0xC07)
#define A15 ARM_CORE(0xC0F)
#define A17 ARM_CORE(0xC0E)
#define A35 ARM_CORE(0xD04)
#define A53 ARM_CORE(0xD03)
#define A57 ARM_CORE(0xD07)
#define A72 ARM_CORE(0xD08)
#define A73 ARM_CORE(0xD09)
#define M1 0x53000010
#define SERIES(name) cpuinfo_arm_chipset_series_##name
static const struct {
	enum cpuinfo_arm_chipset_series series;
	uint32_t model;
	uint32_t cores[3], core[3];
} known_chipsets[] = {
	{SERIES(qualcomm_msm), 8956, {4, 2}, {A53, A72}},
	{SERIES(qualcomm_msm), 8976, {4, 4}, {A53, A72}},
	{SERIES(qualcomm_msm), 8992, {4, 2}, {A53, A57}},
	{SERIES(qualcomm_msm), 8994, {4, 4}, {A53, A57}},
	{SERIES(samsung_exynos), 5433, {4, 4}, {A53, A57}},
	{SERIES(samsung_exynos), 7420, {4, 4}, {A53, A57}},
	{SERIES(samsung_exynos), 8890, {4, 4}, {A53, M1}},
	{SERIES(hisilicon_kirin), 950, {4, 4}, {A53, A72}},
	{SERIES(hisilicon_kirin), 955, {4, 4}, {A53, A72}},
	{SERIES(mediatek_mt), 8173, {2, 2}, {A53, A72}},
	{SERIES(mediatek_mt), 8176, {4, 2}, {A53, A72}},
	{SERIES(mediatek_mt), 6797, {4, 4, 2}, {A53, A53, A72}},
	{SERIES(mediatek_mt), 6799, {4, 4, 2}, {A35, A53, A73}},
	{SERIES(rockchip_rk), 3399, {4, 2}, {A53, A72}},
#if CPUINFO_ARCH_ARM
	{SERIES(qualcomm_msm), 8916, {4}, {A53}},
	{SERIES(qualcomm_msm), 8939, {4, 4}, {A53, A53}},
	{SERIES(samsung_exynos), 5422, {4, 4}, {A7, A15}},
	{SERIES(samsung_exynos), 5430, {4, 4}, {A7, A15}},
	{SERIES(hisilicon_kirin), 920, {4, 4}, {A7, A15}},
	{SERIES(hisilicon_kirin), 925, {4, 4}, {A7, A15}},
	{SERIES(hisilicon_kirin), 928, {4, 4}, {A7, A15}},
	{SERIES(mediatek_mt), 8135, {2, 2}, {A7, A15}},
	{SERIES(mediatek_mt), 6592, {4, 4}, {A7, A7}},
	{SERIES(mediatek_mt), 6595, {4, 4}, {A7, A17}},
	{SERIES(actions_atm), 7029, {4}, {A5}},
#else
	{SERIES(mediatek_mt), 8735, {4}, {A53}},
#endif
};
#define KNOWN_CHIPSETS (sizeof(known_chipsets) / sizeof(known_chipsets[0]))
#endif

int main(void) {
#ifdef LAYOUT
	/* a given arrangement of processors, so that every index is known */
	static const uint32_t layout[N] = {LAYOUT};
	const uint32_t count = N;
#else
	const uint32_t count = nd_range(1, N);
#endif
	uint32_t usable = 0, from_kernel = 0;
	for (uint32_t i = 0; i < N; i++) {
		if (i >= count) {
			continue;
		}
		struct cpuinfo_arm_linux_processor* q = &before[i];
		q->system_processor_id = i;
#ifdef LAYOUT
		const bool valid = true;
#else
		const bool valid = nd_bool();
#endif
		const bool listed = nd_bool();
		if (listed) {
			q->flags = (nd_u32() & FULL) | CPUINFO_ARM_LINUX_VALID_PROCESSOR;
			q->midr = nd_u32();
			vf_assume((q->midr & ~known_bits(q->flags)) == 0);
			vf_assume(!(q->flags & CPUINFO_ARM_LINUX_VALID_ARCHITECTURE) || (q->midr & 0xF0000) == 0xF0000);
		}
		q->package_leader_id = i;
		if (valid) {
			usable++;
			q->flags |= CPUINFO_LINUX_FLAG_VALID;
			if ((q->max_frequency = nd_u32()) != 0) {
				q->flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
			}
			if ((q->min_frequency = nd_u32()) != 0) {
				q->flags |= CPUINFO_LINUX_FLAG_MIN_FREQUENCY;
			}
#ifdef LAYOUT
			from_kernel++;
			q->flags |= CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER;
			q->package_leader_id = layout[i];
#else
			if (nd_bool()) {
				from_kernel++;
				q->flags |= CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER;
				q->package_leader_id = nd_range(0, N - 1);
				vf_assume(q->package_leader_id <= i);
			}
#endif
		}
	}
	for (uint32_t i = 0; i < N; i++) {
		for (uint32_t j = 0; j < i; j++) {
			if (i < count && before[i].package_leader_id == j) {
				vf_assume(before[j].package_leader_id == j);
				vf_assume((before[j].flags & CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) != 0);
			}
			/* the kernel's clusters are of one kind of core */
			if (i < count && before[i].package_leader_id == before[j].package_leader_id) {
				vf_assume(((before[i].midr ^ before[j].midr) & known_bits(before[i].flags & before[j].flags)) == 0);
			}
		}
	}
	vf_assume(usable != 0);
	struct cpuinfo_arm_chipset chipset = {0};
#ifdef CHIPSET
	chipset.series = (enum cpuinfo_arm_chipset_series)nd_range(0, 100);
	chipset.model = nd_u32();
#endif
	for (uint32_t i = 0; i < N; i++) {
		p[i] = before[i];
	}

	bool guessed = false;
#ifdef MIDR_ONLY
	/* what the other query shows of the clusters holds of those the kernel gives */
	vf_assume(from_kernel == usable);
#else
	if (from_kernel != usable) {
		guessed = cpuinfo_arm_linux_detect_core_clusters_by_heuristic(usable, count, p);
		if (!guessed) {
			for (uint32_t i = 0; i < N; i++) {
				vf_assert(
					p[i].package_leader_id == before[i].package_leader_id && p[i].flags == before[i].flags,
					"a heuristic that does not apply changes nothing");
			}
			cpuinfo_arm_linux_detect_core_clusters_by_sequential_scan(count, p);
		}
	}
#endif

	uint32_t size[N] = {0}, leaders = 0, leader_of[N], with_id = 0, last_with_id = N, last_listed = N, complete = 0;
	uint32_t usable_before[N];
	uint32_t seen = 0;
	for (uint32_t i = 0; i < N; i++) {
		usable_before[i] = seen;
		leader_of[i] = p[i].package_leader_id;
		if (i >= count || !(before[i].flags & CPUINFO_LINUX_FLAG_VALID)) {
			vf_assert(p[i].flags == before[i].flags && p[i].package_leader_id == before[i].package_leader_id, "unusable processors stay as they are");
			continue;
		}
		seen++;
		vf_assert(leader_of[i] <= i, "the leader is the first processor of its cluster");
		for (uint32_t j = 0; j < N; j++) {
			if (j == leader_of[i]) {
				vf_assert((before[j].flags & CPUINFO_LINUX_FLAG_VALID) && p[j].package_leader_id == j, "the leader leads its own cluster");
				size[j]++;
			}
		}
		leaders += leader_of[i] == i;
		if (before[i].flags & CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) {
			vf_assert(leader_of[i] == before[i].package_leader_id, "clusters the kernel reports are kept");
		}
		for (uint32_t j = 0; j < i; j++) {
			if ((before[j].flags & CPUINFO_LINUX_FLAG_VALID) && leader_of[i] == leader_of[j]) {
				vf_assert(
					((before[i].flags ^ before[j].flags) & CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) == 0,
					"clusters the kernel reports get no further members");
				vf_assert(
					(before[i].flags & CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) || compatible(&before[i], &before[j]),
					"processors known to differ are not put into one cluster");
			}
		}
		if (before[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
			last_listed = i;
		}
		if ((before[i].flags & CORE_ID) == CORE_ID) {
			with_id++;
			last_with_id = i;
		}
		complete += (before[i].flags & FULL) == FULL;
	}

#ifndef MIDR_ONLY
	/* a system of which nothing distinguishes the processors */
	bool alike = from_kernel == 0;
	for (uint32_t i = 0; i < N; i++) {
		for (uint32_t j = 0; j < i; j++) {
			alike &= !(before[i].flags & before[j].flags & CPUINFO_LINUX_FLAG_VALID) || compatible(&before[i], &before[j]);
		}
	}
	if (alike) {
		const uint32_t group = usable == 6 || usable == 8 || usable == 10 ? 4 : N;
		for (uint32_t i = 0; i < N; i++) {
			for (uint32_t j = 0; j < i; j++) {
				if (before[i].flags & before[j].flags & CPUINFO_LINUX_FLAG_VALID) {
					vf_assert(
						(leader_of[i] == leader_of[j]) == (usable_before[i] / group == usable_before[j] / group),
						"processors nothing distinguishes form the usual clusters");
				}
			}
		}
		vf_witness("all processors alike");
	}
	if (guessed) {
		vf_assert(usable == 6 || usable == 8 || usable == 10, "only usual core counts are guessed");
		vf_assert(leaders == (usable == 10 ? 3 : 2), "usual number of clusters");
#if N >= 6
		if (from_kernel == 4) {
			vf_witness("one of two clusters from the kernel");
		}
#endif
	} else if (leaders == 3) {
		vf_witness("three clusters");
	}
	if (from_kernel != 0 && from_kernel != usable) {
		vf_witness("some processors grouped by the kernel");
	}
#endif

#ifndef CLUSTERS_ONLY
	cpuinfo_arm_linux_count_cluster_processors(count, p);
	const uint32_t clusters = cpuinfo_arm_linux_detect_cluster_midr(&chipset, count, usable, p);
	vf_assert(clusters == leaders, "number of clusters");

	/* A single ID, given for the last processor listed, may belong to another cluster. */
	const bool ambiguous = with_id == 1 && last_with_id == last_listed && leaders > 1;
#ifndef LAYOUT
	if (ambiguous) {
		vf_witness("an ID that may belong to any cluster");
	}
#endif

	/* the ID each cluster reported completely, and the ID a cluster without one inherits */
	bool reported[N] = {false};
	uint32_t reported_midr[N] = {0}, reported_clusters = 0;
	for (uint32_t i = 0; i < N; i++) {
		for (uint32_t j = 0; j < N; j++) {
			if (i < count && (before[i].flags & CPUINFO_LINUX_FLAG_VALID) && leader_of[i] == j && (before[i].flags & FULL) == FULL) {
				reported_clusters += !reported[j];
				reported[j] = true;
				reported_midr[j] = before[i].midr;
			}
		}
	}

	uint32_t leader0 = N, leader1 = N;
	for (uint32_t i = 0; i < N; i++) {
		if (i >= count || !(before[i].flags & CPUINFO_LINUX_FLAG_VALID)) {
			continue;
		}
		for (uint32_t j = 0; j < N; j++) {
			if (j == leader_of[i]) {
				vf_assert(p[i].package_processor_count == size[j], "size of the cluster");
				if (before[i].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) {
					vf_assert(p[j].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY, "the cluster's frequency is known if a member's is");
				}
			}
		}
		vf_assert(p[i].package_leader_id == leader_of[i], "clusters stay as they are");
		if (leader_of[i] != i) {
			continue;
		}
		leader1 = leader0 != N && leader1 == N ? i : leader1;
		leader0 = leader0 == N ? i : leader0;
		if (before[i].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) {
			vf_assert(p[i].max_frequency == before[i].max_frequency, "the leader's own frequency is kept");
		}
		if (reported[i] && !ambiguous) {
			vf_assert(p[i].midr == reported_midr[i], "an ID the kernel reports completely is kept");
		}
		if (complete != 0) {
			vf_assert((p[i].flags & CORE_ID) == CORE_ID, "every cluster gets an ID if one is known");
		}
#ifndef CHIPSET
		if (complete != 0 && !reported[i] && !ambiguous && with_id < usable && !(leaders == 2 && with_id == 1)) {
			/* that of the closest cluster before it, or else the last one reported */
			bool found = false;
			uint32_t expected = 0;
			for (uint32_t j = 0; j < i; j++) {
				if (reported[j] && leader_of[j] == j) {
					found = true;
					expected = reported_midr[j];
				}
			}
			if (found) {
				vf_assert(p[i].midr == expected, "a cluster without an ID gets that of the cluster before it");
				vf_witness("inherited ID");
			}
		}
#endif
	}
#ifdef LAYOUT
	/* where the kernel names no core, or one that may be any, the chipset's are known */
	uint32_t listed_parts = 0;
	for (uint32_t i = 0; i < N; i++) {
		listed_parts |= before[i].flags & FULL & ~CPUINFO_ARM_LINUX_VALID_PROCESSOR;
	}
	if (ambiguous || listed_parts == 0) {
		for (uint32_t k = 0; k < KNOWN_CHIPSETS; k++) {
			const uint32_t* cores = known_chipsets[k].cores;
			if (known_chipsets[k].series == chipset.series && known_chipsets[k].model == chipset.model && cores[0] + cores[1] + cores[2] == N) {
				uint32_t start = 0;
				bool same = true;
				for (uint32_t c = 0; c < 3; c++) {
					same &= cores[c] == 0 || size[start % N] == cores[c];
					start += cores[c];
				}
				start = 0;
				for (uint32_t c = 0; c < 3; c++) {
					if (same && cores[c] != 0) {
						vf_assert((p[start % N].midr & 0xFF00FFF0) == known_chipsets[k].core[c], "cores of a known chipset");
						vf_witness("known chipset");
					}
					start += cores[c];
				}
			}
		}
	}
#endif
#ifndef CHIPSET
	if (leaders == 2 && complete == 1 && with_id == 1 && leader1 != N) {
		/* the one ID known is taken for that of the big cores */
		const uint32_t id = before[last_with_id % N].midr;
		uint32_t own = 0;
		for (uint32_t i = 0; i < N; i++) {
			own = i == last_with_id ? leader_of[i] : own;
		}
		uint32_t little = leader0;
		const bool freq = (p[leader0 % N].flags & p[leader1 % N].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) != 0;
		if (freq && p[leader0 % N].max_frequency > p[leader1 % N].max_frequency) {
			little = leader1;
		}
		const uint32_t other = own == leader0 ? leader1 : leader0;
		if ((before[other % N].flags & FULL & ~CPUINFO_ARM_LINUX_VALID_PROCESSOR) == 0) {
			vf_assert(
				(p[other % N].midr & 0xFF0FFFF0) == (other == little && own != little ? little_for(id) : id & 0xFF0FFFF0),
				"the other cluster gets the matching ID");
			vf_witness("big and little");
		}
	}
#endif
#endif
	return 0;
}
