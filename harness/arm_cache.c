/*
 * ARM cache descriptions: self-consistent for every argument, within the ranges
 * of the core's technical reference manual, and equal to the published numbers
 * of the chips for which they are known.
 */
#include "vf.h"
#include <string.h>
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <arm/api.h>

#define K 1024u
#define M (1024u * 1024u)

#define A32 1
#define A64 2
#define ANY 3
#if CPUINFO_ARCH_ARM
#define HERE A32
#else
#define HERE A64
#endif

/*
 * X(core, builds, most cores per cluster,
 *   L1I from, to, ways, line; L1D from, to, ways, line; L2 from, to, ways, line; L3 from, to)
 * Zero ways or line: not fixed by the manual. L3 is the cluster's (16 ways, 64 byte lines where given).
 */
#define CORES(X) \
	X(arm11, A32, 4, 4 * K, 64 * K, 4, 32, 4 * K, 64 * K, 4, 32, 0, 0, 0, 0, 0, 0) \
	X(cortex_a5, A32, 4, 4 * K, 64 * K, 2, 32, 4 * K, 64 * K, 4, 32, 128 * K, 1 * M, 8, 32, 0, 0) \
	X(cortex_a7, A32, 8, 8 * K, 64 * K, 2, 32, 8 * K, 64 * K, 4, 64, 128 * K, 1 * M, 8, 64, 0, 0) \
	X(cortex_a8, A32, 1, 16 * K, 32 * K, 4, 64, 16 * K, 32 * K, 4, 64, 128 * K, 1 * M, 8, 64, 0, 0) \
	X(cortex_a9, A32, 4, 16 * K, 64 * K, 4, 32, 16 * K, 64 * K, 4, 32, 128 * K, 8 * M, 16, 32, 0, 0) \
	X(cortex_a15, A32, 4, 32 * K, 32 * K, 2, 64, 32 * K, 32 * K, 2, 64, 512 * K, 4 * M, 16, 64, 0, 0) \
	X(cortex_a17, A32, 4, 32 * K, 64 * K, 4, 64, 32 * K, 32 * K, 4, 64, 256 * K, 8 * M, 16, 64, 0, 0) \
	X(scorpion, A32, 2, 32 * K, 32 * K, 4, 32, 32 * K, 32 * K, 4, 32, 256 * K, 512 * K, 4, 128, 0, 0) \
	X(krait, A32, 4, 16 * K, 16 * K, 4, 64, 16 * K, 16 * K, 4, 64, 512 * K, 2 * M, 8, 128, 0, 0) \
	X(cortex_a35, ANY, 4, 8 * K, 64 * K, 2, 64, 8 * K, 64 * K, 4, 64, 128 * K, 1 * M, 8, 64, 0, 0) \
	X(cortex_a53, ANY, 8, 8 * K, 64 * K, 2, 64, 8 * K, 64 * K, 4, 64, 128 * K, 2 * M, 16, 64, 0, 0) \
	X(cortex_a55r0, ANY, 8, 16 * K, 64 * K, 4, 64, 16 * K, 64 * K, 4, 64, 64 * K, 512 * K, 0, 64, 0, 4 * M) \
	X(cortex_a55, ANY, 8, 16 * K, 64 * K, 4, 64, 16 * K, 64 * K, 4, 64, 64 * K, 512 * K, 0, 64, 0, 4 * M) \
	X(cortex_a57, ANY, 4, 48 * K, 48 * K, 3, 64, 32 * K, 32 * K, 2, 64, 512 * K, 2 * M, 16, 64, 0, 0) \
	X(cortex_a65, ANY, 8, 32 * K, 64 * K, 4, 64, 16 * K, 64 * K, 4, 64, 64 * K, 256 * K, 4, 64, 256 * K, 4 * M) \
	X(cortex_a72, ANY, 4, 48 * K, 48 * K, 3, 64, 32 * K, 32 * K, 2, 64, 512 * K, 4 * M, 16, 64, 0, 0) \
	X(cortex_a73, ANY, 4, 64 * K, 64 * K, 4, 64, 32 * K, 64 * K, 0, 64, 256 * K, 8 * M, 16, 64, 0, 0) \
	X(cortex_a75, ANY, 8, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 16, 64, 128 * K, 512 * K, 8, 64, 256 * K, 4 * M) \
	X(cortex_a76, ANY, 8, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 4, 64, 128 * K, 512 * K, 8, 64, 256 * K, 4 * M) \
	X(cortex_a77, ANY, 8, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 4, 64, 128 * K, 512 * K, 8, 64, 256 * K, 4 * M) \
	X(neoverse_n1, ANY, 64, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 4, 64, 256 * K, 1 * M, 8, 64, 0, 4 * M) \
	X(neoverse_v1, ANY, 64, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 4, 64, 256 * K, 1 * M, 8, 64, 0, 4 * M) \
	X(neoverse_n2, ANY, 64, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 4, 64, 256 * K, 1 * M, 8, 64, 0, 4 * M) \
	X(neoverse_v2, ANY, 64, 64 * K, 64 * K, 4, 64, 64 * K, 64 * K, 4, 64, 1 * M, 2 * M, 8, 64, 0, 4 * M) \
	X(kryo, ANY, 2, 32 * K, 32 * K, 4, 64, 24 * K, 24 * K, 3, 64, 512 * K, 1 * M, 8, 128, 0, 0) \
	X(denver, ANY, 2, 128 * K, 128 * K, 4, 64, 64 * K, 64 * K, 4, 64, 2 * M, 2 * M, 16, 64, 0, 0) \
	X(denver2, ANY, 2, 128 * K, 128 * K, 4, 64, 64 * K, 64 * K, 4, 64, 2 * M, 2 * M, 16, 64, 0, 0) \
	X(exynos_m1, ANY, 4, 64 * K, 64 * K, 4, 128, 32 * K, 32 * K, 8, 64, 2 * M, 2 * M, 16, 64, 0, 0) \
	X(exynos_m2, ANY, 4, 64 * K, 64 * K, 4, 128, 32 * K, 32 * K, 8, 64, 2 * M, 2 * M, 16, 64, 0, 0) \
	X(exynos_m3, ANY, 4, 64 * K, 64 * K, 4, 128, 64 * K, 64 * K, 8, 64, 512 * K, 512 * K, 0, 64, 4 * M, 4 * M) \
	X(thunderx, A64, 48, 78 * K, 78 * K, 0, 0, 32 * K, 32 * K, 0, 0, 16 * M, 16 * M, 0, 0, 0, 0) \
	X(taishan_v110, A64, 64, 64 * K, 64 * K, 0, 0, 64 * K, 64 * K, 0, 0, 512 * K, 512 * K, 0, 0, 1 * M, 64 * M)

/* X(core, further condition, L1I, L1D, L2, L3): published for the chip; 0: not published, NONE: absent */
#define NONE 1
#define SERIES(s) (chipset.series == cpuinfo_arm_chipset_series_##s)
#define MODEL(s, m) (SERIES(s) && chipset.model == (m))
#define ID(implementer, part) (midr >> 24 == (implementer) && (midr >> 4 & 0xFFF) == (part))
#define A53_SILVER ID('Q', 0x801)
#define A55_SILVER ID('Q', 0x803)
#define CHIPS(X) \
	X(cortex_a7, true, 32 * K, 32 * K, cores * 128 * K, NONE) \
	X(cortex_a8, chipset.vendor == cpuinfo_arm_chipset_vendor_samsung, 32 * K, 32 * K, 512 * K, NONE) \
	X(cortex_a8, chipset.vendor == cpuinfo_arm_chipset_vendor_texas_instruments, 32 * K, 32 * K, 256 * K, NONE) \
	X(cortex_a9, SERIES(samsung_exynos) || SERIES(texas_instruments_omap), 32 * K, 32 * K, 1 * M, NONE) \
	X(cortex_a15, true, 32 * K, 32 * K, cores * 512 * K, NONE) \
	X(cortex_a17, MODEL(mediatek_mt, 6595), 32 * K, 32 * K, cores * 512 * K, NONE) \
	X(scorpion, true, 32 * K, 32 * K, cores * 256 * K, NONE) \
	X(krait, true, 16 * K, 16 * K, cores * 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(broadcom_bcm, 2837), 16 * K, 16 * K, 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && SERIES(samsung_exynos), 32 * K, 32 * K, 256 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(rockchip_rk, 3368), 32 * K, 32 * K, cluster == 0 ? 512 * K : 256 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(mediatek_mt, 8173), 32 * K, 32 * K, 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(qualcomm_msm, 8916), 32 * K, 32 * K, 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(qualcomm_apq, 8016), 32 * K, 32 * K, 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && (MODEL(qualcomm_msm, 8937) || MODEL(qualcomm_msm, 8940) || MODEL(qualcomm_msm, 8953)), 32 * K, 32 * K, cluster == 0 ? 1 * M : 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(qualcomm_msm, 8952), 32 * K, 32 * K, cluster == 0 ? 512 * K : 256 * K, NONE) \
	X(cortex_a53, !A53_SILVER && MODEL(qualcomm_snapdragon, 450), 32 * K, 32 * K, cluster == 0 ? 1 * M : 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && SERIES(hisilicon_hi), 32 * K, 32 * K, 512 * K, NONE) \
	X(cortex_a53, !A53_SILVER && SERIES(hisilicon_kirin), 32 * K, 32 * K, chipset.model == 970 ? 1 * M : 512 * K, NONE) \
	X(cortex_a53, A53_SILVER && MODEL(qualcomm_msm, 8998), 32 * K, 32 * K, 1 * M, NONE) \
	X(cortex_a53, A53_SILVER && (MODEL(qualcomm_snapdragon, 636) || MODEL(qualcomm_snapdragon, 660)), 32 * K, 32 * K, 1 * M, NONE) \
	X(cortex_a53, A53_SILVER && MODEL(qualcomm_snapdragon, 630), 32 * K, 32 * K, cluster == 0 ? 1 * M : 512 * K, NONE) \
	X(cortex_a55, A55_SILVER && MODEL(qualcomm_snapdragon, 845), 32 * K, 32 * K, 128 * K, 2 * M) \
	X(cortex_a55r0, A55_SILVER && MODEL(qualcomm_snapdragon, 845), 32 * K, 32 * K, 128 * K, 2 * M) \
	X(cortex_a55, !A55_SILVER && SERIES(samsung_exynos), 32 * K, 32 * K, 512 * K, NONE) \
	X(cortex_a55, !A55_SILVER && MODEL(hisilicon_kirin, 980), 32 * K, 32 * K, 128 * K, 4 * M) \
	X(cortex_a57, true, 48 * K, 32 * K, cores * 512 * K, NONE) \
	X(cortex_a72, MODEL(broadcom_bcm, 2711) || MODEL(qualcomm_msm, 8956) || MODEL(qualcomm_msm, 8976) || MODEL(mediatek_mt, 8173), 48 * K, 32 * K, 1 * M, NONE) \
	X(cortex_a72, SERIES(hisilicon_kirin), 48 * K, 32 * K, 2 * M, NONE) \
	X(cortex_a73, SERIES(hisilicon_kirin), 64 * K, 64 * K, 2 * M, NONE) \
	X(cortex_a73, SERIES(mediatek_mt), 64 * K, 64 * K, 1 * M, NONE) \
	X(cortex_a73, SERIES(qualcomm_msm) && midr == UINT32_C(0x51AF8001), 64 * K, 64 * K, 2 * M, NONE) \
	X(cortex_a73, SERIES(qualcomm_snapdragon) && midr == UINT32_C(0x51AF8002), 64 * K, 64 * K, 1 * M, NONE) \
	X(cortex_a75, MODEL(qualcomm_snapdragon, 845), 64 * K, 64 * K, 256 * K, 2 * M) \
	X(cortex_a76, MODEL(hisilicon_kirin, 980), 64 * K, 64 * K, 512 * K, 4 * M) \
	X(neoverse_n1, ID('A', 0xD0C), 64 * K, 64 * K, 0, NONE) \
	X(kryo, midr == UINT32_C(0x510F2110) || midr == UINT32_C(0x510F2010), 32 * K, 24 * K, 512 * K, NONE) \
	X(kryo, midr == UINT32_C(0x510F2050), 32 * K, 24 * K, 1 * M, NONE) \
	X(taishan_v110, true, 64 * K, 64 * K, 512 * K, cores * M)

static void consistent(const struct cpuinfo_cache* c) {
	vf_assert(c->line_size >= 16 && c->line_size <= 256 && (c->line_size & (c->line_size - 1)) == 0, "line sizes are powers of two");
	vf_assert(c->associativity >= 1 && c->associativity <= 64 && c->partitions == 1, "every cache has ways");
	vf_assert(
		(uint64_t)c->size == (uint64_t)c->associativity * c->sets * c->line_size * c->partitions,
		"size is the product of ways, sets and line size");
}

static void within(const struct cpuinfo_cache* c, uint32_t from, uint32_t to, uint32_t ways, uint32_t line) {
	vf_assert(c->size >= from && c->size <= to, "the size is one the core can have");
	vf_assert(ways == 0 || c->size == 0 || c->associativity == ways, "the associativity is the core's");
	vf_assert(line == 0 || c->size == 0 || c->line_size == line, "the line size is the core's");
}

static void equal(const struct cpuinfo_cache* c, uint32_t size) {
	vf_assert(size == 0 || (size == NONE ? c->size == 0 : c->size == size), "the size is the one published for the chip");
}

int main(void) {
	struct cpuinfo_cache l1i, l1d, l2, l3;
	memset(&l1i, 0, sizeof(l1i));
	memset(&l1d, 0, sizeof(l1d));
	memset(&l2, 0, sizeof(l2));
	memset(&l3, 0, sizeof(l3));
	struct cpuinfo_arm_chipset chipset;
	memset(&chipset, 0, sizeof(chipset));
	chipset.vendor = (enum cpuinfo_arm_chipset_vendor)nd_range(0, cpuinfo_arm_chipset_vendor_max - 1);
	chipset.series = (enum cpuinfo_arm_chipset_series)nd_range(0, cpuinfo_arm_chipset_series_max - 1);
	chipset.model = nd_u32();
	const enum cpuinfo_uarch uarch = (enum cpuinfo_uarch)nd_u32();
	const uint32_t midr = nd_u32(), cluster = nd_u32(), version = nd_u32();
	const uint32_t cores = nd_range(1, 64);
	/* XScale is recognised by these part numbers */
	vf_assume(uarch != cpuinfo_uarch_xscale || HERE == A64 || (midr >> 12 & 0xF) == 2 || (midr >> 12 & 0xF) == 4 || (midr >> 12 & 0xF) == 6);
#define LIMIT(core, builds, most, ...) vf_assume(uarch != cpuinfo_uarch_##core || (((builds)&HERE) && cores <= (most)));
	CORES(LIMIT)
	vf_assume((uarch != cpuinfo_uarch_cortex_a12 && uarch != cpuinfo_uarch_cortex_a32) || cores <= 4);

	cpuinfo_arm_decode_cache(uarch, cores, midr, &chipset, cluster, version, &l1i, &l1d, &l2, &l3);

	vf_assert(l1i.size != 0 && l1d.size != 0, "every core has first-level caches");
	consistent(&l1i);
	consistent(&l1d);
	if (l2.size != 0) {
		consistent(&l2);
		vf_assert(l2.size >= l1i.size && l2.size >= l1d.size, "caches grow outwards");
	}
	if (l3.size != 0) {
		consistent(&l3);
		vf_assert(l2.size != 0 && l3.size >= l2.size, "caches grow outwards");
	}
#define WITNESS_ANY(name) vf_witness(name)
#if CPUINFO_ARCH_ARM
#define WITNESS_A32(name) vf_witness(name)
#define WITNESS_A64(name)
#else
#define WITNESS_A32(name)
#define WITNESS_A64(name) vf_witness(name)
#endif
#define CHECK(core, builds, most, i0, i1, iw, il, d0, d1, dw, dl, u0, u1, uw, ul, s0, s1) \
	if (((builds)&HERE) && uarch == cpuinfo_uarch_##core) { \
		within(&l1i, i0, i1, iw, il); \
		within(&l1d, d0, d1, dw, dl); \
		within(&l2, u0, u1, uw, ul); \
		within(&l3, s0, s1, 0, 0); \
		WITNESS_##builds(#core); \
	}
	CORES(CHECK)
	/* Cortex-A73 manual, 6.1: 8 ways of 32 KB or 16 ways of 64 KB */
	vf_assert(uarch != cpuinfo_uarch_cortex_a73 || l1d.associativity == l1d.size / (4 * K), "the associativity is the core's");
	/* Every manual offers multiples of 64 KB only */
	vf_assert(l2.size % (64 * K) == 0, "the second-level cache is a whole number of blocks");
#define CHIP(core, condition, i, d, u, s) \
	if ((HERE == A32 || !IS32(core)) && (HERE == A64 || !IS64(core)) && uarch == cpuinfo_uarch_##core && (condition)) { \
		equal(&l1i, i); \
		equal(&l1d, d); \
		equal(&l2, u); \
		equal(&l3, s); \
	}
#define BUILDS(core, builds, ...) only_##core = builds,
	enum { CORES(BUILDS) };
#define IS32(core) (only_##core == A32)
#define IS64(core) (only_##core == A64)
	CHIPS(CHIP)

	struct cpuinfo_core core;
	memset(&core, 0, sizeof(core));
	core.uarch = uarch;
	struct cpuinfo_processor processor;
	memset(&processor, 0, sizeof(processor));
	processor.core = &core;
	processor.cache.l1i = &l1i;
	processor.cache.l1d = &l1d;
	processor.cache.l2 = l2.size != 0 ? &l2 : NULL;
	processor.cache.l3 = l3.size != 0 ? &l3 : NULL;
	const uint32_t limit = cpuinfo_arm_compute_max_cache_size(&processor);
	/* Largest cache of the core's technical reference manual */
#define LARGEST(core, size) vf_assert(uarch != cpuinfo_uarch_##core || limit == (size), "the upper bound is the manual's");
	LARGEST(cortex_a7, 1 * M)
	LARGEST(cortex_a8, 1 * M)
	LARGEST(cortex_a12, 8 * M)
	LARGEST(cortex_a15, 4 * M)
	LARGEST(cortex_a17, 8 * M)
	LARGEST(cortex_a35, 1 * M)
	LARGEST(cortex_a53, 2 * M)
	LARGEST(cortex_a57, 2 * M)
	LARGEST(cortex_a72, 4 * M)
	LARGEST(cortex_a73, 8 * M)
	vf_assert(
		limit >= l1i.size && limit >= l1d.size && limit >= l2.size && limit >= l3.size,
		"no cache exceeds the upper bound on cache sizes");
	return 0;
}
