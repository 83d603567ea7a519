/*
 * ARM core identification: main ID register to vendor and microarchitecture,
 * against part numbers as documented by the implementers (technical reference
 * manuals; the same values appear in the kernel's cputype.h and in compilers).
 */
#include "vf.h"
#include <cpuinfo.h>
#include <arm/api.h>

/* where a core can appear: 32-bit builds, 64-bit builds or both */
#define A32 1
#define A64 2
#define ANY 3
#if CPUINFO_ARCH_ARM
#define HERE A32
#else
#define HERE A64
#endif

/* X(implementer, part, build, vendor, microarchitecture) */
#define CORES(X) \
	X('A', 0xC05, A32, arm, cortex_a5) \
	X('A', 0xC07, A32, arm, cortex_a7) \
	X('A', 0xC08, A32, arm, cortex_a8) \
	X('A', 0xC09, A32, arm, cortex_a9) \
	X('A', 0xC0C, A32, arm, cortex_a12) \
	X('A', 0xC0D, A32, arm, cortex_a12) \
	X('A', 0xC0E, A32, arm, cortex_a17) \
	X('A', 0xC0F, A32, arm, cortex_a15) \
	X('A', 0xD01, ANY, arm, cortex_a32) \
	X('A', 0xD03, ANY, arm, cortex_a53) \
	X('A', 0xD04, ANY, arm, cortex_a35) \
	X('A', 0xD06, ANY, arm, cortex_a65) \
	X('A', 0xD07, ANY, arm, cortex_a57) \
	X('A', 0xD08, ANY, arm, cortex_a72) \
	X('A', 0xD09, ANY, arm, cortex_a73) \
	X('A', 0xD0A, ANY, arm, cortex_a75) \
	X('A', 0xD0B, ANY, arm, cortex_a76) \
	X('A', 0xD0C, ANY, arm, neoverse_n1) \
	X('A', 0xD0D, ANY, arm, cortex_a77) \
	X('A', 0xD0E, ANY, arm, cortex_a76) /* A76AE */ \
	X('A', 0xD40, ANY, arm, neoverse_v1) \
	X('A', 0xD41, ANY, arm, cortex_a78) \
	X('A', 0xD44, ANY, arm, cortex_x1) \
	X('A', 0xD46, ANY, arm, cortex_a510) \
	X('A', 0xD47, ANY, arm, cortex_a710) \
	X('A', 0xD48, ANY, arm, cortex_x2) \
	X('A', 0xD49, ANY, arm, neoverse_n2) \
	X('A', 0xD4A, A64, arm, neoverse_e1) \
	X('A', 0xD4D, ANY, arm, cortex_a715) \
	X('A', 0xD4E, ANY, arm, cortex_x3) \
	X('A', 0xD4F, ANY, arm, neoverse_v2) \
	X('B', 0x00F, ANY, broadcom, brahma_b15) \
	X('B', 0x100, ANY, broadcom, brahma_b53) \
	X('B', 0x516, A64, cavium, thunderx2) /* Vulcan */ \
	X('C', 0x0A0, A64, cavium, thunderx) \
	X('C', 0x0A1, A64, cavium, thunderx) \
	X('C', 0x0A2, A64, cavium, thunderx) \
	X('C', 0x0A3, A64, cavium, thunderx) \
	X('C', 0x0AF, A64, cavium, thunderx2) \
	X('H', 0xD01, A64, huawei, taishan_v110) \
	X('H', 0xD40, ANY, arm, cortex_a76) /* Kirin 980 */ \
	X('N', 0x000, ANY, nvidia, denver) \
	X('N', 0x003, ANY, nvidia, denver2) \
	X('N', 0x004, ANY, nvidia, carmel) \
	X('P', 0x000, ANY, apm, xgene) \
	X('Q', 0x02D, A32, qualcomm, scorpion) \
	X('Q', 0x04D, A32, qualcomm, krait) \
	X('Q', 0x06F, A32, qualcomm, krait) \
	X('Q', 0x001, A64, qualcomm, oryon) \
	X('Q', 0x201, ANY, qualcomm, kryo) \
	X('Q', 0x205, ANY, qualcomm, kryo) \
	X('Q', 0x211, ANY, qualcomm, kryo) \
	X('Q', 0x800, ANY, arm, cortex_a73) \
	X('Q', 0x801, ANY, arm, cortex_a53) \
	X('Q', 0x802, ANY, arm, cortex_a75) \
	X('Q', 0x803, ANY, arm, cortex_a55r0) \
	X('Q', 0x804, ANY, arm, cortex_a76) \
	X('Q', 0x805, ANY, arm, cortex_a55) \
	X('Q', 0xC00, A64, qualcomm, falkor) \
	X('Q', 0xC01, A64, qualcomm, saphira) \
	X('V', 0x581, A32, marvell, pj4) \
	X('V', 0x584, A32, marvell, pj4)

int main(void) {
	const uint32_t midr = nd_u32();
	const bool vfpv4 = nd_bool();
	enum cpuinfo_vendor vendor = cpuinfo_vendor_unknown;
	enum cpuinfo_uarch uarch = cpuinfo_uarch_unknown;
	cpuinfo_arm_decode_vendor_uarch(
		midr,
#if CPUINFO_ARCH_ARM
		vfpv4,
#endif
		&vendor,
		&uarch);

	const uint32_t implementer = midr >> 24, variant = midr >> 20 & 0xF, part = midr >> 4 & 0xFFF;
	int build = 0; /* 0: no such core */
	enum cpuinfo_vendor expected_vendor = cpuinfo_vendor_unknown;
	enum cpuinfo_uarch expected = cpuinfo_uarch_unknown;
#define SET(b, v, u) (build = (b), expected_vendor = cpuinfo_vendor_##v, expected = cpuinfo_uarch_##u)
#define CASE(i, p, b, v, u) \
	if (implementer == (i) && part == (p)) { \
		SET(b, v, u); \
	}
	CORES(CASE)
	if (implementer == 'A' && part == 0xD05) {
		/* r0 cannot dual-issue some vector loads, later variants can */
		if (variant == 0) {
			SET(ANY, arm, cortex_a55r0);
		} else {
			SET(ANY, arm, cortex_a55);
		}
	} else if (implementer == 'A' && part >> 8 == 0x7) {
		SET(A32, arm, arm7);
	} else if (implementer == 'A' && part >> 8 == 0x9) {
		SET(A32, arm, arm9);
	} else if (implementer == 'A' && part >> 8 == 0xB) {
		SET(A32, arm, arm11);
	} else if (implementer == 'i' && (part >> 8 == 2 || part >> 8 == 4 || part >> 8 == 6)) {
		SET(A32, intel, xscale);
	} else if (implementer == 'Q' && part == 0x00F) {
		/* the same number names Scorpion and Qualcomm's Cortex-A5, which has VFPv4 */
		if (vfpv4) {
			SET(A32, arm, cortex_a5);
		} else {
			SET(A32, qualcomm, scorpion);
		}
	} else if (implementer == 'S' && part == 1 && variant == 1) {
		SET(ANY, samsung, exynos_m1);
	} else if (implementer == 'S' && part == 1 && variant == 4) {
		SET(ANY, samsung, exynos_m2);
	} else if (implementer == 'S' && part == 2 && variant == 1) {
		SET(ANY, samsung, exynos_m3);
	} else if (implementer == 'S' && part == 3 && variant == 1) {
		SET(ANY, samsung, exynos_m4);
	} else if (implementer == 'S' && part == 4 && variant == 1) {
		SET(ANY, samsung, exynos_m5);
	}

	if (build & HERE) {
		vf_assert(uarch == expected, "documented core");
		vf_assert(vendor == expected_vendor, "vendor of a documented core");
		if (expected == cpuinfo_uarch_cortex_a55) {
			vf_witness("Cortex-A55");
		}
	} else {
		/* a core of the other build may be named, but never anything else */
		vf_assert(uarch == cpuinfo_uarch_unknown || build != 0 && uarch == expected, "undocumented core is unknown");
		vf_witness("undocumented core");
		switch (implementer) {
#define IMPLEMENTER(letter, b, v) \
	case letter: \
		vf_assert( \
			vendor == cpuinfo_vendor_##v || !((b) & HERE) && vendor == cpuinfo_vendor_unknown || \
				build != 0 && vendor == expected_vendor, \
			"vendor by implementer"); \
		break;
			IMPLEMENTER('A', ANY, arm)
			IMPLEMENTER('B', ANY, broadcom)
			IMPLEMENTER('C', A64, cavium)
			IMPLEMENTER('H', ANY, huawei)
			IMPLEMENTER('i', A32, intel)
			IMPLEMENTER('N', ANY, nvidia)
			IMPLEMENTER('P', ANY, apm)
			IMPLEMENTER('Q', ANY, qualcomm)
			IMPLEMENTER('S', ANY, samsung)
			IMPLEMENTER('V', A32, marvell)
			default:
				vf_assert(vendor == cpuinfo_vendor_unknown, "unknown implementer");
		}
	}
	return 0;
}
