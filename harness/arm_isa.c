/*
 * ARM Linux instruction set features: from the kernel's capability words (bit
 * numbers of the kernel's user-space interface) to the public queries.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <arm/linux/api.h>
#include <stdarg.h>
#include <sys/auxv.h>

struct cpuinfo_arm_isa cpuinfo_isa;

#if CPUINFO_ARCH_ARM
void cpuinfo_set_fpsid(uint32_t fpsid);
void cpuinfo_set_wcid(uint32_t wcid);
#endif

static unsigned long hwcap, hwcap2;

unsigned long vf_getauxval(unsigned long type) {
	switch (type) {
		case AT_HWCAP:
			return hwcap;
		case AT_HWCAP2:
			return hwcap2;
		default:
			return nd_u64();
	}
}

static int vector_length;

int vf_prctl(int option, ...) {
	vf_assert(option == 51, "asks for the SVE vector length");
	return vector_length;
}

#define CAP(bit) ((hwcap >> (bit) & 1) != 0)
#define CAP2(bit) ((hwcap2 >> (bit) & 1) != 0)

static bool core_is(uint32_t midr, char implementer, uint32_t part) {
	return midr >> 24 == (uint8_t)implementer && (midr >> 4 & 0xFFF) == part;
}

/* cores of ARMv8.2 or later: half-precision arithmetic and rounding doubling multiply-accumulate */
static bool is_v82(uint32_t midr) {
	return core_is(midr, 'A', 0xD05) || core_is(midr, 'A', 0xD0A) || core_is(midr, 'A', 0xD0B) ||
		core_is(midr, 'A', 0xD0C) || core_is(midr, 'A', 0xD0D) || core_is(midr, 'A', 0xD0E) ||
		core_is(midr, 'A', 0xD40) || core_is(midr, 'A', 0xD49) || core_is(midr, 'A', 0xD4F) ||
		core_is(midr, 'H', 0xD40) || core_is(midr, 'Q', 0x802) || core_is(midr, 'Q', 0x803) ||
		core_is(midr, 'Q', 0x804) || core_is(midr, 'Q', 0x805) || core_is(midr, 'S', 0x003) ||
		core_is(midr, 'S', 0x004)
#if CPUINFO_ARCH_ARM64
		|| core_is(midr, 'A', 0xD06);
#else
		|| core_is(midr, 'A', 0xD41) || core_is(midr, 'A', 0xD44) || core_is(midr, 'A', 0xD46) ||
		core_is(midr, 'A', 0xD47) || core_is(midr, 'A', 0xD48) || core_is(midr, 'A', 0xD4D) ||
		core_is(midr, 'A', 0xD4E);
#endif
}

/* as above, but only recognised by the other build: may be reported */
static bool may_be_v82(uint32_t midr) {
	return core_is(midr, 'A', 0xD06) || core_is(midr, 'A', 0xD4A) || core_is(midr, 'A', 0xD41) ||
		core_is(midr, 'A', 0xD44) || core_is(midr, 'A', 0xD46) || core_is(midr, 'A', 0xD47) ||
		core_is(midr, 'A', 0xD48) || core_is(midr, 'A', 0xD4D) || core_is(midr, 'A', 0xD4E);
}

/* early Cortex-A55 and -A75 lack the dot product */
static bool is_dot(uint32_t midr) {
	const uint32_t variant = midr >> 20 & 0xF;
	if (core_is(midr, 'A', 0xD05)) {
		return variant >= 1;
	}
	if (core_is(midr, 'A', 0xD0A)) {
		return variant >= 2;
	}
#if CPUINFO_ARCH_ARM64
	if (core_is(midr, 'A', 0xD4A)) {
		return true;
	}
#endif
	return is_v82(midr) && !core_is(midr, 'Q', 0x802) && !core_is(midr, 'Q', 0x803);
}

int main(void) {
	hwcap = (unsigned long)nd_u64();
	hwcap2 = (unsigned long)nd_u64();
	const uint32_t midr = nd_u32();
	struct cpuinfo_arm_chipset chipset = {0};
	chipset.vendor = (enum cpuinfo_arm_chipset_vendor)nd_u32();
	chipset.series = (enum cpuinfo_arm_chipset_series)nd_u32();
	chipset.model = nd_u32();
	const bool exynos9810 = chipset.series == cpuinfo_arm_chipset_series_samsung_exynos && chipset.model == 9810;

	uint32_t features = 0;
	uint64_t features2 = 0;
	cpuinfo_arm_linux_hwcap_from_getauxval(&features, &features2);

#if CPUINFO_ARCH_ARM64
	vector_length = (int)nd_u32();
	cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(features, features2, midr, &chipset, &cpuinfo_isa);

	vf_assert(cpuinfo_has_arm_aes() == CAP(3), "AES");
	vf_assert(cpuinfo_has_arm_pmull() == CAP(4), "PMULL");
	vf_assert(cpuinfo_has_arm_sha1() == CAP(5), "SHA1");
	vf_assert(cpuinfo_has_arm_sha2() == CAP(6), "SHA2");
	vf_assert(cpuinfo_has_arm_crc32() == CAP(7), "CRC32");
	vf_assert(cpuinfo_has_arm_atomics() == CAP(8), "atomics");
	vf_assert(cpuinfo_has_arm_jscvt() == CAP(13), "JSCVT");
	vf_assert(cpuinfo_has_arm_fcma() == CAP(14), "FCMA");
	vf_assert(cpuinfo_has_arm_sve() == CAP(22), "SVE");
	vf_assert(cpuinfo_has_arm_fhm() == CAP(23), "FHM");
	vf_assert(cpuinfo_has_arm_sve2() == CAP2(1), "SVE2");
	vf_assert(cpuinfo_has_arm_i8mm() == CAP2(13), "I8MM");
	vf_assert(cpuinfo_has_arm_bf16() == (CAP2(14) || CAP2(12)), "BF16");
	vf_assert(cpuinfo_has_arm_neon_bf16() == (CAP2(14) || CAP2(12)), "NEON BF16");
	vf_assert(cpuinfo_has_arm_sve_bf16() == (CAP(22) && (CAP2(14) || CAP2(12))), "SVE BF16");
	vf_assert(cpuinfo_has_arm_sme() == CAP2(23), "SME");
	vf_assert(cpuinfo_has_arm_sme2() == CAP2(37), "SME2");
	vf_assert(cpuinfo_has_arm_sme2p1() == CAP2(38), "SME2p1");
	vf_assert(cpuinfo_has_arm_sme_i16i32() == CAP2(39), "SME_I16I32");
	vf_assert(cpuinfo_has_arm_sme_bi32i32() == CAP2(40), "SME_BI32I32");
	vf_assert(cpuinfo_has_arm_sme_b16b16() == CAP2(41), "SME_B16B16");
	vf_assert(cpuinfo_has_arm_sme_f16f16() == CAP2(42), "SME_F16F16");
	vf_assert(
		cpuinfo_get_max_arm_sve_length() == (vector_length < 0 ? 0 : (vector_length & 0xFFFF) * 8), "SVE vector length");

	const bool fp16 = cpuinfo_has_arm_fp16_arith(), rdm = cpuinfo_has_arm_neon_rdm(), dot = cpuinfo_has_arm_neon_dot();
	vf_assert(cpuinfo_has_arm_neon_fp16_arith() == fp16, "both half-precision queries agree");
	if (exynos9810) {
		vf_assert(!fp16 && !rdm, "only some cores of Exynos 9810 have FP16 and RDM");
	} else if (is_v82(midr)) {
		vf_assert(fp16 && rdm, "ARMv8.2 core");
	} else {
		if (!may_be_v82(midr) || CAP(9) && CAP(10)) {
			vf_assert(fp16 == (CAP(9) && CAP(10)), "FP16 needs both FPHP and ASIMDHP");
		}
		if (!may_be_v82(midr) || CAP(12)) {
			vf_assert(rdm == CAP(12), "RDM");
		}
	}
	if (is_dot(midr)) {
		vf_assert(dot, "dot product of an ARMv8.2 core");
		vf_witness("dot product");
	} else if (is_v82(midr) && (core_is(midr, 'A', 0xD05) || core_is(midr, 'A', 0xD0A))) {
		vf_assert(!dot || CAP(20), "early cores lack the dot product");
	} else if (!may_be_v82(midr) || CAP(20)) {
		vf_assert(dot == CAP(20), "dot product");
	}

	/* always there in 64-bit state */
	vf_assert(
		cpuinfo_has_arm_v8() && cpuinfo_has_arm_idiv() && cpuinfo_has_arm_vfpv3() && cpuinfo_has_arm_vfpv3_d32() &&
			cpuinfo_has_arm_vfpv3_fp16() && cpuinfo_has_arm_vfpv3_fp16_d32() && cpuinfo_has_arm_vfpv4() &&
			cpuinfo_has_arm_vfpv4_d32() && cpuinfo_has_arm_neon() && cpuinfo_has_arm_neon_fp16() &&
			cpuinfo_has_arm_neon_fma() && cpuinfo_has_arm_neon_v8(),
		"baseline of 64-bit ARM");
	vf_assert(
		!cpuinfo_has_arm_thumb() && !cpuinfo_has_arm_thumb2() && !cpuinfo_has_arm_v5e() && !cpuinfo_has_arm_v6() &&
			!cpuinfo_has_arm_v6k() && !cpuinfo_has_arm_v7() && !cpuinfo_has_arm_v7mp() && !cpuinfo_has_arm_vfpv2() &&
			!cpuinfo_has_arm_wmmx() && !cpuinfo_has_arm_wmmx2(),
		"32-bit only features");
#else
	const uint32_t version = nd_range(0, 20), flags = nd_u32();
	const uint32_t fpsid = nd_u32(), wcid = nd_u32();
	cpuinfo_set_fpsid(fpsid);
	cpuinfo_set_wcid(wcid);
	cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo(features, features2, midr, version, flags, &chipset, &cpuinfo_isa);

	vf_assert(cpuinfo_has_arm_aes() == CAP2(0), "AES");
	vf_assert(cpuinfo_has_arm_pmull() == CAP2(1), "PMULL");
	vf_assert(cpuinfo_has_arm_sha1() == CAP2(2), "SHA1");
	vf_assert(cpuinfo_has_arm_sha2() == CAP2(3), "SHA2");
	vf_assert(cpuinfo_has_arm_crc32() == CAP2(4), "CRC32");
	vf_assert(
		!cpuinfo_has_arm_atomics() && !cpuinfo_has_arm_bf16() && !cpuinfo_has_arm_neon_bf16() && !cpuinfo_has_arm_sve_bf16() &&
			!cpuinfo_has_arm_sve() && !cpuinfo_has_arm_sve2() && !cpuinfo_has_arm_i8mm() && !cpuinfo_has_arm_sme() &&
			!cpuinfo_has_arm_sme2() && !cpuinfo_has_arm_sme2p1() && !cpuinfo_has_arm_sme_i16i32() &&
			!cpuinfo_has_arm_sme_bi32i32() && !cpuinfo_has_arm_sme_b16b16() && !cpuinfo_has_arm_sme_f16f16() &&
			cpuinfo_get_max_arm_sve_length() == 0,
		"64-bit only features");

	/* the cryptographic and CRC instructions came with ARMv8 */
	const bool v8 = version >= 8 || CAP2(0) || CAP2(1) || CAP2(2) || CAP2(3) || CAP2(4);
	const bool arm11 = midr >> 24 == 'A' && (midr >> 12 & 0xF) == 0xB;
	const bool only_v7 = CAP(12) || CAP(13) || CAP(14) || CAP(16) || CAP(17) || CAP(18) || CAP(19);
	const bool v7 = v8 || version == 7 && !arm11 || only_v7;
	const bool v6 = v7 || version >= 6;
	const bool divide = CAP(17) && CAP(18);
	const bool krait = core_is(midr, 'Q', 0x04D) || core_is(midr, 'Q', 0x06F);

	vf_assert(cpuinfo_has_arm_v8() == v8, "ARMv8");
	vf_assert(cpuinfo_has_arm_v7() == v7, "ARMv7");
	vf_assert(cpuinfo_has_arm_v6k() == v7, "ARMv6K");
	vf_assert(cpuinfo_has_arm_v6() == v6, "ARMv6");
	vf_assert(cpuinfo_has_arm_v5e() == (v6 || CAP(7) || (flags & 2) != 0), "ARMv5E");
	vf_assert(
		cpuinfo_has_arm_v7mp() ==
			(v8 || v7 && (divide || core_is(midr, 'A', 0xC05) || core_is(midr, 'A', 0xC09) || core_is(midr, 'Q', 0x02D) || krait)),
		"multiprocessing extension");
	vf_assert(cpuinfo_has_arm_idiv() == (v8 || divide || krait), "integer divide");
	const bool thumb = v8 || CAP(2) || (flags & 1) != 0;
	vf_assert(cpuinfo_has_arm_thumb() == thumb, "Thumb");
	vf_assert(cpuinfo_has_arm_thumb2() == (thumb && (v7 || core_is(midr, 'A', 0xB56))), "Thumb-2");
	if (!v8) {
		vf_assert(cpuinfo_isa.thumbee == CAP(11), "ThumbEE");
		vf_assert(cpuinfo_isa.jazelle == (CAP(8) || (flags & 4) != 0), "Jazelle");
	}

	const bool vfp = CAP(6) || CAP(12) || CAP(13) || CAP(14) || CAP(16) || CAP(19);
#if __ARM_ARCH >= 7
	const bool vfpv3 = v8 || vfp, vfpv2 = false;
#else
	const bool vfpv3 = v8 || vfp && v7;
	const bool vfpv2 = vfp && !vfpv3 && (fpsid >> 16 & 0x7F) != 0;
#endif
	const bool d32 = v8 || vfp && v7 && (CAP(19) || CAP(12));
	const bool half = v8 || CAP(16) || core_is(midr, 'A', 0xC09) || core_is(midr, 'Q', 0x00F) || core_is(midr, 'Q', 0x02D);
	const bool fma = v8 || CAP(16), neon = v8 || CAP(12);
	vf_assert(cpuinfo_has_arm_vfpv2() == vfpv2, "VFPv2");
	vf_assert(cpuinfo_has_arm_vfpv3() == vfpv3, "VFPv3");
	vf_assert(cpuinfo_has_arm_vfpv3_d32() == (vfpv3 && d32), "32 registers");
	vf_assert(cpuinfo_has_arm_vfpv3_fp16() == (vfpv3 && half), "half-precision conversion");
	vf_assert(cpuinfo_has_arm_vfpv3_fp16_d32() == (vfpv3 && half && d32), "half-precision conversion with 32 registers");
	vf_assert(cpuinfo_has_arm_vfpv4() == (vfpv3 && fma), "VFPv4");
	vf_assert(cpuinfo_has_arm_vfpv4_d32() == (vfpv3 && fma && d32), "VFPv4 with 32 registers");
	vf_assert(cpuinfo_has_arm_neon() == neon, "NEON");
	vf_assert(cpuinfo_has_arm_neon_fp16() == (neon && half), "NEON half-precision conversion");
	vf_assert(cpuinfo_has_arm_neon_fma() == (neon && fma), "NEON FMA");
	vf_assert(cpuinfo_has_arm_neon_v8() == (neon && v8), "NEON of ARMv8");

	const uint32_t coprocessor = wcid >> 8 & 0xFF;
	vf_assert(cpuinfo_has_arm_wmmx() == (!v8 && CAP(9) && coprocessor >= 0x10), "WMMX");
	vf_assert(cpuinfo_has_arm_wmmx2() == (!v8 && CAP(9) && coprocessor >= 0x20), "WMMX2");

	/* the kernel announces these to 32-bit programs only in bits 22 and up, which the library may or may not use */
	const bool fp16 = cpuinfo_has_arm_fp16_arith(), rdm = cpuinfo_has_arm_neon_rdm(), dot = cpuinfo_has_arm_neon_dot();
	vf_assert(cpuinfo_has_arm_neon_fp16_arith() == (neon && fp16), "both half-precision queries agree");
	if (v8 && !exynos9810 && is_v82(midr)) {
		vf_assert(fp16 && rdm, "ARMv8.2 core");
	} else if (v8 && !exynos9810 && may_be_v82(midr)) {
	} else {
		vf_assert(!fp16 && !rdm, "not an ARMv8.2 core");
	}
	const bool dot_faults = chipset.series == cpuinfo_arm_chipset_series_spreadtrum_sc && chipset.model == 9863 ||
		chipset.series == cpuinfo_arm_chipset_series_unisoc_t && chipset.model == 310 ||
		chipset.series == cpuinfo_arm_chipset_series_unisoc_ums && chipset.model == 312;
	if (v8 && !dot_faults && is_dot(midr)) {
		vf_assert(dot, "dot product of an ARMv8.2 core");
		vf_witness("dot product");
	} else if (v8 && !dot_faults && may_be_v82(midr)) {
	} else {
		vf_assert(!dot, "no dot product");
	}
	vf_assert(!cpuinfo_has_arm_jscvt() && !cpuinfo_has_arm_fcma() && !cpuinfo_has_arm_fhm(), "never announced to 32-bit programs");
	if (v7 && !v8 && neon && !fma) {
		vf_witness("ARMv7 with NEON");
	}
#endif
	return 0;
}
