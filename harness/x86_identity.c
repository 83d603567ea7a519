/*
 * Vendor, signature and microarchitecture. Oracle: the vendors' documented
 * 12-byte strings, display family/model rules (Intel SDM CPUID leaf 1, AMD APM
 * Fn0000_0001_EAX) and the processors' documented family/model numbers.
 */
#include "x86_env.h"

static struct cpuid_regs leaf0, leaf1, ext0;

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	struct cpuid_regs r = {0, 0, 0, 0};
	switch (leaf) {
		case 0:
			r = leaf0;
			break;
		case 1:
			r = leaf1;
			break;
		case UINT32_C(0x80000000):
			r = ext0;
			break;
		case 2:
			/* read once, no descriptors */
			r.eax = 1;
			break;
	}
	*a = r.eax;
	*b = r.ebx;
	*c = r.ecx;
	*d = r.edx;
}

static bool is(const char* s) {
	const uint32_t w[3] = {leaf0.ebx, leaf0.edx, leaf0.ecx};
	for (uint32_t i = 0; i < 12; i++) {
		if ((uint8_t)(w[i / 4] >> (8 * (i % 4))) != (uint8_t)s[i]) {
			return false;
		}
	}
	return true;
}

/* vendors of 32-bit-only processors may, but need not, be told apart in 64-bit builds */
#if CPUINFO_ARCH_X86
#define LEGACY 0
#else
#define LEGACY 1
#endif

static enum cpuinfo_vendor want_vendor;
static bool vendor_optional;

static void vendor(const char* s, enum cpuinfo_vendor v, bool optional) {
	if (is(s)) {
		want_vendor = v;
		vendor_optional = optional;
	}
}

static uint32_t family, model;
static enum cpuinfo_uarch want_uarch;
static bool uarch_optional;

static void row(uint32_t f, uint32_t first, uint32_t last, enum cpuinfo_uarch u, bool optional) {
	if (family == f && model >= first && model <= last) {
		want_uarch = u;
		uarch_optional = optional;
	}
}

#define INTEL(f, m, u) row(f, m, m, cpuinfo_uarch_##u, false)
#define INTEL_OLD(f, m, u) row(f, m, m, cpuinfo_uarch_##u, LEGACY)
#define AMD(f, first, last, u) row(f, first, last, cpuinfo_uarch_##u, false)
#define AMD_OLD(f, first, last, u) row(f, first, last, cpuinfo_uarch_##u, LEGACY)

static void intel(void) {
	INTEL_OLD(5, 0x01, p5);
	INTEL_OLD(5, 0x02, p5);
	INTEL_OLD(5, 0x03, p5);
	INTEL_OLD(5, 0x04, p5);
	INTEL_OLD(5, 0x09, quark);
	INTEL_OLD(6, 0x01, p6); /* Pentium Pro */
	INTEL_OLD(6, 0x03, p6); /* Pentium II, III */
	INTEL_OLD(6, 0x05, p6);
	INTEL_OLD(6, 0x06, p6);
	INTEL_OLD(6, 0x07, p6);
	INTEL_OLD(6, 0x08, p6);
	INTEL_OLD(6, 0x0A, p6);
	INTEL_OLD(6, 0x0B, p6);
	INTEL_OLD(6, 0x09, dothan); /* Banias, Dothan, Tolapai */
	INTEL_OLD(6, 0x0D, dothan);
	INTEL_OLD(6, 0x15, dothan);
	INTEL_OLD(6, 0x0E, yonah);
	INTEL(6, 0x0F, conroe);
	INTEL(6, 0x16, conroe);
	INTEL(6, 0x17, penryn);
	INTEL(6, 0x1D, penryn);
	INTEL(6, 0x1A, nehalem); /* Nehalem and Westmere */
	INTEL(6, 0x1E, nehalem);
	INTEL(6, 0x1F, nehalem);
	INTEL(6, 0x2E, nehalem);
	INTEL(6, 0x25, nehalem);
	INTEL(6, 0x2C, nehalem);
	INTEL(6, 0x2F, nehalem);
	INTEL(6, 0x2A, sandy_bridge);
	INTEL(6, 0x2D, sandy_bridge);
	INTEL(6, 0x3A, ivy_bridge);
	INTEL(6, 0x3E, ivy_bridge);
	INTEL(6, 0x3C, haswell);
	INTEL(6, 0x3F, haswell);
	INTEL(6, 0x45, haswell);
	INTEL(6, 0x46, haswell);
	INTEL(6, 0x3D, broadwell);
	INTEL(6, 0x47, broadwell);
	INTEL(6, 0x4F, broadwell);
	INTEL(6, 0x56, broadwell);
	INTEL(6, 0x4E, sky_lake); /* Sky Lake and its process refinements */
	INTEL(6, 0x5E, sky_lake);
	INTEL(6, 0x55, sky_lake);
	INTEL(6, 0x8E, sky_lake);
	INTEL(6, 0x9E, sky_lake);
	INTEL(6, 0xA5, sky_lake);
	INTEL(6, 0xA6, sky_lake);
	INTEL(6, 0x66, palm_cove);
	INTEL(6, 0x6A, sunny_cove);
	INTEL(6, 0x6C, sunny_cove);
	INTEL(6, 0x7D, sunny_cove);
	INTEL(6, 0x7E, sunny_cove);
	INTEL(6, 0x8F, golden_cove);
	INTEL(6, 0xCF, golden_cove);
	INTEL(6, 0x1C, bonnell);
	INTEL(6, 0x26, bonnell);
	INTEL(6, 0x27, saltwell);
	INTEL(6, 0x35, saltwell);
	INTEL(6, 0x36, saltwell);
	INTEL(6, 0x37, silvermont);
	INTEL(6, 0x4A, silvermont);
	INTEL(6, 0x4D, silvermont);
	INTEL(6, 0x5A, silvermont);
	INTEL(6, 0x5D, silvermont);
	INTEL(6, 0x4C, airmont);
	INTEL(6, 0x75, airmont);
	INTEL(6, 0x5C, goldmont);
	INTEL(6, 0x5F, goldmont);
	INTEL(6, 0x7A, goldmont_plus);
	INTEL(6, 0x57, knights_landing);
	INTEL(6, 0x85, knights_mill);
	INTEL(15, 0x00, willamette);
	INTEL(15, 0x01, willamette);
	INTEL(15, 0x02, willamette);
	INTEL(15, 0x03, prescott);
	INTEL(15, 0x04, prescott);
	INTEL(15, 0x06, prescott);
}

static void amd(void) {
	AMD_OLD(0x05, 0x00, 0x02, k5);
	AMD_OLD(0x05, 0x06, 0x08, k6);
	AMD_OLD(0x05, 0x0D, 0x0D, k6);
	AMD_OLD(0x05, 0x0A, 0x0A, geode);
	AMD_OLD(0x06, 0x00, 0xFF, k7);
	AMD(0x0F, 0x00, 0xFF, k8);
	AMD(0x11, 0x00, 0xFF, k8);
	AMD(0x10, 0x00, 0xFF, k10);
	AMD(0x12, 0x00, 0xFF, k10);
	AMD(0x14, 0x00, 0xFF, bobcat);
	AMD(0x15, 0x00, 0x01, bulldozer);
	AMD(0x15, 0x02, 0x02, piledriver);
	AMD(0x15, 0x03, 0x0F, bulldozer);
	AMD(0x15, 0x10, 0x2F, piledriver);
	AMD(0x15, 0x30, 0x4F, steamroller);
	AMD(0x15, 0x60, 0x60, excavator);
	AMD(0x15, 0x65, 0x65, excavator);
	AMD(0x15, 0x70, 0x70, excavator);
	AMD(0x16, 0x00, 0x2F, jaguar);
	AMD(0x16, 0x30, 0xFF, puma);
	AMD(0x17, 0x00, 0x1F, zen);
	AMD(0x17, 0x30, 0x4F, zen2);
	AMD(0x17, 0x60, 0x7F, zen2);
	AMD(0x17, 0x90, 0x9F, zen2);
	AMD(0x19, 0x00, 0x0F, zen3);
	AMD(0x19, 0x20, 0x5F, zen3);
	AMD(0x19, 0x10, 0x1F, zen4);
	AMD(0x19, 0x60, 0x7F, zen4);
	AMD(0x19, 0xA0, 0xAF, zen4);
	AMD(0x1A, 0x00, 0xFF, zen5);
}

int main(void) {
	leaf0 = nd_regs();
	vf_assume(leaf0.eax >= 1 && leaf0.eax < 4); /* no cache enumeration: checked elsewhere */
	env.l1 = leaf1 = nd_regs();
	ext0 = (struct cpuid_regs){0, 0, 0, 0};
	const uint32_t base_model = (leaf1.eax >> 4) & 0xF, base_family = (leaf1.eax >> 8) & 0xF;
	const uint32_t ext_model = (leaf1.eax >> 16) & 0xF, ext_family = (leaf1.eax >> 20) & 0xFF;
	/* the extended fields are reserved (zero) where the architecture does not define them */
	vf_assume(base_family == 0xF || ext_family == 0);
	vf_assume(base_family == 0xF || base_family == 6 || ext_model == 0);
	family = base_family == 0xF ? base_family + ext_family : base_family;
	model = base_model | (ext_model << 4);

	const struct cpuinfo_x86_model_info info = cpuinfo_x86_decode_model_info(leaf1.eax);
	vf_assert(info.family == family && info.model == model, "display family and model");
	vf_assert(
		info.stepping == (leaf1.eax & 0xF) && info.base_model == base_model && info.base_family == base_family &&
			info.extended_model == ext_model && info.extended_family == ext_family &&
			info.processor_type == ((leaf1.eax >> 12) & 3),
		"signature fields");

	want_vendor = cpuinfo_vendor_unknown;
	vendor("GenuineIntel", cpuinfo_vendor_intel, false);
	vendor("AuthenticAMD", cpuinfo_vendor_amd, false);
	vendor("CentaurHauls", cpuinfo_vendor_via, false);
	vendor("HygonGenuine", cpuinfo_vendor_hygon, false);
	vendor("AMDisbetter!", cpuinfo_vendor_amd, LEGACY);
	vendor("AMD ISBETTER", cpuinfo_vendor_amd, LEGACY);
	vendor("VIA VIA VIA ", cpuinfo_vendor_via, LEGACY);
	vendor("GenuineTMx86", cpuinfo_vendor_transmeta, LEGACY);
	vendor("TransmetaCPU", cpuinfo_vendor_transmeta, LEGACY);
	vendor("CyrixInstead", cpuinfo_vendor_cyrix, LEGACY);
	vendor("RiseRiseRise", cpuinfo_vendor_rise, LEGACY);
	vendor("Geode by NSC", cpuinfo_vendor_nsc, LEGACY);
	vendor("SiS SiS SiS ", cpuinfo_vendor_sis, LEGACY);
	vendor("NexGenDriven", cpuinfo_vendor_nexgen, LEGACY);
	vendor("UMC UMC UMC ", cpuinfo_vendor_umc, LEGACY);
	vendor("Genuine  RDC", cpuinfo_vendor_rdc, LEGACY);
	vendor("Vortex86 SoC", cpuinfo_vendor_dmp, LEGACY);

	struct cpuinfo_x86_processor p = {0};
	cpuinfo_x86_init_processor(&p);
	vf_assert(
		p.vendor == want_vendor || (vendor_optional && p.vendor == cpuinfo_vendor_unknown),
		"vendor is the one whose vendor string CPUID returns");
	vf_assert(p.cpuid == leaf1.eax, "signature is passed through");

	want_uarch = cpuinfo_uarch_unknown;
	if (p.vendor == cpuinfo_vendor_intel) {
		intel();
	} else if (p.vendor == cpuinfo_vendor_amd) {
		amd();
	} else if (p.vendor == cpuinfo_vendor_hygon) {
		row(0x18, 0x00, 0xFF, cpuinfo_uarch_dhyana, false);
	}
	vf_assert(
		p.uarch == want_uarch || (uarch_optional && p.uarch == cpuinfo_uarch_unknown),
		"microarchitecture is the documented one for vendor, family and model");
	if (p.uarch == cpuinfo_uarch_dhyana) {
		vf_witness("Hygon Dhyana");
	}
	if (p.uarch == cpuinfo_uarch_knights_mill) {
		vf_witness("Knights Mill");
	}
	if (p.vendor == cpuinfo_vendor_via) {
		vf_witness("VIA");
	}
	return 0;
}
