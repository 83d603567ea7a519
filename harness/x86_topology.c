/*
 * How APIC ID bits are split into thread, core and package fields.
 * Oracle: Intel SDM vol. 3A section 9.9 (hierarchical mapping of shared
 * resources), AMD APM vol. 3 App. E (legacy method, CmpLegacy).
 */
#include "x86_env.h"

#define LEVELS 3 /* non-terminating entries of leaf 0xB */
#define CACHES 2 /* non-terminating entries of leaf 4 */

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	struct cpuid_regs r;
	const struct cpuid_regs zero = {0, 0, 0, 0};
	switch (leaf) {
		case 0:
			r = env.l0;
			break;
		case 1:
			r = env.l1;
			break;
		case 2:
			r = zero;
			break;
		case 4:
			r = x86_max_base() < 4 ? nd_regs() : sub < CACHES ? env.l4[sub] : zero;
			break;
		case 0xB:
			r = x86_max_base() < 0xB ? nd_regs() : sub < LEVELS ? env.lb[sub] : zero;
			break;
		case UINT32_C(0x80000000):
			r = env.e0;
			break;
		case UINT32_C(0x80000001):
			r = x86_max_ext() >= leaf ? env.e1 : nd_regs();
			break;
		case UINT32_C(0x80000008):
			r = x86_max_ext() >= leaf ? env.e8 : nd_regs();
			break;
		case UINT32_C(0x8000001D):
			r = zero;
			break;
		default:
			r = nd_regs();
			break;
	}
	*a = r.eax;
	*b = r.ebx;
	*c = r.ecx;
	*d = r.edx;
}

static uint32_t field_mask(uint32_t offset, uint32_t length) {
	return (uint32_t)(((UINT64_C(1) << length) - 1) << offset);
}

/* smallest k with 2^k >= n */
static uint32_t ceil_log2(uint32_t n) {
	uint32_t k = 0;
	for (uint32_t i = 0; i < 8; i++) {
		if ((UINT32_C(1) << i) < n) {
			k = i + 1;
		}
	}
	return k;
}

int main(void) {
	env.l0 = nd_regs();
	env.l1 = nd_regs();
	env.e0 = nd_regs();
	env.e1 = nd_regs();
	env.e8 = nd_regs();
	for (uint32_t i = 0; i < CACHES; i++) {
		env.l4[i] = nd_regs();
	}
	for (uint32_t i = 0; i < LEVELS; i++) {
		env.lb[i] = nd_regs();
	}
	env.xcr0 = nd_u64();
	vf_assume(x86_max_base() >= 1);

	static struct cpuinfo_x86_processor processor;
	cpuinfo_x86_init_processor(&processor);
	const struct cpuinfo_x86_topology t = processor.topology;

	/* usable as shift counts, whatever CPUID contains */
	vf_assert(
		t.thread_bits_length < 32 && t.thread_bits_offset < 32 && t.core_bits_length < 32 && t.core_bits_offset < 32,
		"field offsets and lengths are valid shift counts");
	if (!(t.thread_bits_length < 32 && t.thread_bits_offset < 32 && t.core_bits_length < 32 && t.core_bits_offset < 32)) {
		return 0;
	}

	const uint32_t thread_mask = field_mask(t.thread_bits_offset, t.thread_bits_length);
	const uint32_t core_mask = field_mask(t.core_bits_offset, t.core_bits_length);

	const bool htt = (env.l1.edx >> 28) & 1;
	const bool x2apic = (env.l1.ecx >> 21) & 1;
	const bool cmp_legacy = x86_max_ext() >= UINT32_C(0x80000001) && ((env.e1.ecx >> 1) & 1);
	const uint32_t a = nd_u32(), b = nd_u32();
	const bool same_core = ((a ^ b) & ~thread_mask) == 0;
	const bool same_package = ((a ^ b) & ~thread_mask & ~core_mask) == 0;

	uint32_t type[LEVELS], shift[LEVELS];
	bool leaf_b_wellformed = (env.lb[0].ebx & 0xFFFF) != 0;
	for (uint32_t i = 0; i < LEVELS; i++) {
		type[i] = (env.lb[i].ecx >> 8) & 0xFF;
		shift[i] = env.lb[i].eax & 0x1F;
		leaf_b_wellformed = leaf_b_wellformed && env.lb[i].edx == env.lb[0].edx;
	}
	/* leaf 0xB: SMT level, optional core level, terminator; shifts count all lower bits */
	leaf_b_wellformed = leaf_b_wellformed && type[0] == 1 &&
		(type[1] == 0 || (type[1] == 2 && shift[1] >= shift[0] && type[2] == 0));

	if (x2apic && x86_max_base() >= 0xB && (env.lb[0].ebx & 0xFFFF) != 0) {
		if (leaf_b_wellformed) {
			const uint32_t core_shift = type[1] == 2 ? shift[1] : shift[0];
			vf_assert(same_core == ((a >> shift[0]) == (b >> shift[0])), "same core by leaf 0xB");
			vf_assert(same_package == ((a >> core_shift) == (b >> core_shift)), "same package by leaf 0xB");
			vf_assert(t.apic_id == env.lb[0].edx, "APIC ID is the x2APIC ID");
			if (shift[0] == 1 && core_shift == 7) {
				vf_witness("SMT and core level in leaf 0xB");
			}
		}
	} else if (!x2apic || x86_max_base() < 0xB || type[0] == 0) {
		const uint32_t logical = (env.l1.ebx >> 16) & 0xFF;
		const bool amd = processor.vendor == cpuinfo_vendor_amd || processor.vendor == cpuinfo_vendor_hygon;
		const bool intel = processor.vendor == cpuinfo_vendor_intel;
		if (htt) {
			vf_assert(t.apic_id == env.l1.ebx >> 24, "APIC ID is the initial APIC ID");
		}
		if (amd && htt && cmp_legacy) {
			/* legacy method: NC+1 (or LogicalProcessorCount) cores, no threads */
			const bool nc = x86_max_ext() >= UINT32_C(0x80000008);
			const uint32_t cores = nc ? 1 + (env.e8.ecx & 0xFF) : logical;
			const uint32_t id_size = nc ? (env.e8.ecx >> 12) & 0xF : 0;
			if (cores != 0 && (id_size == 0 || id_size == ceil_log2(cores))) {
				const uint32_t bits = ceil_log2(cores);
				vf_assert(same_core == (a == b), "legacy AMD: every logical processor is a core");
				vf_assert(same_package == ((a >> bits) == (b >> bits)), "legacy AMD: core count bounds the package");
				if (nc && cores == 6) {
					vf_witness("legacy AMD with core count");
				}
			}
		}
		/* leaf 4 is only valid with a first entry; its core count is the same in every entry */
		const bool leaf4 = x86_max_base() >= 4 && (env.l4[0].eax & 0x1F) != 0 &&
			((env.l4[1].eax & 0x1F) == 0 || env.l4[1].eax >> 26 == env.l4[0].eax >> 26);
		if (intel && !cmp_legacy && htt && logical != 0 && (leaf4 || x86_max_base() < 4)) {
			const uint32_t core_bits = leaf4 ? ceil_log2(1 + (env.l4[0].eax >> 26)) : 0;
			const uint32_t logical_bits = ceil_log2(logical);
			if (logical_bits >= core_bits) {
				const uint32_t smt = logical_bits - core_bits;
				vf_assert(same_core == ((a >> smt) == (b >> smt)), "same core by leaves 1 and 4");
				vf_assert(
					same_package == ((a >> logical_bits) == (b >> logical_bits)),
					"same package by leaves 1 and 4");
				if (smt == 1 && core_bits == 2) {
					vf_witness("SMT and cores by leaves 1 and 4");
				}
				if (x2apic && x86_max_base() >= 0xB) {
					vf_witness("empty leaf 0xB");
				}
			} else {
				/* contradictory: no thread bits may be invented */
				vf_assert(same_core == (a == b), "contradictory leaves: every logical processor is a core");
				vf_witness("contradictory leaves 1 and 4");
			}
		}
		if (!htt && intel && x86_max_base() < 4) {
			vf_assert(same_core == (a == b) && same_package == (a == b), "no multi-threading: every processor alone");
		}
	}
	return 0;
}
