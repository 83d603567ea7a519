/*
 * Cache levels published for a processor that enumerates its caches through
 * CPUID leaf 4 (Intel, VIA, ...) or 0x8000001D (AMD, Hygon).
 * Oracle: Intel SDM vol. 2A (leaf 4), AMD APM vol. 3 (Fn8000_001D).
 */
#include "x86_env.h"

#ifndef ENTRIES
#define ENTRIES 4
#endif

static struct cpuid_regs entry[ENTRIES]; /* leaf 4 */
static struct cpuid_regs entry_amd[ENTRIES]; /* leaf 0x8000001D */

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	struct cpuid_regs r;
	const struct cpuid_regs zero = {0, 0, 0, 0};
	switch (leaf) {
		case 0:
			r = env.l0;
			break;
		case 1:
			r = env.l1;
			break;
		case 2:
			r = zero;
			break;
		case 4:
			r = x86_max_base() < 4 ? nd_regs() : sub < ENTRIES ? entry[sub] : zero;
			break;
		case UINT32_C(0x80000000):
			r = env.e0;
			break;
		case UINT32_C(0x80000001):
			r = x86_max_ext() >= leaf ? env.e1 : nd_regs();
			break;
		case UINT32_C(0x8000001D):
			r = x86_max_ext() < leaf ? nd_regs() : sub < ENTRIES ? entry_amd[sub] : zero;
			break;
		case 0xB:
			r = zero;
			break;
		default:
			r = nd_regs();
			break;
	}
	*a = r.eax;
	*b = r.ebx;
	*c = r.ecx;
	*d = r.edx;
}

static uint32_t ceil_log2(uint32_t n) {
	uint32_t k = 0;
	for (uint32_t i = 0; i < 13; i++) {
		if ((UINT32_C(1) << i) < n) {
			k = i + 1;
		}
	}
	return k;
}

/* does the published cache carry exactly the parameters of this entry? */
static bool matches(const struct cpuinfo_x86_cache* cache, struct cpuid_regs r, bool amd) {
	uint32_t flags = 0;
	if ((r.edx >> 1) & 1) {
		flags |= CPUINFO_CACHE_INCLUSIVE;
	}
	if (!amd && ((r.edx >> 2) & 1)) {
		flags |= CPUINFO_CACHE_COMPLEX_INDEXING;
	}
	if ((r.eax & 0x1F) == 3) {
		flags |= CPUINFO_CACHE_UNIFIED;
	}
	bool ok = cache->line_size == (r.ebx & 0xFFF) + 1 && cache->partitions == ((r.ebx >> 12) & 0x3FF) + 1 &&
		cache->associativity == (r.ebx >> 22) + 1 && cache->sets == r.ecx + 1 && cache->flags == flags &&
		cache->apic_bits == ceil_log2(((r.eax >> 14) & 0xFFF) + 1);
#ifdef CHECK_SIZE
	ok = ok && cache->size == (uint32_t)((r.ebx & 0xFFF) + 1) * (((r.ebx >> 12) & 0x3FF) + 1) * ((r.ebx >> 22) + 1) * (r.ecx + 1);
#endif
	return ok;
}

static bool zero_cache(const struct cpuinfo_x86_cache* c) {
	return c->size == 0 && c->associativity == 0 && c->sets == 0 && c->partitions == 0 && c->line_size == 0 &&
		c->flags == 0 && c->apic_bits == 0;
}

static void check_level(const struct cpuinfo_x86_cache* cache, const struct cpuid_regs* list, bool amd, uint32_t level, bool instruction) {
	bool live = true, any = false, match = false;
	for (uint32_t i = 0; i < ENTRIES; i++) {
		const uint32_t type = list[i].eax & 0x1F;
		live = live && type != 0;
		const bool suits = (type == 3 || type == (instruction ? 2 : 1)) && ((list[i].eax >> 5) & 7) == level;
		if (live && suits) {
			any = true;
			match = match || matches(cache, list[i], amd);
		}
	}
	if (any) {
		vf_assert(match, "published cache level has the geometry of an enumerated entry of that level and kind");
	} else {
		vf_assert(zero_cache(cache), "cache level that is not enumerated stays absent");
	}
}

int main(void) {
	env.l0 = nd_regs();
	env.l1 = nd_regs();
	env.e0 = nd_regs();
	env.e1 = nd_regs();
	for (uint32_t i = 0; i < ENTRIES; i++) {
		entry[i] = nd_regs();
		entry_amd[i] = nd_regs();
#ifdef CHECK_SIZE
		for (uint32_t k = 0; k < 2; k++) {
			const struct cpuid_regs r = k ? entry_amd[i] : entry[i];
			const uint32_t line = (r.ebx & 0xFFF) + 1, parts = ((r.ebx >> 12) & 0x3FF) + 1;
			/* one symbolic by one symbolic factor: the solver cannot do arbitrary four-fold products */
			vf_assume(line == 16 || line == 32 || line == 64 || line == 128);
			vf_assume(parts == 1 || parts == 2 || parts == 16);
			vf_assume(r.ebx >> 22 < MAX_WAYS);
			vf_assume(r.ecx < MAX_SETS);
		}
#endif
	}
	env.xcr0 = nd_u64();
	vf_assume(x86_max_base() >= 1);

	static struct cpuinfo_x86_processor processor;
	cpuinfo_x86_init_processor(&processor);

	const bool amd_like = processor.vendor == cpuinfo_vendor_amd || processor.vendor == cpuinfo_vendor_hygon;
	const bool topology_extensions =
		x86_max_ext() >= UINT32_C(0x80000001) && ((env.e1.ecx >> 22) & 1) && x86_max_ext() >= UINT32_C(0x8000001D);
	const struct cpuinfo_x86_caches* cache = &processor.cache;
	if (amd_like ? topology_extensions : x86_max_base() >= 4 && !topology_extensions) {
		const struct cpuid_regs* list = amd_like ? entry_amd : entry;
		check_level(&cache->l1i, list, amd_like, 1, true);
		check_level(&cache->l1d, list, amd_like, 1, false);
		check_level(&cache->l2, list, amd_like, 2, false);
		check_level(&cache->l3, list, amd_like, 3, false);
		if (!amd_like) {
			check_level(&cache->l4, list, amd_like, 4, false);
		}
		if (amd_like && cache->l3.line_size == 64 && cache->l3.apic_bits == 4 && cache->l2.line_size == 64) {
			vf_witness("AMD L2 and L3");
		}
		if (!amd_like && cache->l4.line_size == 64 && cache->l1i.line_size == 32 && cache->l1d.line_size == 64) {
			vf_witness("Intel L1I, L1D and L4");
		}
	} else if (!topology_extensions && (amd_like || x86_max_base() < 4)) {
		vf_assert(
			zero_cache(&cache->l1i) && zero_cache(&cache->l1d) && zero_cache(&cache->l2) &&
				zero_cache(&cache->l3) && zero_cache(&cache->l4),
			"no enumeration: no cache published");
		if (amd_like && x86_max_base() >= 4) {
			vf_witness("AMD without topology extensions");
		}
	}
	return 0;
}
