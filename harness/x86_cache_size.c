/*
 * Size of one enumerated cache: product of its four geometry factors (CPUID
 * leaf 4 / 0x8000001D). SAT solvers cannot compare arbitrary four-fold
 * products, so one factor at a time is symbolic over its whole range while the
 * other three run through the shapes below.
 */
#include "x86_env.h"

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	*a = nd_u32();
	*b = nd_u32();
	*c = nd_u32();
	*d = nd_u32();
}

static void one(uint32_t eax, uint32_t edx, bool amd, uint32_t line, uint32_t parts, uint32_t ways, uint32_t sets) {
	static struct cpuinfo_x86_caches caches;
	const struct cpuid_regs r = {eax, (line - 1) | (parts - 1) << 12 | (ways - 1) << 22, sets - 1, edx};
	uint32_t cores = 0;
	const bool more = amd ? cpuinfo_x86_decode_cache_properties(r, &caches)
			      : cpuinfo_x86_decode_deterministic_cache_parameters(r, &caches, &cores);
	const uint32_t type = r.eax & 0x1F, level = (r.eax >> 5) & 7;
	vf_assert(more == (type != 0), "enumeration goes on exactly after a valid entry");
	const uint32_t size = line * parts * ways * sets;
	const struct cpuinfo_x86_cache* c = NULL;
	switch (level) {
		case 1:
			c = type == 2 ? &caches.l1i : type == 1 || type == 3 ? &caches.l1d : NULL;
			break;
		case 2:
			c = type == 1 || type == 3 ? &caches.l2 : NULL;
			break;
		case 3:
			c = type == 1 || type == 3 ? &caches.l3 : NULL;
			break;
		case 4:
			c = !amd && (type == 1 || type == 3) ? &caches.l4 : NULL;
			break;
	}
	if (c != NULL) {
		vf_assert(c->size == size, "cache size is line size * partitions * ways * sets");
		vf_witness("cache decoded");
	}
	if (level == 1 && type == 3) {
		vf_assert(caches.l1i.size == size, "unified first-level cache is both instruction and data cache");
	}
}

int main(void) {
	const uint32_t eax = nd_u32(), edx = nd_u32();
	const bool amd = nd_bool();
	static const uint32_t lines[] = {64, 32}, parts[] = {1, 3}, ways[] = {8, 12}, sets[] = {64, 12288};
#if defined(SYM_SETS)
	const uint32_t v = nd_range(1, 1 << 24);
	for (uint32_t i = 0; i < 2; i++)
		for (uint32_t j = 0; j < 2; j++)
			for (uint32_t k = 0; k < 2; k++)
				one(eax, edx, amd, lines[i], parts[j], ways[k], v);
#elif defined(SYM_WAYS)
	const uint32_t v = nd_range(1, 1024);
	for (uint32_t i = 0; i < 2; i++)
		for (uint32_t j = 0; j < 2; j++)
			for (uint32_t k = 0; k < 2; k++)
				one(eax, edx, amd, lines[i], parts[j], v, sets[k]);
#elif defined(SYM_PARTS)
	const uint32_t v = nd_range(1, 1024);
	for (uint32_t i = 0; i < 2; i++)
		for (uint32_t j = 0; j < 2; j++)
			for (uint32_t k = 0; k < 2; k++)
				one(eax, edx, amd, lines[i], v, ways[j], sets[k]);
#else
	const uint32_t v = nd_range(1, 4096);
	for (uint32_t i = 0; i < 2; i++)
		for (uint32_t j = 0; j < 2; j++)
			for (uint32_t k = 0; k < 2; k++)
				one(eax, edx, amd, v, parts[i], ways[j], sets[k]);
#endif
	return 0;
}
