/*
 * One-byte cache and TLB descriptors (CPUID leaf 2), and the walk over the
 * registers of leaf 2. Oracle: harness/x86_descriptors.inc (manual wording);
 * Cyrix CPU Detection Guide for the two reinterpreted codes.
 */
#include "x86_env.h"

struct state {
	struct cpuinfo_x86_caches cache;
	struct cpuinfo_tlb itlb_4KB, itlb_2MB, itlb_4MB, dtlb0_4KB, dtlb0_2MB, dtlb0_4MB, dtlb_4KB, dtlb_2MB, dtlb_4MB,
		dtlb_1GB, stlb2_4KB, stlb2_2MB, stlb2_1GB;
};

#define P4KB CPUINFO_PAGE_SIZE_4KB
#define P2MB CPUINFO_PAGE_SIZE_2MB
#define P4MB CPUINFO_PAGE_SIZE_4MB
#define P1GB CPUINFO_PAGE_SIZE_1GB

#ifdef LEAF2

/*
 * The walk: the decoder (checked on its own) is replaced by a recorder, and
 * for an arbitrary descriptor value the number of times it is decoded must be
 * the number of times it appears in the registers marked valid.
 */
#ifndef ROUNDS
#define ROUNDS 1
#endif
static struct cpuid_regs leaf2[ROUNDS];
static uint32_t leaf2_calls;
static uint8_t probe;
static uint32_t decoded;
static struct state got;
static struct cpuinfo_x86_model_info model;
static enum cpuinfo_vendor vendor;

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	struct cpuid_regs r = {nd_u32(), nd_u32(), nd_u32(), nd_u32()};
	vf_assert(leaf == 2, "with leaf 2 as the highest, no other leaf is read");
	if (leaf == 2) {
		vf_assert(leaf2_calls < ROUNDS, "leaf 2 is read as often as it asks for");
		r = leaf2[leaf2_calls < ROUNDS ? leaf2_calls : 0];
		leaf2_calls++;
	}
	*a = r.eax;
	*b = r.ebx;
	*c = r.ecx;
	*d = r.edx;
}

void cpuinfo_x86_decode_cache_descriptor(
	uint8_t descriptor,
	enum cpuinfo_vendor v,
	const struct cpuinfo_x86_model_info* m,
	struct cpuinfo_x86_caches* cache,
	struct cpuinfo_tlb* itlb_4KB,
	struct cpuinfo_tlb* itlb_2MB,
	struct cpuinfo_tlb* itlb_4MB,
	struct cpuinfo_tlb* dtlb0_4KB,
	struct cpuinfo_tlb* dtlb0_2MB,
	struct cpuinfo_tlb* dtlb0_4MB,
	struct cpuinfo_tlb* dtlb_4KB,
	struct cpuinfo_tlb* dtlb_2MB,
	struct cpuinfo_tlb* dtlb_4MB,
	struct cpuinfo_tlb* dtlb_1GB,
	struct cpuinfo_tlb* stlb2_4KB,
	struct cpuinfo_tlb* stlb2_2MB,
	struct cpuinfo_tlb* stlb2_1GB,
	uint32_t* prefetch_size) {
	vf_assert(
		v == vendor && m->model == model.model && m->family == model.family,
		"descriptors are decoded for the processor's own vendor and model");
	vf_assert(
		cache == &got.cache && itlb_4KB == &got.itlb_4KB && itlb_2MB == &got.itlb_2MB && itlb_4MB == &got.itlb_4MB &&
			dtlb0_4KB == &got.dtlb0_4KB && dtlb0_2MB == &got.dtlb0_2MB && dtlb0_4MB == &got.dtlb0_4MB &&
			dtlb_4KB == &got.dtlb_4KB && dtlb_2MB == &got.dtlb_2MB && dtlb_4MB == &got.dtlb_4MB &&
			dtlb_1GB == &got.dtlb_1GB && stlb2_4KB == &got.stlb2_4KB && stlb2_2MB == &got.stlb2_2MB &&
			stlb2_1GB == &got.stlb2_1GB && prefetch_size == &got.cache.prefetch_size,
		"each descriptor kind is stored where it belongs");
	if (descriptor == probe) {
		decoded++;
	}
}

static uint32_t count(uint32_t reg, uint32_t skip) {
	uint32_t n = 0;
	if (reg >> 31) {
		return 0;
	}
	for (uint32_t i = skip; i < 4; i++) {
		if ((uint8_t)(reg >> (8 * i)) == probe) {
			n++;
		}
	}
	return n;
}

int main(void) {
	model.model = nd_u32();
	model.family = nd_u32();
	vendor = nd_range(0, 30);
	probe = nd_u8();
	vf_assume(probe != 0);
	uint32_t want = 0;
	for (uint32_t k = 0; k < ROUNDS; k++) {
		leaf2[k] = nd_regs();
	}
	vf_assume((leaf2[0].eax & 0xFF) == ROUNDS);
	for (uint32_t k = 0; k < ROUNDS; k++) {
		/* what later reads hold in the count byte is not defined, but it is no descriptor */
		want += count(leaf2[k].eax, 1) + count(leaf2[k].ebx, 0) + count(leaf2[k].ecx, 0) + count(leaf2[k].edx, 0);
		vf_assume((leaf2[k].eax & 0xFF) == ROUNDS);
	}
	uint32_t cores = 0;
	cpuinfo_x86_detect_cache(
		nd_range(2, 3),
		0,
		false,
		vendor,
		&model,
		&got.cache,
		&got.itlb_4KB,
		&got.itlb_2MB,
		&got.itlb_4MB,
		&got.dtlb0_4KB,
		&got.dtlb0_2MB,
		&got.dtlb0_4MB,
		&got.dtlb_4KB,
		&got.dtlb_2MB,
		&got.dtlb_4MB,
		&got.dtlb_1GB,
		&got.stlb2_4KB,
		&got.stlb2_2MB,
		&got.stlb2_1GB,
		&cores);
	vf_assert(leaf2_calls == ROUNDS, "leaf 2 is read as often as it asks for");
	vf_assert(decoded == want, "exactly the descriptors in valid registers are decoded");
	if (want == ROUNDS * 12) {
		vf_witness("descriptors in three registers");
	}
	return 0;
}

#else

static void decode(struct state* s, uint8_t d, enum cpuinfo_vendor vendor, const struct cpuinfo_x86_model_info* model) {
	cpuinfo_x86_decode_cache_descriptor(
		d,
		vendor,
		model,
		&s->cache,
		&s->itlb_4KB,
		&s->itlb_2MB,
		&s->itlb_4MB,
		&s->dtlb0_4KB,
		&s->dtlb0_2MB,
		&s->dtlb0_4MB,
		&s->dtlb_4KB,
		&s->dtlb_2MB,
		&s->dtlb_4MB,
		&s->dtlb_1GB,
		&s->stlb2_4KB,
		&s->stlb2_2MB,
		&s->stlb2_1GB,
		&s->cache.prefetch_size);
}

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	*a = nd_u32();
	*b = nd_u32();
	*c = nd_u32();
	*d = nd_u32();
}

static void nd_cache(struct cpuinfo_x86_cache* c) {
	c->size = nd_u32();
	c->associativity = nd_u32();
	c->sets = nd_u32();
	c->partitions = nd_u32();
	c->line_size = nd_u32();
	c->flags = nd_u32();
	c->apic_bits = nd_u32();
}

static void nd_tlb(struct cpuinfo_tlb* t) {
	t->entries = nd_u32();
	t->associativity = nd_u32();
	t->pages = nd_u64();
}

static void want_cache(struct cpuinfo_x86_cache* c, uint32_t size, uint32_t ways, uint32_t line) {
	c->size = size;
	c->associativity = ways;
	c->line_size = line;
	c->partitions = 1;
	c->sets = size / (ways * line);
}

static void check_cache(const struct cpuinfo_x86_cache* got, const struct cpuinfo_x86_cache* want, bool touched) {
	vf_assert(
		got->size == want->size && got->associativity == want->associativity && got->line_size == want->line_size &&
			got->partitions == want->partitions && got->sets == want->sets,
		"cache has the geometry of the descriptor (or is untouched)");
	if (!touched) {
		vf_assert(got->flags == want->flags && got->apic_bits == want->apic_bits, "other caches are untouched");
	}
}

static void check_tlb(const struct cpuinfo_tlb* got, const struct cpuinfo_tlb* want) {
	vf_assert(got->entries == want->entries && got->pages == want->pages, "TLB is that of the descriptor (or is untouched)");
	vf_assert(got->associativity == want->associativity, "TLB associativity is that of the descriptor (or is untouched)");
}

static struct state before, got, want;

int main(void) {
	const uint8_t d = nd_u8();
	const struct cpuinfo_x86_model_info model = {.model = nd_u32(), .family = nd_u32()};
	const enum cpuinfo_vendor vendor = nd_range(0, 30);
	nd_cache(&before.cache.l1i);
	nd_cache(&before.cache.l1d);
	nd_cache(&before.cache.l2);
	nd_cache(&before.cache.l3);
	nd_cache(&before.cache.l4);
	before.cache.trace.uops = nd_u32();
	before.cache.trace.associativity = nd_u32();
	before.cache.prefetch_size = nd_u32();
	nd_tlb(&before.itlb_4KB);
	nd_tlb(&before.itlb_2MB);
	nd_tlb(&before.itlb_4MB);
	nd_tlb(&before.dtlb0_4KB);
	nd_tlb(&before.dtlb0_2MB);
	nd_tlb(&before.dtlb0_4MB);
	nd_tlb(&before.dtlb_4KB);
	nd_tlb(&before.dtlb_2MB);
	nd_tlb(&before.dtlb_4MB);
	nd_tlb(&before.dtlb_1GB);
	nd_tlb(&before.stlb2_4KB);
	nd_tlb(&before.stlb2_2MB);
	nd_tlb(&before.stlb2_1GB);
	got = before;
	want = before;
	decode(&got, d, vendor, &model);

	bool known = false, t_l1i = false, t_l1d = false, t_l2 = false, t_l3 = false;
#if CPUINFO_ARCH_X86
	const bool cyrix = vendor == cpuinfo_vendor_cyrix || vendor == cpuinfo_vendor_nsc;
#else
	const bool cyrix = false;
#endif
	if (cyrix && d == 0x70) {
		want.itlb_4KB.entries = want.dtlb_4KB.entries = 32;
		want.itlb_4KB.associativity = want.dtlb_4KB.associativity = 4;
		want.itlb_4KB.pages = want.dtlb_4KB.pages = P4KB;
	} else if (cyrix && d == 0x80) {
		want_cache(&want.cache.l1i, 16 * 1024, 4, 16);
		want_cache(&want.cache.l1d, 16 * 1024, 4, 16);
		t_l1i = t_l1d = true;
	} else if (d == 0x49) {
		if (vendor == cpuinfo_vendor_intel && model.family == 0x0F && model.model == 0x06) {
			want_cache(&want.cache.l3, 4 * 1024 * 1024, 16, 64);
			t_l3 = true;
		} else {
			want_cache(&want.cache.l2, 4 * 1024 * 1024, 16, 64);
			t_l2 = true;
		}
	} else {
#define L1I(x) (t_l1i = true, &want.cache.l1i)
#define L1D(x) (t_l1d = true, &want.cache.l1d)
#define L2(x) (t_l2 = true, &want.cache.l2)
#define L3(x) (t_l3 = true, &want.cache.l3)
#define CACHE(code, which, size, ways, line) \
	if (d == code) { \
		known = true; \
		want_cache(which(0), size, ways, line); \
	}
#define TLB(code, which, n, ways, pg) \
	if (d == code) { \
		known = true; \
		want.which.entries = n; \
		want.which.associativity = (ways) == 0 ? got.which.associativity : (ways); \
		want.which.pages = pg; \
		vf_assert(got.which.associativity >= 1 && got.which.associativity <= got.which.entries, "TLB associativity is plausible"); \
	}
#define TRACE(code, n, ways) \
	if (d == code) { \
		known = true; \
		want.cache.trace.uops = n; \
		want.cache.trace.associativity = ways; \
	}
#define PREFETCH(code, n) \
	if (d == code) { \
		known = true; \
		want.cache.prefetch_size = n; \
	}
#include "x86_descriptors.inc"
	}
	check_cache(&got.cache.l1i, &want.cache.l1i, t_l1i);
	check_cache(&got.cache.l1d, &want.cache.l1d, t_l1d);
	check_cache(&got.cache.l2, &want.cache.l2, t_l2);
	check_cache(&got.cache.l3, &want.cache.l3, t_l3);
	check_cache(&got.cache.l4, &want.cache.l4, false);
	vf_assert(
		got.cache.trace.uops == want.cache.trace.uops &&
			got.cache.trace.associativity == want.cache.trace.associativity &&
			got.cache.prefetch_size == want.cache.prefetch_size,
		"trace cache and prefetch size are those of the descriptor (or untouched)");
	check_tlb(&got.itlb_4KB, &want.itlb_4KB);
	check_tlb(&got.itlb_2MB, &want.itlb_2MB);
	check_tlb(&got.itlb_4MB, &want.itlb_4MB);
	check_tlb(&got.dtlb0_4KB, &want.dtlb0_4KB);
	check_tlb(&got.dtlb0_2MB, &want.dtlb0_2MB);
	check_tlb(&got.dtlb0_4MB, &want.dtlb0_4MB);
	check_tlb(&got.dtlb_4KB, &want.dtlb_4KB);
	check_tlb(&got.dtlb_2MB, &want.dtlb_2MB);
	check_tlb(&got.dtlb_4MB, &want.dtlb_4MB);
	check_tlb(&got.dtlb_1GB, &want.dtlb_1GB);
	check_tlb(&got.stlb2_4KB, &want.stlb2_4KB);
	check_tlb(&got.stlb2_2MB, &want.stlb2_2MB);
	check_tlb(&got.stlb2_1GB, &want.stlb2_1GB);
	if (known) {
		vf_witness("known descriptor");
	} else if (d == 0x99) {
		vf_witness("unknown descriptor");
	}
	return 0;
}

#endif
