/*
 * Every published x86 instruction-set flag, for every CPUID/XCR0 content.
 * Oracle: bit positions and operating-system state requirements from the Intel
 * SDM (vol. 2A CPUID, vol. 1 ch. 13) and AMD APM vol. 3 App. E.
 */
#include "x86_env.h"

extern struct cpuinfo_x86_isa cpuinfo_isa;

void vf_cpuid(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
	struct cpuid_regs r;
	switch (leaf) {
		case 0:
			r = env.l0;
			break;
		case 1:
			r = x86_max_base() >= 1 ? env.l1 : nd_regs();
			break;
		case 7:
			r = x86_max_base() < 7 ? nd_regs() : sub == 0 ? env.l7_0 : sub == 1 ? env.l7_1 : nd_regs();
			break;
		case 0xD:
			r = x86_max_base() >= 0xD && sub == 0 ? env.ld : nd_regs();
			break;
		case 0x24:
			r = x86_max_base() >= 0x24 && sub == 0 ? env.l24 : nd_regs();
			break;
		case UINT32_C(0x80000000):
			r = env.e0;
			break;
		case UINT32_C(0x80000001):
			r = x86_max_ext() >= leaf ? env.e1 : nd_regs();
			break;
		case UINT32_C(0x80000008):
			r = x86_max_ext() >= leaf ? env.e8 : nd_regs();
			break;
		case UINT32_C(0xC0000000):
			r = env.p0;
			break;
		case UINT32_C(0xC0000001):
			r = env.p0.eax >= leaf ? env.p1 : nd_regs();
			break;
		case 2:
			r = (struct cpuid_regs){0, 0, 0, 0};
			break;
		case 4:
		case 0xB:
		case UINT32_C(0x8000001D):
			/* enumeration leaves: not an input of this property, kept short */
			r = sub == 0 ? nd_regs() : (struct cpuid_regs){0, 0, 0, 0};
			break;
		default:
			r = nd_regs();
			break;
	}
	*a = r.eax;
	*b = r.ebx;
	*c = r.ecx;
	*d = r.edx;
}

static bool bit(uint32_t reg, unsigned n) {
	return ((reg >> n) & 1) != 0;
}

/* feature flag == its CPUID condition */
#define EXACT(flag, cond) vf_assert((flag) == (cond), #flag " is its CPUID feature bit")
/* feature that uses extended state: never without the bit and the OS-enabled state; always with both */
#define STATEFUL(flag, cond, mask) \
	do { \
		const bool bit_ = (cond); \
		const bool os_ = osxsave && (env.xcr0 & UINT64_C(mask)) == UINT64_C(mask); \
		vf_assert(!(flag) || bit_, #flag " only with its CPUID feature bit"); \
		vf_assert(!(flag) || os_, #flag " only when the OS enabled its register state"); \
		vf_assert(!(consistent && bit_ && os_) || (flag), #flag " whenever supported and enabled"); \
	} while (0)

#define AVX_STATE 0x6
#define AVX512_STATE 0xE6
#define MPX_STATE 0x18
#define AMX_STATE 0x60000

int main(void) {
	env.l0 = nd_regs();
	env.e0 = nd_regs();
	struct cpuid_regs zero = {0, 0, 0, 0};
	env.l1 = nd_regs();
	env.e1 = nd_regs();
	env.l7_0 = nd_regs();
	env.l7_1 = nd_regs();
	env.ld = nd_regs();
	env.l24 = nd_regs();
	env.e8 = nd_regs();
	env.p0 = nd_regs();
	env.p1 = nd_regs();
	env.xcr0 = nd_u64();
	const uint32_t max_base = x86_max_base(), max_ext = x86_max_ext();
	vf_assume(max_base >= 1);

	const enum cpuinfo_vendor vendor = cpuinfo_x86_decode_vendor(env.l0.ebx, env.l0.ecx, env.l0.edx);
	const struct cpuinfo_x86_model_info model = cpuinfo_x86_decode_model_info(env.l1.eax);
	const enum cpuinfo_uarch uarch = cpuinfo_x86_decode_uarch(vendor, &model);

	struct cpuid_regs e1 = max_ext >= UINT32_C(0x80000001) ? env.e1 : zero;

	static struct cpuinfo_x86_processor processor;
	cpuinfo_x86_init_processor(&processor);

	/* absent leaves have no feature bits */
	const struct cpuid_regs l1 = env.l1;
	const struct cpuid_regs l7 = max_base >= 7 ? env.l7_0 : zero;
	const struct cpuid_regs l71 = max_base >= 7 ? env.l7_1 : zero;
	const struct cpuid_regs l24 = max_base >= 0x24 ? env.l24 : zero;
	const struct cpuid_regs e8 = max_ext >= UINT32_C(0x80000008) ? env.e8 : zero;

	const bool osxsave = bit(l1.ecx, 26) && bit(l1.ecx, 27);
	const uint64_t xcr0_valid = ((uint64_t)env.ld.edx << 32) | env.ld.eax;
	const bool consistent = max_base >= 0xD && (env.xcr0 & ~xcr0_valid) == 0;

	EXACT(cpuinfo_has_x86_rdtscp(), bit(e1.edx, 27));
	EXACT(cpuinfo_has_x86_rdpid(), bit(l7.ecx, 22));
	EXACT(cpuinfo_has_x86_clzero(), bit(e8.ebx, 0));
	EXACT(cpuinfo_has_x86_mwait(), bit(l1.ecx, 3));
	EXACT(cpuinfo_has_x86_mwaitx(), bit(e1.ecx, 29));
	EXACT(cpuinfo_has_x86_xsave(), bit(l1.ecx, 26));
	EXACT(cpuinfo_has_x86_3dnow(), bit(e1.edx, 31));
	EXACT(cpuinfo_has_x86_3dnow_plus(), bit(e1.edx, 30));
	EXACT(cpuinfo_has_x86_prefetchwt1(), bit(l7.ecx, 0));
	EXACT(cpuinfo_has_x86_sse4a(), bit(e1.ecx, 6));
	EXACT(cpuinfo_has_x86_misaligned_sse(), bit(e1.ecx, 7));
	EXACT(cpuinfo_has_x86_hle(), bit(l7.ebx, 4));
	EXACT(cpuinfo_has_x86_rtm(), bit(l7.ebx, 11));
	EXACT(cpuinfo_has_x86_xtest(), bit(l7.ebx, 4) || bit(l7.ebx, 11));
	EXACT(cpuinfo_has_x86_clwb(), bit(l7.ebx, 24));
	EXACT(cpuinfo_has_x86_movbe(), bit(l1.ecx, 22));
	EXACT(cpuinfo_has_x86_lzcnt(), bit(e1.ecx, 5));
	EXACT(cpuinfo_has_x86_popcnt(), bit(l1.ecx, 23));
	EXACT(cpuinfo_has_x86_tbm(), bit(e1.ecx, 21));
	EXACT(cpuinfo_has_x86_bmi(), bit(l7.ebx, 3));
	EXACT(cpuinfo_has_x86_bmi2(), bit(l7.ebx, 8));
	EXACT(cpuinfo_has_x86_adx(), bit(l7.ebx, 19));
	EXACT(cpuinfo_has_x86_aes(), bit(l1.ecx, 25));
	EXACT(cpuinfo_has_x86_pclmulqdq(), bit(l1.ecx, 1));
	EXACT(cpuinfo_has_x86_gfni(), bit(l7.ecx, 8));
	EXACT(cpuinfo_has_x86_rdrand(), bit(l1.ecx, 30));
	EXACT(cpuinfo_has_x86_rdseed(), bit(l7.ebx, 18));
	EXACT(cpuinfo_has_x86_sha(), bit(l7.ebx, 29));
	EXACT(cpuinfo_has_x86_sse3(), bit(l1.ecx, 0));
	EXACT(cpuinfo_has_x86_ssse3(), bit(l1.ecx, 9));
	EXACT(cpuinfo_has_x86_sse4_1(), bit(l1.ecx, 19));
	EXACT(cpuinfo_has_x86_sse4_2(), bit(l1.ecx, 20));

	/* fields without a public accessor */
	EXACT(cpuinfo_isa.sysenter, bit(l1.edx, 11));
	EXACT(cpuinfo_isa.msr, bit(l1.edx, 5) || bit(e1.edx, 5));
	EXACT(cpuinfo_isa.clflush, bit(l1.edx, 19));
	EXACT(cpuinfo_isa.clflushopt, bit(l7.ebx, 23));
	EXACT(cpuinfo_isa.fs_gs_base, bit(l7.ebx, 0));
	EXACT(cpuinfo_isa.lwp, bit(e1.ecx, 15));

	/* vendor-dependent meaning of a bit */
	const bool amd_like = vendor == cpuinfo_vendor_amd || vendor == cpuinfo_vendor_hygon;
	const bool three_d_now_any = bit(e1.edx, 31) || bit(e1.edx, 30);
	EXACT(cpuinfo_has_x86_prefetchw(), bit(e1.ecx, 8) || three_d_now_any || (amd_like && bit(e1.edx, 29)));
	EXACT(cpuinfo_has_x86_prefetch(),
	      amd_like ? bit(e1.ecx, 8) || three_d_now_any || bit(e1.edx, 29)
		       : vendor != cpuinfo_vendor_intel && three_d_now_any);
	const bool padlock = vendor == cpuinfo_vendor_via && env.p0.eax >= UINT32_C(0xC0000001);
	EXACT(cpuinfo_isa.rng, padlock && bit(env.p1.edx, 2) && bit(env.p1.edx, 3));
	EXACT(cpuinfo_isa.ace, padlock && bit(env.p1.edx, 6) && bit(env.p1.edx, 7));
	EXACT(cpuinfo_isa.ace2, padlock && bit(env.p1.edx, 8) && bit(env.p1.edx, 9));
	EXACT(cpuinfo_isa.phe, padlock && bit(env.p1.edx, 10) && bit(env.p1.edx, 11));
	EXACT(cpuinfo_isa.pmm, padlock && bit(env.p1.edx, 12) && bit(env.p1.edx, 13));

#if CPUINFO_ARCH_X86_64
	/* part of the x86-64 baseline */
	EXACT(cpuinfo_has_x86_rdtsc(), true);
	EXACT(cpuinfo_has_x86_fpu(), true);
	EXACT(cpuinfo_has_x86_mmx(), true);
	EXACT(cpuinfo_has_x86_mmx_plus(), true);
	EXACT(cpuinfo_has_x86_sse(), true);
	EXACT(cpuinfo_has_x86_sse2(), true);
	EXACT(cpuinfo_has_x86_daz(), true);
	EXACT(cpuinfo_has_x86_cmov(), true);
	EXACT(cpuinfo_has_x86_cmpxchg8b(), true);
	EXACT(cpuinfo_has_x86_3dnow_geode(), false);
	EXACT(cpuinfo_has_x86_lahf_sahf(), bit(e1.ecx, 0));
	EXACT(cpuinfo_has_x86_cmpxchg16b(), bit(l1.ecx, 13));
	EXACT(cpuinfo_has_x86_fxsave(), bit(l1.edx, 24) || bit(e1.edx, 24));
#else
	EXACT(cpuinfo_has_x86_rdtsc(), bit(l1.edx, 4) || bit(e1.edx, 4));
	EXACT(cpuinfo_has_x86_fpu(), bit(l1.edx, 0) || bit(e1.edx, 0));
	EXACT(cpuinfo_has_x86_mmx(), bit(l1.edx, 23) || bit(e1.edx, 23));
	EXACT(cpuinfo_has_x86_mmx_plus(), bit(l1.edx, 25) || bit(e1.edx, 22));
	EXACT(cpuinfo_has_x86_sse(), bit(l1.edx, 25));
	EXACT(cpuinfo_has_x86_sse2(), bit(l1.edx, 26));
	vf_assert(!bit(l1.ecx, 0) || cpuinfo_has_x86_daz(), "DAZ is implied by SSE3");
	EXACT(cpuinfo_has_x86_cmov(), bit(l1.edx, 15) || bit(e1.edx, 15));
	EXACT(cpuinfo_has_x86_cmpxchg8b(), bit(l1.edx, 8) || bit(e1.edx, 8));
	EXACT(cpuinfo_isa.syscall, bit(e1.edx, 11));
	const bool cyrix_like = vendor == cpuinfo_vendor_cyrix || vendor == cpuinfo_vendor_nsc;
	EXACT(cpuinfo_has_x86_fxsave(), !cyrix_like && (bit(l1.edx, 24) || bit(e1.edx, 24)));
	EXACT(cpuinfo_isa.emmx, cyrix_like && bit(e1.edx, 24));
	EXACT(cpuinfo_has_x86_3dnow_geode(), uarch == cpuinfo_uarch_geode && bit(e1.edx, 30));
	EXACT(cpuinfo_has_x86_lahf_sahf(), true);
	EXACT(cpuinfo_has_x86_cmpxchg16b(), false);
#endif

	STATEFUL(cpuinfo_has_x86_avx(), bit(l1.ecx, 28), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_fma3(), bit(l1.ecx, 12), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_fma4(), bit(e1.ecx, 16), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_xop(), bit(e1.ecx, 11), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_f16c(), bit(l1.ecx, 29), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_avx2(), bit(l7.ebx, 5), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_avxvnni(), bit(l71.eax, 4), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_avx_vnni_int8(), bit(l71.edx, 4), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_avx_vnni_int16(), bit(l71.edx, 10), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_avx_ne_convert(), bit(l71.edx, 5), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_vaes(), bit(l7.ecx, 9), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_vpclmulqdq(), bit(l7.ecx, 10), AVX_STATE);
	STATEFUL(cpuinfo_has_x86_avx512f(), bit(l7.ebx, 16), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512pf(), bit(l7.ebx, 26), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512er(), bit(l7.ebx, 27), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512cd(), bit(l7.ebx, 28), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512dq(), bit(l7.ebx, 17), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512bw(), bit(l7.ebx, 30), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512vl(), bit(l7.ebx, 31), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512ifma(), bit(l7.ebx, 21), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512vbmi(), bit(l7.ecx, 1), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512vbmi2(), bit(l7.ecx, 6), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512bitalg(), bit(l7.ecx, 12), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512vpopcntdq(), bit(l7.ecx, 14), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512vnni(), bit(l7.ecx, 11), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512_4vnniw(), bit(l7.edx, 2), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512_4fmaps(), bit(l7.edx, 3), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512vp2intersect(), bit(l7.edx, 8), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512fp16(), bit(l7.edx, 23), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx512bf16(), bit(l71.eax, 5), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx10_1(), bit(l71.edx, 19), AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_avx10_2(), bit(l71.edx, 19) && (l24.ebx & 0xFF) >= 2, AVX512_STATE);
	STATEFUL(cpuinfo_has_x86_amx_bf16(), bit(l7.edx, 22), AMX_STATE);
	STATEFUL(cpuinfo_has_x86_amx_tile(), bit(l7.edx, 24), AMX_STATE);
	STATEFUL(cpuinfo_has_x86_amx_int8(), bit(l7.edx, 25), AMX_STATE);
	STATEFUL(cpuinfo_has_x86_amx_fp16(), bit(l71.eax, 21), AMX_STATE);
	STATEFUL(cpuinfo_has_x86_mpx(), bit(l7.ebx, 14), MPX_STATE);

	if (cpuinfo_has_x86_avx512f() && cpuinfo_has_x86_amx_tile() && cpuinfo_has_x86_mpx() && amd_like) {
		vf_witness("AVX-512, AMX and MPX reported");
	}
	if (bit(l1.ecx, 28) && !cpuinfo_has_x86_avx() && padlock) {
		vf_witness("AVX masked by the OS on a VIA part");
	}
	return 0;
}
