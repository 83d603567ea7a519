/*
 * Symbolic x86 processor: CPUID is an arbitrary function of (leaf, subleaf),
 * stable across repeated queries for the leaves the library consults, and
 * arbitrary (possibly different each time) for any other leaf and for leaves
 * above the advertised maximum. XCR0 is arbitrary.
 */
#ifndef X86_ENV_H
#define X86_ENV_H

#include "vf.h"

#include <cpuinfo.h>
#include <x86/api.h>

#ifndef X86_SUBLEAVES
#define X86_SUBLEAVES 3
#endif

struct x86_env {
	struct cpuid_regs l0, l1, l2, l7_0, l7_1, ld, l24;
	struct cpuid_regs e0, e1, e2, e3, e4, e8;
	struct cpuid_regs p0, p1;
	struct cpuid_regs l4[X86_SUBLEAVES];
	struct cpuid_regs lb[X86_SUBLEAVES];
	struct cpuid_regs e1d[X86_SUBLEAVES];
	uint64_t xcr0;
	bool xgetbv_ok;
};

static struct x86_env env;

static struct cpuid_regs nd_regs(void) {
	struct cpuid_regs r;
	r.eax = nd_u32();
	r.ebx = nd_u32();
	r.ecx = nd_u32();
	r.edx = nd_u32();
	return r;
}

#ifndef X86_ENV_LEAVES
/* leaf families an individual harness does not care about stay arbitrary on every query */
#define X86_ENV_LEAVES 1
#endif

static void x86_env_init(void) {
	env.l0 = nd_regs();
	env.l1 = nd_regs();
	env.e0 = nd_regs();
	env.e1 = nd_regs();
}

static uint32_t x86_max_base(void) {
	return env.l0.eax;
}

static uint32_t x86_max_ext(void) {
	return env.e0.eax >= UINT32_C(0x80000000) ? env.e0.eax : 0;
}

uint64_t vf_xgetbv(uint32_t reg) {
	/* XGETBV faults unless the OS enabled XSAVE (CPUID.1:ECX.OSXSAVE) */
	vf_assert((env.l1.ecx & UINT32_C(0x08000000)) != 0, "XGETBV executed although the OS did not enable XSAVE");
	vf_assert(reg == 0, "only XCR0 is architecturally available to applications");
	return env.xcr0;
}

#endif
