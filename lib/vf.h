/*
 * Harness interface. One harness source serves two builds:
 *  - the solver encoding (goto-cc/cbmc): nd_*() are unconstrained inputs;
 *  - the native replay (-DVF_REPLAY): nd_*() return, in call order, the values
 *    the solver's counterexample assigned to them.
 */
#ifndef VF_H
#define VF_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef VF_REPLAY

uint64_t vf_replay_next(void);
void vf_replay_fail(const char* what, const char* file, int line);
void vf_replay_infeasible(const char* what, int line);
void vf_replay_reached(const char* label);

#define VF_ND(type, name) \
	static inline type name(void) { \
		return (type)vf_replay_next(); \
	}
#define vf_assume(cond) \
	do { \
		if (!(cond)) \
			vf_replay_infeasible(#cond, __LINE__); \
	} while (0)
#define vf_assert(cond, what) \
	do { \
		if (!(cond)) \
			vf_replay_fail(what, __FILE__, __LINE__); \
	} while (0)
#define vf_witness(label) vf_replay_reached(label)

#else

extern uint64_t vf_nd_log;
#define VF_ND(type, name) \
	type nondet_##name(void); \
	static inline type name(void) { \
		type v = nondet_##name(); \
		vf_nd_log = (uint64_t)v; \
		return v; \
	}
#define vf_assume(cond) __CPROVER_assume(cond)
#define vf_assert(cond, what) __CPROVER_assert((cond), "vf: " what)
/* must be reachable: the driver requires this "assertion" to be violated */
#define vf_witness(label) __CPROVER_assert(0, "witness: " label)

#endif

VF_ND(uint8_t, nd_u8)
VF_ND(uint16_t, nd_u16)
VF_ND(uint32_t, nd_u32)
VF_ND(uint64_t, nd_u64)

static inline bool nd_bool(void) {
	return (nd_u8() & 1) != 0;
}

static inline uint32_t nd_range(uint32_t lo, uint32_t hi) {
	const uint32_t v = nd_u32();
	vf_assume(v >= lo && v <= hi);
	return v;
}

static inline void nd_fill(void* p, size_t n) {
	for (size_t i = 0; i < n; i++) {
		((uint8_t*)p)[i] = nd_u8();
	}
}

#endif
