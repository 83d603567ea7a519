/*
 * RISC-V Linux: extensions from the kernel's capability word, vendor and
 * microarchitecture from the kernel's hardware probe.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <riscv/linux/api.h>
#include <errno.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/auxv.h>

struct cpuinfo_riscv_isa cpuinfo_isa;

static unsigned long hwcap;

unsigned long vf_getauxval(unsigned long type) {
	if (type == AT_HWCAP) {
		return hwcap;
	}
	return nd_u64();
}

#define WORDS 16
static struct {
	uint32_t processor;
	bool no_memory, fails;
	bool known[3]; /* MVENDORID, MARCHID, MIMPID */
	uint64_t value[3];
} machine;

static cpu_set_t room;
#define set (room.__bits)
static bool allocated;

cpu_set_t* __sched_cpualloc(size_t count) {
	vf_assert(count <= 64 * WORDS, "processor set within the model");
	if (machine.no_memory) {
		return NULL;
	}
	for (int i = 0; i < WORDS; i++) {
		set[i] = nd_u64();
	}
	allocated = true;
	return (cpu_set_t*)set;
}

void __sched_cpufree(cpu_set_t* p) {
	vf_assert((void*)p == (void*)set && allocated, "the processor set is released once");
	allocated = false;
}

long vf_syscall(long number, ...) {
	struct pair {
		int64_t key;
		uint64_t value;
	};
	va_list args;
	va_start(args, number);
	struct pair* pairs = va_arg(args, struct pair*);
	const size_t count = va_arg(args, size_t);
	const size_t size = va_arg(args, size_t);
	const unsigned long* asked = va_arg(args, unsigned long*);
	va_end(args);

	vf_assert(number == 258, "riscv_hwprobe");
	vf_assert(size % sizeof(long) == 0, "processor set of the stated size");
	vf_assert(size * 8 > machine.processor, "processor set covers the processor");
	for (int i = 0; i < WORDS; i++) {
		if (i < size / sizeof(long)) {
			vf_assert(
				asked[i] == (machine.processor / 64 == i ? 1ul << machine.processor % 64 : 0),
				"exactly the processor in question is probed");
		}
	}
	if (machine.fails) {
		errno = EINVAL;
		return -1;
	}
	for (size_t i = 0; i < 8; i++) {
		if (i < count) {
			const int64_t key = pairs[i].key;
			if (key >= 0 && key <= 2 && machine.known[key]) {
				pairs[i].value = machine.value[key];
			} else if (key >= 0 && key <= 2) {
				pairs[i].key = -1;
				pairs[i].value = 0;
			} else {
				pairs[i].value = nd_u64();
			}
		}
	}
	return 0;
}

int main(void) {
	hwcap = nd_u64();
	cpuinfo_riscv_linux_decode_isa_from_hwcap(&cpuinfo_isa);
#define BIT(letter) (hwcap >> ((letter) - 'A') & 1)
	vf_assert(cpuinfo_has_riscv_i() == BIT('I'), "I");
	vf_assert(cpuinfo_has_riscv_m() == BIT('M'), "M");
	vf_assert(cpuinfo_has_riscv_a() == BIT('A'), "A");
	vf_assert(cpuinfo_has_riscv_f() == BIT('F'), "F");
	vf_assert(cpuinfo_has_riscv_d() == BIT('D'), "D");
	vf_assert(cpuinfo_has_riscv_c() == BIT('C'), "C");
	vf_assert(cpuinfo_has_riscv_v() == BIT('V'), "V");
	vf_assert(!cpuinfo_has_riscv_e(), "E is a 32-bit base");
	vf_assert(
		cpuinfo_has_riscv_g() == (BIT('I') && BIT('M') && BIT('A') && BIT('F') && BIT('D')), "G stands for IMAFD");

	machine.processor = nd_range(0, 64 * WORDS - 1);
	machine.no_memory = nd_bool();
	machine.fails = nd_bool();
	for (int i = 0; i < 3; i++) {
		machine.known[i] = nd_bool();
		machine.value[i] = nd_u64();
	}
	/* mvendorid is a 32-bit register; the probe reports all ones if processors differ */
	vf_assume(machine.value[0] <= UINT32_MAX || machine.value[0] == UINT64_MAX);
	enum cpuinfo_vendor vendor = (enum cpuinfo_vendor)nd_range(0, 40);
	enum cpuinfo_uarch uarch = (enum cpuinfo_uarch)nd_range(0, 0x00300100);
	cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe(machine.processor, &vendor, &uarch);

	const bool sifive = !machine.no_memory && !machine.fails && machine.known[0] && machine.value[0] == 0x489;
	vf_assert(vendor == (sifive ? cpuinfo_vendor_sifive : cpuinfo_vendor_unknown), "vendor by mvendorid");
	vf_assert(uarch == cpuinfo_uarch_unknown, "no RISC-V microarchitecture is known");
	vf_assert(!allocated, "the processor set is released");
	if (sifive) {
		vf_witness("SiFive");
	}
	if (machine.fails && !machine.no_memory) {
		vf_witness("probe fails");
	}
	return 0;
}
