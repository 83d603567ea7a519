/* cpuinfo_initialize and friends: the platform probe runs once, whatever the order of calls. */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>

static bool probe_succeeds;
static uint32_t probe_count;
static volatile uint32_t probes, finished;
static struct cpuinfo_processor the_processor;

static void probe(void) {
#if defined(THREADS) && defined(VF_REPLAY)
	__atomic_fetch_add(&probes, 1, __ATOMIC_SEQ_CST);
	usleep(100000);
#else
	probes++;
#endif
	if (probe_succeeds) {
#ifndef THREADS
		cpuinfo_processors = &the_processor;
#endif
		cpuinfo_processors_count = probe_count;
		cpuinfo_is_initialized = true;
	}
	finished++;
}

#if CPUINFO_ARCH_X86_64 || CPUINFO_ARCH_X86
void cpuinfo_x86_linux_init(void) {
	probe();
}
#elif CPUINFO_ARCH_ARM64 || CPUINFO_ARCH_ARM
void cpuinfo_arm_linux_init(void) {
	probe();
}
#elif CPUINFO_ARCH_RISCV64
void cpuinfo_riscv_linux_init(void) {
	probe();
}
#else
void cpuinfo_emscripten_init(void) {
	probe();
}
#endif

#if !defined(THREADS) || !defined(VF_REPLAY)
/* the standard's contract: the first caller runs it, the others wait for it to finish */
#ifndef THREADS
static pthread_once_t* once_guard;
#endif
static uint32_t once_state;
int vf_pthread_once(pthread_once_t* guard, void (*routine)(void)) {
	bool mine = false;
#ifdef THREADS
	__CPROVER_atomic_begin();
#endif
#ifndef THREADS
	vf_assert(once_state == 0 || guard == once_guard, "one guard for every call");
	once_guard = guard;
#else
	(void)guard;
#endif
	if (once_state == 0) {
		once_state = 1;
		mine = true;
	}
#ifdef THREADS
	__CPROVER_atomic_end();
#endif
	if (mine) {
		routine();
		once_state = 2;
	}
	vf_assume(once_state == 2);
	return 0;
}
#else
#undef pthread_once
int vf_pthread_once(pthread_once_t* guard, void (*routine)(void)) {
	return pthread_once(guard, routine);
}
#endif

void vf_abort(void) {
	vf_assert(!(probes != 0 && probe_succeeds), "an initialised library does not stop the program");
#ifdef VF_REPLAY
	_Exit(0);
#else
	vf_assume(0);
#endif
}

#ifdef THREADS
static volatile bool done[2];

static void caller(uint32_t i) {
	const bool ok = cpuinfo_initialize();
	vf_assert(finished != 0, "nobody returns before the probe has finished");
	vf_assert(ok == probe_succeeds, "every caller learns the probe's verdict");
	done[i] = true;
}

#ifdef VF_REPLAY
static pthread_barrier_t barrier;
static void* thread(void* i) {
	pthread_barrier_wait(&barrier);
	caller((uint32_t)(uintptr_t)i);
	return NULL;
}
#endif

int main(void) {
	probe_succeeds = nd_bool();
	probe_count = 1;
#ifdef VF_REPLAY
	pthread_t a, b;
	pthread_barrier_init(&barrier, NULL, 2);
	pthread_create(&a, NULL, thread, (void*)0);
	pthread_create(&b, NULL, thread, (void*)1);
	pthread_join(a, NULL);
	pthread_join(b, NULL);
#else
__CPROVER_ASYNC_1:
	caller(0);
	caller(1);
	vf_assume(done[0] && done[1]);
#endif
	vf_assert(probes == 1, "the probe runs once");
	if (probe_succeeds) {
		vf_witness("both callers returned");
	}
	return 0;
}
#else
int main(void) {
	probe_succeeds = nd_bool();
	probe_count = nd_range(1, 4);
	bool called = false;
	for (uint32_t i = 0; i < CALLS; i++) {
		switch (nd_range(0, 3)) {
			case 0: {
				const bool ok = cpuinfo_initialize();
				called = true;
				vf_assert(ok == probe_succeeds, "initialisation reports the probe's verdict every time");
				break;
			}
			case 1:
				cpuinfo_deinitialize();
				break;
			case 2:
				vf_assert(cpuinfo_get_processors_count() == probe_count && called && probe_succeeds, "only an initialised library hands out counts");
				break;
			case 3:
				vf_assert(cpuinfo_get_processors() == &the_processor && called && probe_succeeds, "only an initialised library hands out arrays");
				break;
		}
		vf_assert(probes == (called ? 1 : 0), "the probe runs once, on the first initialisation");
	}
	if (probe_succeeds && called) {
		vf_witness("initialised");
	}
	if (!probe_succeeds && called) {
		vf_witness("failed");
	}
	if (!called) {
		vf_witness("never initialised");
	}
	return 0;
}
#endif
