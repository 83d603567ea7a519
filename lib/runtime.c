/* Support code linked into both builds of every harness. */
#include "vf.h"

#ifdef VF_REPLAY
#include <stdio.h>
#include <stdlib.h>
#undef malloc
#undef calloc
#undef free
#undef abort
#undef open
#undef read
#undef close
#undef write
#undef snprintf
#undef vsnprintf

static FILE* vf_input;

uint64_t vf_replay_next(void) {
	unsigned long long v = 0;
	if (vf_input == NULL) {
		const char* path = getenv("VF_INPUT");
		vf_input = path != NULL ? fopen(path, "r") : NULL;
		if (vf_input == NULL) {
			fprintf(stderr, "VF: no input\n");
			_Exit(78);
		}
	}
	/* inputs the counterexample never reached are zero */
	if (fscanf(vf_input, "%llu", &v) != 1) {
		v = 0;
	}
	return v;
}

void vf_replay_fail(const char* what, const char* file, int line) {
	printf("VF_FAIL: %s (%s:%d)\n", what, file, line);
	fflush(stdout);
	_Exit(66);
}

void vf_replay_infeasible(const char* what, int line) {
	printf("VF_INFEASIBLE: %s (line %d)\n", what, line);
	fflush(stdout);
	_Exit(77);
}

void vf_replay_reached(const char* label) {
	printf("VF_REACHED: %s\n", label);
	fflush(stdout);
}
#else
uint64_t vf_nd_log;
#endif
