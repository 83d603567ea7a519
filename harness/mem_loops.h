/* Block operations as plain loops: cheaper for the solver than operations of symbolic length. */
#ifndef MEM_LOOPS_H
#define MEM_LOOPS_H

#ifndef MEM_MAX
#define MEM_MAX 64
#endif

int vf_memcmp(const void* a, const void* b, size_t n) {
	const uint8_t *x = a, *y = b;
	for (size_t i = 0; i < n; i++) {
		if (x[i] != y[i]) {
			return x[i] < y[i] ? -1 : 1;
		}
	}
	return 0;
}

void* vf_memset(void* p, int c, size_t n) {
	char* x = p;
	for (size_t i = 0; i < n; i++) {
		x[i] = (char)c;
	}
	return p;
}

void* vf_memmove(void* d, const void* s, size_t n) {
	char* x = d;
	const char* y = s;
	char t[MEM_MAX];
	vf_assert(n <= MEM_MAX, "block move within the bound");
	for (size_t i = 0; i < n; i++) {
		t[i] = y[i];
	}
	for (size_t i = 0; i < n; i++) {
		x[i] = t[i];
	}
	return d;
}

#endif
