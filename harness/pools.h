/*
 * Allocator stand-in. In the encoding every allocation is a statically typed
 * array chosen by element size (untyped heap objects are unaffordable); storage
 * behind the requested count must stay untouched. In the replay it is the real
 * calloc, so the address sanitizer sees the exact size.
 *
 * The including harness defines POOL_N (elements per array) and
 * POOLS(X) with one X(name, element type) per array, and may define
 * ALLOC_MAY_FAIL().
 */
#ifndef POOLS_H
#define POOLS_H

#undef malloc
#undef calloc
#undef free

#ifndef ALLOC_MAX
#define ALLOC_MAX 24
#endif
#ifndef ALLOC_MAY_FAIL
#define ALLOC_MAY_FAIL() false
#endif

static struct {
	const void* p;
	size_t count, size;
	bool live;
} allocation[ALLOC_MAX];
static uint32_t allocations;
static bool allocation_failed;

static void* allocated(void* p, size_t count, size_t size) {
	vf_assert(allocations < ALLOC_MAX, "allocation count within the model");
	allocation[allocations].p = p;
	allocation[allocations].count = count;
	allocation[allocations].size = size;
	allocation[allocations].live = true;
	allocations++;
	return p;
}

#ifndef VF_REPLAY

#define POOL_DECLARE(name, type) \
	static type pool_##name[POOL_N]; \
	static bool pool_##name##_used; \
	static uint32_t pool_##name##_count;
POOLS(POOL_DECLARE)

#ifdef FAULTS
static char pool_empty[1];
#endif

/* the text of calloc's size argument tells element types of equal size apart */
static bool hinted(const char* hint, const char* type) {
	for (; *hint != '\0'; hint++) {
		uint32_t i = 0;
		while (type[i] != '\0' && hint[i] == type[i]) {
			i++;
		}
		if (type[i] == '\0') {
			return true;
		}
	}
	return false;
}

static void* take(size_t count, size_t size, const char* hint) {
#ifdef POOL_SPECIAL
	POOL_SPECIAL(count, size, hint)
#endif
#define POOL_HINTED(name, type) \
	if (size == sizeof(type) && !pool_##name##_used && hinted(hint, #type)) { \
		pool_##name##_used = true; \
		pool_##name##_count = (uint32_t)count; \
		return allocated(pool_##name, count, size); \
	}
	POOLS(POOL_HINTED)
#define POOL_TAKE(name, type) \
	if (size == sizeof(type) && !pool_##name##_used) { \
		pool_##name##_used = true; \
		pool_##name##_count = (uint32_t)count; \
		return allocated(pool_##name, count, size); \
	}
	POOLS(POOL_TAKE)
	vf_assert(0, "allocation within the model");
	return NULL;
}

void* vf_calloc_hint(size_t count, size_t size, const char* hint) {
	vf_assert(count <= POOL_N, "allocation within the model");
	vf_assume(count <= POOL_N);
#ifdef FAULTS
	if (ALLOC_MAY_FAIL()) {
		allocation_failed = true;
		return NULL;
	}
	if (count == 0) {
		/* glibc: a unique pointer to nothing */
		return allocated(pool_empty + 1, 0, size);
	}
#endif
	return take(count, size, hint);
}

static void check_slack(void) {
#define POOL_SLACK(name, type) \
	for (uint32_t i = 0; i < POOL_N; i++) { \
		if (pool_##name##_used && i >= pool_##name##_count) { \
			vf_assert(POOL_SAME_##name(pool_##name[i]), "writes stay within the allocation"); \
		} \
	}
	POOLS(POOL_SLACK)
}

#else

void* vf_calloc_hint(size_t count, size_t size, const char* hint) {
	if (ALLOC_MAY_FAIL()) {
		allocation_failed = true;
		return NULL;
	}
	return allocated(calloc(count, size), count, size);
}

static void check_slack(void) {}

#endif

void* vf_malloc(size_t size) {
	return vf_calloc_hint(1, size, "");
}

void vf_free(void* p) {
	if (p == NULL) {
		return;
	}
	bool found = false;
	for (uint32_t i = 0; i < ALLOC_MAX; i++) {
		if (i < allocations && allocation[i].p == p && allocation[i].live) {
			found = true;
			allocation[i].live = false;
#ifndef VF_REPLAY
			break;
#else
			free(p);
			break;
#endif
		}
	}
	vf_assert(found, "only live allocations are freed, once");
}

static uint32_t live_allocations(void) {
	uint32_t live = 0;
	for (uint32_t i = 0; i < ALLOC_MAX; i++) {
		if (i < allocations && allocation[i].live) {
			live++;
		}
	}
	return live;
}

static bool is_live(const void* p, size_t count) {
	bool ok = false;
	for (uint32_t i = 0; i < ALLOC_MAX; i++) {
		if (i < allocations && allocation[i].live && allocation[i].p == p && allocation[i].count >= count) {
			ok = true;
		}
	}
	return ok;
}

#endif
