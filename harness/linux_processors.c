/*
 * Numbers and processor lists of /sys/devices/system/cpu. The two file readers
 * (checked on their own) are replaced by ones that hand over this harness's
 * text and ranges and check which file is asked for.
 */
#include "vf.h"
#include <linux/api.h>
#include "mini_format.h"

#ifndef PROCESSOR
#define PROCESSOR UINT32_C(10)
#endif
#define STR_(x) #x
#define CPU "/sys/devices/system/cpu/"

static char expected_path[100];
static uint32_t reads;

static void expect_path(const char* before, bool numbered, const char* after) {
	uint32_t k = 0;
	for (const char* p = before; *p != '\0'; p++) {
		expected_path[k++] = *p;
	}
	if (numbered) {
		char t[10];
		uint32_t d = 0, v = PROCESSOR;
		do {
			t[d++] = (char)('0' + v % 10);
			v /= 10;
		} while (v != 0);
		while (d != 0) {
			expected_path[k++] = t[--d];
		}
	}
	for (const char* p = after; *p != '\0'; p++) {
		expected_path[k++] = *p;
	}
	expected_path[k] = '\0';
}

static void check_path(const char* path) {
	uint32_t i = 0;
	for (; expected_path[i] != '\0'; i++) {
		vf_assert(path[i] == expected_path[i], "the documented file is read");
	}
	vf_assert(path[i] == '\0', "the documented file is read");
	vf_assert(reads == 0, "the file is read once");
	reads++;
}

#ifdef NUMBER

#define TEXT 11
static char text[TEXT];
static uint32_t length;
static bool readable;

bool cpuinfo_linux_parse_small_file(const char* filename, size_t buffer_size, cpuinfo_smallfile_callback callback, void* context) {
	check_path(filename);
	vf_assert(buffer_size >= 12, "a 32-bit number and its newline fit the buffer");
	if (!readable) {
		return false;
	}
	/* flush with the end of the storage: overruns leave the object */
	return callback(filename, text + TEXT - length, text + TEXT, context);
}

bool cpuinfo_linux_parse_cpulist(const char* filename, cpuinfo_cpulist_callback callback, void* context) {
	vf_assert(0, "not a list");
	return false;
}

int main(void) {
	length = nd_range(0, TEXT);
	readable = nd_bool();
	for (uint32_t i = 0; i < TEXT; i++) {
		text[i] = (char)nd_u8();
	}
	const char* t = text + TEXT - length;
	uint32_t digits = 0;
	uint64_t value = 0;
	while (digits < length && t[digits] >= '0' && t[digits] <= '9') {
		value = value * 10 + (uint64_t)(t[digits] - '0');
		digits++;
	}
	vf_assume(value < UINT32_MAX);
	const bool good = readable && digits != 0;
	uint32_t id = nd_u32();
	const uint32_t id_before = id;
	bool ok;
	switch (NUMBER) {
		case 0:
			expect_path(CPU "kernel_max", false, "");
			vf_assert(
				cpuinfo_linux_get_max_processors_count() == (good ? (uint32_t)value + 1 : CPU_SETSIZE),
				"maximum processors count is kernel_max + 1, or the platform default");
			break;
		case 1:
			expect_path(CPU "cpu", true, "/cpufreq/cpuinfo_cur_freq");
			vf_assert(cpuinfo_linux_get_processor_cur_frequency(PROCESSOR) == (good ? value : 0), "current frequency");
			break;
		case 2:
			expect_path(CPU "cpu", true, "/cpufreq/cpuinfo_min_freq");
			vf_assert(cpuinfo_linux_get_processor_min_frequency(PROCESSOR) == (good ? value : 0), "minimum frequency");
			break;
		case 3:
			expect_path(CPU "cpu", true, "/cpufreq/cpuinfo_max_freq");
			vf_assert(cpuinfo_linux_get_processor_max_frequency(PROCESSOR) == (good ? value : 0), "maximum frequency");
			break;
		case 4:
			expect_path(CPU "cpu", true, "/topology/core_id");
			ok = cpuinfo_linux_get_processor_core_id(PROCESSOR, &id);
			vf_assert(ok == good && id == (good ? value : id_before), "core identifier");
			break;
		case 5:
			expect_path(CPU "cpu", true, "/topology/physical_package_id");
			ok = cpuinfo_linux_get_processor_package_id(PROCESSOR, &id);
			vf_assert(ok == good && id == (good ? value : id_before), "package identifier");
			break;
	}
	vf_assert(reads == 1, "the file is read");
	if (value == 4000000000u && length == 11) {
		vf_witness("ten digits and a newline");
	}
	if (readable && !good) {
		vf_witness("not a number");
	}
	return 0;
}

#else

#ifndef RANGES
#define RANGES 3
#endif
#define PROCESSORS 4
static struct {
	uint32_t start, end;
} range[RANGES];
static uint32_t ranges;
static bool well_formed, all_accepted = true;

bool cpuinfo_linux_parse_small_file(const char* filename, size_t buffer_size, cpuinfo_smallfile_callback callback, void* context) {
	vf_assert(0, "not a number");
	return false;
}

bool cpuinfo_linux_parse_cpulist(const char* filename, cpuinfo_cpulist_callback callback, void* context) {
	check_path(filename);
	bool status = well_formed;
	for (uint32_t i = 0; i < RANGES; i++) {
		if (i < ranges && !callback(range[i].start, range[i].end, context)) {
			status = false;
		}
	}
	return status;
}

/* the flags are a member of a larger structure, as in the callers */
struct entry {
	uint32_t a;
	uint32_t flags;
	uint32_t b;
};

static uint32_t limit;
static uint32_t sibling_calls;
static int context;

static bool on_siblings(uint32_t processor, uint32_t start, uint32_t end, void* ctx) {
	vf_assert(ctx == &context && processor == PROCESSOR, "arguments are handed through");
	vf_assert(sibling_calls < ranges, "one call per range");
	const uint32_t k = sibling_calls < RANGES ? sibling_calls : 0;
	vf_assert(start == range[k].start, "ranges are handed over unchanged");
	vf_assert(end == (range[k].end < limit ? range[k].end : limit), "ranges are cut at the processor limit");
	sibling_calls++;
	if (nd_bool()) {
		all_accepted = false;
		return false;
	}
	return true;
}

int main(void) {
	ranges = nd_range(0, RANGES);
	well_formed = nd_bool();
	uint32_t last = 0;
	for (uint32_t i = 0; i < RANGES; i++) {
		range[i].start = nd_u32();
		range[i].end = nd_u32();
		vf_assume(range[i].start < range[i].end);
		if (i < ranges && range[i].end - 1 > last) {
			last = range[i].end - 1;
		}
	}
	/* the reader reports failure when the file holds no range at all */
	vf_assume(ranges != 0 || !well_formed);
#if LIST <= 1
	limit = nd_range(1, UINT32_MAX);
	expect_path(LIST == 0 ? CPU "possible" : CPU "present", false, "");
	const uint32_t got =
		LIST == 0 ? cpuinfo_linux_get_max_possible_processor(limit) : cpuinfo_linux_get_max_present_processor(limit);
	vf_assert(
		got == (!well_formed ? UINT32_MAX : last < limit ? last : limit - 1),
		"the highest listed processor, cut at the limit; UINT32_MAX if the list is unusable");
#elif LIST <= 3
	struct entry entries[PROCESSORS], want[PROCESSORS];
	limit = nd_range(0, PROCESSORS);
	const uint32_t flag = nd_u32();
	for (uint32_t i = 0; i < PROCESSORS; i++) {
		entries[i].a = nd_u32();
		entries[i].flags = nd_u32();
		entries[i].b = nd_u32();
		want[i] = entries[i];
		for (uint32_t k = 0; k < RANGES; k++) {
			if (k < ranges && i < limit && i >= range[k].start && i < range[k].end) {
				want[i].flags |= flag;
			}
		}
	}
	expect_path(LIST == 2 ? CPU "possible" : CPU "present", false, "");
	const bool ok = LIST == 2
		? cpuinfo_linux_detect_possible_processors(limit, &entries[0].flags, sizeof(struct entry), flag)
		: cpuinfo_linux_detect_present_processors(limit, &entries[0].flags, sizeof(struct entry), flag);
	vf_assert(ok == well_formed, "success means the list was usable");
	for (uint32_t i = 0; i < PROCESSORS; i++) {
		vf_assert(entries[i].flags == want[i].flags, "exactly the listed processors below the limit are flagged");
		vf_assert(entries[i].a == want[i].a && entries[i].b == want[i].b, "nothing else changes");
	}
#else
	limit = nd_u32();
	bool ok = false;
	switch (LIST) {
		case 4:
			expect_path(CPU "cpu", true, "/topology/core_cpus_list");
			ok = cpuinfo_linux_detect_core_cpus(limit, PROCESSOR, on_siblings, &context);
			break;
		case 5:
			expect_path(CPU "cpu", true, "/topology/core_siblings_list");
			ok = cpuinfo_linux_detect_core_siblings(limit, PROCESSOR, on_siblings, &context);
			break;
		case 6:
			expect_path(CPU "cpu", true, "/topology/thread_siblings_list");
			ok = cpuinfo_linux_detect_thread_siblings(limit, PROCESSOR, on_siblings, &context);
			break;
		case 7:
			expect_path(CPU "cpu", true, "/topology/cluster_cpus_list");
			ok = cpuinfo_linux_detect_cluster_cpus(limit, PROCESSOR, on_siblings, &context);
			break;
		case 8:
			expect_path(CPU "cpu", true, "/topology/package_cpus_list");
			ok = cpuinfo_linux_detect_package_cpus(limit, PROCESSOR, on_siblings, &context);
			break;
	}
	vf_assert(sibling_calls == ranges, "every range is handed over");
	vf_assert(ok == (well_formed && all_accepted), "success means the list was usable and accepted");
#endif
	vf_assert(reads == 1, "the file is read");
	if (ranges == RANGES && range[1].end > limit && well_formed) {
		vf_witness("a range beyond the limit");
	}
	return 0;
}

#endif
