/*
 * /proc/cpuinfo on x86. The line reader (checked on its own) is replaced by one
 * that hands over the lines of this harness; an independent reading of the
 * kernel's "key<blanks>: value" format is the oracle.
 */
#include "vf.h"
#include <linux/api.h>
#include <x86/linux/api.h>
#include "mem_loops.h"

#ifndef PROCESSORS
#define PROCESSORS 3
#endif
#define LINE_MAX_ 14

static struct cpuinfo_x86_linux_processor processors[PROCESSORS], want[PROCESSORS];

struct line {
	char text[LINE_MAX_];
	uint32_t length;
	bool at_end; /* flush with the end (or the start) of its storage: overruns leave the object */
};
static struct line lines[LINES];

static uint32_t current;
static bool delivered;

static bool digit(char c) {
	return c >= '0' && c <= '9';
}

static void expect(const struct line* l, const char* t) {
	uint32_t sep = 0;
	while (sep < l->length && t[sep] != ':') {
		sep++;
	}
	if (sep == l->length) {
		return;
	}
	uint32_t key = sep;
	while (key > 0 && (t[key - 1] == ' ' || t[key - 1] == '\t')) {
		key--;
	}
	uint32_t v = sep + 1, e = l->length;
	while (v < e && t[v] == ' ') {
		v++;
	}
	while (e > v && t[e - 1] == ' ') {
		e--;
	}
	if (v == e) {
		return;
	}
	bool is_processor = key == 9, is_apicid = key == 6;
	for (uint32_t i = 0; i < 9; i++) {
		if (i < key && t[i] != "processor"[i]) {
			is_processor = false;
		}
	}
	for (uint32_t i = 0; i < 6; i++) {
		if (i < key && t[i] != "apicid"[i]) {
			is_apicid = false;
		}
	}
	uint32_t n = 0, i = v;
	while (i < e && digit(t[i])) {
		n = n * 10 + (uint32_t)(t[i] - '0');
		i++;
	}
	if (is_processor) {
		/* the kernel always prints a number here; text after it is ignored */
		vf_assume(i > v);
		current = n;
		if (n < PROCESSORS) {
			want[n].flags |= CPUINFO_LINUX_FLAG_PROC_CPUINFO;
		}
	} else if (is_apicid && i == e) {
		if (current < PROCESSORS) {
			want[current].apic_id = n;
			want[current].flags |= CPUINFO_LINUX_FLAG_APIC_ID;
		}
	}
}

bool cpuinfo_linux_parse_multiline_file(const char* filename, size_t buffer_size, cpuinfo_line_callback callback, void* context) {
	vf_assert(!delivered, "the file is read once");
	delivered = true;
	if (nd_bool()) {
		return false;
	}
	for (uint32_t k = 0; k < LINES; k++) {
		const char* start = lines[k].text;
		if (lines[k].at_end) {
			start += LINE_MAX_ - lines[k].length;
		}
		expect(&lines[k], start);
		if (!callback(start, start + lines[k].length, context, k + 1)) {
			return false;
		}
	}
	return true;
}

static void put(struct line* l, const char* s, uint32_t n) {
	l->length = n;
	l->at_end = false;
	for (uint32_t i = 0; i < n; i++) {
		l->text[i] = s[i];
	}
}

int main(void) {
	for (uint32_t i = 0; i < PROCESSORS; i++) {
		processors[i].apic_id = want[i].apic_id = nd_u32();
		processors[i].linux_id = want[i].linux_id = nd_u32();
		processors[i].flags = want[i].flags = nd_u32();
	}
#ifdef ANY_LINE
	/* two ordinary lines, one arbitrary line, one ordinary line */
	put(&lines[0], "processor\t: 1", 13);
	lines[1].length = nd_range(0, LINE_MAX_);
	lines[1].at_end = nd_bool();
	for (uint32_t i = 0; i < LINE_MAX_; i++) {
		lines[1].text[i] = (char)nd_u8();
	}
	put(&lines[2], "apicid\t\t: 6", 11);
#else
	for (uint32_t k = 0; k < LINES; k++) {
		const uint8_t kind = nd_u8() % 3;
		for (uint32_t i = 0; i < 11; i++) {
			lines[k].text[i] = kind == 0 || k == 0 ? "processor\t:"[i] : kind == 1 ? "apicid\t\t  :"[i] : "core id   :"[i];
		}
		for (uint32_t i = 11; i < LINE_MAX_; i++) {
			lines[k].text[i] = (char)nd_u8();
		}
		lines[k].length = LINE_MAX_;
		lines[k].at_end = true;
	}
#endif
	cpuinfo_x86_linux_parse_proc_cpuinfo(PROCESSORS, processors);
	vf_assert(delivered, "/proc/cpuinfo is read");
	for (uint32_t i = 0; i < PROCESSORS; i++) {
		vf_assert(processors[i].flags == want[i].flags, "exactly the processors and APIC IDs in the file are marked");
		vf_assert(processors[i].apic_id == want[i].apic_id, "APIC IDs are the ones in the file");
		vf_assert(processors[i].linux_id == want[i].linux_id, "identifiers are left alone");
	}
#ifdef ANY_LINE
	if (want[2].apic_id == 6 && want[2].flags == (CPUINFO_LINUX_FLAG_PROC_CPUINFO | CPUINFO_LINUX_FLAG_APIC_ID)) {
		vf_witness("the arbitrary line names processor 2");
	}
	if (current == 1 && want[1].apic_id == 6) {
		vf_witness("the arbitrary line is ignored");
	}
#else
	if (want[0].apic_id == 17 && want[2].apic_id == 5) {
		vf_witness("two processors with APIC IDs");
	}
#endif
	return 0;
}
