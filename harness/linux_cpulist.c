/* The processor-list reader against an independent parser, for every chunking of the file. */
#include "symfile.h"
#include <linux/api.h>
#include "mem_loops.h"

static int context;
static struct {
	uint32_t start, end;
} want[FILE_MAX + 1];
static uint32_t wanted, calls;
static bool well_formed = true, callback_failed;

static bool blank(char c) {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}

/* kernel format: N or N-M, separated by commas; blanks around entries are ignored */
static void expect(uint32_t from, uint32_t to) {
	while (from < to && blank(file_text[from])) {
		from++;
	}
	while (to > from && blank(file_text[to - 1])) {
		to--;
	}
	uint32_t first = 0, last = 0, i = from;
	while (i < to && file_text[i] >= '0' && file_text[i] <= '9') {
		first = first * 10 + (uint32_t)(file_text[i] - '0');
		i++;
	}
	if (i == from) {
		well_formed = false;
		return;
	}
	last = first;
	if (i < to) {
		if (file_text[i] != '-') {
			well_formed = false;
			return;
		}
		i++;
		const uint32_t second = i;
		last = 0;
		while (i < to && file_text[i] >= '0' && file_text[i] <= '9') {
			last = last * 10 + (uint32_t)(file_text[i] - '0');
			i++;
		}
		/* text after the second number is ignored */
		if (i == second || last < first) {
			well_formed = false;
			return;
		}
	}
	want[wanted].start = first;
	want[wanted].end = last + 1;
	wanted++;
}

static bool on_range(uint32_t start, uint32_t end, void* ctx) {
	vf_assert(ctx == &context, "context is handed through");
	vf_assert(start < end, "ranges are not empty");
	vf_assert(calls < wanted || file_failed, "only ranges in the file are delivered");
	if (calls < wanted) {
		vf_assert(start == want[calls].start && end == want[calls].end, "ranges are the ones in the file");
	}
	calls++;
	if (nd_bool()) {
		callback_failed = true;
		return false;
	}
	return true;
}

int main(void) {
	symfile_init();
	uint32_t from = 0;
	for (uint32_t i = 0; i <= FILE_MAX; i++) {
		if (i == file_length || (i < file_length && file_text[i] == ',')) {
			expect(from, i);
			from = i + 1;
		}
	}
	const bool ok = cpuinfo_linux_parse_cpulist("file", on_range, &context);
	symfile_done();
	vf_assert(file_opened == 1, "the file is opened once");
	if (file_missing || file_failed) {
		vf_assert(!ok, "an unreadable list is a failure");
	} else {
		vf_assert(ok == (well_formed && !callback_failed), "success means everything was understood and accepted");
		vf_assert(calls == wanted, "every range in the file is delivered");
		if (ok && wanted == 2 && (FILE_MAX < 5 || want[1].end > want[1].start + 1)) {
			vf_witness("two entries");
		}
	}
	return 0;
}
