/* The line reader against an independent splitter, for every chunking of the file. */
#include "symfile.h"
#include <linux/api.h>
#include "mem_loops.h"

static uint32_t next_start, calls;
static bool callback_failed, final_seen;
static int context;

static bool on_line(const char* start, const char* end, void* ctx, uint64_t number) {
	vf_assert(ctx == &context, "context is handed through");
	vf_assert(!callback_failed, "no callback after a failed one");
	vf_assert(!final_seen, "nothing follows the last line");
	/* the line that starts at next_start */
	uint32_t stop = next_start;
	while (stop < file_length && file_text[stop] != '\n') {
		stop++;
	}
	vf_assert((size_t)(end - start) == stop - next_start, "line has the length it has in the file");
	for (uint32_t i = 0; i < FILE_MAX; i++) {
		if (next_start + i < stop) {
			vf_assert(start[i] == file_text[next_start + i], "line has the text it has in the file");
		}
	}
	calls++;
	vf_assert(number == calls, "lines are numbered from one");
	if (stop == file_length) {
		final_seen = true;
	}
	next_start = stop + 1;
	if (nd_bool()) {
		callback_failed = true;
		return false;
	}
	return true;
}

int main(void) {
	symfile_init();
	/* documented limit: a line fits the buffer */
	uint32_t run = 0;
	for (uint32_t i = 0; i < FILE_MAX; i++) {
		if (i < file_length) {
			run = file_text[i] == '\n' ? 0 : run + 1;
			vf_assume(run < BUFFER);
		}
	}
	const bool ok = cpuinfo_linux_parse_multiline_file("file", BUFFER, on_line, &context);
	symfile_done();
	vf_assert(file_opened == 1, "the file is opened once");
	vf_assert(ok == (!file_missing && !file_failed && !callback_failed), "success means everything was read and accepted");
	if (ok) {
		vf_assert(final_seen, "every line is delivered");
		if (calls == 3) {
			vf_witness("three lines");
		}
	} else if (file_failed && calls == 1) {
		vf_witness("read error after a line");
	}
	return 0;
}
