/* The whole-file reader, for every chunking of the file. */
#include "symfile.h"
#include <linux/api.h>
#include "mem_loops.h"

static uint32_t calls;
static bool verdict;
static int context;
static const char name[] = "file";

static bool on_text(const char* filename, const char* start, const char* end, void* ctx) {
	vf_assert(ctx == &context && filename == name, "arguments are handed through");
	vf_assert((size_t)(end - start) == file_length, "the whole file is delivered");
	for (uint32_t i = 0; i < FILE_MAX; i++) {
		if (i < file_length) {
			vf_assert(start[i] == file_text[i], "the file's text is delivered");
		}
	}
	calls++;
	return verdict;
}

int main(void) {
	symfile_init();
	verdict = nd_bool();
	const bool ok = cpuinfo_linux_parse_small_file(name, BUFFER, on_text, &context);
	symfile_done();
	const bool readable = !file_missing && !file_failed && file_length < BUFFER;
	vf_assert(calls == (readable ? 1 : 0), "the text is delivered once if it could be read and fits");
	vf_assert(ok == (readable && verdict), "success means read and accepted");
	if (ok && file_length == BUFFER - 1) {
		vf_witness("largest accepted file");
	}
	if (!file_missing && !file_failed && !ok && file_length >= BUFFER) {
		vf_witness("file too large");
	}
	return 0;
}
