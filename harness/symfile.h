/*
 * One symbolic file: arbitrary content of arbitrary length up to FILE_MAX,
 * delivered in reads of arbitrary size, any of which may fail; the open may fail.
 */
#ifndef SYMFILE_H
#define SYMFILE_H

#include "vf.h"

static char file_text[FILE_MAX];
static uint32_t file_length;
static uint32_t file_position;
static bool file_missing, file_open, file_failed;
static uint32_t file_opened, file_closed;
#ifndef FILE_FD
#define FILE_FD 3
#endif

static void symfile_init(void) {
	file_length = nd_range(0, FILE_MAX);
	for (uint32_t i = 0; i < FILE_MAX; i++) {
		file_text[i] = (char)nd_u8();
	}
	file_missing = nd_bool();
}

int vf_open(const char* path, int flags) {
	vf_assert((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "files are only opened for reading");
	vf_assert(!file_open, "one file at a time");
	file_opened++;
	if (file_missing) {
		return -1;
	}
	file_open = true;
	file_position = 0;
	return FILE_FD;
}

ssize_t vf_read(int fd, void* buffer, size_t capacity) {
	vf_assert(fd == FILE_FD && file_open, "reads go to the open file");
	vf_assert(!file_failed, "no read after a failed read");
	if (nd_bool()) {
		file_failed = true;
		return -1;
	}
#ifdef VF_REPLAY
	/* the kernel may use all of the buffer it is given */
	memset(buffer, 0xA5, capacity);
#else
	vf_assert(capacity == 0 || __CPROVER_w_ok(buffer, capacity), "the kernel may write all of the buffer it is given");
#endif
	const uint32_t left = file_length - file_position;
	if (left == 0 || capacity == 0) {
		return 0;
	}
#ifdef FILE_WHOLE
	const uint32_t n = left < capacity ? left : (uint32_t)capacity;
#else
	const uint32_t n = nd_range(1, FILE_MAX);
	vf_assume(n <= left && n <= capacity);
#endif
	for (uint32_t i = 0; i < n; i++) {
		((char*)buffer)[i] = file_text[file_position + i];
	}
	file_position += n;
	return (ssize_t)n;
}

int vf_close(int fd) {
	vf_assert(fd == FILE_FD && file_open, "the open file is closed");
	file_open = false;
	file_closed++;
	return 0;
}

static void symfile_done(void) {
	vf_assert(!file_open, "the file is closed");
	vf_assert(file_closed == (file_missing ? 0 : file_opened), "the file is closed exactly once");
}

#endif
