/*
 * Log calls: the message is an arbitrary text of arbitrary length, known to the
 * harness only through its length and one symbolic probe position, so one run
 * of the solver covers every position of every message.
 */
#include "vf.h"

#if defined(CLOG)
#include <clog.h>
#else
#include <cpuinfo/log.h>
#endif

#undef malloc
#undef free

#ifndef LENGTH_MAX
#define LENGTH_MAX 2500
#endif
#ifndef MODULE_MAX
#define MODULE_MAX 0
#endif

enum { NONE, FATAL, ERROR, WARNING, INFO, DEBUG };

static const char* const prefixes[] = {
#if defined(CLOG)
	"", "Fatal error: ", "Error: ", "Warning: ", "Note: ", "Debug: ",
#else
	"", "Fatal error in cpuinfo: ", "Error in cpuinfo: ", "Warning in cpuinfo: ", "Note (cpuinfo): ", "Debug (cpuinfo): ",
#endif
};
/* the prefix of a named module: the text before and after its name */
static const char* const heads[] = {"", "Fatal error in ", "Error in ", "Warning in ", "Note (", "Debug ("};
static const char* const tails[] = {"", ": ", ": ", ": ", "): ", "): "};

static const char the_format[] = "%d";
static int argument;
static int level;
static uint32_t length, probe;
static char probe_char;
static bool format_error;

static const char module_name[MODULE_MAX + 1];
static bool has_module;
static uint32_t module_length, module_probe;
static char module_char;

static uint32_t writes, live, denied;
static void* heap;

void* vf_malloc(size_t size) {
	if (nd_bool()) {
		denied++;
		return NULL;
	}
	vf_assert(live == 0, "at most one buffer at a time");
	live++;
	heap = malloc(size);
	vf_assume(heap != NULL);
	return heap;
}

void vf_free(void* p) {
	if (p != NULL) {
		vf_assert(p == heap && live == 1, "only its own buffer is released");
		live--;
		free(p);
	}
}

void* vf_calloc_hint(size_t count, size_t size, const char* hint) {
	(void)hint;
	return vf_malloc(count * size);
}

static void put(char* s, size_t n, size_t at, char c) {
	if (n != 0 && at < n - 1) {
		s[at] = c;
	}
}

/* the formatted message */
int vf_vsnprintf(char* s, size_t n, const char* format, va_list args) {
	vf_assert(format == the_format, "the caller's format is used");
	const int value = va_arg(args, int);
	vf_assert(value == argument, "the caller's arguments are used");
	if (format_error) {
		return -1;
	}
	if (probe < length) {
		put(s, n, probe, probe_char);
	}
	if (n != 0) {
		s[length < n - 1 ? length : n - 1] = '\0';
	}
	return (int)length;
}

/* the formatted prefix: exactly one %s, standing for the module's name */
int vf_snprintf(char* s, size_t n, const char* format, ...) {
	va_list args;
	va_start(args, format);
	const char* name = va_arg(args, const char*);
	va_end(args);
	vf_assert(name == module_name, "the prefix names the module");
	size_t head = 0;
	while (format[head] != '%') {
		put(s, n, head, format[head]);
		head++;
	}
	vf_assert(format[head + 1] == 's', "the prefix holds the module's name");
	if (module_probe < module_length) {
		put(s, n, head + module_probe, module_char);
	}
	size_t tail = 0;
	while (format[head + 2 + tail] != '\0') {
		put(s, n, head + module_length + tail, format[head + 2 + tail]);
		tail++;
	}
	const size_t total = head + module_length + tail;
	if (n != 0) {
		s[total < n - 1 ? total : n - 1] = '\0';
	}
	return (int)total;
}

ssize_t vf_write(int fd, const void* buffer, size_t size) {
	const char* text = buffer;
	vf_assert(fd == (level <= WARNING ? STDERR_FILENO : STDOUT_FILENO), "warnings and worse go to the error stream, the rest to the output stream");
	size_t at = 0;
	if (has_module) {
		for (size_t i = 0; heads[level][i] != '\0'; i++) {
			vf_assert(text[at] == heads[level][i], "the message starts with its prefix");
			at++;
		}
		if (module_probe < module_length) {
			vf_assert(text[at + module_probe] == module_char, "the prefix holds the complete module name");
		}
		at += module_length;
		for (size_t i = 0; tails[level][i] != '\0'; i++) {
			vf_assert(text[at] == tails[level][i], "the message starts with its prefix");
			at++;
		}
	} else {
		for (size_t i = 0; prefixes[level][i] != '\0'; i++) {
			vf_assert(text[at] == prefixes[level][i], "the message starts with its prefix");
			at++;
		}
	}
	vf_assert(size == at + length + 1, "prefix, message and newline are written whole");
	if (probe < length) {
		vf_assert(text[at + probe] == probe_char, "every character of the message is written");
	}
	vf_assert(text[at + length] == '\n', "the message ends in a newline");
	writes++;
#ifdef MESSAGE
	if (live != 0) {
		vf_witness("long message from the heap");
	}
	if (length == 0) {
		vf_witness("empty message");
	}
#endif
	return (ssize_t)size;
}

static void finish(bool aborted) {
	vf_assert(aborted == (level == FATAL), "only a fatal message stops the program");
	vf_assert(live == 0, "no buffer is left allocated");
	const bool enabled = level <= LEVEL;
	if (!enabled) {
		vf_assert(writes == 0, "a message below the level is not written");
	} else if (denied == 0 && !format_error) {
		vf_assert(writes == 1, "an enabled message is written exactly once");
	} else {
		vf_assert(writes <= 1, "a message is written at most once");
		vf_assert(!format_error || writes == 0, "a message that cannot be formatted is not written");
	}
#ifdef MESSAGE
	if (denied != 0) {
		vf_witness("heap exhausted");
	}
#else
	vf_witness("suppressed message");
#endif
}

void vf_abort(void) {
	finish(true);
#ifdef VF_REPLAY
	_Exit(0);
#else
	vf_assume(0);
#endif
}

#if defined(CLOG)
CLOG_DEFINE_LOG_DEBUG(plain_debug, NULL, LEVEL)
CLOG_DEFINE_LOG_INFO(plain_info, NULL, LEVEL)
CLOG_DEFINE_LOG_WARNING(plain_warning, NULL, LEVEL)
CLOG_DEFINE_LOG_ERROR(plain_error, NULL, LEVEL)
CLOG_DEFINE_LOG_FATAL(plain_fatal, NULL, LEVEL)
CLOG_DEFINE_LOG_DEBUG(named_debug, module_name, LEVEL)
CLOG_DEFINE_LOG_INFO(named_info, module_name, LEVEL)
CLOG_DEFINE_LOG_WARNING(named_warning, module_name, LEVEL)
CLOG_DEFINE_LOG_ERROR(named_error, module_name, LEVEL)
CLOG_DEFINE_LOG_FATAL(named_fatal, module_name, LEVEL)
#define CALL(name) (has_module ? named_##name(the_format, argument, 0, 0) : plain_##name(the_format, argument, 0, 0))
#else
#define CALL(name) cpuinfo_log_##name(the_format, argument, 0, 0)
#endif

int main(void) {
	argument = (int)nd_range(1, 1000);
#ifdef MESSAGE
	level = MESSAGE;
#else
	level = (int)nd_range(LOWEST, HIGHEST);
#endif
	length = nd_range(0, LENGTH_MAX);
	probe = nd_u32();
	probe_char = (char)nd_u8();
	format_error = nd_bool();
#if defined(CLOG)
	has_module = MODULE_MAX != 0;
#ifdef MODULE_LENGTH
	module_length = MODULE_LENGTH;
#else
	module_length = nd_range(0, MODULE_MAX);
#endif
	module_probe = nd_u32();
	module_char = (char)nd_u8();
#endif
	switch (level) {
		case FATAL:
			CALL(fatal);
			break;
		case ERROR:
			CALL(error);
			break;
		case WARNING:
			CALL(warning);
			break;
		case INFO:
			CALL(info);
			break;
		case DEBUG:
			CALL(debug);
			break;
	}
	finish(false);
	return 0;
}
