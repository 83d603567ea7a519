/*
 * /proc/cpuinfo on ARM. The line reader (checked on its own) is replaced by one
 * that hands over the lines of this harness; an independent reading of the
 * kernel's "key<blanks>: value" format is the oracle.
 */
#include "vf.h"
#include <string.h>
#include <arm/linux/api.h>
#include <linux/api.h>
#include "mem_loops.h"

#define PROCESSORS 2
#ifndef FILLER
#define FILLER 0
#endif
#ifndef LINE_MAX_
#define LINE_MAX_ 20
#endif

static struct cpuinfo_arm_linux_processor processors[PROCESSORS], want[PROCESSORS], ignored;
static uint32_t midr_mask[PROCESSORS];
static struct {
	char hardware[CPUINFO_HARDWARE_VALUE_MAX];
	char revision[CPUINFO_REVISION_VALUE_MAX];
} text, want_text;

/* Each line is an object of its own and ends with it, unless its length is arbitrary. */
static char first[] = {'p', 'r', 'o', 'c', 'e', 's', 's', 'o', 'r', '\t', ':', ' ', '1'};
static char line[LINE_MAX_];
static char last[] = {'C', 'P', 'U', ' ', 'v', 'a', 'r', 'i', 'a', 'n', 't', '\t', ':', ' ', '0', 'x', '9'};
static uint32_t length;

static uint32_t current;
static bool delivered;

static bool digit(char c) {
	return c >= '0' && c <= '9';
}

static uint32_t hex(char c) {
	return digit(c) ? (uint32_t)(c - '0') : c >= 'a' && c <= 'f' ? (uint32_t)(c - 'a' + 10) : c >= 'A' && c <= 'F' ? (uint32_t)(c - 'A' + 10) : 16;
}

/* the n bytes at t are exactly the string s */
static bool is(const char* t, uint32_t n, const char* s, uint32_t length) {
	if (n != length) {
		return false;
	}
	for (uint32_t i = 0; i < length; i++) {
		if (t[i] != s[i]) {
			return false;
		}
	}
	return true;
}
#define IS(t, n, s) is(t, n, s, sizeof(s) - 1)

/* 0x and up to `digits` hexadecimal digits; false for anything else */
static bool hex_value(const char* t, uint32_t n, uint32_t digits, uint32_t* value) {
	if (n < 3 || n > 2 + digits || t[0] != '0' || t[1] != 'x') {
		return false;
	}
	*value = 0;
	for (uint32_t i = 2; i < n; i++) {
		if (hex(t[i]) == 16) {
			return false;
		}
		*value = *value << 4 | hex(t[i]);
	}
	return true;
}

static void field(struct cpuinfo_arm_linux_processor* p, uint32_t shift, uint32_t width, uint32_t value, uint32_t flag) {
	const uint32_t mask = ((UINT32_C(1) << width) - 1) << shift;
	p->midr = (p->midr & ~mask) | ((value << shift) & mask);
	p->flags |= flag | CPUINFO_ARM_LINUX_VALID_PROCESSOR;
}

/* The kernel's names of the bits of AT_HWCAP and AT_HWCAP2. */
#define WORD(word, s, bit) \
	if (IS(t, n, s)) { \
		p->word |= UINT64_C(1) << (bit); \
	}
static void feature(const char* t, uint32_t n, struct cpuinfo_arm_linux_processor* p) {
#if CPUINFO_ARCH_ARM64
	WORD(features, "fp", 0) WORD(features, "asimd", 1) WORD(features, "evtstrm", 2) WORD(features, "aes", 3)
	WORD(features, "pmull", 4) WORD(features, "sha1", 5) WORD(features, "sha2", 6) WORD(features, "crc32", 7)
	WORD(features, "atomics", 8) WORD(features, "fphp", 9) WORD(features, "asimdhp", 10) WORD(features, "cpuid", 11)
	WORD(features, "asimdrdm", 12) WORD(features, "jscvt", 13) WORD(features, "fcma", 14) WORD(features, "lrcpc", 15)
	WORD(features, "asimdfhm", 23) WORD(features2, "i8mm", 13)
#else
	/* "wp" and "tlsi" are how some kernels misspell "swp" and "tls" */
	WORD(features, "swp", 0) WORD(features, "wp", 0) WORD(features, "half", 1) WORD(features, "thumb", 2) WORD(features, "26bit", 3)
	WORD(features, "fastmult", 4) WORD(features, "fpa", 5) WORD(features, "vfp", 6) WORD(features, "edsp", 7)
	WORD(features, "java", 8) WORD(features, "iwmmxt", 9) WORD(features, "crunch", 10) WORD(features, "thumbee", 11)
	WORD(features, "neon", 12) WORD(features, "vfpv3", 13) WORD(features, "vfpv3d16", 14) WORD(features, "tls", 15)
	WORD(features, "tlsi", 15) WORD(features, "vfpv4", 16) WORD(features, "idiva", 17) WORD(features, "idivt", 18)
	WORD(features, "vfpd32", 19) WORD(features, "lpae", 20) WORD(features, "evtstrm", 21)
	WORD(features2, "aes", 0) WORD(features2, "pmull", 1) WORD(features2, "sha1", 2) WORD(features2, "sha2", 3)
	WORD(features2, "crc32", 4)
#endif
}

static void features(const char* t, uint32_t n, struct cpuinfo_arm_linux_processor* p) {
	uint32_t start = 0;
	for (uint32_t i = 0; i <= n; i++) {
		if (i == n || t[i] == ' ') {
			feature(t + start, i - start, p);
			start = i + 1;
		}
	}
	p->flags |= CPUINFO_ARM_LINUX_VALID_FEATURES | CPUINFO_ARM_LINUX_VALID_PROCESSOR;
}

static void architecture(const char* t, uint32_t n, struct cpuinfo_arm_linux_processor* p) {
	uint32_t version = 0, i = 0, nibble = 0xF;
	while (i < n && digit(t[i])) {
		version = version * 10 + (uint32_t)(t[i] - '0');
		i++;
	}
	if (IS(t, n, "AArch64")) {
		version = 8;
		i = n;
	}
	if (version == 0) {
		/* not a version: the ID register is incomplete, so this nibble means nothing */
		if (current < PROCESSORS) {
			midr_mask[current] &= ~UINT32_C(0x000F0000);
		}
		return;
	}
	if (current < PROCESSORS) {
		midr_mask[current] = UINT32_MAX;
	}
	p->architecture_version = version;
#if CPUINFO_ARCH_ARM
	for (; i < n; i++) {
		p->architecture_flags |= t[i] == 'T' ? CPUINFO_ARM_LINUX_ARCH_T : t[i] == 'E' ? CPUINFO_ARM_LINUX_ARCH_E : t[i] == 'J' ? CPUINFO_ARM_LINUX_ARCH_J : 0;
	}
	const bool e = (p->architecture_flags & CPUINFO_ARM_LINUX_ARCH_TE) == CPUINFO_ARM_LINUX_ARCH_TE;
	const bool j = e && (p->architecture_flags & CPUINFO_ARM_LINUX_ARCH_J) != 0;
	if (!IS(t, n, "AArch64")) {
		nibble = version == 6 ? 7 : version == 5 ? (j ? 6 : e ? 5 : 4) : 0xF;
	}
#endif
	field(p, 16, 4, nibble, CPUINFO_ARM_LINUX_VALID_ARCHITECTURE);
}

static bool decimal(const char* t, uint32_t n, uint32_t* value) {
	*value = 0;
	for (uint32_t i = 0; i < n; i++) {
		if (!digit(t[i])) {
			return false;
		}
		*value = *value * 10 + (uint32_t)(t[i] - '0');
	}
	return true;
}

static void expect(const char* t, uint32_t size) {
	uint32_t sep = 0;
	while (sep < size && t[sep] != ':') {
		sep++;
	}
	if (sep == size) {
		return;
	}
	uint32_t key = sep;
	while (key > 0 && (t[key - 1] == ' ' || t[key - 1] == '\t')) {
		key--;
	}
	uint32_t v = sep + 1, e = size;
	while (v < e && t[v] == ' ') {
		v++;
	}
	while (e > v && t[e - 1] == ' ') {
		e--;
	}
	if (v == e) {
		return;
	}
	const char* value = t + v;
	const uint32_t n = e - v;
	struct cpuinfo_arm_linux_processor* p = current < PROCESSORS ? &want[current] : &ignored;
	uint32_t number;
	if (IS(t, key, "processor")) {
		/* the kernel always prints a number here; text after it is ignored */
		vf_assume(digit(value[0]));
		number = 0;
		for (uint32_t i = 0; i < n && digit(value[i]); i++) {
			number = number * 10 + (uint32_t)(value[i] - '0');
		}
		current = number;
		if (number < PROCESSORS) {
			want[number].flags |= CPUINFO_ARM_LINUX_VALID_PROCESSOR;
		}
	} else if (IS(t, key, "CPU implementer") || IS(t, key, "CPU implementor")) {
		if (hex_value(value, n, 2, &number)) {
			field(p, 24, 8, number, CPUINFO_ARM_LINUX_VALID_IMPLEMENTER);
		}
	} else if (IS(t, key, "CPU variant")) {
		if (hex_value(value, n, 1, &number)) {
			field(p, 20, 4, number, CPUINFO_ARM_LINUX_VALID_VARIANT);
		}
	} else if (IS(t, key, "CPU part")) {
		if (hex_value(value, n, 3, &number)) {
			field(p, 4, 12, number, CPUINFO_ARM_LINUX_VALID_PART);
		}
	} else if (IS(t, key, "CPU revision")) {
		if (decimal(value, n, &number)) {
			field(p, 0, 4, number, CPUINFO_ARM_LINUX_VALID_REVISION);
		}
	} else if (IS(t, key, "CPU architecture")) {
		architecture(value, n, p);
	} else if (IS(t, key, "Features")) {
#ifndef NO_FEATURES
		features(value, n, p);
#else
		vf_assume(0);
#endif
	} else if (IS(t, key, "Hardware")) {
		for (uint32_t i = 0; i < CPUINFO_HARDWARE_VALUE_MAX && i <= n; i++) {
			want_text.hardware[i] = i < n ? value[i] : '\0';
		}
	} else if (IS(t, key, "Revision")) {
		for (uint32_t i = 0; i < CPUINFO_REVISION_VALUE_MAX && i <= n; i++) {
			want_text.revision[i] = i < n ? value[i] : '\0';
		}
	}
#if CPUINFO_ARCH_ARM
#define CACHE(s, name, flag, line) \
	else if (IS(t, key, s)) { \
		if (decimal(value, n, &number) && number != 0 && (!(line) || number == 16 || number == 32 || number == 64 || number == 128)) { \
			p->proc_cpuinfo_cache.name = number; \
			p->flags |= CPUINFO_ARM_LINUX_VALID_##flag | CPUINFO_ARM_LINUX_VALID_PROCESSOR; \
		} \
	}
	CACHE("I size", i_size, ICACHE_SIZE, false)
	CACHE("I assoc", i_assoc, ICACHE_WAYS, false)
	CACHE("I line length", i_line_length, ICACHE_LINE, true)
	CACHE("I sets", i_sets, ICACHE_SETS, false)
	CACHE("D size", d_size, DCACHE_SIZE, false)
	CACHE("D assoc", d_assoc, DCACHE_WAYS, false)
	CACHE("D line length", d_line_length, DCACHE_LINE, true)
	CACHE("D sets", d_sets, DCACHE_SETS, false)
#endif
}

bool cpuinfo_linux_parse_multiline_file(const char* filename, size_t buffer_size, cpuinfo_line_callback callback, void* context) {
	vf_assert(!delivered, "the file is read once");
	delivered = true;
	expect(first, sizeof(first));
	if (!callback(first, first + sizeof(first), context, 1)) {
		return false;
	}
	expect(line, length);
	if (!callback(line, line + length, context, 2)) {
		return false;
	}
	expect(last, sizeof(last));
	return callback(last, last + sizeof(last), context, 3);
}

/* strings are read up to their limit or a terminator, whichever comes first */
static bool same(const char* a, const char* b, uint32_t max) {
	for (uint32_t i = 0; i < max; i++) {
		if (a[i] != b[i]) {
			return false;
		}
		if (a[i] == '\0') {
			return true;
		}
	}
	return true;
}

int main(void) {
	for (uint32_t i = 0; i < PROCESSORS; i++) {
		processors[i].flags = want[i].flags = nd_u32() & (CPUINFO_LINUX_FLAG_PRESENT | CPUINFO_LINUX_FLAG_POSSIBLE | CPUINFO_LINUX_FLAG_MAX_FREQUENCY);
		processors[i].system_processor_id = want[i].system_processor_id = nd_u32();
		processors[i].max_frequency = want[i].max_frequency = nd_u32();
		midr_mask[i] = UINT32_MAX;
	}
	for (uint32_t i = 0; i < CPUINFO_HARDWARE_VALUE_MAX; i++) {
		text.hardware[i] = 'x';
	}
	for (uint32_t i = 0; i < CPUINFO_REVISION_VALUE_MAX; i++) {
		text.revision[i] = 'x';
	}
#ifdef KEY
	length = LINE_MAX_;
	for (uint32_t i = 0; i < LINE_MAX_; i++) {
		line[i] = i < sizeof(KEY) - 1 ? KEY[i] : i < sizeof(KEY) - 1 + FILLER ? 'a' : (char)nd_u8();
	}
#else
	length = nd_range(0, LINE_MAX_);
	for (uint32_t i = 0; i < LINE_MAX_; i++) {
		line[i] = (char)nd_u8();
	}
#endif
	vf_assert(cpuinfo_arm_linux_parse_proc_cpuinfo(text.hardware, text.revision, PROCESSORS, processors), "the file is parsed");
	vf_assert(delivered, "/proc/cpuinfo is read");
	vf_assert(same(text.hardware, want_text.hardware, CPUINFO_HARDWARE_VALUE_MAX), "Hardware is the one in the file, up to its limit");
	vf_assert(same(text.revision, want_text.revision, CPUINFO_REVISION_VALUE_MAX), "Revision is the one in the file, up to its limit");
	for (uint32_t i = 0; i < PROCESSORS; i++) {
		const struct cpuinfo_arm_linux_processor *p = &processors[i], *w = &want[i];
		vf_assert(p->flags == w->flags, "exactly the values in the file are marked as known");
		vf_assert(((p->midr ^ w->midr) & midr_mask[i]) == 0, "the ID register is put together from the fields in the file");
		vf_assert(p->architecture_version == w->architecture_version, "the architecture version is the one in the file");
		vf_assert(p->features == w->features && p->features2 == w->features2, "exactly the features in the file are set");
		vf_assert(p->system_processor_id == w->system_processor_id && p->max_frequency == w->max_frequency, "other properties are left alone");
#if CPUINFO_ARCH_ARM
		vf_assert(p->architecture_flags == w->architecture_flags, "the architecture letters are the ones in the file");
		const struct cpuinfo_arm_linux_proc_cpuinfo_cache *c = &p->proc_cpuinfo_cache, *d = &w->proc_cpuinfo_cache;
		vf_assert(
			c->i_size == d->i_size && c->i_assoc == d->i_assoc && c->i_line_length == d->i_line_length && c->i_sets == d->i_sets &&
				c->d_size == d->d_size && c->d_assoc == d->d_assoc && c->d_line_length == d->d_line_length && c->d_sets == d->d_sets,
			"cache numbers are the ones in the file");
#endif
	}
	if (current == 1 && want[1].midr == UINT32_C(0x00900000) && want[1].features == 0) {
		vf_witness("the line changes nothing else");
	}
#ifdef WITNESS
	if (WITNESS) {
		vf_witness("the line is understood");
	}
#endif
	return 0;
}
