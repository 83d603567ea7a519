/*
 * Brand string normalisation. The encoding works on W-byte strings (the
 * constant 48 of the source is scaled down); in the replay the W bytes stand at
 * the end of a 48-byte string of spaces.
 */
#include "vf.h"
#include <cpuinfo.h>
#include <x86/api.h>
#define MEM_MAX 48
#include "mem_loops.h"

#ifdef VF_REPLAY
#define L 48
#else
#define L W
#endif

static char raw[L];
/* guard bytes around the result: writes outside it are caught by the pointer checks and here */
static struct {
	char before[2];
	char name[L];
	char after[2];
} out;

static uint32_t occurrences(const char* s, uint32_t n, char c, bool stop) {
	uint32_t k = 0;
	for (uint32_t i = 0; i < n; i++) {
		if (stop && s[i] == '\0') {
			break;
		}
		if (s[i] == c) {
			k++;
		}
	}
	return k;
}

/* PLAIN: letters without meaning, spacing, parentheses and dashes: the result is known exactly */
#ifdef PLAIN
static bool plain(char c) {
	return c == 'b' || c == ' ' || c == '\t' || c == '\0' || c == '(' || c == ')' || c == '-';
}

static char want[100];
static uint32_t want_length;

static void reference(void) {
	bool paren = false, space = false;
	uint32_t end = L;
	while (end > 0 && raw[end - 1] == '\0') {
		end--;
	}
	for (uint32_t i = 0; i < end; i++) {
		char c = raw[i];
		if (c == '(') {
			paren = true;
			c = ' ';
		} else if (c == ')') {
			paren = false;
			c = ' ';
		} else if (paren || c == '\t' || c == '\0') {
			c = ' ';
		}
		if (c == ' ') {
			space = want_length != 0;
		} else {
			/* tokens are separated by one space, but none is put next to a dash */
			if (space && c != '-' && want[want_length - 1] != '-') {
				want[want_length++] = ' ';
			}
			space = false;
			want[want_length++] = c;
		}
	}
}
#endif

int main(void) {
	for (uint32_t i = 0; i < L; i++) {
		if (i < L - W) {
			raw[i] = ' ';
		} else {
#ifdef TEMPLATE
			raw[i] = TEMPLATE[i - (L - W)] == '?' ? (char)nd_u8() : TEMPLATE[i - (L - W)];
#else
			raw[i] = (char)nd_u8();
#endif
#ifdef PLAIN
			vf_assume(plain(raw[i]));
#endif
		}
	}
	const char terminator = raw[L - 1];
	out.before[0] = out.before[1] = out.after[0] = out.after[1] = 0x55;
	char copy[L];
	for (uint32_t i = 0; i < L; i++) {
		copy[i] = raw[i];
		out.name[i] = 0x7F;
	}
	cpuinfo_x86_normalize_brand_string(raw, out.name);
	vf_assert(
		out.before[0] == 0x55 && out.before[1] == 0x55 && out.after[0] == 0x55 && out.after[1] == 0x55,
		"nothing outside the result is written");
	uint32_t length = 0;
	while (length < L && out.name[length] != '\0') {
		length++;
	}
	vf_assert(length < L, "the result is terminated");
	for (uint32_t i = 0; i < L; i++) {
		vf_assert(copy[i] == raw[i], "the brand string is only read");
	}
	if (terminator == '\0') {
		if (length != 0) {
			vf_assert(out.name[0] != ' ' && out.name[length - 1] != ' ', "no leading or trailing space");
		}
		for (uint32_t i = 0; i + 1 < length; i++) {
			vf_assert(out.name[i] != ' ' || out.name[i + 1] != ' ', "no repeated spaces");
		}
	}
	for (uint32_t i = 0; i < length; i++) {
		vf_assert(out.name[i] != '\t' && out.name[i] != '(' && out.name[i] != ')' && out.name[i] != '@',
			"tabs, parentheses and the frequency separator are gone");
	}
	const char probe = (char)nd_u8();
	if (probe != ' ' && probe != '\0') {
		uint32_t available = occurrences(raw, L, probe, false);
		if (probe == 'v') {
			available += occurrences(raw, L, 'V', false);
		}
		vf_assert(occurrences(out.name, L, probe, true) <= available, "the result has no characters of its own");
	}
	for (uint32_t i = 0; i + 3 <= length; i++) {
		if ((i == 0 || out.name[i - 1] == ' ') && (i + 3 == length || out.name[i + 3] == ' ')) {
			vf_assert(!(out.name[i] == 'C' && out.name[i + 1] == 'P' && out.name[i + 2] == 'U'), "no bare \"CPU\"");
			vf_assert(!(out.name[i] == 'A' && out.name[i + 1] == 'M' && out.name[i + 2] == 'D'), "no bare \"AMD\"");
		}
	}
#ifdef PLAIN
	reference();
	if (want_length == L) {
		/* no room for the terminator */
		want_length--;
	}
	vf_assert(length == want_length, "a plain name keeps its length");
	for (uint32_t i = 0; i < L && i < want_length; i++) {
		vf_assert(out.name[i] == want[i], "a plain name is kept");
	}
#endif
	if (length != 0) {
		vf_witness("non-empty name");
	}
#if !defined(PLAIN) && !defined(TEMPLATE)
	if (length == 0) {
		vf_witness("empty name");
	}
#endif
	return 0;
}
