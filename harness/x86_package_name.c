/* Package names: vendor, separator and normalised brand string, cut to the field. */
#include "vf.h"
#include <cpuinfo.h>
#include <x86/api.h>
#include "mini_format.h"

static const struct {
	enum cpuinfo_vendor vendor;
	const char* name;
} vendors[] = {
	{cpuinfo_vendor_intel, "Intel"}, {cpuinfo_vendor_amd, "AMD"}, {cpuinfo_vendor_via, "VIA"}, {cpuinfo_vendor_hygon, "Hygon"},
	{cpuinfo_vendor_rdc, "RDC"}, {cpuinfo_vendor_dmp, "DM&P"}, {cpuinfo_vendor_transmeta, "Transmeta"}, {cpuinfo_vendor_cyrix, "Cyrix"},
	{cpuinfo_vendor_rise, "Rise"}, {cpuinfo_vendor_nsc, "NSC"}, {cpuinfo_vendor_sis, "SiS"}, {cpuinfo_vendor_nexgen, "NexGen"},
	{cpuinfo_vendor_umc, "UMC"},
};

static char brand[48];
static struct {
	char name[CPUINFO_PACKAGE_NAME_MAX];
	char after[2];
} out;

int main(void) {
	const uint32_t length = nd_range(LENGTH_MIN, LENGTH_MAX);
	for (uint32_t i = 0; i < 48; i++) {
		brand[i] = i < LENGTH_MAX ? (char)nd_u8() : '\0';
		vf_assume(i >= length || brand[i] != '\0');
		if (i >= length) {
			brand[i] = '\0';
		}
	}
#ifdef VENDOR
	const enum cpuinfo_vendor vendor = vendors[VENDOR].vendor;
#else
	const enum cpuinfo_vendor vendor = (enum cpuinfo_vendor)nd_u32();
#endif
	for (uint32_t i = 0; i < CPUINFO_PACKAGE_NAME_MAX; i++) {
		out.name[i] = 0x7F;
	}
	out.after[0] = out.after[1] = 0x55;
	const uint32_t prefix = cpuinfo_x86_format_package_name(vendor, brand, out.name);
	vf_assert(out.after[0] == 0x55 && out.after[1] == 0x55, "nothing behind the name is written");

	const char* name = NULL;
	for (uint32_t i = 0; i < sizeof(vendors) / sizeof(vendors[0]); i++) {
		if (vendor == vendors[i].vendor) {
			name = vendors[i].name;
		}
	}
	char want[CPUINFO_PACKAGE_NAME_MAX + 16];
	uint32_t n = 0;
	if (length != 0) {
		if (name != NULL) {
			for (uint32_t i = 0; name[i] != '\0'; i++) {
				want[n++] = name[i];
			}
			want[n++] = ' ';
		}
		vf_assert(prefix == n, "the length of the vendor part is returned");
		for (uint32_t i = 0; i < LENGTH_MAX; i++) {
			if (i < length) {
				want[n++] = brand[i];
			}
		}
	} else {
		vf_assert(prefix == 0, "an empty name has no vendor part");
	}
	if (n > CPUINFO_PACKAGE_NAME_MAX - 1) {
		n = CPUINFO_PACKAGE_NAME_MAX - 1;
	}
	for (uint32_t i = 0; i < CPUINFO_PACKAGE_NAME_MAX; i++) {
		if (i < n) {
			vf_assert(out.name[i] == want[i], "vendor, separator and brand, cut to the field");
		}
	}
	vf_assert(out.name[n] == '\0', "the name is terminated");
	vf_witness("formatted");
#if LENGTH_MIN == 0
	if (length == 0) {
		vf_witness("empty name");
	}
#endif
	return 0;
}
