/*
 * Chipset identification from the /proc/cpuinfo Hardware and Revision strings.
 * The string is TEMPLATE with '?' standing for an arbitrary byte (also the end), '*' for a digit.
 */
#include "vf.h"
#include <string.h>

#include <arm/api.h>
#include <arm/linux/api.h>
#include <cpuinfo.h>

#define V(x) cpuinfo_arm_chipset_vendor_##x
#define S(x) cpuinfo_arm_chipset_series_##x

#define LENGTH ((uint32_t)sizeof(TEMPLATE) - 1)

static char hw[CPUINFO_HARDWARE_VALUE_MAX];
static char revision[CPUINFO_REVISION_VALUE_MAX];
static uint32_t n;
static struct cpuinfo_arm_chipset want;
static bool open_result; /* outside the documented patterns: only safety is required */

static char lower(char c) {
	return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
}

static char upper(char c) {
	return c >= 'a' && c <= 'z' ? (char)(c - 32) : c;
}

static bool letter(char c) {
	return lower(c) >= 'a' && lower(c) <= 'z';
}

static bool digit(char c) {
	return c >= '0' && c <= '9';
}

static char at(uint32_t i) {
	return i < LENGTH && i < n ? hw[i] : '\0';
}

/* text (given in lower case when case is ignored) at position i */
static bool text(uint32_t i, const char* t, bool ignore_case) {
	for (uint32_t k = 0; t[k] != '\0'; k++) {
		const char c = at(i + k);
		if ((ignore_case ? lower(c) : c) != t[k]) {
			return false;
		}
	}
	return true;
}

static bool number(uint32_t i, uint32_t digits) {
	uint32_t v = 0;
	for (uint32_t k = 0; k < digits; k++) {
		if (!digit(at(i + k))) {
			return false;
		}
		v = v * 10 + (uint32_t)(at(i + k) - '0');
	}
	want.model = v;
	return true;
}

static bool is(enum cpuinfo_arm_chipset_vendor vendor, enum cpuinfo_arm_chipset_series series) {
	want.vendor = vendor;
	want.series = series;
	return true;
}

/* Copies the longest run of letters and 'extra' at i, upper case; returns its length */
static uint32_t suffix(uint32_t i, char extra) {
	uint32_t k = 0;
	for (uint32_t j = 0; j < LENGTH; j++) {
		if (j == k && (letter(at(i + j)) || (extra != '\0' && at(i + j) == extra))) {
			if (j < CPUINFO_ARM_CHIPSET_SUFFIX_MAX) {
				want.suffix[j] = upper(at(i + j));
			}
			k++;
		}
	}
	return k;
}

static void no_suffix(void) {
	for (uint32_t j = 0; j < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; j++) {
		want.suffix[j] = '\0';
	}
}

/* Patterns that may follow other words */
static bool word(uint32_t i) {
	if (text(i, "msm", true) || text(i, "apq", true)) {
		const uint32_t p = i + 3 + (at(i + 3) == ' ');
		if (number(p, 4)) {
			suffix(p + 4, '-');
			return is(V(qualcomm), lower(at(i)) == 'm' ? S(qualcomm_msm) : S(qualcomm_apq));
		}
	}
	if (text(i, "SDM", false) && n == i + 6 && number(i + 3, 3)) {
		return is(V(qualcomm), S(qualcomm_snapdragon));
	}
	if (text(i, "SM", false) && n == i + 6 && number(i + 2, 4)) {
		return is(V(qualcomm), S(qualcomm_snapdragon));
	}
	if (text(i, "mt", true)) {
		const uint32_t p = i + 2 + (lower(at(i + 2)) == 'k');
		if (number(p, 4)) {
			const uint32_t k = suffix(p + 4, '/');
			if (p + 4 + k == n && k <= CPUINFO_ARM_CHIPSET_SUFFIX_MAX) {
				return is(V(mediatek), S(mediatek_mt));
			}
			no_suffix();
		}
	}
	if ((at(i) == 'k' || at(i) == 'K') && text(i + 1, "irin", false)) {
		const char c = at(i + 5);
		const uint32_t p = i + 5 + (c == ' ' || c == '\t' || c == '\r' || c == '\n');
		if (n == p + 3 && number(p, 3)) {
			return is(V(hisilicon), S(hisilicon_kirin));
		}
	}
	if (text(i, "rk", true) && number(i + 2, 4) && (n == i + 6 || (n == i + 7 && letter(at(i + 6))))) {
		suffix(i + 6, '\0');
		return is(V(rockchip), S(rockchip_rk));
	}
	return false;
}

static bool special(const char* t, enum cpuinfo_arm_chipset_vendor vendor, enum cpuinfo_arm_chipset_series series, uint32_t model, char c) {
	uint32_t k = 0;
	while (t[k] != '\0') {
		k++;
	}
	if (n != k || !text(0, t, false)) {
		return false;
	}
	want.model = model;
	want.suffix[0] = c;
	return is(vendor, series);
}

static bool allwinner(uint32_t platform, uint32_t cores) {
	want.model = 0;
#if CPUINFO_ARCH_ARM
	static const struct {
		uint8_t platform, cores, model;
		char suffix;
	} map[] = {
		{4, 1, 10, 0}, {5, 1, 13, 0}, {6, 4, 31, 0}, {7, 2, 20, 0}, {8, 2, 23, 0}, {8, 4, 33, 0}, {8, 8, 83, 'T'}, {9, 8, 80, 0},
	};
	for (uint32_t k = 0; k < sizeof(map) / sizeof(map[0]); k++) {
		if (platform == map[k].platform && cores == map[k].cores) {
			want.model = map[k].model;
			want.suffix[0] = map[k].suffix;
		}
	}
#endif
	if (platform == 50 && cores == 4) {
		want.model = 64;
	}
	return is(V(allwinner), S(allwinner_a));
}

/* Patterns for the whole string */
static bool whole(uint32_t cores, uint32_t frequency) {
	if (at(0) == 'S' && text(1, "amsung ", true) && at(8) == 'E' && text(9, "xynos", true)) {
		const uint32_t p = 14 + (at(14) == ' ');
		/* some devices report a carriage return at the end */
		if ((n == p + 4 || n == 19) && number(p, 4)) {
			open_result = n != p + 4 && at(18) != '\r';
			return is(V(samsung), S(samsung_exynos));
		}
	}
	if (text(0, "universal", true) && n == 13 && number(9, 4)) {
		return is(V(samsung), S(samsung_exynos));
	}
#if CPUINFO_ARCH_ARM
	if (text(0, "smdk", true) && n == 8) {
		want.model = text(4, "4210", false) ? 4210 : 0;
		if (text(4, "4x12", false)) {
			want.model = cores == 2 ? 4212 : cores == 4 ? 4412 : 0;
		}
		if (want.model != 0) {
			return is(V(samsung), S(samsung_exynos));
		}
	}
#endif
	if (text(0, "sc", true) || text(0, "sp", true)) {
		if (lower(at(2)) == 'x' && text(3, "15", false) && n == 5) {
			open_result = lower(at(1)) == 'p';
			want.model = 7715;
			return is(V(spreadtrum), S(spreadtrum_sc));
		}
		if (number(2, 4)) {
			const uint32_t k = suffix(6, '\0');
			if (n == 6 + k || k >= CPUINFO_ARM_CHIPSET_SUFFIX_MAX) {
				open_result = n != 6 + k;
				return is(V(spreadtrum), S(spreadtrum_sc));
			}
			no_suffix();
		}
	}
	if (text(0, "Unisoc T", false) && ((n == 11 && number(8, 3)) || (n == 12 && number(8, 4)))) {
		return is(V(unisoc), S(unisoc_t));
	}
	if (text(0, "Unisoc UMS", false) && ((n == 13 && number(10, 3)) || (n == 14 && number(10, 4)))) {
		return is(V(unisoc), S(unisoc_ums));
	}
#if CPUINFO_ARCH_ARM
	if (text(0, "PXA", false)) {
		if (n == 7 && text(3, "1L88", false)) {
			want.model = 1088;
			return is(V(marvell), S(marvell_pxa));
		}
		if ((n == 6 && number(3, 3)) || (n == 7 && number(3, 4))) {
			return is(V(marvell), S(marvell_pxa));
		}
	}
#endif
	if (text(0, "sun", false) && digit(at(3))) {
		if (at(4) == 'i') {
			return allwinner((uint32_t)(at(3) - '0'), cores);
		}
		if (digit(at(4)) && at(5) == 'i') {
			return allwinner((uint32_t)(at(3) - '0') * 10 + (uint32_t)(at(4) - '0'), cores);
		}
	}
	if (text(0, "BCM", false) && n == 7 && number(3, 4)) {
		return is(V(broadcom), S(broadcom_bcm));
	}
#if CPUINFO_ARCH_ARM
	if (text(0, "OMAP", false) && n == 8 && number(4, 4)) {
		return is(V(texas_instruments), S(texas_instruments_omap));
	}
	if (text(0, "WMT", false) && n == 3) {
		want.model = cores == 1 && frequency == 1008000 ? 8950
			: cores == 1 && frequency == 1200000	? 8850
			: cores == 2 && frequency == 1500000	? 8880
								: 0;
		return is(V(wondermedia), S(wondermedia_wm));
	}
#endif
	if (text(0, "tcc", false) && n == 7 && at(6) == 'x' && number(3, 3)) {
		want.suffix[0] = 'X';
		return is(V(telechips), S(telechips_tcc));
	}
	return special("hi6250", V(hisilicon), S(hisilicon_kirin), 650, 0) ||
		special("hi6210sft", V(hisilicon), S(hisilicon_kirin), 620, 0) || special("hi3751", V(hisilicon), S(hisilicon_hi), 3751, 0) ||
		special("hi3635", V(hisilicon), S(hisilicon_kirin), 930, 0)
#if CPUINFO_ARCH_ARM
		|| special("k3v2oem1", V(hisilicon), S(hisilicon_k3v), 2, 0) ||
		special("hi6620oem", V(hisilicon), S(hisilicon_kirin), 910, 'T') || special("hi3630", V(hisilicon), S(hisilicon_kirin), 920, 0) ||
		special("gs702a", V(actions), S(actions_atm), 7029, 0) || special("gs702c", V(actions), S(actions_atm), 7029, 'B') ||
		special("gs703d", V(actions), S(actions_atm), 7039, 'S') || special("gs705a", V(actions), S(actions_atm), 7059, 'A') ||
		special("Amlogic Meson8", V(amlogic), S(amlogic_s), 812, 0) || special("Amlogic Meson8B", V(amlogic), S(amlogic_s), 805, 0) ||
		special("mapphone_CDMA", V(texas_instruments), S(texas_instruments_omap), 4430, 0) ||
		special("Superior", V(texas_instruments), S(texas_instruments_omap), 4470, 0) ||
		special("Tuna", V(texas_instruments), S(texas_instruments_omap), 4460, 0) ||
		special("Manta", V(samsung), S(samsung_exynos), 5250, 0) || special("Odin", V(lg), S(lg_nuclun), 7111, 0) ||
		special("Madison", V(mstar), S(mstar_6a), 338, 0)
#endif
		;
}

static bool suffix_is(const char* t) {
	for (uint32_t k = 0; k < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; k++) {
		if (want.suffix[k] != t[k]) {
			return false;
		}
		if (t[k] == '\0') {
			return true;
		}
	}
	return true;
}

static void by_cores(uint32_t cores, uint32_t same, uint32_t other, uint32_t model) {
	if (cores != same) {
		want.model = cores == other ? model : 0;
	}
}

/* Known misreports */
static void correct(uint32_t cores, uint32_t frequency) {
	switch ((int)want.series) {
		case S(qualcomm_msm):
			if (want.suffix[0] == '\0') {
				switch (want.model) {
					case 8216:
						want.model = 8916;
						break;
					case 8916:
						by_cores(cores, 4, 8, 8939);
						break;
					case 8937:
						by_cores(cores, 8, 4, 8917);
						break;
					case 8960:
						by_cores(cores, 2, 4, 8064);
						if (want.model == 8064) {
							want.series = S(qualcomm_apq);
						}
						break;
					case 8996:
						by_cores(cores, 4, 8, 8994);
						break;
#if CPUINFO_ARCH_ARM
					case 8610:
						by_cores(cores, 2, 4, 8612);
						break;
#endif
				}
			} else if (suffix_is("MSM")) {
				no_suffix();
			} else if (want.model == 8976 && suffix_is("SG")) {
				want.suffix[0] = 'P';
				want.suffix[1] = 'R';
				want.suffix[2] = 'O';
			} else if (want.model == 8996 && suffix_is("PRO")) {
				want.suffix[3] = '-';
				want.suffix[4] = 'A';
				want.suffix[5] = frequency >= 2188800 ? 'C' : 'B';
			}
			break;
		case S(qualcomm_apq):
			if (suffix_is("APQ")) {
				no_suffix();
			}
			break;
		case S(samsung_exynos):
			if (want.model == 7580) {
				by_cores(cores, 8, 4, 7578);
			}
#if CPUINFO_ARCH_ARM
			else if (want.model == 4410) {
				want.model = 4412;
			} else if (want.model == 5420) {
				by_cores(cores, 4, 6, 5260);
			}
#endif
			break;
		case S(mediatek_mt):
			if (want.model == 6752) {
				by_cores(cores, 8, 4, 6732);
			}
			if (suffix_is("TURBO") || suffix_is("TRUBO")) {
				no_suffix();
				want.suffix[0] = 'T';
			}
			break;
		case S(rockchip_rk):
			if (want.model == 3288) {
				by_cores(cores, 4, 6, 3399);
			}
			break;
	}
}

#ifdef BOARD
/* Raspberry Pi: the revision code names the processor */
static void board(void) {
	uint32_t length = 0;
	while (length < CPUINFO_REVISION_VALUE_MAX && revision[length] != '\0') {
		length++;
	}
#if CPUINFO_ARCH_ARM
	if (length == 4 && want.model == 2708) {
		want.model = 2835;
	}
#endif
	if (length >= 5 && length <= 8) {
		const char c = revision[length - 4];
		want.model = c == '0' ? 2835 : c == '1' ? 2836 : c == '2' ? 2837 : c == '3' ? 2711 : want.model;
	}
}
#endif

int main(void) {
	bool ended = false;
	for (uint32_t i = 0; i < LENGTH; i++) {
		const char t = TEMPLATE[i];
		char c = t;
		if (t == '?') {
			c = (char)nd_u8();
		} else if (t == '*') {
			c = (char)('0' + (nd_u8() & 15));
			vf_assume(c <= '9');
		}
		ended = ended || c == '\0';
		hw[i] = ended ? '\0' : c;
		n += !ended;
	}
#ifdef BOARD
	for (uint32_t i = 0; i < CPUINFO_REVISION_VALUE_MAX; i++) {
		revision[i] = (char)nd_u8();
	}
#endif
	const uint32_t cores = nd_u32();
	const uint32_t frequency = nd_u32();

	bool found = false, start = true;
	for (uint32_t i = 0; i < LENGTH; i++) {
		if (i < n && !found) {
			if (at(i) == ' ' || at(i) == '\t' || at(i) == ',') {
				start = true;
			} else {
				found = start && word(i);
				start = false;
			}
		}
	}
	found = found || whole(cores, frequency);
	if (!found) {
		want.vendor = V(unknown);
		want.series = S(unknown);
		want.model = 0;
		no_suffix();
	} else if (want.vendor == V(broadcom)) {
#ifdef BOARD
		board();
#endif
	} else {
		correct(cores, frequency);
	}

	const struct cpuinfo_arm_chipset got = cpuinfo_arm_linux_decode_chipset(hw, revision, cores, frequency);
	if (!open_result) {
		vf_assert(got.vendor == want.vendor, "the vendor the string names");
		vf_assert(got.series == want.series, "the series the string names");
		if (found) {
			vf_assert(got.model == want.model, "the model the string names");
			bool end = false;
			for (uint32_t i = 0; i < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; i++) {
				vf_assert(end || got.suffix[i] == want.suffix[i], "the suffix the string names");
				end = end || want.suffix[i] == '\0';
			}
		}
	}
	if (found) {
		vf_witness("recognised");
	} else {
		vf_witness("not recognised");
	}
	return 0;
}
