/* Chipset names: "Vendor Series<model><suffix>", terminated within the field. */
#include "vf.h"
#include <string.h>

#include <arm/api.h>
#include <arm/linux/api.h>
#include <cpuinfo.h>
#include "mini_format.h"

#define V(x) cpuinfo_arm_chipset_vendor_##x
#define S(x) cpuinfo_arm_chipset_series_##x

static const struct {
	enum cpuinfo_arm_chipset_series series;
	enum cpuinfo_arm_chipset_vendor vendor;
	const char* name;
} known[] = {
	{S(qualcomm_msm), V(qualcomm), "Qualcomm MSM"},
	{S(qualcomm_apq), V(qualcomm), "Qualcomm APQ"},
	{S(qualcomm_snapdragon), V(qualcomm), "Qualcomm Snapdragon "},
	{S(mediatek_mt), V(mediatek), "MediaTek MT"},
	{S(samsung_exynos), V(samsung), "Samsung Exynos "},
	{S(hisilicon_k3v), V(hisilicon), "HiSilicon K3V"},
	{S(hisilicon_hi), V(hisilicon), "HiSilicon Hi"},
	{S(hisilicon_kirin), V(hisilicon), "HiSilicon Kirin "},
	{S(actions_atm), V(actions), "Actions ATM"},
	{S(allwinner_a), V(allwinner), "Allwinner A"},
	{S(amlogic_s), V(amlogic), "Amlogic S"},
	{S(broadcom_bcm), V(broadcom), "Broadcom BCM"},
	{S(lg_nuclun), V(lg), "LG Nuclun "},
	{S(leadcore_lc), V(leadcore), "Leadcore LC"},
	{S(marvell_pxa), V(marvell), "Marvell PXA"},
	{S(mstar_6a), V(mstar), "MStar 6A"},
	{S(nvidia_tegra_t), V(nvidia), "Nvidia Tegra T"},
	{S(nvidia_tegra_ap), V(nvidia), "Nvidia Tegra AP"},
	{S(nvidia_tegra_sl), V(nvidia), "Nvidia Tegra SL"},
	{S(rockchip_rk), V(rockchip), "Rockchip RK"},
	{S(spreadtrum_sc), V(spreadtrum), "Spreadtrum SC"},
	{S(telechips_tcc), V(telechips), "Telechips TCC"},
	{S(texas_instruments_omap), V(texas_instruments), "Texas Instruments OMAP"},
	{S(unisoc_t), V(unisoc), "Unisoc T"},
	{S(unisoc_ums), V(unisoc), "Unisoc UMS"},
	{S(wondermedia_wm), V(wondermedia), "WonderMedia WM"},
};

static struct {
	char name[CPUINFO_ARM_CHIPSET_NAME_MAX];
	char after[2];
} out;

int main(void) {
	struct cpuinfo_arm_chipset c;
	memset(&c, 0, sizeof(c));
	const uint32_t k = nd_range(0, sizeof(known) / sizeof(known[0]));
	const char* name = "Unknown";
	if (k < sizeof(known) / sizeof(known[0])) {
		c.vendor = known[k].vendor;
		c.series = known[k].series;
		c.model = nd_range(0, MODEL_MAX);
		for (uint32_t i = 0; i < SUFFIX; i++) {
			c.suffix[i] = (char)nd_u8();
		}
		name = known[k].name;
	}
	memset(out.name, 0x7F, sizeof(out.name));
	out.after[0] = out.after[1] = 0x55;
	cpuinfo_arm_chipset_to_string(&c, out.name);
	vf_assert(out.after[0] == 0x55 && out.after[1] == 0x55, "nothing behind the name is written");

	uint32_t n = 0;
	for (uint32_t i = 0; i < 24; i++) {
		if (i == n && name[i] != '\0') {
			vf_assert(out.name[i] == name[i], "vendor and series");
			n++;
		}
	}
	if (c.model != 0) {
		const uint32_t digits = 1 + (c.model >= 10) + (c.model >= 100) + (c.model >= 1000) + (c.model >= 10000);
		uint32_t v = 0;
		for (uint32_t i = 0; i < digits; i++, n++) {
			const uint32_t d = (uint32_t)(uint8_t)out.name[n] - '0';
			vf_assert(d < 10, "the model in decimal");
			v = v * 10 + d;
		}
		vf_assert(v == c.model, "the model number");
		for (uint32_t i = 0; i < CPUINFO_ARM_CHIPSET_SUFFIX_MAX && c.suffix[i] != '\0'; i++, n++) {
			vf_assert(out.name[n] == c.suffix[i], "the suffix");
		}
		vf_witness("with model");
	} else {
		vf_witness("without model");
	}
	vf_assert(n < CPUINFO_ARM_CHIPSET_NAME_MAX && out.name[n] == '\0', "the name is terminated");
	return 0;
}
