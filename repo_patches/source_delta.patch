From 4ff1ddc7605f4ba6f69ea057c6267bec3902cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:07 +0000
Subject: [PATCH 01/36] fix: query CPUID leaf 0x24 only when the processor
 reports it

The AVX10 version was read from leaf 0x24 on every processor with leaf 7.
Leaves above the reported maximum return unrelated data on Intel processors,
so the AVX10.2 flag could be set from garbage.
---
 src/x86/isa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index 222bd23..c6ab41c 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -47,7 +47,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	const struct cpuid_regs structured_feature_info1 =
 		(max_base_index >= 7) ? cpuidex(7, 1) : (struct cpuid_regs){0, 0, 0, 0};
 	const struct cpuid_regs structured_feature_info2 =
-		(max_base_index >= 7) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
+		(max_base_index >= 0x24) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
 
 	const uint32_t processor_capacity_info_index = UINT32_C(0x80000008);
 	const struct cpuid_regs processor_capacity_info = (max_extended_index >= processor_capacity_info_index)
-- 
2.43.0


From 534711672cda097cf38e729dd8040f5405a994c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:07 +0000
Subject: [PATCH 02/36] fix: report VAES and VPCLMULQDQ only with OS support
 for AVX state

Both extensions operate on YMM/ZMM registers and fault when the operating
system did not enable AVX state in XCR0, but their flags ignored XCR0.
---
 src/x86/isa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index c6ab41c..b5b40ab 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -713,7 +713,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VAES instructions:
 	 * - Intel: ecx[bit 9] in structured feature info (ecx = 0).
 	 */
-	isa.vaes = !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
+	isa.vaes = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
 
 	/*
 	 * PCLMULQDQ instruction:
@@ -725,7 +725,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VPCLMULQDQ instruction:
 	 * - Intel: ecx[bit 10] in structured feature info (ecx = 0).
 	 */
-	isa.vpclmulqdq = !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
+	isa.vpclmulqdq = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
 
 	/*
 	 * GFNI instructions:
-- 
2.43.0


From 051e9558248f234d1f2051c3834a7cf0ea77faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:07 +0000
Subject: [PATCH 03/36] fix: report AMX only with OS support for tile state

The AMX flags were gated on the AVX-512 register state instead of the
TILECFG and TILEDATA state in XCR0, so AMX was reported as usable on
operating systems which do not enable it.
---
 src/x86/isa.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index b5b40ab..8b83854 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -54,7 +54,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		? cpuid(processor_capacity_info_index)
 		: (struct cpuid_regs){0, 0, 0, 0};
 
-	bool avx_regs = false, avx512_regs = false, mpx_regs = false;
+	bool avx_regs = false, avx512_regs = false, amx_regs = false, mpx_regs = false;
 	/*
 	 * OSXSAVE: Operating system enabled XSAVE instructions for application
 	 * use:
@@ -103,6 +103,16 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 			avx512_regs = (xfeature_enabled_mask & avx512_regs_mask) == avx512_regs_mask;
 		}
 
+		/*
+		 * AMX registers:
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 17] for TILECFG
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 18] for TILEDATA
+		 */
+		const uint64_t amx_regs_mask = UINT64_C(0x0000000000060000);
+		if ((xcr0_valid_bits & amx_regs_mask) == amx_regs_mask) {
+			amx_regs = (xfeature_enabled_mask & amx_regs_mask) == amx_regs_mask;
+		}
+
 		/*
 		 * MPX registers:
 		 * - Intel: XFEATURE_ENABLED_MASK[bit 3] for BNDREGS
@@ -555,25 +565,25 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * AMX_BF16 instructions:
 	 * - Intel: edx[bit 22] in structured feature info (ecx = 0).
 	 */
-	isa.amx_bf16 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
+	isa.amx_bf16 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
 
 	/*
 	 * AMX_TILE instructions:
 	 * - Intel: edx[bit 24] in structured feature info (ecx = 0).
 	 */
-	isa.amx_tile = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
+	isa.amx_tile = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
 
 	/*
 	 * AMX_INT8 instructions:
 	 * - Intel: edx[bit 25] in structured feature info (ecx = 0).
 	 */
-	isa.amx_int8 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
+	isa.amx_int8 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
 
 	/*
 	 * AMX_FP16 instructions:
 	 * - Intel: eax[bit 21] in structured feature info (ecx = 1).
 	 */
-	isa.amx_fp16 = avx512_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
+	isa.amx_fp16 = amx_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
 
 	/*
 	 * AVX_VNNI_INT8 instructions:
-- 
2.43.0


From b7ff408118795cdbd07d3810f31e6279f2b73a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:32 +0000
Subject: [PATCH 04/36] fix: recognise Sapphire Rapids and Emerald Rapids
 processors

The microarchitecture of family 6 models 0x8F and 0xCF was reported as
unknown, so init-test fails on these machines.
---
 include/cpuinfo.h | 3 +++
 src/x86/uarch.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cpuinfo.h b/include/cpuinfo.h
index 5f93819..3f537a4 100644
--- a/include/cpuinfo.h
+++ b/include/cpuinfo.h
@@ -353,6 +353,9 @@ enum cpuinfo_uarch {
 	cpuinfo_uarch_palm_cove = 0x0010020B,
 	/** Intel Sunny Cove microarchitecture (10 nm, Ice Lake). */
 	cpuinfo_uarch_sunny_cove = 0x0010020C,
+	/** Intel Golden Cove microarchitecture (Sapphire Rapids, Emerald
+	   Rapids). */
+	cpuinfo_uarch_golden_cove = 0x0010020D,
 
 	/** Pentium 4 with Willamette, Northwood, or Foster cores. */
 	cpuinfo_uarch_willamette = 0x00100300,
diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index a21eabb..f03ff62 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -167,6 +167,9 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 						case 0x7D: // Ice Lake-Y
 						case 0x7E: // Ice Lake-U
 							return cpuinfo_uarch_sunny_cove;
+						case 0x8F: // Sapphire Rapids
+						case 0xCF: // Emerald Rapids
+							return cpuinfo_uarch_golden_cove;
 
 						/* Low-power cores */
 						case 0x1C: // Diamondville,
-- 
2.43.0


From e67e96c1f2390f93ac3e64b9330144e12eccae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:17 +0000
Subject: [PATCH 05/36] fix: treat CPUID leaf 0xB shifts as cumulative

The shift reported for the core level already includes the SMT bits.
Using it as the length of the core field made the field too wide, and
merged packages on multi-socket systems with SMT.
---
 src/x86/topology.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 5253089..028f9d3 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -131,8 +131,10 @@ void cpuinfo_x86_detect_topology(
 						apic_id,
 						level_shift,
 						total_shift);
+					/* Shift covers all bits below this level */
 					topology->core_bits_offset = total_shift;
-					topology->core_bits_length = level_shift;
+					topology->core_bits_length =
+						level_shift > total_shift ? level_shift - total_shift : 0;
 					break;
 				default:
 					cpuinfo_log_warning(
@@ -145,7 +147,7 @@ void cpuinfo_x86_detect_topology(
 						level_shift);
 					break;
 			}
-			total_shift += level_shift;
+			total_shift = level_shift;
 			level += 1;
 		} while (type != 0);
 		cpuinfo_log_debug(
-- 
2.43.0


From 641b973ca9916e7e2fd419e24970c13939e95043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:17 +0000
Subject: [PATCH 06/36] fix: avoid negative thread field when leaf 4 reports
 more cores than leaf 1

Hypervisors may present fewer addressable logical processors in leaf 1
than cores in leaf 4. The length of the thread field then wrapped around
and was used as a shift count.
---
 src/x86/topology.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 028f9d3..7313172 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -78,10 +78,12 @@ void cpuinfo_x86_detect_topology(
 			const uint32_t logical_processors = (leaf1.ebx >> 16) & UINT32_C(0x000000FF);
 			if (logical_processors != 0) {
 				const uint32_t log2_max_logical_processors = bit_length(logical_processors);
-				const uint32_t log2_max_threads_per_core =
-					log2_max_logical_processors - topology->core_bits_length;
-				topology->core_bits_offset = log2_max_threads_per_core;
-				topology->thread_bits_length = log2_max_threads_per_core;
+				if (log2_max_logical_processors >= topology->core_bits_length) {
+					const uint32_t log2_max_threads_per_core =
+						log2_max_logical_processors - topology->core_bits_length;
+					topology->core_bits_offset = log2_max_threads_per_core;
+					topology->thread_bits_length = log2_max_threads_per_core;
+				}
 			}
 			cpuinfo_log_debug(
 				"HTT: APIC ID = %08" PRIx32 ", logical processors = %" PRIu32,
-- 
2.43.0


From c31de43cbad16e5b43f01db10ffd800c95994d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:17 +0000
Subject: [PATCH 07/36] fix: fall back to legacy topology when leaf 0xB is
 empty

With x2APIC announced but an empty leaf 0xB, the topology derived from
leaves 1 and 4 was discarded and every logical processor became its own
package.
---
 src/x86/topology.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 7313172..422184a 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -97,7 +97,9 @@ void cpuinfo_x86_detect_topology(
 	 * - Intel: ecx[bit 21] in basic info (reserved bit on AMD CPUs).
 	 */
 	const bool x2apic = !!(leaf1.ecx & UINT32_C(0x00200000));
-	if (x2apic && (max_base_index >= UINT32_C(0xB))) {
+	/* Leaf 0xB exists only if its first level is of a valid type */
+	if (x2apic && (max_base_index >= UINT32_C(0xB)) &&
+	    (cpuidex(UINT32_C(0xB), 0).ecx & UINT32_C(0x0000FF00)) != 0) {
 		uint32_t level = 0;
 		uint32_t type;
 		uint32_t total_shift = 0;
-- 
2.43.0


From e9d3eeea47b39bf4f4a5196948acf96c39b53ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:25 +0000
Subject: [PATCH 08/36] fix: correct L3 size of cache descriptor 0xD2

The size was computed with 2014 instead of 1024.
---
 src/x86/cache/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 93d855a..06cd20e 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1593,7 +1593,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * size"
 			 */
 			cache->l3 = (struct cpuinfo_x86_cache){
-				.size = 2 * 1024 * 2014,
+				.size = 2 * 1024 * 1024,
 				.associativity = 4,
 				.sets = 8192,
 				.partitions = 1,
-- 
2.43.0


From e76f01296036b500bbc12d8e9c105df62da0d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:25 +0000
Subject: [PATCH 09/36] fix: correct associativity of cache descriptor 0x82

The descriptor stands for a 256 KB 8-way L2 cache with 32-byte lines.
---
 src/x86/cache/descriptor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 06cd20e..9caa7f4 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1255,8 +1255,8 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 */
 			cache->l2 = (struct cpuinfo_x86_cache){
 				.size = 256 * 1024,
-				.associativity = 4,
-				.sets = 2048,
+				.associativity = 8,
+				.sets = 1024,
 				.partitions = 1,
 				.line_size = 32,
 				.flags = CPUINFO_CACHE_INCLUSIVE,
-- 
2.43.0


From 75fa37b96d5efd435edc6fbd2ee288c0183250c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:25 +0000
Subject: [PATCH 10/36] fix: store data TLB descriptors 0xBA and 0xC0 as data
 TLBs

They overwrote the description of the instruction TLB.
---
 src/x86/cache/descriptor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 9caa7f4..bf227dc 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1462,7 +1462,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * entries" Application Note 485: "Data TLB: 4-KB Pages,
 			 * 4-way set associative, 64 entries"
 			 */
-			*itlb_4KB = (struct cpuinfo_tlb){
+			*dtlb_4KB = (struct cpuinfo_tlb){
 				.entries = 64,
 				.associativity = 4,
 				.pages = CPUINFO_PAGE_SIZE_4KB,
@@ -1476,7 +1476,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * TLB: 4-KB or 4-MB Pages, 4-way set associative, 8
 			 * entries"
 			 */
-			*itlb_4KB = *itlb_4MB = (struct cpuinfo_tlb){
+			*dtlb_4KB = *dtlb_4MB = (struct cpuinfo_tlb){
 				.entries = 8,
 				.associativity = 4,
 				.pages = CPUINFO_PAGE_SIZE_4KB | CPUINFO_PAGE_SIZE_4MB,
-- 
2.43.0


From f23c052374e5aee05c0a4ad6eae8631b63760a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:44 +0000
Subject: [PATCH 11/36] fix: ignore cache descriptors in registers marked
 invalid

Bit 31 of each register returned by CPUID leaf 2 tells that the register
holds no valid descriptors.
---
 src/x86/cache/init.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/cache/init.c b/src/x86/cache/init.c
index 34af90e..fff7df4 100644
--- a/src/x86/cache/init.c
+++ b/src/x86/cache/init.c
@@ -47,7 +47,9 @@ void cpuinfo_x86_detect_cache(
 		iterate_descriptors:
 			for (uint32_t i = 1 /* note: not 0 */; i < 16; i++) {
 				const uint8_t descriptor = descriptors.as_bytes[i];
-				if (descriptor != 0) {
+				/* Bit 31 of a register is set if it holds no valid descriptors */
+				const bool valid = (descriptors.as_bytes[i | 3] & UINT8_C(0x80)) == 0;
+				if (valid && descriptor != 0) {
 					cpuinfo_x86_decode_cache_descriptor(
 						descriptor,
 						vendor,
-- 
2.43.0


From 08a1fdaf774b04a904317bf67f47a6f7dae48645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:05 +0000
Subject: [PATCH 12/36] fix: identify Hygon Dhyana by its family number

Hygon Dhyana reports base family 0xF and extended family 0x9, i.e. family
0x18. The decoder tested for family 0, which no processor reports.
---
 src/x86/uarch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index f03ff62..96a0bcb 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -396,7 +396,7 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 			break;
 		case cpuinfo_vendor_hygon:
 			switch (model_info->family) {
-				case 0x00:
+				case 0x18:
 					return cpuinfo_uarch_dhyana;
 			}
 			break;
-- 
2.43.0


From e70be8bf16c19afe63dd02a17cc5141144398afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:39 +0000
Subject: [PATCH 13/36] fix: do not read ':' as a digit of a processor number

The digit test in the /proc/cpuinfo parsers let the value 10 pass, so a colon
after the number was folded into it.
---
 src/arm/linux/cpuinfo.c | 2 +-
 src/x86/linux/cpuinfo.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 081d9aa..e915a8a 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -26,7 +26,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index 8f038b0..f5c42a2 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -25,7 +25,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
-- 
2.43.0


From 92bfbbf3a7129e6745a3800b96b82cadd9dcd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:51 +0000
Subject: [PATCH 14/36] fix: publish only x86 processors listed in
 /proc/cpuinfo

A processor that is present but offline has no entry in /proc/cpuinfo and
hence no APIC ID. It was published with APIC ID 0, as one more thread of
the first core.
---
 src/x86/linux/init.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index d2b2d47..f8b5b38 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -167,13 +167,12 @@ void cpuinfo_x86_linux_init(void) {
 	const uint32_t max_present_processors_count = 1 + cpuinfo_linux_get_max_present_processor(max_processors_count);
 	cpuinfo_log_debug("maximum present processors count: %" PRIu32, max_present_processors_count);
 
-	uint32_t valid_processor_mask = 0;
+	/* The APIC ID is known only for processors in /proc/cpuinfo */
+	uint32_t valid_processor_mask = CPUINFO_LINUX_FLAG_PROC_CPUINFO;
 	uint32_t x86_linux_processors_count = max_processors_count;
 	if (max_present_processors_count != 0) {
 		x86_linux_processors_count = min(x86_linux_processors_count, max_present_processors_count);
-		valid_processor_mask = CPUINFO_LINUX_FLAG_PRESENT;
-	} else {
-		valid_processor_mask = CPUINFO_LINUX_FLAG_PROC_CPUINFO;
+		valid_processor_mask |= CPUINFO_LINUX_FLAG_PRESENT;
 	}
 	if (max_possible_processors_count != 0) {
 		x86_linux_processors_count = min(x86_linux_processors_count, max_possible_processors_count);
-- 
2.43.0


From 43405f6f639a7a6cc9db8b5c2a8bd93714bdb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:51 +0000
Subject: [PATCH 15/36] fix: keep the threads of an x86 core in one cluster

Processors which do not report how their caches are shared got one cluster
per thread, so a core's threads belonged to different clusters and some
clusters had no cores.
---
 src/x86/linux/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index f8b5b38..b8a2406 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -61,7 +61,7 @@ static void cpuinfo_x86_count_objects(
 		~(bit_mask(processor->topology.thread_bits_length) << processor->topology.thread_bits_offset);
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(processor->topology.core_bits_length) << processor->topology.core_bits_offset);
-	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
+	const uint32_t llc_apic_mask = core_apic_mask & ~bit_mask(llc_apic_bits);
 	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
 
 	uint32_t cores_count = 0, clusters_count = 0, packages_count = 0;
@@ -379,7 +379,7 @@ void cpuinfo_x86_linux_init(void) {
 		~(bit_mask(x86_processor.topology.thread_bits_length) << x86_processor.topology.thread_bits_offset);
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(x86_processor.topology.core_bits_length) << x86_processor.topology.core_bits_offset);
-	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
+	const uint32_t llc_apic_mask = core_apic_mask & ~bit_mask(llc_apic_bits);
 	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
 
 	uint32_t processor_index = UINT32_MAX, core_index = UINT32_MAX, cluster_index = UINT32_MAX,
-- 
2.43.0


From 8a9955a0d867ae9cb5bdea0ea175af1c39deb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:51 +0000
Subject: [PATCH 16/36] fix: release x86 processor list when /proc/cpuinfo is
 unreadable

---
 src/x86/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index b8a2406..80b161f 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -206,7 +206,7 @@ void cpuinfo_x86_linux_init(void) {
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
-- 
2.43.0


From a617b28010089a77460816d028439943372776a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:51 +0000
Subject: [PATCH 17/36] fix: fail x86 initialization when no processor is
 usable

With no usable processor the first element of an empty array was read.
---
 src/x86/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 80b161f..0a525ba 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -229,6 +229,11 @@ void cpuinfo_x86_linux_init(void) {
 		}
 	}
 
+	if (processors_count == 0) {
+		cpuinfo_log_error("failed to detect usable logical processors");
+		goto cleanup;
+	}
+
 	qsort(x86_linux_processors,
 	      x86_linux_processors_count,
 	      sizeof(struct cpuinfo_x86_linux_processor),
-- 
2.43.0


From 644dd9ac13f7d0639cd40ae4ec220d24cc42292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:42 +0000
Subject: [PATCH 18/36] fix: keep RISC-V processors grouped when sorting them

Processors of one microarchitecture compared equal, so qsort could leave
them in any order. Cores, clusters and packages are then assembled from
consecutive processors, which requires every group to be contiguous and
to begin with its leader.
---
 src/riscv/linux/init.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 9ab3d6e..05d068d 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -18,8 +18,26 @@ static int compare_riscv_linux_processors(const void* a, const void* b) {
 	 * For our purposes, it is only relevant that the list is sorted by
 	 * micro-architecture, so the nature of ordering is irrelevant.
 	 */
-	return ((const struct cpuinfo_riscv_linux_processor*)a)->core.uarch -
-		((const struct cpuinfo_riscv_linux_processor*)b)->core.uarch;
+	const struct cpuinfo_riscv_linux_processor* processor_a = (const struct cpuinfo_riscv_linux_processor*)a;
+	const struct cpuinfo_riscv_linux_processor* processor_b = (const struct cpuinfo_riscv_linux_processor*)b;
+	if (processor_a->core.uarch != processor_b->core.uarch) {
+		return processor_a->core.uarch < processor_b->core.uarch ? -1 : 1;
+	}
+
+	/**
+	 * Within a micro-architecture, keep packages, clusters and cores
+	 * contiguous, and their leaders first.
+	 */
+	if (processor_a->package_leader_id != processor_b->package_leader_id) {
+		return processor_a->package_leader_id < processor_b->package_leader_id ? -1 : 1;
+	}
+	if (processor_a->cluster_leader_id != processor_b->cluster_leader_id) {
+		return processor_a->cluster_leader_id < processor_b->cluster_leader_id ? -1 : 1;
+	}
+	if (processor_a->core_leader_id != processor_b->core_leader_id) {
+		return processor_a->core_leader_id < processor_b->core_leader_id ? -1 : 1;
+	}
+	return processor_a->processor.linux_id - processor_b->processor.linux_id;
 }
 
 /**
-- 
2.43.0


From 27f3df56a5f14e31114de28e085f205e763dfe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:42 +0000
Subject: [PATCH 19/36] fix: publish array indices in RISC-V cores, clusters
 and packages

The starts of processor, core and cluster ranges were Linux processor IDs.
They differ from indices in the published arrays if a core has several
threads, a package has clusters of several cores, or the IDs have gaps.
---
 src/riscv/linux/init.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 05d068d..53e1843 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -560,6 +560,7 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&cores[valid_cores_index++],
 			       &riscv_linux_processors[processor].core,
 			       sizeof(struct cpuinfo_core));
+			cores[valid_cores_index - 1].processor_start = valid_processors_index - 1;
 			/* Update uarch core count. */
 			uarchs[valid_uarchs_index - 1].core_count++;
 		}
@@ -569,6 +570,8 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&clusters[valid_clusters_index++],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
+			clusters[valid_clusters_index - 1].processor_start = valid_processors_index - 1;
+			clusters[valid_clusters_index - 1].core_start = valid_cores_index - 1;
 		}
 
 		/* Copy cpuinfo_package information, if this is the leader. */
@@ -576,6 +579,9 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&packages[valid_packages_index++],
 			       &riscv_linux_processors[processor].package,
 			       sizeof(struct cpuinfo_package));
+			packages[valid_packages_index - 1].processor_start = valid_processors_index - 1;
+			packages[valid_packages_index - 1].core_start = valid_cores_index - 1;
+			packages[valid_packages_index - 1].cluster_start = valid_clusters_index - 1;
 		}
 
 		/* Commit pointers on the final structures. */
-- 
2.43.0


From 54de27b7205d9942154c2171f4a8bf0edca3f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:27 +0000
Subject: [PATCH 20/36] fix: count every usable ARM processor

Processors in the possible and present lists but not in /proc/cpuinfo were
marked usable, yet left out of the processor count. The arrays sized by that
count then held an arbitrary subset of the usable processors, and the cluster
heuristic ran past its table.

Count every processor marked usable, as the cluster detection expects.
---
 src/arm/linux/init.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1eab69d..835e7c4 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -203,14 +203,9 @@ void cpuinfo_arm_linux_init(void) {
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		arm_linux_processors[i].system_processor_id = i;
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
-				/*
-				 * Processor is in possible and present lists,
-				 * and also reported in /proc/cpuinfo. This
-				 * processor is availble for compute.
-				 */
-				valid_processors += 1;
-			} else {
+			valid_processors += 1;
+
+			if (!(arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {
 				/*
 				 * Processor is in possible and present lists,
 				 * but not reported in /proc/cpuinfo. This is
-- 
2.43.0


From f23c2bace8b8fb093b3ff1d98ac644f9b8196567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:16 +0000
Subject: [PATCH 21/36] fix: recognize Kryo 280 Gold when guessing LITTLE cores

The table is indexed by MIDR without variant and revision, but the entry for
Kryo 280 Gold included both and never matched.
---
 src/arm/midr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/midr.h b/src/arm/midr.h
index 5530d5a..3dd6a28 100644
--- a/src/arm/midr.h
+++ b/src/arm/midr.h
@@ -261,7 +261,7 @@ inline static uint32_t midr_little_core_for_big(uint32_t midr) {
 		case CPUINFO_ARM_MIDR_CORTEX_A17:
 		case CPUINFO_ARM_MIDR_CORTEX_A15:
 			return CPUINFO_ARM_MIDR_CORTEX_A7;
-		case CPUINFO_ARM_MIDR_KRYO280_GOLD:
+		case UINT32_C(0x510F8000): /* Kryo 280 Gold, any variant and revision */
 			return CPUINFO_ARM_MIDR_KRYO280_SILVER;
 		case CPUINFO_ARM_MIDR_KRYO_GOLD:
 			return CPUINFO_ARM_MIDR_KRYO_SILVER_820;
-- 
2.43.0


From ecd7e95b3877f2dab74a41fdd149a1df721d932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:30 +0000
Subject: [PATCH 22/36] fix: compare the first processor of a guessed ARM
 cluster

The heuristic for usual core counts is to be rejected when known frequencies
or MIDR components within a cluster differ. The details of the first processor
of each cluster were not recorded, so it was never compared with the others.
---
 src/arm/linux/clusters.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/clusters.c b/src/arm/linux/clusters.c
index 8dd452a..a75f0a0 100644
--- a/src/arm/linux/clusters.c
+++ b/src/arm/linux/clusters.c
@@ -132,7 +132,12 @@ bool cpuinfo_arm_linux_detect_core_clusters_by_heuristic(
 						return false;
 					}
 				} else {
-					cluster_flags = 0;
+					/* Known details of the first processor
+					 * are those of the cluster */
+					cluster_flags = processors[i].flags;
+					cluster_midr = processors[i].midr;
+					cluster_max_frequency = processors[i].max_frequency;
+					cluster_min_frequency = processors[i].min_frequency;
 				}
 
 				cluster_start = i;
-- 
2.43.0


From 56dd38ea48c34cfcaf73a59c29b637b72088e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:30 +0000
Subject: [PATCH 23/36] fix: keep processor ranges of ARM L1 caches from
 /proc/cpuinfo

Cache parameters parsed from /proc/cpuinfo replaced the whole structure,
including the range of processors set just before.
---
 src/arm/linux/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 835e7c4..456fdcb 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -665,8 +665,6 @@ void cpuinfo_arm_linux_init(void) {
 			&l1d[i],
 			&temp_l2,
 			&temp_l3);
-		l1i[i].processor_start = l1d[i].processor_start = i;
-		l1i[i].processor_count = l1d[i].processor_count = 1;
 #if CPUINFO_ARCH_ARM
 		/* L1I reported in /proc/cpuinfo overrides defaults */
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_ICACHE)) {
@@ -687,6 +685,8 @@ void cpuinfo_arm_linux_init(void) {
 				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length};
 		}
 #endif
+		l1i[i].processor_start = l1d[i].processor_start = i;
+		l1i[i].processor_count = l1d[i].processor_count = 1;
 
 		if (temp_l3.size != 0) {
 			/*
-- 
2.43.0


From 1d1c53dd0f86b769f8cd36e550387dc5883da74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:40 +0000
Subject: [PATCH 24/36] fix: MT6592 has eight cores

The entry describes two clusters of four cores but gave four as their total,
so it never applied.
---
 src/arm/linux/midr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index 10db278..98c3a24 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -443,7 +443,7 @@ static const struct cluster_config
 				 * MediaTek MT6592: 4x Cortex-A7 + 4x Cortex-A7
 				 * Some phones use non-standard /proc/cpuinfo format.
 				 */
-				.cores = 4,
+				.cores = 8,
 				.series = cpuinfo_arm_chipset_series_mediatek_mt,
 				.model = UINT16_C(6592),
 				.clusters = 2,
-- 
2.43.0


From 219bd5cdf8ba302ed3e5551bd3b2f720162d4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:47 +0000
Subject: [PATCH 25/36] fix: give every ARM cluster with an L3 cache its own
 entry

Only L3 sizes different from that of the first cluster were counted, so with
sizes A, A, B, or with a cluster without L3, the last cluster lost its L3.
---
 src/arm/linux/init.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 456fdcb..1fd1016 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -700,13 +700,12 @@ void cpuinfo_arm_linux_init(void) {
 			if (arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id) {
 				if (cluster_id == 0) {
 					big_l3_size = temp_l3.size;
-					l3_count = 1;
 				} else if (temp_l3.size != big_l3_size) {
 					/* If some cores have different L3 size,
 					 * L3 is not shared between all cores */
 					shared_l3 = false;
-					l3_count += 1;
 				}
+				l3_count += 1;
 			}
 		} else {
 			/* If some cores don't have L3 cache, L3 is not shared
@@ -724,6 +723,11 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (shared_l3) {
+		/* The same L3 was counted once per cluster */
+		l3_count = 1;
+	}
+
 	if (l2_count != 0) {
 		l2 = calloc(l2_count, sizeof(struct cpuinfo_cache));
 		if (l2 == NULL) {
-- 
2.43.0


From b02856d033863b4ac479e0f7738b675aa8601ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:50 +0000
Subject: [PATCH 26/36] fix: free ARM processor descriptions when /proc/cpuinfo
 is unreadable

The early return leaked the array allocated just before.
---
 src/arm/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1fd1016..a087d81 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -185,7 +185,7 @@ void cpuinfo_arm_linux_init(void) {
 		    arm_linux_processors_count,
 		    arm_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
-- 
2.43.0


From 4ae00c830a0e802a4c2dfc6116c9c8b1d75c19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:58 +0000
Subject: [PATCH 27/36] fix: fail ARM initialization when no processor is
 usable

With disjoint possible and present lists the library reported success, and
read the first element of an empty processor array.
---
 src/arm/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index a087d81..1779bb9 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -233,6 +233,11 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (valid_processors == 0) {
+		cpuinfo_log_error("failed to detect usable logical processors");
+		goto cleanup;
+	}
+
 #if defined(__ANDROID__)
 	const struct cpuinfo_arm_chipset chipset =
 		cpuinfo_arm_android_decode_chipset(&android_properties, valid_processors, 0);
-- 
2.43.0


From 746f6ee7979d3ae8c8b4e7c7266cd805d863d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:28 +0000
Subject: [PATCH 28/36] fix: do not write past Hardware and Revision of exactly
 the maximum length

A value that fills its buffer completely was terminated one byte past the
end of the buffer. Readers limit themselves to the buffer, so no terminator
is needed there.
---
 src/arm/linux/cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index e915a8a..2aaf9dc 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -879,7 +879,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_HARDWARE_VALUE_MAX);
 					value_length = CPUINFO_HARDWARE_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_HARDWARE_VALUE_MAX) {
 					state->hardware[value_length] = '\0';
 				}
 				memcpy(state->hardware, value_start, value_length);
@@ -894,7 +894,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_REVISION_VALUE_MAX);
 					value_length = CPUINFO_REVISION_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_REVISION_VALUE_MAX) {
 					state->revision[value_length] = '\0';
 				}
 				memcpy(state->revision, value_start, value_length);
-- 
2.43.0


From af94b156c21757aa61921e130b968c4a10651c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:28 +0000
Subject: [PATCH 29/36] fix: treat a missing Revision in /proc/cpuinfo as empty

Without a Revision line the buffer was left uninitialized, and the Broadcom
chipset decoder read it.
---
 src/arm/linux/cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 2aaf9dc..20846ff 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -1011,6 +1011,7 @@ bool cpuinfo_arm_linux_parse_proc_cpuinfo(
 	uint32_t max_processors_count,
 	struct cpuinfo_arm_linux_processor processors[restrict static max_processors_count]) {
 	hardware[0] = '\0';
+	revision[0] = '\0';
 	struct proc_cpuinfo_parser_state state = {
 		.hardware = hardware,
 		.revision = revision,
-- 
2.43.0


From 194accd6bd3406b55537cfd00715fba544a927cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:28 +0000
Subject: [PATCH 30/36] fix: ignore invalid cache parameters in /proc/cpuinfo

Zero values and unsupported line sizes were logged as ignored, but stored
and marked as valid nonetheless.
---
 src/arm/linux/cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 20846ff..0b6dbe4 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -669,6 +669,7 @@ static void parse_cache_number(
 			number_name,
 			(int)(number_end - number_start),
 			number_start);
+		return;
 	}
 
 	/* If the number specifies a cache line size, verify that is a
@@ -686,6 +687,7 @@ static void parse_cache_number(
 					number_name,
 					(int)(number_end - number_start),
 					number_start);
+				return;
 		}
 	}
 
-- 
2.43.0


From 645b65bbb61f491ee8d95ae6d1b8fd77be984a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:37 +0000
Subject: [PATCH 31/36] fix: do not report an upper bound on cache size below
 the assumed caches

Cores without a dedicated case got a fixed bound of 4 MB, which is smaller
than the caches assumed for them, e.g. the 16 MB L2 of ThunderX.
---
 src/arm/cache.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arm/cache.c b/src/arm/cache.c
index 97740c4..46c82fb 100644
--- a/src/arm/cache.c
+++ b/src/arm/cache.c
@@ -1651,6 +1651,7 @@ void cpuinfo_arm_decode_cache(
 }
 
 uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* processor) {
+	uint32_t max_cache_size;
 	/*
 	 * There is no precise way to detect cache size on ARM/ARM64, and cache
 	 * size reported by cpuinfo may underestimate the actual cache size.
@@ -1781,6 +1782,8 @@ uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* proc
 			 *    - 3072KB
 			 *    - 4096KB
 			 */
-			return 4 * 1024 * 1024;
+			/* Caches assumed for other cores may be larger */
+			max_cache_size = cpuinfo_compute_max_cache_size(processor);
+			return max_cache_size > 4 * 1024 * 1024 ? max_cache_size : 4 * 1024 * 1024;
 	}
 }
-- 
2.43.0


From 7e889de80ff4a2b6e56aab8bf7f2f225ebd5b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:54 +0000
Subject: [PATCH 32/36] fix: do not drop the last character of a log message
 that just fits the stack buffer

The message was formatted with room for one character less than the check
that decides whether the stack buffer suffices. clog also copied a truncated
module prefix when the prefix was exactly as long as the buffer.
---
 deps/clog/src/clog.c | 20 ++++++++++----------
 src/log.c            |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 27658f9..1b36f6b 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -79,7 +79,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -94,7 +94,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_FATAL_PREFIX_FORMAT, module);
 			} else {
@@ -157,7 +157,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -172,7 +172,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_ERROR_PREFIX_FORMAT, module);
 			} else {
@@ -235,7 +235,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -250,7 +250,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_WARNING_PREFIX_FORMAT, module);
 			} else {
@@ -313,7 +313,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -328,7 +328,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_INFO_PREFIX_FORMAT, module);
 			} else {
@@ -391,7 +391,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -406,7 +406,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_DEBUG_PREFIX_FORMAT, module);
 			} else {
diff --git a/src/log.c b/src/log.c
index 2f85128..873ab51 100644
--- a/src/log.c
+++ b/src/log.c
@@ -67,7 +67,7 @@ static void cpuinfo_vlog(
 
 	const int format_chars = vsnprintf(
 		&stack_buffer[prefix_length],
-		CPUINFO_LOG_STACK_BUFFER_SIZE - (prefix_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char),
+		CPUINFO_LOG_STACK_BUFFER_SIZE - prefix_length * sizeof(char),
 		format,
 		args);
 	if (format_chars < 0) {
-- 
2.43.0


From 2edc2a6cb5d9f83fae15a338e63506dddaaed28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:54 +0000
Subject: [PATCH 33/36] fix: publish as many cores and L1 caches as were
 described in the Emscripten port

On hosts taken for x86 with two threads per core the counts were the number
of processors, twice the number of array elements.
---
 src/emscripten/init.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emscripten/init.c b/src/emscripten/init.c
index c239324..d9b1413 100644
--- a/src/emscripten/init.c
+++ b/src/emscripten/init.c
@@ -251,8 +251,8 @@ void cpuinfo_emscripten_init(void) {
 	cpuinfo_clusters = clusters;
 	cpuinfo_packages = &static_package;
 
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = processor_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = processor_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = core_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = core_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	if (is_x86) {
 		cpuinfo_cache_count[cpuinfo_cache_level_3] = 1;
@@ -265,7 +265,7 @@ void cpuinfo_emscripten_init(void) {
 	};
 
 	cpuinfo_processors_count = processor_count;
-	cpuinfo_cores_count = processor_count;
+	cpuinfo_cores_count = core_count;
 	cpuinfo_clusters_count = cluster_count;
 	cpuinfo_packages_count = 1;
 
-- 
2.43.0


From e7693086909def1ade6e8f6440c0bf82eecc0254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:54 +0000
Subject: [PATCH 34/36] fix: keep the Mach topology consistent when a query
 fails

A failed query of the thread count left one thread for any number of cores,
which made the number of threads per core zero.
---
 src/mach/topology.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mach/topology.c b/src/mach/topology.c
index 53160ce..78a9b09 100644
--- a/src/mach/topology.c
+++ b/src/mach/topology.c
@@ -28,6 +28,10 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 		cpuinfo_log_error("sysctlbyname(\"hw.logicalcpu_max\") returned invalid value %d", threads);
 		threads = cores;
 	}
+	if (threads < cores) {
+		cpuinfo_log_error("invalid numbers of cores and threads: %d %d", cores, threads);
+		threads = cores;
+	}
 
 	int packages = 1;
 #if !TARGET_OS_IPHONE
@@ -37,6 +41,9 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 	} else if (packages <= 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.packages\") returned invalid value %d", packages);
 		packages = 1;
+	} else if (packages > cores) {
+		cpuinfo_log_error("invalid numbers of packages and cores: %d %d", packages, cores);
+		packages = 1;
 	}
 #endif
 
-- 
2.43.0


From 011e06f586b855cda14646a0712986af540625c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:54 +0000
Subject: [PATCH 35/36] fix: reject FreeBSD thread counts that do not fit 32
 bits

---
 src/freebsd/topology.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/freebsd/topology.c b/src/freebsd/topology.c
index 675a81f..31783e1 100644
--- a/src/freebsd/topology.c
+++ b/src/freebsd/topology.c
@@ -86,6 +86,11 @@ struct cpuinfo_freebsd_topology cpuinfo_freebsd_detect_topology(void) {
 	if (topology.threads_per_core == 0) {
 		goto fail;
 	}
+	if (topology.threads_per_core > UINT32_MAX / topology.cores) {
+		cpuinfo_log_error(
+			"invalid numbers of core and threads per core: %d %d", topology.cores, topology.threads_per_core);
+		goto fail;
+	}
 	cpuinfo_log_debug(
 		"freebsd topology: packages = %d, cores = %d, "
 		"threads_per_core = %d",
-- 
2.43.0


From d1252964e61f461366d13ee2c898063eaec2226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:42:58 +0000
Subject: [PATCH 36/36] fix: do not ignore a character between Kirin and the
 model number

A 9-character hardware string was accepted as a Kirin chipset whatever
its sixth character, so Kirin1970 was reported as Kirin 970. Only
whitespace may stand there.
---
 src/arm/linux/chipset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index c4977c3..65f23e6 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -704,6 +704,8 @@ static bool match_kirin(const char* start, const char* end, struct cpuinfo_arm_c
 		if (length != 9) {
 			return false;
 		}
+	} else if (length != 8) {
+		return false;
 	}
 
 	/* Validate and parse 3-digit model number */
-- 
2.43.0

