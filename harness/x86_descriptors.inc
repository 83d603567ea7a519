/* Leaf 2 descriptors as worded by the Intel SDM vol. 2A table 3-12 and Application Note 485. */
	TLB(0x01, itlb_4KB, 32, 4, P4KB) /* Instruction TLB: 4 KByte pages, 4-way set associative, 32 entries */
	TLB(0x02, itlb_4MB, 2, 2, P4MB) /* Instruction TLB: 4 MByte pages, fully associative, 2 entries */
	TLB(0x03, dtlb_4KB, 64, 4, P4KB) /* Data TLB: 4 KByte pages, 4-way set associative, 64 entries */
	TLB(0x04, dtlb_4MB, 8, 4, P4MB) /* Data TLB: 4 MByte pages, 4-way set associative, 8 entries */
	TLB(0x05, dtlb_4MB, 32, 4, P4MB) /* Data TLB1: 4 MByte pages, 4-way set associative, 32 entries */
	CACHE(0x06, L1I, 8192, 4, 32) /* 1st-level instruction cache: 8 KBytes, 4-way set associative, 32 byte line size */
	CACHE(0x08, L1I, 16384, 4, 32) /* 1st-level instruction cache: 16 KBytes, 4-way set associative, 32 byte line size */
	CACHE(0x09, L1I, 32768, 4, 64) /* 1st-level instruction cache: 32KBytes, 4-way set associative, 64 byte line size */
	CACHE(0x0A, L1D, 8192, 2, 32) /* 1st-level data cache: 8 KBytes, 2-way set associative, 32 byte line size */
	TLB(0x0B, itlb_4MB, 4, 4, P4MB) /* Instruction TLB: 4 MByte pages, 4-way set associative, 4 entries */
	CACHE(0x0C, L1D, 16384, 4, 32) /* 1st-level data cache: 16 KBytes, 4-way set associative, 32 byte line size */
	CACHE(0x0D, L1D, 16384, 4, 64) /* 1st-level data cache: 16 KBytes, 4-way set associative, 64 byte line size */
	CACHE(0x0E, L1D, 24576, 6, 64) /* 1st-level data cache: 24 KBytes, 6-way set associative, 64 byte line size */
	CACHE(0x1D, L2, 131072, 2, 64) /* 2nd-level cache: 128 KBytes, 2-way set associative, 64 byte line size */
	CACHE(0x21, L2, 262144, 8, 64) /* 2nd-level cache: 256 KBytes, 8-way set associative, 64 byte line size */
	CACHE(0x22, L3, 524288, 4, 64) /* 3rd-level cache: 512 KBytes, 4-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x23, L3, 1048576, 8, 64) /* 3rd-level cache: 1 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x24, L2, 1048576, 16, 64) /* 2nd-level cache: 1 MBytes, 16-way set associative, 64 byte line size */
	CACHE(0x25, L3, 2097152, 8, 64) /* 3rd-level cache: 2 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x29, L3, 4194304, 8, 64) /* 3rd-level cache: 4 MBytes, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x2C, L1D, 32768, 8, 64) /* 1st-level data cache: 32 KBytes, 8-way set associative, 64 byte line size */
	CACHE(0x30, L1I, 32768, 8, 64) /* 1st-level instruction cache: 32 KBytes, 8-way set associative, 64 byte line size */
	CACHE(0x39, L2, 131072, 4, 64) /* 2nd-level cache: 128 KByte, 4-way set associative, 64 byte line size */
	CACHE(0x3A, L2, 196608, 6, 64) /* 2nd-level cache: 192 KByte, 6-way set associative, 64 byte line size */
	CACHE(0x3B, L2, 131072, 2, 64) /* 2nd-level cache: 128 KByte, 2-way set associative, 64 byte line size */
	CACHE(0x3C, L2, 262144, 4, 64) /* 2nd-level cache: 256 KByte, 4-way set associative, 64 byte line size */
	CACHE(0x3D, L2, 393216, 6, 64) /* 2nd-level cache: 384 KByte, 6-way set associative, 64 byte line size */
	CACHE(0x3E, L2, 524288, 4, 64) /* 2nd-level cache: 512 KByte, 4-way set associative, 64 byte line size */
	/* 0x40: No 2nd-level cache or, if processor contains a valid 2nd-level cache, no 3rd-level cache: see the harness */
	CACHE(0x41, L2, 131072, 4, 32) /* 2nd-level cache: 128 KBytes, 4-way set associative, 32 byte line size */
	CACHE(0x42, L2, 262144, 4, 32) /* 2nd-level cache: 256 KBytes, 4-way set associative, 32 byte line size */
	CACHE(0x43, L2, 524288, 4, 32) /* 2nd-level cache: 512 KBytes, 4-way set associative, 32 byte line size */
	CACHE(0x44, L2, 1048576, 4, 32) /* 2nd-level cache: 1 MByte, 4-way set associative, 32 byte line size */
	CACHE(0x45, L2, 2097152, 4, 32) /* 2nd-level cache: 2 MByte, 4-way set associative, 32 byte line size */
	CACHE(0x46, L3, 4194304, 4, 64) /* 3rd-level cache: 4 MByte, 4-way set associative, 64 byte line size */
	CACHE(0x47, L3, 8388608, 8, 64) /* 3rd-level cache: 8 MByte, 8-way set associative, 64 byte line size */
	CACHE(0x48, L2, 3145728, 12, 64) /* 2nd-level cache: 3MByte, 12-way set associative, 64 byte line size */
	/* 0x49: 3rd-level cache: 4MB, 16-way set associative, 64-byte line size (Intel Xeon processor MP, Family 0FH, Model 06H); 2nd-level cache: 4 MByte, 16-way set associative, 64 byte line size: see the harness */
	CACHE(0x4A, L3, 6291456, 12, 64) /* 3rd-level cache: 6MByte, 12-way set associative, 64 byte line size */
	CACHE(0x4B, L3, 8388608, 16, 64) /* 3rd-level cache: 8MByte, 16-way set associative, 64 byte line size */
	CACHE(0x4C, L3, 12582912, 12, 64) /* 3rd-level cache: 12MByte, 12-way set associative, 64 byte line size */
	CACHE(0x4D, L3, 16777216, 16, 64) /* 3rd-level cache: 16MByte, 16-way set associative, 64 byte line size */
	CACHE(0x4E, L2, 6291456, 24, 64) /* 2nd-level cache: 6MByte, 24-way set associative, 64 byte line size */
	TLB(0x4F, itlb_4KB, 32, 0, P4KB) /* Instruction TLB: 4 KByte pages, 32 entries */
	TLB(0x50, itlb_4KB, 64, 0, P4KB|P2MB|P4MB) /* Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 64 entries */
	TLB(0x50, itlb_2MB, 64, 0, P4KB|P2MB|P4MB)
	TLB(0x50, itlb_4MB, 64, 0, P4KB|P2MB|P4MB)
	TLB(0x51, itlb_4KB, 128, 0, P4KB|P2MB|P4MB) /* Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 128 entries */
	TLB(0x51, itlb_2MB, 128, 0, P4KB|P2MB|P4MB)
	TLB(0x51, itlb_4MB, 128, 0, P4KB|P2MB|P4MB)
	TLB(0x52, itlb_4KB, 256, 0, P4KB|P2MB|P4MB) /* Instruction TLB: 4 KByte and 2-MByte or 4-MByte pages, 256 entries */
	TLB(0x52, itlb_2MB, 256, 0, P4KB|P2MB|P4MB)
	TLB(0x52, itlb_4MB, 256, 0, P4KB|P2MB|P4MB)
	TLB(0x55, itlb_2MB, 7, 7, P2MB|P4MB) /* Instruction TLB: 2-MByte or 4-MByte pages, fully associative, 7 entries */
	TLB(0x55, itlb_4MB, 7, 7, P2MB|P4MB)
	TLB(0x56, dtlb0_4MB, 16, 4, P4MB) /* Data TLB0: 4 MByte pages, 4-way set associative, 16 entries */
	TLB(0x57, dtlb0_4KB, 16, 4, P4KB) /* Data TLB0: 4 KByte pages, 4-way associative, 16 entries */
	TLB(0x59, dtlb0_4KB, 16, 16, P4KB) /* Data TLB0: 4 KByte pages, fully associative, 16 entries */
	TLB(0x5A, dtlb0_2MB, 32, 4, P2MB|P4MB) /* Data TLB0: 2 MByte or 4 MByte pages, 4-way set associative, 32 entries */
	TLB(0x5A, dtlb0_4MB, 32, 4, P2MB|P4MB)
	TLB(0x5B, dtlb_4KB, 64, 0, P4KB|P4MB) /* Data TLB: 4 KByte and 4 MByte pages, 64 entries */
	TLB(0x5B, dtlb_4MB, 64, 0, P4KB|P4MB)
	TLB(0x5C, dtlb_4KB, 128, 0, P4KB|P4MB) /* Data TLB: 4 KByte and 4 MByte pages, 128 entries */
	TLB(0x5C, dtlb_4MB, 128, 0, P4KB|P4MB)
	TLB(0x5D, dtlb_4KB, 256, 0, P4KB|P4MB) /* Data TLB: 4 KByte and 4 MByte pages, 256 entries */
	TLB(0x5D, dtlb_4MB, 256, 0, P4KB|P4MB)
	CACHE(0x60, L1D, 16384, 8, 64) /* 1st-level data cache: 16-KB, 8-way set associative, sectored cache, 64-byte line size */
	TLB(0x61, itlb_4KB, 48, 48, P4KB) /* Instruction TLB: 4 KByte pages, fully associative, 48 entries */
	TLB(0x63, dtlb_2MB, 32, 4, P2MB|P4MB) /* Data TLB: 2 MByte or 4 MByte pages, 4-way set associative, 32 entries and a separate array with 1 GByte pages, 4-way set associative, 4 entries */
	TLB(0x63, dtlb_4MB, 32, 4, P2MB|P4MB)
	TLB(0x63, dtlb_1GB, 4, 4, P1GB)
	TLB(0x64, dtlb_4KB, 512, 4, P4KB) /* Data TLB: 4 KByte pages, 4-way set associative, 512 entries */
	CACHE(0x66, L1D, 8192, 4, 64) /* 1st-level data cache: 8-KB, 4-way set associative, sectored cache, 64-byte line size */
	CACHE(0x67, L1D, 16384, 4, 64) /* 1st-level data cache: 16-KB, 4-way set associative, sectored cache, 64-byte line size */
	CACHE(0x68, L1D, 32768, 4, 64) /* 1st-level data cache: 32-KB, 4 way set associative, sectored cache, 64-byte line size */
	TLB(0x6A, dtlb_4KB, 64, 8, P4KB) /* uTLB: 4 KByte pages, 8-way set associative, 64 entries */
	TLB(0x6B, dtlb_4KB, 256, 8, P4KB) /* DTLB: 4 KByte pages, 8-way set associative, 256 entries */
	TLB(0x6C, dtlb_2MB, 128, 8, P2MB|P4MB) /* DTLB: 2M/4M pages, 8-way set associative, 128 entries */
	TLB(0x6C, dtlb_4MB, 128, 8, P2MB|P4MB)
	TLB(0x6D, dtlb_1GB, 16, 16, P1GB) /* DTLB: 1 GByte pages, fully associative, 16 entries */
	TRACE(0x70, 12288, 8) /* Trace cache: 12 K-uop, 8-way set associative */
	TRACE(0x71, 16384, 8) /* Trace cache: 16 K-uop, 8-way set associative */
	TRACE(0x72, 32768, 8) /* Trace cache: 32 K-uop, 8-way set associative */
	TRACE(0x73, 65536, 8) /* Trace cache: 64 K-uop, 8-way set associative */
	TLB(0x76, itlb_2MB, 8, 8, P2MB|P4MB) /* Instruction TLB: 2M/4M pages, fully associative, 8 entries */
	TLB(0x76, itlb_4MB, 8, 8, P2MB|P4MB)
	CACHE(0x78, L2, 1048576, 4, 64) /* 2nd-level cache: 1 MByte, 4-way set associative, 64byte line size */
	CACHE(0x79, L2, 131072, 8, 64) /* 2nd-level cache: 128 KByte, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x7A, L2, 262144, 8, 64) /* 2nd-level cache: 256 KByte, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x7B, L2, 524288, 8, 64) /* 2nd-level cache: 512 KByte, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x7C, L2, 1048576, 8, 64) /* 2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size, 2 lines per sector */
	CACHE(0x7D, L2, 2097152, 8, 64) /* 2nd-level cache: 2 MByte, 8-way set associative, 64byte line size */
	CACHE(0x7F, L2, 524288, 2, 64) /* 2nd-level cache: 512 KByte, 2-way set associative, 64-byte line size */
	CACHE(0x80, L2, 524288, 8, 64) /* 2nd-level cache: 512 KByte, 8-way set associative, 64-byte line size */
	CACHE(0x82, L2, 262144, 8, 32) /* 2nd-level cache: 256 KByte, 8-way set associative, 32 byte line size */
	CACHE(0x83, L2, 524288, 8, 32) /* 2nd-level cache: 512 KByte, 8-way set associative, 32 byte line size */
	CACHE(0x84, L2, 1048576, 8, 32) /* 2nd-level cache: 1 MByte, 8-way set associative, 32 byte line size */
	CACHE(0x85, L2, 2097152, 8, 32) /* 2nd-level cache: 2 MByte, 8-way set associative, 32 byte line size */
	CACHE(0x86, L2, 524288, 4, 64) /* 2nd-level cache: 512 KByte, 4-way set associative, 64 byte line size */
	CACHE(0x87, L2, 1048576, 8, 64) /* 2nd-level cache: 1 MByte, 8-way set associative, 64 byte line size */
	TLB(0xA0, dtlb_4KB, 32, 32, P4KB) /* DTLB: 4k pages, fully associative, 32 entries */
	TLB(0xB0, itlb_4KB, 128, 4, P4KB) /* Instruction TLB: 4 KByte pages, 4-way set associative, 128 entries */
	TLB(0xB1, itlb_2MB, 8, 4, P2MB|P4MB) /* Instruction TLB: 2M pages, 4-way, 8 entries or 4M pages, 4-way, 4 entries */
	TLB(0xB1, itlb_4MB, 4, 4, P2MB|P4MB)
	TLB(0xB2, itlb_4KB, 64, 4, P4KB) /* Instruction TLB: 4KByte pages, 4-way set associative, 64 entries */
	TLB(0xB3, dtlb_4KB, 128, 4, P4KB) /* Data TLB: 4 KByte pages, 4-way set associative, 128 entries */
	TLB(0xB4, dtlb_4KB, 256, 4, P4KB) /* Data TLB1: 4 KByte pages, 4-way associative, 256 entries */
	TLB(0xB5, itlb_4KB, 64, 8, P4KB) /* Instruction TLB: 4KByte pages, 8-way set associative, 64 entries */
	TLB(0xB6, itlb_4KB, 128, 8, P4KB) /* Instruction TLB: 4KByte pages, 8-way set associative, 128 entries */
	TLB(0xBA, dtlb_4KB, 64, 4, P4KB) /* Data TLB1: 4 KByte pages, 4-way associative, 64 entries */
	TLB(0xC0, dtlb_4KB, 8, 4, P4KB|P4MB) /* Data TLB: 4 KByte and 4 MByte pages, 4-way associative, 8 entries */
	TLB(0xC0, dtlb_4MB, 8, 4, P4KB|P4MB)
	TLB(0xC1, stlb2_4KB, 1024, 8, P4KB|P2MB) /* Shared 2nd-Level TLB: 4 KByte/2MByte pages, 8-way associative, 1024 entries */
	TLB(0xC1, stlb2_2MB, 1024, 8, P4KB|P2MB)
	TLB(0xC2, dtlb_4KB, 16, 4, P4KB|P2MB) /* DTLB: 4 KByte/2 MByte pages, 4-way associative, 16 entries */
	TLB(0xC2, dtlb_2MB, 16, 4, P4KB|P2MB)
	TLB(0xC3, stlb2_4KB, 1536, 6, P4KB|P2MB) /* Shared 2nd-Level TLB: 4 KByte/2 MByte pages, 6-way associative, 1536 entries. Also 1GBbyte pages, 4-way, 16 entries. */
	TLB(0xC3, stlb2_2MB, 1536, 6, P4KB|P2MB)
	TLB(0xC3, stlb2_1GB, 16, 4, P1GB)
	TLB(0xC4, dtlb_2MB, 32, 4, P2MB|P4MB) /* DTLB: 2M/4M Byte pages, 4-way associative, 32 entries */
	TLB(0xC4, dtlb_4MB, 32, 4, P2MB|P4MB)
	TLB(0xCA, stlb2_4KB, 512, 4, P4KB) /* Shared 2nd-Level TLB: 4 KByte pages, 4-way associative, 512 entries */
	CACHE(0xD0, L3, 524288, 4, 64) /* 3rd-level cache: 512 KByte, 4-way set associative, 64 byte line size */
	CACHE(0xD1, L3, 1048576, 4, 64) /* 3rd-level cache: 1 MByte, 4-way set associative, 64 byte line size */
	CACHE(0xD2, L3, 2097152, 4, 64) /* 3rd-level cache: 2 MByte, 4-way set associative, 64 byte line size */
	CACHE(0xD6, L3, 1048576, 8, 64) /* 3rd-level cache: 1 MByte, 8-way set associative, 64 byte line size */
	CACHE(0xD7, L3, 2097152, 8, 64) /* 3rd-level cache: 2 MByte, 8-way set associative, 64 byte line size */
	CACHE(0xD8, L3, 4194304, 8, 64) /* 3rd-level cache: 4 MByte, 8-way set associative, 64 byte line size */
	CACHE(0xDC, L3, 1572864, 12, 64) /* 3rd-level cache: 1.5 MByte, 12-way set associative, 64 byte line size */
	CACHE(0xDD, L3, 3145728, 12, 64) /* 3rd-level cache: 3 MByte, 12-way set associative, 64 byte line size */
	CACHE(0xDE, L3, 6291456, 12, 64) /* 3rd-level cache: 6 MByte, 12-way set associative, 64 byte line size */
	CACHE(0xE2, L3, 2097152, 16, 64) /* 3rd-level cache: 2 MByte, 16-way set associative, 64 byte line size */
	CACHE(0xE3, L3, 4194304, 16, 64) /* 3rd-level cache: 4 MByte, 16-way set associative, 64 byte line size */
	CACHE(0xE4, L3, 8388608, 16, 64) /* 3rd-level cache: 8 MByte, 16-way set associative, 64 byte line size */
	CACHE(0xEA, L3, 12582912, 24, 64) /* 3rd-level cache: 12MByte, 24-way set associative, 64 byte line size */
	CACHE(0xEB, L3, 18874368, 24, 64) /* 3rd-level cache: 18MByte, 24-way set associative, 64 byte line size */
	CACHE(0xEC, L3, 25165824, 24, 64) /* 3rd-level cache: 24MByte, 24-way set associative, 64 byte line size */
	PREFETCH(0xF0, 64) /* 64-Byte prefetching */
	PREFETCH(0xF1, 128) /* 128-Byte prefetching */
