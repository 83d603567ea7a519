"""The queries behind each property: which /repo sources, which harness, which bounds."""
from vf import Query

X86_CORE = ["src/x86/%s.c" % x for x in ("init", "isa", "vendor", "info", "uarch", "topology", "cache/init", "cache/descriptor", "cache/deterministic")]

X86_LINUX_INIT = ["src/x86/linux/init.c", "src/cache.c", "src/api.c"]


def x86_linux_init(name, n, levels, bits, what, **kw):
    return Query(name, "x86_linux_init.c", X86_LINUX_INIT, stubs=["alloc", "qsort"], unwind=(n + 1, 8),
                 unwind_fn={"vf_free": 26, "main": 6, "hinted": 60},
                 defines=["CPUINFO_LOG_LEVEL=2", "N=%d" % n, "LEVELS=%d" % levels] + ["APIC_BITS=%s" % bits, "APIC_SHIFT=0"] * (bits is not None),
                 bounds="up to %d processors with any validity flags, %s; every field width and sharing width" % (n, what),
                 assumptions=["APIC ID 0xFFFFFFFF (broadcast) does not occur", "at least one usable processor",
                              "field widths as the topology decoder derives them (C02), sharing widths up to 16 bits"], **kw)


def riscv_linux_init(name, n, unwind, bounds, defines=(), **kw):
    return Query(name, "riscv_linux_init.c", ["src/riscv/linux/init.c", "src/api.c"], flavour="riscv64", stubs=["alloc", "qsort", "copy"],
                 unwind=unwind, unwind_fn={"vf_free": 26, "is_live": 26, "live_allocations": 26, "hinted": 60},
                 defines=["N=%d" % n, *defines], bounds=bounds, **kw)


ARM_CLUSTERS = ["src/arm/linux/clusters.c", "src/arm/linux/midr.c"]


def arm_linux_init(name, n, bounds, flavour="arm64", defines=(), **kw):
    return Query(name, "arm_linux_init.c", ["src/arm/linux/init.c", "src/arm/linux/clusters.c", "src/arm/linux/midr.c", "src/api.c"], flavour=flavour,
                 stubs=["alloc", "qsort"], unwind=(n + 1, 32),
                 unwind_fn={"cpuinfo_arm_linux_detect_cluster_midr_by_chipset": 32, "vf_free": 26, "is_live": 26, "live_allocations": 26, "hinted": 60},
                 defines=["N=%d" % n, *defines], bounds=bounds, **kw)


CHECKS = {
    "C01": [
        Query("isa-x86_64", "x86_isa.c", X86_CORE, unwind=(4, 16),
              bounds="none: loop-free, all 2^32 values of every CPUID register, all XCR0 values"),
        Query("isa-i686", "x86_isa.c", X86_CORE, flavour="i686", unwind=(4, 16),
              bounds="none: loop-free, all 2^32 values of every CPUID register, all XCR0 values"),
    ],
    "C02": [
        Query("topology-x86_64", "x86_topology.c", X86_CORE, unwind=(9, 20),
              bounds="up to 3 levels in leaf 0xB and 2 entries in leaf 4; every register value, every pair of APIC IDs",
              assumptions=["well-formed leaf 0xB: SMT level first, optional core level, cumulative shifts",
                           "AMD core-ID width absent or consistent with the core count"]),
        Query("topology-i686", "x86_topology.c", X86_CORE, flavour="i686", unwind=(9, 20),
              bounds="as topology-x86_64, 32-bit build"),
    ],
    "C03": [
        Query("geometry", "x86_cache.c", X86_CORE, unwind=(14, 24),
              bounds="up to 4 entries per enumeration leaf; every register value, vendor and maximum leaf; product (size) not compared here"),
    ] + [
        Query("size-" + x, "x86_cache_size.c", X86_CORE, unwind=(14, 24), defines=["SYM_%s=1" % x.upper()],
              bounds="one entry of any level and kind; %s symbolic over its whole range, the other three factors from "
                     "{64,32} B lines, {1,3} partitions, {8,12} ways, {64,12288} sets (at most 2^24 sets)" % x)
        for x in ("sets", "ways", "parts", "line")
    ] + [
        Query("geometry-i686", "x86_cache.c", X86_CORE, flavour="i686", unwind=(14, 24),
              bounds="as geometry, 32-bit build"),
    ],
    "C04": [
        Query("descriptor-x86_64", "x86_descriptor.c", X86_CORE, solver="kissat", unwind=(8, 40), bounds="none: every descriptor, vendor, family/model and previous state"),
        Query("descriptor-i686", "x86_descriptor.c", X86_CORE, solver="kissat", flavour="i686", unwind=(8, 40), bounds="none: as descriptor-x86_64, 32-bit build"),
    ] + [
        Query("leaf2-%d" % r, "x86_descriptor.c", [x for x in X86_CORE if "descriptor" not in x], unwind=(18, 40),
              defines=["LEAF2=1", "ROUNDS=%d" % r],
              bounds="leaf 2 asks to be read %d time(s); every register value, every descriptor" % r)
        for r in (1, 2)
    ],
    "C05": [
        Query("identity-x86_64", "x86_identity.c", X86_CORE, unwind=(14, 40),
              bounds="none: every vendor string and every signature with reserved extended fields zero",
              assumptions=["extended family/model fields are zero where the architecture reserves them",
                           "maximum basic leaf 1..3 (higher leaves do not enter vendor or signature decoding)"]),
        Query("identity-i686", "x86_identity.c", X86_CORE, flavour="i686", unwind=(14, 40), bounds="as identity-x86_64, 32-bit build"),
    ],
    "C06": [
        Query(n, "x86_name.c", ["src/x86/name.c"], stubs=["mem"], unwind=(w + 2,), mem_gb=9, tier="thorough" if n.endswith("-deep") else "quick",
              timeout=7200 if n.endswith("-deep") else 600,
              defines=["W=%d" % w] + d, scale={"src/x86/name.c": [(r"\b48\b", str(w)), (r"\b47\b", str(w - 1))]},
              bounds="brand strings scaled to %d bytes, %s" % (w, what))
        for n, w, d, what in (
            ("plain", 6, ["PLAIN=1"], "made of letters without meaning, spacing, parentheses and dashes; exact result"),
            ("any", 5, [], "every content"),
            ("any-deep", 6, [], "every content"),
        )
    ] + [
        Query(n, "x86_name.c", ["src/x86/name.c"], stubs=["mem"], unwind=(len(t) + 2,), mem_gb=9, defines=["W=%d" % len(t), 'TEMPLATE="%s"' % t],
              scale={"src/x86/name.c": [(r"\b48\b", str(len(t))), (r"\b47\b", str(len(t) - 1))]},
              bounds="'%s' with arbitrary bytes for '?', scaled to %d bytes" % (t, len(t)))
        for n, t in (("dual-core", "Ax Dual?Core? B"), ("processor", "Bx Processo?-?B"), ("letter", "B X 99? @ 2GHz?"), ("model", "B?model?unknown"),
                     ("sample", "B Eng?Sample, ?"))
    ] + [
        Query("package-" + n, "x86_package_name.c", ["src/x86/name.c"], stubs=["format"], unwind=(51,), unwindset=["strncpy.0:50", "strlen.0:50"],
              defines=["LENGTH_MIN=%d" % lo, "LENGTH_MAX=%d" % hi] + d, bounds="names of %d to %d characters, %s" % (lo, hi, what))
        for n, lo, hi, d, what in (("short", 0, 3, [], "every vendor number"), ("long", 36, 47, ["VENDOR=6"], "longest vendor name"))
    ],
    "C07": [
        Query("multiline-%d" % b, "linux_multiline.c", ["src/linux/multiline.c"], stubs=["files", "mem"], unwind=(n + 3, 2 * n + 4),
              defines=["FILE_MAX=%d" % n, "BUFFER=%d" % b],
              bounds="files up to %d bytes, buffer of %d bytes, lines shorter than the buffer; every content, chunking and read error" % (n, b))
        for n, b in ((5, 4), (5, 2), (5, 8))
    ] + [
        Query("smallfile-%d" % b, "linux_smallfile.c", ["src/linux/smallfile.c"], stubs=["files", "mem"], unwind=(n + 3, 2 * n + 4),
              defines=["FILE_MAX=%d" % n, "BUFFER=%d" % b],
              bounds="files up to %d bytes, buffer of %d bytes; every content, chunking and read error" % (n, b))
        for n, b in ((6, 4), (6, 1))
    ] + [
        Query(n, "linux_cpulist.c", ["src/linux/cpulist.c"], stubs=["files", "mem"], unwind=(k + 2, 14),
              defines=["FILE_MAX=%d" % k, "MEM_MAX=16"] + d,
              scale={"src/linux/cpulist.c": [(r"^(#define BUFFER_SIZE) 256$", r"\1 8")]},
              bounds="files up to %d bytes; every content%s" % (k, b))
        for n, k, d, b in (("cpulist-chunks", 4, [], ", chunking and read error; buffer scaled to 8 bytes"),
                           ("cpulist-text", 5, ["FILE_WHOLE=1"], " delivered in one read; buffer scaled to 8 bytes"))
    ] + [
        Query("multiline-%d-deep" % b, "linux_multiline.c", ["src/linux/multiline.c"], stubs=["files", "mem"], unwind=(n + 3, 2 * n + 4),
              defines=["FILE_MAX=%d" % n, "BUFFER=%d" % b], tier="thorough", timeout=7200,
              bounds="files up to %d bytes, buffer of %d bytes, lines shorter than the buffer; every content, chunking and read error" % (n, b))
        for n, b in ((7, 4), (7, 8))
    ] + [
        Query(n + "-deep", "linux_cpulist.c", ["src/linux/cpulist.c"], stubs=["files", "mem"], unwind=(k + 2, 14),
              defines=["FILE_MAX=%d" % k, "MEM_MAX=16"] + d, tier="thorough", timeout=7200,
              scale={"src/linux/cpulist.c": [(r"^(#define BUFFER_SIZE) 256$", r"\1 8")]},
              bounds="files up to %d bytes; every content%s" % (k, b))
        for n, k, d, b in (("cpulist-chunks", 5, [], ", chunking and read error; buffer scaled to 8 bytes"),
                           ("cpulist-text", 7, ["FILE_WHOLE=1"], " delivered in one read; buffer scaled to 8 bytes"))
    ],
    "C09": [
        Query("any-line", "x86_proc_cpuinfo.c", ["src/x86/linux/cpuinfo.c"], stubs=["mem"], unwind=(16, 30),
              defines=["ANY_LINE=1", "LINES=3"],
              bounds="one arbitrary line of up to 14 bytes between two ordinary ones, 3 processors"),
        Query("sequence", "x86_proc_cpuinfo.c", ["src/x86/linux/cpuinfo.c"], stubs=["mem"], unwind=(16, 30),
              defines=["LINES=4"],
              bounds="four lines, each 'processor', 'apicid' or another key with three arbitrary value bytes; 3 processors"),
    ],
    "C12": [
        Query("any-line-" + f, "arm_proc_cpuinfo.c", ["src/arm/linux/cpuinfo.c"], flavour=f, stubs=["mem"], unwind=(14,),
              unwind_fn={"main": 66, "same": 66, "expect": 19, "put": 19, "vf_memcmp": 14}, defines=["LINE_MAX_=11", "NO_FEATURES=1"],
              bounds="one arbitrary line of up to 11 bytes between two ordinary ones, 2 processors")
        for f in ("arm64", "arm")
    ] + [
        Query("%s-%s" % (name, f), "arm_proc_cpuinfo.c", ["src/arm/linux/cpuinfo.c"], flavour=f, stubs=["mem"], unwind=(max(22, length + 2),),
              unwind_fn={"main": 82, "same": 66, "expect": 82, "vf_memcmp": 13 if name == "features" else 18},
              defines=['KEY="%s"' % key, "LINE_MAX_=%d" % length, "WITNESS=" + witness] + more,
              flags=["--max-field-sensitivity-array-size", "100"],
              no_checks=name == "features",
              bounds="a '%s' line with %s" % (name, what))
        for name, key, length, witness, more, what, flavours in (
            ("features", "Features\\t: ", 20, "want[1].features != 0 && want[1].features2 != 0", [], "9 arbitrary bytes", ("arm64", "arm")),
            ("architecture", "CPU architecture: ", 25, "want[1].architecture_version == 5", [], "7 arbitrary bytes", ("arm64", "arm")),
            ("implementer", "CPU implementer\\t: ", 23, "want[1].midr >> 24 == 0x51", [], "5 arbitrary bytes", ("arm64",)),
            ("part", "CPU part\\t: ", 20, "(want[1].midr >> 4 & 0xFFF) == 0xD0B", [], "9 arbitrary bytes", ("arm64",)),
            ("cache-line", "I line length\\t: ", 23, "want[1].proc_cpuinfo_cache.i_line_length == 32", [], "7 arbitrary bytes", ("arm",)),
            ("hardware", "Hardware: ", 77, "want_text.hardware[63] == 'z'", ["FILLER=61", "MEM_MAX=80"], "61 ordinary and 6 arbitrary bytes", ("arm64",)),
            ("revision", "Revision: ", 22, "want_text.revision[8] == 'z'", ["FILLER=6"], "6 ordinary and 6 arbitrary bytes", ("arm64",)))
        for f in flavours
    ],
    "C08": [
        Query("number-" + n, "linux_processors.c", ["src/linux/processors.c"], stubs=["format"], unwind=(16, 40),
              unwind_fn={"vf_vsnprintf": 100, "check_path": 100, "expect_path": 100},
              defines=["NUMBER=%d" % k] + ["PROCESSOR=UINT32_C(%s)" % c] * (c is not None),
              bounds="file text up to 11 bytes denoting a number below 2^32-1, or any other text%s" % (", processor %s" % c if c else ""))
        for n, k, c in (("kernel_max", 0, None), ("cur_freq", 1, "10"), ("min_freq", 2, "0"), ("max_freq", 3, "4294967295"),
                        ("core_id", 4, "4294967295"), ("package_id", 5, "123"))
    ] + [
        Query("list-" + n, "linux_processors.c", ["src/linux/processors.c"], stubs=["format"], unwind=(16, 40),
              unwind_fn={"vf_vsnprintf": 100, "check_path": 100, "expect_path": 100},
              defines=["LIST=%d" % k, "RANGES=%d" % (2 if k in (2, 3) else 3)] + ["PROCESSOR=UINT32_C(%s)" % c] * (c is not None),
              bounds="lists of up to %d arbitrary ranges%s" % (2 if k in (2, 3) else 3, ", processor %s" % c if c else ", up to 4 processors"))
        for n, k, c in (("max_possible", 0, None), ("max_present", 1, None), ("possible", 2, None), ("present", 3, None),
                        ("core_cpus", 4, "0"), ("core_siblings", 5, "4294967295"), ("thread_siblings", 6, "4294967295"),
                        ("cluster_cpus", 7, "4294967295"), ("package_cpus", 8, "10"))
    ],
    "C10": [
        x86_linux_init("wide-2", 2, 31, None, "arbitrary 32-bit APIC IDs, all five cache levels"),
        x86_linux_init("wide-3", 3, 0, None, "arbitrary 32-bit APIC IDs, no caches"),
    ] + [
        x86_linux_init("cache-" + c, 3, 1 << l, 6, "6-bit APIC IDs, only the %s cache" % c)
        for l, c in enumerate(("l1i", "l1d", "l2", "l3", "l4"))
    ] + [
        x86_linux_init("all-3", 3, 31, 6, "6-bit APIC IDs, all five cache levels", tier="thorough", timeout=3600),
        x86_linux_init("four", 4, 0, 6, "6-bit APIC IDs, no caches", tier="thorough", timeout=7200),
    ],
    "C11": [
        Query("x86", "x86_linux_init.c", X86_LINUX_INIT, stubs=["alloc", "qsort"], unwind=(4, 8),
              unwind_fn={"vf_free": 26, "is_live": 26, "live_allocations": 26, "main": 6, "hinted": 60},
              defines=["FAULTS=1", "N=2", "LEVELS=31", "APIC_BITS=6", "APIC_SHIFT=0"],
              bounds="x86, up to 2 processors, all five cache levels; every subset of failing allocations and files"),
        riscv_linux_init("riscv", 3, (4, 8), "RISC-V, up to 3 processors; every subset of failing allocations and files", ["FAULTS=1"]),
        arm_linux_init("arm64", 2, "ARM64, up to 2 processors; every subset of failing allocations and files", defines=["FAULTS=1", "CACHES"]),
    ],
    "C13": [
        Query("arm64", "arm_uarch.c", ["src/arm/uarch.c"], flavour="arm64", unwind=(4,), bounds="none: loop-free, all 2^32 register values"),
        Query("arm", "arm_uarch.c", ["src/arm/uarch.c"], flavour="arm", unwind=(4,), bounds="none: loop-free, all 2^32 register values, both VFP settings"),
    ],
    "C18": [
        Query(n + "-" + f, "arm_chipset.c", ["src/arm/linux/chipset.c"], flavour=f, unwind=(max(len(t), 9) + 2, 30), unwindset=["strncmp.0:24"],
              unwind_fn={"cpuinfo_arm_linux_decode_chipset_from_proc_cpuinfo_hardware": 26},
              defines=["CPUINFO_LOG_LEVEL=2", 'TEMPLATE="%s"' % t] + d,
              bounds="the hardware string '%s' with every byte for '?' (NUL included) and every digit for '*'; every core count and frequency" % t)
        for f in ("arm64", "arm")
        for n, t, d in ((
            ("any", "???????", []),
            ("qualcomm", "X MSM?***????????", []),
            ("apq", "?pQ????? APQ", []),
            ("snapdragon", "?SDM????", []),
            ("sm", ",SM?????", []),
            ("mediatek", "mT??????URB??????", []),
            ("kirin", "?irin?????", []),
            ("rockchip", "ab rk?????", []),
            ("exynos", "Samsung Exynos??????", []),
            ("samsung", "?amsun???xyno?75*0", []),
            ("universal", "?nivers????*8*", []),
            ("spreadtrum", "S??*??AB?DEF??", []),
            ("unisoc", "Uniso?????***?", []),
            ("allwinner", "sun????", []),
            ("broadcom", "BCM?????", ["BOARD=1"]),
            ("special", "hi6???sft?", []),
        ) if f == "arm64" else (
            ("any", "??????", []),
            ("msm", "MSM?***??", []),
            ("exynos", "Samsung Exynos?????", []),
            ("allwinner", "sun????", []),
            ("broadcom", "BCM?????", ["BOARD=1"]),
            ("smdk", "sMD?4??2?", []),
            ("pxa", "P?A?????", []),
            ("omap", "O?AP?????", []),
            ("wmt", "W???", []),
            ("huawei", "?3v2o?m1?", []),
            ("amlogic", "Amlogic Meso????", []),
        ))
    ] + [
        Query(n, "arm_chipset_name.c", ["src/arm/linux/chipset.c"], flavour="arm64", stubs=["format"], unwind=(30,), unwindset=["strncpy.0:50"],
              defines=["CPUINFO_LOG_LEVEL=2", "MODEL_MAX=%d" % m, "SUFFIX=%d" % k],
              bounds="every documented series, models up to %d, every suffix of up to %d bytes" % (m, k))
        for n, m, k in (("name-suffix", 9, 8), ("name-model", 99999, 1))
    ],
    "C17": [
        Query(f, "arm_cache.c", ["src/arm/cache.c", "src/cache.c"], flavour=f, unwind=(4,),
              bounds="any core, ID, chipset, cluster and architecture version; up to 64 cores per cluster (or the core's limit)")
        for f in ("arm64", "arm")
    ],
    "C14": [
        Query("ids", "arm_clusters.c", ARM_CLUSTERS, flavour="arm64", unwind=(6, 32),
              unwind_fn={"cpuinfo_arm_linux_detect_cluster_midr_by_chipset": 32}, defines=["N=4", "MIDR_ONLY"],
              bounds="64-bit, core IDs, up to 4 processors in given clusters, chipset not in the table"),
        *[Query("chipset-%s-%s" % (flavour, name), "arm_clusters.c", ARM_CLUSTERS, flavour=flavour, unwind=(len(layout) + 2, 32),
                unwind_fn={"cpuinfo_arm_linux_detect_cluster_midr_by_chipset": 32, "main": 32},
                defines=["N=%d" % len(layout), "LAYOUT=" + ",".join(map(str, layout)), "MIDR_ONLY", "CHIPSET"],
                bounds="core IDs, any chipset, processors in clusters " + name)
          for name, flavour, layout in [
              ("4", "arm", [0] * 4), ("4", "arm64", [0] * 4), ("4+2", "arm64", [0] * 4 + [4] * 2),
              ("2+2", "arm", [0, 0, 2, 2]), ("2+2", "arm64", [0, 0, 2, 2]), ("4+4", "arm", [0] * 4 + [4] * 4),
              ("4+4", "arm64", [0] * 4 + [4] * 4), ("4+4+2", "arm64", [0] * 4 + [4] * 4 + [8] * 2)]],
        Query("clusters", "arm_clusters.c", ARM_CLUSTERS, flavour="arm64", unwind=(9, 32), defines=["N=8", "CLUSTERS_ONLY"],
              bounds="64-bit, up to 8 processors, cluster assignment only"),
    ],
    "C15": [
        arm_linux_init("arm64", 3, "64-bit, up to 3 processors", defines=["CACHES", "CPUINFO_LOG_LEVEL=2"]),
        arm_linux_init("arm", 2, "32-bit, up to 2 processors", flavour="arm", defines=["CACHES", "CPUINFO_LOG_LEVEL=2"]),
    ],
    "C16": [
        Query("arm64", "arm_isa.c", ["src/arm/linux/aarch64-isa.c", "src/arm/linux/hwcap.c"], flavour="arm64", stubs=["auxv", "prctl"], unwind=(4,),
              bounds="none: loop-free, all capability words, core IDs, chipsets and vector lengths"),
    ] + [
        Query("arm" + n, "arm_isa.c", ["src/arm/linux/aarch32-isa.c", "src/arm/linux/hwcap.c"], flavour="arm", stubs=["auxv"], unwind=(4,), defines=d,
              per_source_defines={"src/arm/linux/aarch32-isa.c": ["CPUINFO_MOCK=1"]},
              bounds="none: loop-free, all capability words, core IDs, chipsets, architecture flags and coprocessor registers; architecture versions up to 20",
              assumptions=["FPSID and WCID, which user code reads by coprocessor instructions, come from the mock variables"])
        for n, d in (("v6", []), ("v7", ["__ARM_ARCH=7"]))
    ],
    "C19": [
        riscv_linux_init("topology", 4, (5, 8), "up to 4 processors, every nested grouping into cores, clusters and packages, every set of present processors",
                         ["CPUINFO_LOG_LEVEL=2"], assumptions=["all processors of the one microarchitecture the library knows for RISC-V (unknown)"]),
    ],
    "C20": [
        Query("features", "riscv_features.c", ["src/riscv/linux/riscv-isa.c", "src/riscv/linux/riscv-hw.c", "src/riscv/uarch.c"], flavour="riscv64",
              stubs=["syscall", "auxv"], unwind=(17, 40),
              bounds="every capability word; every identifier triple, key subset and failure of the probe; processors 0-1023",
              assumptions=["mvendorid fits 32 bits or is all ones"]),
    ],
    "C21": [
        Query("access-" + f, "api_access.c", ["src/api.c"], flavour=f, stubs=["syscall", "abort"], unwind=(6, 12),
              bounds="arrays of up to 3 elements; every index, count, map and result of the current-processor query")
        for f in ("x86_64", "i686", "arm64", "arm", "riscv64", "wasm")
    ] + [
        Query("calls-" + f, "api_init.c", ["src/init.c", "src/api.c"], flavour=f, stubs=["once", "abort"], unwind=(7, 12), defines=["CALLS=5"],
              bounds="every sequence of up to 5 initialise, deinitialise and access calls")
        for f in ("x86_64", "arm64", "riscv64", "wasm")
    ] + [
        Query("threads-" + f, "api_init.c", ["src/init.c", "src/api.c"], flavour=f, stubs=["once", "abort"], unwind=(3,), defines=["THREADS=1"],
              bounds="two threads initialising at once, every interleaving (sequentially consistent)",
              assumptions=["pthread_once as POSIX specifies it"])
        for f in ("x86_64", "arm64", "riscv64")
    ],
    "C22": [
        Query("level-%d" % n, "log_message.c", ["src/log.c"], flavour="host", stubs=["alloc", "write", "abort"], unwind=(26,),
              defines=["CPUINFO_LOG_LEVEL=%d" % n, "LEVEL=%d" % n, "MESSAGE=%d" % n],
              bounds="log level %d, messages of the lowest enabled level, up to 2500 characters; every allocation and formatting outcome" % n)
        for n in range(1, 6)
    ] + [
        Query("below-%d" % n, "log_message.c", ["src/log.c"] * (n > 0), flavour="host", stubs=["alloc", "write", "abort"], unwind=(26,),
              defines=["CPUINFO_LOG_LEVEL=%d" % n, "LEVEL=%d" % n, "LOWEST=%d" % (n + 1), "HIGHEST=5"],
              bounds="log level %d, messages of every lower level, up to 2500 characters" % n)
        for n in range(0, 5)
    ] + [
        Query("clog-%s-%s" % (kind, name), "log_message.c", ["deps/clog/src/clog.c"], flavour="host", stubs=["alloc", "write", "abort"], unwind=(26,),
              defines=["CLOG=1", "LEVEL=%d" % n, "MESSAGE=%d" % n] + d, tier="thorough" if kind == "named" else "quick", timeout=3600 if kind == "named" else 600,
              bounds="clog, %s messages %s; every allocation and formatting outcome" % (name, what))
        for n, name, fixed in ((1, "fatal", 17), (2, "error", 11), (3, "warning", 13), (4, "info", 9), (5, "debug", 10))
        for kind, d, what in (("plain", [], "of up to 2500 characters"),
                              ("short", ["MODULE_MAX=7", "MODULE_LENGTH=7"], "of up to 2500 characters with a module name of 7"),
                              ("exact", ["MODULE_MAX=%d" % (1024 - fixed), "MODULE_LENGTH=%d" % (1024 - fixed), "LENGTH_MAX=60"],
                               "of up to 60 characters with a module name that just fills the stack buffer"),
                              ("named", ["MODULE_MAX=1100", "LENGTH_MAX=1100"], "of up to 1100 characters from modules with names of up to 1100 characters"))
    ],
    "C23": [
        Query(name, "emscripten_init.c", ["src/emscripten/init.c", "src/api.c"], flavour="wasm", stubs=["alloc", "signbit"], includes=["lib/compat"], unwind=(n + 1,),
              unwind_fn={"vf_free": 26, "is_live": 26, "live_allocations": 26, "hinted": 60, "main": 12}, unwindset=["strncpy.0:50"], defines=["N=%d" % n] + d,
              bounds="up to %d logical processors, both host kinds%s" % (n, what))
        for name, n, d, what in (("topology", 9, ["CPUINFO_LOG_LEVEL=0"], ""), ("faults", 3, ["FAULTS=1"], "; every subset of failing allocations"))
    ],
    "C24": [
        Query("mach", "bsd_topology.c", ["src/mach/topology.c"], flavour="host", includes=["lib/compat"], unwind=(33,), defines=["MACH=1", "CONFIGS=10"],
              bounds="every value and failure of each query; up to 10 cache configurations"),
    ] + [
        Query("freebsd-" + n, "bsd_topology.c", ["src/freebsd/topology.c"], flavour="host", stubs=["alloc", "strstr"], includes=["lib/compat"], unwind=(40,),
              unwind_fn={"main": 130, "count": 130, "sysctlbyname": 130, "vf_strstr": 130, "cpuinfo_freebsd_detect_topology": 6}, flags=["--max-field-sensitivity-array-size", "130"],
              defines=["LAYOUT=" + layout, "BROKEN=" + broken, "WITNESS_" + n.upper(), "SMALL=%d" % small] + ["READABLE=1"] * (n != "faults"),
              bounds="every value and failure of each %s query, at most 7 %s; a description of %s" % (
                  "" if n == "faults" else "other", "threads per core" if small else "cores", what),
              assumptions=["the description does not change between asking for its size and for its text"])
        for n, small, layout, broken, what in (
            ("outer", 1, 'TAG1 TAG2 "x" TAG2 "<group level=\\"2"', "1,24,60,80", "three groups and the start of a fourth with four arbitrary characters"),
            ("faults", 0, 'TAG1', "9", "one group with an arbitrary character"),
            ("inner", 1, 'TAG1 "x" TAG1 "y" TAG1', "1,18,35,40", "three innermost groups with four arbitrary characters"))
    ],
}
