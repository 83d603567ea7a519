#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded model checking of the real sources (CBMC/SAT), counterexamples replayed natively"

P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, claim=None, na=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, observe=observe, claim=claim, na=na, state=state, hook=hook))


prop("C01", "x86 feature queries never promise what CPU and OS do not both provide",
     "On x86, every public feature query answers yes exactly when the processor's CPUID information architecturally "
     "announces the feature. A feature that needs extended register state is reported only if the operating system "
     "enabled that state, and is reported whenever both are true. Detection never reads CPUID information above the "
     "advertised maximum as if it were valid and never executes XGETBV when it would fault.",
     ["inputs", "configurations"], "every content of all CPUID registers, every XCR0 value, 32- and 64-bit x86",
     "Tests replay CPUID dumps of some dozens of machines, all with a cooperative OS; the space of CPUID/XCR0 combinations "
     "(OS masking AVX-512, hypervisor-limited maximum leaf, ...) is never visited.",
     ["src/x86/isa.c", "src/x86/init.c", "include/cpuinfo.h"],
     [("CPUID bit decoding and XCR0 masks", "src/x86/isa.c cpuinfo_x86_detect_isa"),
      ("maximum-leaf guards", "src/x86/init.c cpuinfo_x86_init_processor")],
     ["cpuinfo_has_x86_*()"],
     claim="No bound: the encoded path is loop-free over all 32-bit register values and all 64-bit XCR0 values for both x86 "
           "widths; two enumeration leaves irrelevant to features are cut to one entry. Trusts CBMC, the CPUID stand-in "
           "(stable per leaf, arbitrary above the maximum) and the feature-bit table transcribed from the Intel/AMD manuals.")

prop("C02", "x86 topology fields split the APIC ID exactly as the hardware describes",
     "From the CPUID topology information the library derives which APIC ID bits number threads within a core and cores within a package. "
     "Two logical processors fall in the same core (package) exactly when the architecture's documented APIC ID decomposition says so. "
     "Derivation terminates and stays well defined for every CPUID content.",
     ["inputs", "configurations"], "every content of the CPUID topology leaves of Intel and AMD processors, every pair of APIC IDs",
     "Recorded machines are single-package clients with few shift patterns; none has both SMT and several packages.",
     ["src/x86/topology.c"],
     [("leaf 4/0xB/0x80000008 decoding", "src/x86/topology.c cpuinfo_x86_detect_topology")],
     ["cpuinfo_get_processors() core/package pointers", "struct cpuinfo_x86_topology"],
     claim="Up to 3 levels in leaf 0xB and 2 entries in leaf 4, every register value otherwise; both x86 widths. AMD core-ID width (0x80000008 ECX[15:12]) is assumed absent or consistent. Outside: malformed leaf 0xB (levels out of order, shrinking shifts).")

prop("C03", "x86 cache geometry is the one CPUID enumerates",
     "For every processor that enumerates its caches (deterministic cache parameters or the AMD equivalent), each published cache level has "
     "exactly the size, associativity, sets, partitions, line size, inclusiveness and sharing width the matching enumeration entry encodes. "
     "Entries of unknown kind never alter a published level, enumeration stops at the terminating entry, and levels not enumerated stay absent.",
     ["inputs"], "every register content of up to 6 enumeration entries, every vendor and maximum leaf",
     "Recorded dumps contain a handful of cache shapes; wide sharing fields, 4th-level caches, partitions and odd orders never occur.",
     ["src/x86/cache/deterministic.c", "src/x86/cache/init.c"],
     [("entry decoding", "src/x86/cache/deterministic.c"), ("enumeration loop and vendor choice", "src/x86/cache/init.c cpuinfo_x86_detect_cache")],
     ["struct cpuinfo_x86_caches", "cpuinfo_get_l1i_caches() .. cpuinfo_get_l4_caches()"],
     claim="Up to 4 enumeration entries with every register value, vendor and maximum leaf; the size product is decided with one factor symbolic over its whole range and the other three from small sets (SAT cannot compare two products of arbitrary factors). Outside: longer enumerations, products of four arbitrary factors.")

prop("C04", "Legacy x86 cache/TLB descriptors decode to their architected meaning",
     "Every one-byte legacy descriptor yields exactly the cache or TLB structure the architecture manual assigns to it, and leaves everything else untouched. "
     "Every decoded cache satisfies size = associativity * sets * partitions * line size. Unknown and reserved descriptors change nothing.",
     ["inputs"], "every descriptor byte, vendor, family/model and previous state; every content of the legacy descriptor leaf",
     "Tests cover only the few descriptor bytes of recorded old processors.",
     ["src/x86/cache/descriptor.c", "src/x86/cache/init.c"],
     [("descriptor table", "src/x86/cache/descriptor.c cpuinfo_x86_decode_cache_descriptor")],
     ["struct cpuinfo_x86_caches", "struct cpuinfo_tlb fields"],
     claim="No bound for the decoder: every descriptor, vendor, family/model and previous state, both widths. The walk over leaf 2 is decided for one and two reads with every register value, the decoder replaced by a recorder. Trusts the descriptor table transcribed from the Intel SDM and AP-485.")

prop("C05", "x86 vendor, family, model and microarchitecture are decoded consistently",
     "Vendor is recognised exactly from the documented 12-byte vendor strings; family, model and stepping follow the architecture's display-family/model rules. "
     "A microarchitecture is only ever reported together with the vendor that made it, and every documented family/model pair maps to its documented microarchitecture. "
     "All other pairs are reported as unknown, never as a neighbour.",
     ["inputs"], "every vendor string and every processor signature",
     "Tests check only the signatures of recorded devices; most table rows are never executed.",
     ["src/x86/vendor.c", "src/x86/info.c", "src/x86/uarch.c"],
     [("vendor string match", "src/x86/vendor.c"), ("signature fields", "src/x86/info.c"), ("family/model table", "src/x86/uarch.c")],
     ["cpuinfo_get_core()->vendor", "cpuinfo_get_core()->uarch", "cpuinfo_get_core()->cpuid"],
     claim="No bound: every vendor string and every signature whose reserved extended fields are zero, both widths. Trusts the family/model table transcribed from the vendors' documentation; a processor added to the library later needs a row there.")

prop("C06", "x86 package names are always clean, terminated strings",
     "For every 48-byte brand string the published package name is NUL-terminated, fits its field, contains no leading, trailing or repeated spaces unless it was cut to fit, "
     "and is made only of characters of the brand string plus the vendor prefix and separator. Normalising never reads or writes outside the given buffers "
     "and never changes a string that is already clean.",
     ["inputs"], "every content of a bounded-length brand string, terminated or not, and every vendor",
     "The name tests list ~200 literal strings of real processors; malformed or hypervisor-provided brand strings are never tried.",
     ["src/x86/name.c", "src/x86/init.c"],
     [("brand string tokeniser", "src/x86/name.c cpuinfo_x86_normalize_brand_string"), ("name formatting", "src/x86/name.c cpuinfo_x86_format_package_name")],
     ["cpuinfo_get_package()->name"],
     claim="brand strings scaled down from 48 bytes: every 5-byte content, every 6-byte content of letters and separators with the exact result, 15-byte templates with two or three arbitrary bytes; package names of up to 47 characters")

prop("C07", "Kernel text readers deliver the file's content regardless of read chunking",
     "For every file content and every way the kernel splits it into reads, the small-file, multi-line and processor-list readers deliver the same lines, numbers and ranges "
     "the text denotes, stay within their buffers, and close the file exactly once. A failing open or read makes the reader report failure, and malformed input never yields an out-of-range processor.",
     ["inputs", "schedules", "fault_sequences"], "every content up to the bound, every sequence of short reads and read errors, every buffer size used by the library up to the bound",
     "Mocked tests always return whole chunks of real files; short reads, torn lines at chunk borders and read errors are not exercised.",
     ["src/linux/multiline.c", "src/linux/smallfile.c", "src/linux/cpulist.c"],
     [("line splitter with carry-over", "src/linux/multiline.c"), ("whole-file reader", "src/linux/smallfile.c"), ("list parser", "src/linux/cpulist.c")],
     ["callbacks of the readers"],
     claim="Multi-line reader: files up to 5 bytes with buffers of 2, 4 and 8 bytes; small-file reader: files up to 6 bytes, buffers of 1 and 4 bytes; list reader: files up to 4 bytes in arbitrary chunks and 5 bytes in one read, its 256-byte buffer scaled to 8 in the encoding. Every content, chunking and read error within that. Outside: longer files, lines or list entries that do not fit the buffer, numbers of more than 32 bits.")

prop("C08", "System processor lists and numbers are read exactly",
     "The library's view of the kernel's possible/present processor lists, maximum processor count, frequencies, package and core identifiers equals what the kernel text says, "
     "for every well-formed text. Malformed or unreadable files produce the documented fallback, never a wrong number, and no flag is set for a processor outside the known range.",
     ["inputs", "fault_sequences"], "every text up to the bound for each sysfs file; every processor array size up to the bound; missing and failing files",
     "Mock files come from real phones and are all well formed with few shapes.",
     ["src/linux/processors.c"],
     [("number parser", "src/linux/processors.c uint32_parser"), ("list callbacks", "src/linux/processors.c")],
     ["cpuinfo_linux_get_max_possible_processor and siblings"],
     claim="Texts up to 11 bytes denoting a number below 2^32-1 or anything else; lists of up to 3 ranges; up to 4 processors; a few fixed processor numbers in file names. The file readers (property C07) are replaced by stand-ins handing over arbitrary text, ranges or failure.")

prop("C09", "x86 /proc/cpuinfo is parsed exactly and safely",
     "For every /proc/cpuinfo text, each processor entry gets exactly the APIC ID its own lines state and is marked as seen; entries beyond the known processor count and unrelated or malformed lines "
     "change nothing. Parsing stays within its buffers for every text.",
     ["inputs"], "every line content up to the bound and every sequence of up to 4 lines",
     "Mock /proc/cpuinfo files are verbatim copies of healthy machines.",
     ["src/x86/linux/cpuinfo.c"],
     [("line parser", "src/x86/linux/cpuinfo.c parse_line")],
     ["cpuinfo_x86_linux_parse_proc_cpuinfo"],
     claim="One arbitrary line of up to 14 bytes between ordinary ones, and sequences of four lines with three arbitrary value bytes each; 3 processors. The line splitter (C07) is replaced by a stand-in. Outside: longer values, a 'processor' line whose value does not start with a digit.")

prop("C10", "The published x86 topology is a consistent hierarchy",
     "After successful initialisation on x86 Linux, every logical processor belongs to exactly one core, cluster and package that list it; starts and counts partition the processors, cores and clusters; "
     "processors sharing a cache are exactly those whose APIC IDs the cache's sharing width joins. Every per-system-processor lookup returns the processor with that system identifier or nothing, and exactly the processors the kernel reports as usable are published.",
     ["inputs", "configurations"], "every set of up to 4 processors with arbitrary APIC IDs and usability flags, arbitrary topology and cache sharing widths",
     "Mocks contain a dozen regular machines; offline processors, gaps in APIC IDs, and several packages never occur.",
     ["src/x86/linux/init.c"],
     [("APIC ID sort and grouping", "src/x86/linux/init.c cpuinfo_x86_linux_init")],
     ["cpuinfo_get_processors/cores/clusters/packages/l*_caches"],
     claim="Linux; up to 3 processors with arbitrary APIC IDs, validity flags, field widths (package names: C06); caches one level at a time with arbitrary sharing widths. Four processors and all levels together in the thorough tier. Outside: Windows, macOS and FreeBSD front ends, APIC ID 0xFFFFFFFF.")

prop("C11", "Failed initialisation publishes nothing and leaks nothing",
     "Whenever any file read or memory allocation fails during initialisation, or the system exposes no usable processor, the library neither crashes nor reads invalid memory; it either completes with documented fallbacks or reports failure with no topology published. "
     "Every allocation that is not published is released, and nothing published is ever released.",
     ["fault_sequences", "configurations"], "every subset of failing allocations and files during one initialisation, for x86, ARM and RISC-V Linux",
     "No test injects an allocation or file failure.",
     ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/riscv/linux/init.c", "src/init.c"],
     [("cleanup paths", "the cleanup labels of the three init functions"), ("commit-last publication", "the commit blocks of the three init functions")],
     ["cpuinfo_initialize() result", "cpuinfo_get_*_count()", "allocator calls"],
     claim="Linux on x86 (2 processors), RISC-V (3 processors) and 64-bit ARM (2 processors), every subset of failing allocations and kernel files. Outside: other operating systems, more processors.")

prop("C12", "ARM /proc/cpuinfo is parsed exactly and safely",
     "For every ARM /proc/cpuinfo text each processor receives exactly the implementer, variant, part, revision, architecture and feature values its own lines state, every recognised feature word sets precisely its documented capability, "
     "and malformed, oversized or unknown lines are ignored. Hardware and revision strings are stored truncated and terminated without touching memory outside their fields.",
     ["inputs"], "every line content up to the bound, every sequence of a few lines, 32- and 64-bit ARM",
     "Mock files are verbatim copies of healthy phones.",
     ["src/arm/linux/cpuinfo.c"],
     [("line parser", "src/arm/linux/cpuinfo.c parse_line"), ("features parser", "src/arm/linux/cpuinfo.c parse_features"), ("cpu part/implementer/variant parsers", "src/arm/linux/cpuinfo.c")],
     ["cpuinfo_arm_linux_parse_proc_cpuinfo"],
     claim="Arbitrary lines of up to 11 bytes; for the recognised keys arbitrary values of 5 to 12 bytes (features: 9), Hardware and Revision around their length limits; one such line between two ordinary ones, 2 processors. Outside: longer feature lists, sequences of several arbitrary lines, unparsable processor numbers (the kernel prints none).")

prop("C13", "ARM core identification maps each ID register to its documented core",
     "Every documented implementer/part combination is reported as its documented vendor and microarchitecture; a reported microarchitecture always belongs to a vendor that ships it; "
     "anything else is reported as unknown rather than as a neighbouring core. Decoding is total over all 32-bit ID register values.",
     ["inputs", "configurations"], "all 2^32 main ID register values, both VFP settings, 32- and 64-bit ARM",
     "Device mocks exercise a few dozen ID values.",
     ["src/arm/uarch.c", "src/arm/midr.h"],
     [("implementer/part switch", "src/arm/uarch.c cpuinfo_arm_decode_vendor_uarch"), ("field accessors and cluster-role scoring", "src/arm/midr.h")],
     ["cpuinfo_get_core()->vendor", "cpuinfo_get_core()->uarch", "cpuinfo_get_core()->midr"],
     claim="No bound: loop-free, every ID register value on both widths and both VFP settings. Trusts the implementer/part table transcribed from vendor documentation; a core added to the library later needs a row there.")

prop("C14", "ARM core-to-cluster and ID inference never contradicts what the kernel reported",
     "For every combination of reported and missing cluster, frequency and core-ID information, cluster and ID inference keeps every core ID the kernel did report, gives every usable processor a cluster leader in the same cluster, "
     "gives all processors of a cluster the same ID unless the kernel reported different ones, and stays within its arrays.",
     ["inputs", "histories"], "every combination of validity flags, identifiers and frequencies for up to 8 processors",
     "Mocks cover the report patterns of recorded phones only.",
     ["src/arm/linux/clusters.c", "src/arm/linux/midr.c"],
     [("cluster detection from heuristics and sequential scan", "src/arm/linux/clusters.c"), ("MIDR inference", "src/arm/linux/midr.c")],
     ["per-processor cluster leader and MIDR used for publication"],
     claim="Cluster inference for every combination of known facts about up to 8 processors; ID inference for up to 4 processors in arbitrary clusters, and for every known chipset in its usual arrangement of 4 to 10 processors. Clusters reported by the kernel are assumed to hold one kind of core.")

prop("C15", "The published ARM topology is a consistent hierarchy",
     "After successful initialisation on ARM Linux, exactly the usable processors are published, every processor points to one core and cluster that list it, starts and counts partition processors, cores and clusters, clusters are homogeneous, and cache sharing ranges tile the processors they serve. "
     "Every per-system-processor lookup returns the processor with that system identifier or nothing, and microarchitecture indices are in range and agree with the cores' microarchitectures.",
     ["inputs", "configurations"], "every arrangement of up to 3 processors, their validity flags, core IDs, clusters and frequencies",
     "Mocks cover regular phones with all processors online.",
     ["src/arm/linux/init.c"],
     [("sort, grouping and cache attachment", "src/arm/linux/init.c cpuinfo_arm_linux_init")],
     ["cpuinfo_get_processors/cores/clusters/uarchs/l*_caches", "cpuinfo_get_current_uarch_index"],
     claim="Up to 3 processors (64-bit) and 2 processors (32-bit), with every combination of reported facts, cache sizes per cluster from three values each. Core, cache and chipset tables and the feature decoder are stand-ins (properties C13, C16, C17). Outside: Android, more processors.")

prop("C16", "ARM feature queries report exactly what the kernel announced",
     "On ARM Linux, every public feature query is true exactly when the kernel's capability words (or, on 32-bit, the documented architecture-version rules) announce the feature, apart from the documented exclusions for processors with known-broken implementations. "
     "A feature is never reported on the basis of unrelated bits.",
     ["inputs", "configurations"], "all values of both capability words, vector length values, all main ID values, all chipsets, architecture versions and flags, 32- and 64-bit",
     "Mocks use the capability words of recorded phones; SVE/SME/newer bits appear in none.",
     ["src/arm/linux/aarch64-isa.c", "src/arm/linux/aarch32-isa.c", "include/cpuinfo.h"],
     [("capability bit decoding", "src/arm/linux/aarch64-isa.c, src/arm/linux/aarch32-isa.c")],
     ["cpuinfo_has_arm_*()"],
     claim="No bound: every capability word, ID value, chipset, architecture version and vector length, 64-bit and 32-bit (ARMv6 and ARMv7 builds); the FPSID and WCID registers read as arbitrary values. Outside: the /proc/cpuinfo fallback of old Android.")

prop("C17", "ARM cache descriptions are always self-consistent and match documented cores",
     "For every microarchitecture, chipset, core count, ID register and architecture version the reported L1, L2 and L3 satisfy size = associativity * sets * line size * partitions with power-of-two line sizes, L1 data and instruction caches are always present, "
     "cache levels never shrink outward, and sizes lie within what the core's documentation allows. The maximum cache size estimate is never below any cache reported for that core.",
     ["inputs", "configurations"], "every value of every argument of the cache decoder",
     "Mocks cover a few dozen chipsets; most core/chipset branches are never executed.",
     ["src/arm/cache.c", "src/cache.c"],
     [("per-core cache table", "src/arm/cache.c cpuinfo_arm_decode_cache"), ("maximum cache size", "src/arm/cache.c cpuinfo_arm_compute_max_cache_size")],
     ["cpuinfo_get_l1i_cache() .. cpuinfo_get_l3_cache()", "cpuinfo_get_max_cache_size()"],
     claim="every core, chipset, architecture version and register value; 64-bit and 32-bit builds; clusters of up to 64 cores or the core's own limit; documented ranges and published sizes transcribed from manuals")

prop("C18", "ARM chipset decoding is safe and self-consistent for every identification string",
     "For every hardware and revision string, core count and frequency the chipset decoder stays within its inputs and returns exactly the vendor, series, model and suffix its documented patterns give, "
     "with the documented misreports corrected; a string matching no pattern yields unknown. A chipset prints as its vendor, series, model and suffix, terminated within the buffer.",
     ["inputs"], "every string up to the bound, every processor count and frequency",
     "The chipset test lists literal strings of known devices; near-miss strings are never tried.",
     ["src/arm/linux/chipset.c"],
     [("pattern matchers", "src/arm/linux/chipset.c match_*"), ("post-correction", "src/arm/linux/chipset.c cpuinfo_arm_fixup_chipset"), ("printing", "src/arm/linux/chipset.c cpuinfo_arm_chipset_to_string")],
     ["cpuinfo_get_package()->name"],
     claim="Hardware strings: every string of up to 7 bytes, and per documented family a template of up to 20 bytes with the deciding bytes arbitrary; every core count, frequency and (Broadcom) revision string; 64-bit and 32-bit Linux builds. Printing: every documented series, models up to 99999. Android property disambiguation and the Tegra board table are outside the claim.")

prop("C19", "The published RISC-V topology is a consistent hierarchy",
     "After successful initialisation on RISC-V Linux, exactly the processors the kernel lists are published; every processor points to the core, cluster and package that list it, starts and counts partition the published arrays, "
     "and each per-system-processor lookup returns the processor with that system identifier or nothing.",
     ["inputs", "configurations"], "every arrangement of up to 4 processors with arbitrary core, cluster and package sibling lists",
     "No RISC-V test is ever run.",
     ["src/riscv/linux/init.c", "src/linux/processors.c"],
     [("leader-based grouping", "src/riscv/linux/init.c cpuinfo_riscv_linux_init")],
     ["cpuinfo_get_processors/cores/clusters/packages"],
     claim="Linux; up to 4 processors, every nested grouping and every set of present processors. The list readers are replaced by stand-ins (C07, C08). Outside: processors of different known microarchitectures (the library knows none on RISC-V), thread numbers within a core (never set by the library).")

prop("C20", "RISC-V features and core identity are exactly those announced by the kernel",
     "On RISC-V Linux each standard-extension query is true exactly when the kernel's capability word or probe result announces the extension; vendor and microarchitecture follow the documented vendor, architecture and implementation identifiers, and unknown identifiers yield unknown.",
     ["inputs", "fault_sequences"], "every capability word, every identifier triple, every success/failure pattern of the kernel probe",
     "No RISC-V test is ever run.",
     ["src/riscv/linux/riscv-isa.c", "src/riscv/linux/riscv-hw.c", "src/riscv/uarch.c"],
     [("capability bits", "src/riscv/linux/riscv-isa.c"), ("kernel probe", "src/riscv/linux/riscv-hw.c"), ("identifier table", "src/riscv/uarch.c")],
     ["cpuinfo_has_riscv_*()", "cpuinfo_get_core()->vendor", "cpuinfo_get_core()->uarch"],
     claim="All capability words; all probe results for processors 0 to 1023 with mvendorid of 32 bits.")

prop("C21", "Public accessors are gated, bounded and stable",
     "Before successful initialisation no accessor hands out data: it stops the program or returns its documented neutral value. Afterwards every indexed accessor returns an element exactly for indices below the matching count and nothing otherwise, "
     "the current-processor accessors never return anything but an element of the published arrays or nothing, and initialisation runs its platform probe at most once however often and from however many threads it is called.",
     ["inputs", "histories", "schedules"], "every index, every published count, every result of the operating system's current-processor query, every order of initialise/deinitialise/access calls up to the bound, two concurrent initialisers",
     "Tests only query valid indices after one initialisation.",
     ["src/api.c", "src/init.c"],
     [("initialised flag", "src/api.c, src/init.c cpuinfo_is_initialized"), ("run-once initialisation", "src/init.c cpuinfo_initialize")],
     ["all cpuinfo_get_* functions"],
     claim="arrays of up to 3 elements, every index; every sequence of up to 5 calls; two concurrent callers with every sequentially consistent interleaving, pthread_once as POSIX specifies it; Linux x86, ARM, RISC-V and Emscripten builds")

prop("C22", "A log message is written once, whole, and only at enabled levels",
     "Every log call at an enabled level writes its prefix, the complete formatted message and one newline to the level's stream exactly once, for every message length; a call below the level writes nothing. "
     "No call overflows its buffer or leaks memory, whether the message fits the stack buffer, needs the heap or the heap is exhausted.",
     ["inputs", "fault_sequences"], "every formatted length and allocation outcome, every level setting and module name up to the bound",
     "The logging tests print one short message per level.",
     ["src/log.c", "deps/clog/src/clog.c"],
     [("two-stage formatting", "src/log.c cpuinfo_vlog, deps/clog/src/clog.c clog_vlog_*")],
     ["bytes written to the standard streams"],
     claim="messages of up to 2500 characters at every log level, with every allocation and formatting outcome; clog module names of 7 characters and of the stack buffer's size (thorough: up to 1100)")

prop("C23", "The published Emscripten topology is a consistent hierarchy",
     "For every number of logical processors and every memory/alignment probe result of a WebAssembly host, the published arrays have exactly the published counts, every processor, core, cluster and cache reference stays inside them, and starts and counts partition the processors.",
     ["inputs", "configurations"], "every processor count up to the bound, both detected host kinds",
     "The Emscripten port is not compiled or tested by the build here.",
     ["src/emscripten/init.c"],
     [("synthetic topology", "src/emscripten/init.c cpuinfo_emscripten_init")],
     ["cpuinfo_get_processors/cores/clusters/l*_caches"],
     claim="up to 9 logical processors, both host kinds; allocation failures with up to 3 processors")

prop("C24", "Apple and FreeBSD topology probes publish consistent counts",
     "Whatever the operating system's topology query returns (missing, failing, zero, inconsistent or huge values), the detected topology has at least one package, no more packages than cores and no more cores than threads, or detection reports failure; parsing the topology description stays within the returned text.",
     ["inputs", "fault_sequences"], "every value and failure of each system query, every description text up to the bound",
     "Neither port is compiled or tested by the build here.",
     ["src/mach/topology.c", "src/freebsd/topology.c"],
     [("query normalisation", "src/mach/topology.c cpuinfo_mach_detect_topology, src/freebsd/topology.c cpuinfo_freebsd_detect_topology")],
     ["struct cpuinfo_mach_topology", "struct cpuinfo_freebsd_topology"],
     claim="every value and failure of each query (FreeBSD: one factor of the thread count at most 7), up to 10 cache configurations, FreeBSD descriptions of three groups with four arbitrary characters")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": p["hook"]}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["tests"], "anchors": a}) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash tools/setup.sh",
         "checks": [{"property": p["id"],
                     "quick_cmd": "python3 tools/vf.py check %s" % p["id"],
                     "thorough_cmd": "python3 tools/vf.py check %s --tier thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": TECH, "level": "other", "level_note": p["claim"]} for p in P if p["claim"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check built yet"} for p in P if not p["claim"]],
         "notes": "No hooks in /repo: environments are replaced by macros in a force-included header (lib/prelude.h)."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(VERIF, "properties.jsonl")):
            jsonschema.validate(json.loads(l), s)
        print("valid:", len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
    except ImportError:
        print("written (jsonschema not available to validate)")


if __name__ == "__main__":
    main()
