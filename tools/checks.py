# Build variants (compiler, extra flags, full CFLAGS override) and the checks' parameters.
STD = "-std=c11 -D_DEFAULT_SOURCE "
VARIANTS = {
    "d": ("gcc", "", ""), "c": ("clang", "", ""),
    "u": ("gcc", "-DT1HA_SYS_UNALIGNED_ACCESS=0", ""), "s": ("gcc", "-DT1HA_SYS_UNALIGNED_ACCESS=1", ""),
    "o": ("gcc", "-DT1HA_USE_FAST_ONESHOT_READ=0", ""), "uo": ("gcc", "-DT1HA_USE_FAST_ONESHOT_READ=0 -DT1HA_SYS_UNALIGNED_ACCESS=0", ""),
    "p": ("gcc", "-DT1HA_USE_INDIRECT_FUNCTIONS=0", ""), "i": ("gcc", "-DT1HA_USE_INDIRECT_FUNCTIONS=1", ""),
    "a": ("gcc", "-DT1HA0_AESNI_AVAILABLE=0", ""), "r": ("gcc", "-DT1HA0_RUNTIME_SELECT=0", ""),
    "g": ("gcc", "", STD + "-O0"), "z": ("clang", "-DT1HA_SYS_UNALIGNED_ACCESS=0", STD + "-Os -DNDEBUG"),
    "cu": ("clang", "-DT1HA_SYS_UNALIGNED_ACCESS=0", ""), "cs": ("clang", "-DT1HA_SYS_UNALIGNED_ACCESS=1", ""),
    "co": ("clang", "-DT1HA_USE_FAST_ONESHOT_READ=0", ""), "so": ("gcc", "-DT1HA_USE_FAST_ONESHOT_READ=0 -DT1HA_SYS_UNALIGNED_ACCESS=1", ""),
    "cuo": ("clang", "-DT1HA_USE_FAST_ONESHOT_READ=0 -DT1HA_SYS_UNALIGNED_ACCESS=0", ""), "cso": ("clang", "-DT1HA_USE_FAST_ONESHOT_READ=0 -DT1HA_SYS_UNALIGNED_ACCESS=1", ""),
    "up": ("gcc", "-DT1HA_USE_INDIRECT_FUNCTIONS=0 -DT1HA_SYS_UNALIGNED_ACCESS=0", ""), "ap": ("clang", "-DT1HA_USE_INDIRECT_FUNCTIONS=0", ""),
    "q": ("gcc", "", STD + "-O1 -DNDEBUG"), "x": ("clang", "", STD + "-O2 -DNDEBUG -march=native"),
    "n0": ("gcc", "-DT1HA0_DISABLED", ""), "n1": ("gcc", "-DT1HA1_DISABLED", ""), "n2": ("gcc", "-DT1HA2_DISABLED", ""), "n12": ("gcc", "-DT1HA1_DISABLED -DT1HA2_DISABLED", ""), "n1p": ("clang", "-DT1HA1_DISABLED -DT1HA_USE_INDIRECT_FUNCTIONS=0", ""),
    "sa": ("gcc", "-D__SANITIZE_ADDRESS__=1", ""), "sau": ("gcc", "-D__SANITIZE_ADDRESS__=1 -DT1HA_SYS_UNALIGNED_ACCESS=0", ""), # the paths of sanitized builds
    "y": ("gcc", "", "-std=gnu11 -O3 -DNDEBUG -march=native"), "k": ("clang", "", "-std=gnu99 -O1 -DNDEBUG -funsigned-char"), # GNU dialects, as compilers default to
    "as": ("gcc", "-DT1HA0_AESNI_AVAILABLE=0 -DT1HA0_RUNTIME_SELECT=1", ""), "asp": ("clang", "-DT1HA0_AESNI_AVAILABLE=0 -DT1HA0_RUNTIME_SELECT=1 -DT1HA_USE_INDIRECT_FUNCTIONS=0", ""), "rd": ("clang", "-DT1HA0_RUNTIME_SELECT=0 -DT1HA0_USE_DEFINE=1", ""),
}
REAL = ["all of src/*.c, compiled by the project's Makefile in the listed variants, machine code executed unmodified"]
LOADER = "dynamic loader (custom in-process loader: relocation, ifunc resolution, constructors, TLS, image snapshots = process restart)"
SCHED = "thread scheduler, interrupts and signal delivery (single-stepped with the x86 trap flag, one instruction at a time)"
A0 = ["the reference model (sim/model.cc) equals the published algorithms; it is validated against all 10x81 pinned vectors", "host CPU semantics (instruction-level execution is real)"]
DST = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": dict(technique=DST + "simulated transport fragments, interleaves and destroys buffers; refinement against a reference model", note="seeded search over deliveries; every digest compared with an independent reference model of the published algorithm; real library code of eleven builds in both word sizes. Trusts the model (validated against all pinned vectors) and the simulated loader.", variants=["d", "c", "u", "s", "o", "uo", "p", "g", "z", "y", "k"], quick={64: 150000, 32: 100000}, thorough={64: 6000000, 32: 4000000}, cross=True, real=REAL, stub=["the transport (fragmentation, buffers' fates) and the process address space are simulated", LOADER], assumptions=A0),
 "C02": dict(technique=DST + "crash at any instruction, restart from checkpoints; refinement against the uninterrupted stream", note="seeded search over crash instructions, checkpoints, restores at other addresses/in fresh library images and forks; real library code stepped one instruction at a time. Trusts the model and the simulated loader.", variants=["d", "c", "u", "s", "o", "uo", "g", "z"], quick={64: 300000, 32: 220000}, thorough={64: 6000000, 32: 4000000}, real=REAL, stub=["process crash and restart, durable checkpoint storage", LOADER, SCHED], assumptions=A0),
 "C03": dict(technique=DST + "seeded instruction-level thread scheduler, histories; each result checked against the same call alone", note="seeded search over instruction-level interleavings and call histories of the real machine code. Sequentially consistent interleavings only; races attracted to writes of library statics.", variants=["d", "c", "u", "o", "p", "a", "g"], quick={64: 18000, 32: 9000}, thorough={64: 800000, 32: 400000}, real=REAL, stub=[SCHED, LOADER], assumptions=A0 + ["sequentially consistent interleavings of instructions (no weak-memory reordering; memcpy of the C library advances in 8-64 byte steps)"]),
 "C04": dict(technique=DST + "signals, nested handlers, non-local exits and thread kills at seeded instructions", note="seeded search over interruption and abandonment points at instruction granularity. A lock or a static buffer shows as a deadlock or a wrong result.", variants=["d", "c", "u", "o", "p", "a", "g"], quick={64: 20000, 32: 10000}, thorough={64: 800000, 32: 400000}, real=REAL, stub=[SCHED, LOADER], assumptions=A0 + ["EFLAGS.ID is treated as part of the interrupted context"]),
 "C05": dict(technique=DST + "neighbouring memory rewritten before and during calls at seeded instructions", note="seeded search over functions, lengths, addresses, surroundings and mid-call rewrites; compares with the same key elsewhere. Dense sweeps of short lengths and page offsets inside each run.", variants=["d", "c", "u", "s", "o", "uo", "g", "z", "cu", "cs", "so", "sa", "sau", "y"], quick={64: 24000, 32: 20000}, thorough={64: 1000000, 32: 800000}, real=REAL, stub=["the memory around the keys (other writers), address space layout", LOADER, SCHED], assumptions=A0),
 "C06": dict(technique=DST + "unmapped, read-only and demand-paged memory around keys; canaries", note="seeded search over functions, builds, lengths, addresses with real memory protection; any foreign access faults. Writes to foreign pages are seen only if unmapped/read-only or a canary.", variants=["d", "c", "u", "s", "o", "uo", "g", "z", "cu", "cs", "so", "sa", "sau", "y"], quick={64: 120000, 32: 90000}, thorough={64: 1500000, 32: 1000000}, real=REAL, stub=["virtual memory around the keys (unmapped, read-only and demand-paged pages)", LOADER], assumptions=A0),
 "C07": dict(technique=DST + "simulated CPUID/XCR0 machines, every instruction checked against the simulated CPU, process start to self-check", note="seeded search over CPU and OS configurations; the real start-up, dispatch and hash code is executed instruction by instruction. In most runs the self-checks call feature-checking stand-ins instead of the hash functions. Trusts the instruction classifier (sim/decode.cc).", variants=["d", "c", "p", "i", "a", "r", "u", "n1", "n2", "n12", "n1p", "as", "asp", "rd"], quick={64: 16000, 32: 14000}, thorough={64: 1000000, 32: 800000}, real=REAL, stub=["CPU identification (CPUID, XGETBV, EFLAGS.ID) and availability of instructions", "hash functions called by the self-checks in most runs", LOADER], assumptions=A0 + ["instruction classifier sim/decode.cc", "CPU features beyond the host's own cannot be simulated"]),
 "C08": dict(technique=DST + "simulated loader and start-up, seeded constructor orders, threads and signals at instruction granularity", note="seeded search over start-up orders and instruction-level interleavings in indirect-function and function-pointer builds on simulated CPUs. Sequentially consistent memory.", variants=["d", "c", "p", "i", "ap", "up", "r", "n1", "n1p", "n12", "as", "asp", "rd"], quick={64: 14000, 32: 12000}, thorough={64: 1000000, 32: 800000}, real=REAL, stub=[LOADER, SCHED, "CPU identification"], assumptions=A0 + ["sequentially consistent interleavings of instructions"]),
 "C09": dict(technique=DST + "malfunctions injected into the hash functions at their entry, appearing and disappearing between calls; verdict compared with the expected one", note="seeded search over functions x vectors x wrong values, combinations and histories; all self-check functions. The hash functions are stand-ins, the self-check code is real. Verdicts on other CPUs by stepped simulation.", variants=["d", "c", "p", "a", "r", "u", "q", "n0", "n1", "n2", "n12", "n1p", "as", "rd"], quick={64: 60000, 32: 50000}, thorough={64: 3000000, 32: 2500000}, real=["the self-check code (src/*selfcheck*.c), reference tables, all build variants"], stub=["the hash functions (model plus injected malfunction)", LOADER, "CPU identification in the stepped runs"], assumptions=A0 + ["a reference vector is recognised by its length and seed"]),
 "C10": dict(technique=DST + "simulated storage and wire faults (flips, torn/lost/stale/misdirected blocks, reordering, truncation, extension, wrong seed) against record digests", note="seeded search over records, functions, builds and fault sequences; a kept digest is excused only if the reference model collides as well.", variants=["d", "c", "u", "o", "uo", "g", "z"], quick={64: 64000, 32: 44000}, thorough={64: 1500000, 32: 1000000}, real=REAL, stub=["storage and transport of records", LOADER], assumptions=A0),
 "C11": dict(technique=DST + "simulated cluster of nodes on 34 builds in two word sizes with rolling restarts and delayed, reordered, duplicated deliveries; refinement against the published algorithm", note="seeded search over builds, keys, lengths, seeds, addresses and deliveries; extreme multiplication operands crafted from the model's state; keys beyond 4 GiB. Compilers limited to the installed gcc and clang.", variants=list(VARIANTS), quick={64: 240000, 32: 150000}, thorough={64: 8000000, 32: 6000000}, cross=True, real=REAL, stub=["the network between the nodes, node restarts and the address space are simulated", LOADER], assumptions=A0),
 "C12": dict(technique=DST + "the tool's main() in process with simulated standard streams, allocation and exit: short, interrupted and failing reads and writes, full disks, broken pipes, allocation failures; output compared with the digests of the lines", note="seeded search over inputs, options and fault sequences of the real tool (tests/main.c), libc's stdio is real. Two defects of the tool are listed as known findings (tests/ cannot be edited).", variants=["d"], tool=True, quick={64: 60000, 32: 40000}, thorough={64: 2000000, 32: 1500000}, real=["tests/main.c and the rest of the tool, the library, libc's stdio (getline, printf, buffering)"], stub=["file descriptors behind stdin, stdout, stderr", "malloc and realloc (real heap, failures injected)", "process exit (final flush)"], assumptions=["an error read() reports once may be followed by more data (EAGAIN, EINTR)"] + A0[:1]),
 "C13": dict(technique=DST + "the tool's clock probing and measurement loop on simulated clocks, sleeps, signals and a simulated time-stamp counter: missing, stalled, stepping, backward-running and failing sources, preemptions, core migrations, failing system calls", note="seeded search over clock configurations and disturbances of the real tests/mera.c; termination within a bounded number of readings, choice of a working source, accuracy of the estimate under delays. Two defects of the tool are listed as known findings (tests/ cannot be edited).", variants=["d"], tool=True, quick={64: 5200, 32: 2800}, thorough={64: 300000, 32: 150000}, real=["tests/mera.c (clock probing and measurement), libc's sigsetjmp/siglongjmp"], stub=["clock_gettime, gettimeofday, time, nanosleep, rdtsc, rdtscp, rdpmc, perf events, sigaction and signal delivery, affinity and prctl", "the measured function (a known duration)"], assumptions=["a clock instruction that faults does so during probing, not later"]),
 "C14": dict(technique=DST + "callers with poisoned registers, stack and processor modes and almost no stack left; each result compared with an ordinary caller's", note="seeded search over functions, builds, keys and caller states; the real machine code is entered through a trampoline that sets every register, flag and control word and checks them afterwards. Trusts the trampoline; alignment checking (EFLAGS.AC) stays off.", variants=["d", "c", "u", "o", "uo", "p", "g", "z", "q", "cu", "a", "r", "y", "sau"], quick={64: 300000, 32: 240000}, thorough={64: 10000000, 32: 8000000}, real=REAL, stub=["the calling thread: its stack, registers, flags and floating-point modes", LOADER], assumptions=["a caller obeys the calling convention (aligned stack, direction flag clear, empty x87 stack)"]),
 "C15": dict(technique=DST + "threads stopped, preempted and interrupted at seeded instructions, hostile keys and long histories; progress within a bounded number of the call's own instructions", note="seeded search over schedules, stopped threads, contents and histories; instructions of every call are counted by the simulated machine.", variants=["d", "c", "u", "o", "p", "a", "g", "z"], quick={64: 7500, 32: 4000}, thorough={64: 400000, 32: 250000}, real=REAL, stub=[SCHED, LOADER], assumptions=["one instruction of the simulated machine is one unit of work; a step of memcpy or memset (8-64 bytes) counts as one", "64 MiB and longer keys are not single-stepped; the bound is checked up to 80 KB and rests on the loops being the same beyond"]),
 "C16": dict(technique=DST + "simulated operating system that refuses memory, files, clocks, random numbers and system calls and gives arbitrary answers; result compared with an ordinary process", note="seeded search over calls, builds and refused requests. On a correct library no request is ever made, so the faults wait without being asked for; the count of requests is in the evidence.", variants=["d", "c", "u", "s", "o", "uo", "p", "i", "a", "g", "z", "n1", "sa"], quick={64: 24000, 32: 16000}, thorough={64: 1000000, 32: 700000}, real=REAL, stub=["the C library's services and system calls the library may ask for (heap, files, environment, clocks, identity, output)", LOADER, SCHED], assumptions=["services not in sim/os.cc's table are answered by the real C library", "system-call instructions inside natively executed runs (four fifths) are not seen; the single-stepped runs see them"]),
}

NA = {
 "C90": "Statistical hash quality (SMHasher, avalanche) is a property of the mathematical function over all keys: no schedule, fault, clock, I/O or second party is involved, so simulation with fault injection has nothing to decide; C11 pins the functions to the published ones whose quality was measured.",
 "C91": "Real elapsed time on real CPUs: a simulator replaces the very clock and processor the property is about, so it cannot decide it; which implementation is selected is decided by C07.",
 "C92": "No big-endian or non-x86 compiler, C library or emulator is installed, and the simulator executes machine code of the host; the portable code paths that x86 builds can select are covered by C11.",
}
NOTES = "One simulator (sim/*.cc) hosts the library's unmodified machine code (built by the project's own Makefile in many variants and both word sizes) behind a custom loader; no hooks in /repo. See DESIGN.md. Replay: python3 run_check.py --replay FILE."
