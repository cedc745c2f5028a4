#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the long texts stay readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

prop("C01", "Stream digest depends only on the bytes and seeds, never on delivery",
"""For every sequence of bytes and pair of seeds, feeding the sequence through t1ha2_init / t1ha2_update / t1ha2_final yields
the same published t1ha2 streaming digest (64-bit, and both halves of the 128-bit one), however the transport fragments the
bytes into update calls: short reads, empty pieces, single bytes, pieces of several GiB, pieces at any address and alignment,
and any number of calls. Any number of streams may be in progress in alternation without affecting one another. Once an
update call has returned, its buffer may be overwritten, freed or unmapped without any effect on the digest.""",
["inputs", "histories", "fault_sequences"],
"""all byte sequences up to beyond 4 GiB, all cuts of them into update calls, all alternations of several streams, all buffer
addresses and every fate of a buffer after its call returned""",
"""The existing tests feed each of 81 fixed patterns in exactly one update call with seed_x == seed_y, never look at the second
half of the 128-bit result, and never reuse a buffer or run two streams at once: no fragmentation is ever exercised.""",
["src/t1ha2.c", "t1ha.h", "src/t1ha_bits.h"],
[("t1ha2_update carries an incomplete 32-byte block between calls", "src/t1ha2.c:t1ha2_update"),
 ("t1ha2_final appends the bit length and finishes", "src/t1ha2.c:t1ha2_final")],
["t1ha2_init", "t1ha2_update", "t1ha2_final"],
[("t1ha_context_t.partial", "number of bytes buffered from earlier updates (0..31)", "t1ha.h"),
 ("t1ha_context_t.buffer", "the bytes of the incomplete block", "t1ha.h"),
 ("t1ha_context_t.total", "bytes seen so far", "t1ha.h")])

prop("C02", "A stream context is a complete, relocatable checkpoint",
"""A byte copy of a t1ha_context_t taken between calls is a complete checkpoint of its stream: after a crash at any instruction
of a later call, continuing from the copy - at another address, in another thread, or in a new process running the same build of the
library - and feeding the remaining bytes yields exactly the digest of the uninterrupted stream. Copies (forks) of one
context can be continued and finished independently, in any order, without affecting each other, and t1ha2_init makes a context
usable whatever bytes its memory held before.""",
["crash_points", "histories", "schedules"],
"""every instruction of every init/update/final call as the crash point, every checkpoint before it, every address the
checkpoint is restored to, every sequence of forks, and every prior content of the context's memory""",
"""The existing tests never copy, move or restore a context and never interrupt a call; every context they use is a
fresh stack variable used straight through.""",
["src/t1ha2.c", "t1ha.h"],
[("all stream state lives in t1ha_context_t; no pointers and no library-side state", "src/t1ha2.c"),
 ("t1ha2_init sets every field later read", "src/t1ha2.c:t1ha2_init")],
["t1ha2_init", "t1ha2_update", "t1ha2_final", "bytes of t1ha_context_t"],
[("t1ha_context_t", "state, buffer, partial, total", "t1ha.h")])

prop("C03", "Concurrent and earlier calls never influence a result",
"""Any number of threads may call any of the hash functions, the streaming functions (each on its own context), t1ha0 and the self-checks at the same
time, on private or shared read-only keys: under every interleaving of their instructions each call returns exactly what the
same call returns when run alone in a fresh process. The same holds for every history of earlier calls in the process: no
call's result depends on which calls were made before it.""",
["schedules", "histories"],
"""all interleavings, at instruction granularity, of concurrent calls to all public functions, and all sequences of earlier
calls (with equal, overlapping, reused or modified-in-between buffers)""",
"""The existing tests are single-threaded, and each makes one fixed sequence of calls in one fixed order; no
interleaving and no alternative history is ever run.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_selfcheck.c"],
[("hash functions keep all state in registers, on the stack, or in the caller's context", "src/*.c")],
["all public functions"])

prop("C04", "Calls may be interrupted, re-entered and abandoned at any instruction",
"""A signal or interrupt handler that runs at any instruction of any hash, streaming or t1ha0 call may itself call any of the hash, streaming and
t1ha0 functions (on its own keys and contexts): both the handler's calls and the interrupted call return exactly what they return
when run alone. A call abandoned at any instruction - its thread killed or the handler leaving by a non-local jump - leaves
every other stream context and every later call unaffected.""",
["schedules", "crash_points", "fault_sequences"],
"""every instruction of every call as interruption point, every call made from the handler (nested handlers too), on the same
thread and stack; every instruction as the point of abandonment, and every later call""",
"""No existing test interrupts a call or abandons one half-way; a per-thread scratch area or a lock would pass
them all, and would even survive a multi-threaded test.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h"],
[("no static, thread-local or locked state in any hash function", "src/*.c")],
["t1ha0*", "t1ha1_*", "t1ha2_*"])

prop("C05", "Bytes outside the key never influence a result",
"""The result of every hash function and of every stream depends only on the bytes inside [data, data+length), the length and the seeds:
whatever bytes surround the key in memory, wherever the key is placed and however it is aligned, and whatever another thread or device
writes to the neighbouring bytes before or during the call, the result is the same.""",
["inputs", "schedules", "fault_sequences"],
"""all keys, lengths, addresses (alignment and position within the page), all contents of the neighbouring bytes and all
concurrent modifications of them at any instruction of the call""",
"""The fast tail reads deliberately fetch bytes outside the key and mask them off; the existing tests hash one fixed
buffer with fixed neighbours at a handful of offsets, so a mask that is wrong for some length or page position goes unseen.""",
["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c"],
[("tail64_*/tail32_* one-shot reads with shift/mask", "src/t1ha_bits.h"),
 ("can_read_underside() page-offset test", "src/t1ha_bits.h")],
["all hash functions", "t1ha2_update"])

prop("C06", "No call touches memory it must not",
"""A call never faults as long as the key's own bytes are readable, even when the memory before and after the key is unmapped and the key itself is
read-only, for every length, address and build configuration; a call with length zero never dereferences the data pointer. A call
writes nothing except the caller's context and the extra-result word, and a page fault on a key byte during the call that
is serviced and resumed does not change the result.""",
["inputs", "configurations", "fault_sequences"],
"""all lengths, all positions of the key relative to page boundaries on either side, all build
configurations (unaligned-access mode, one-shot reads on and off, 32- and 64-bit), and every sequence of serviced page faults""",
"""The existing tests hash patterns in the middle of mapped data, so neither a read across a page boundary nor a stray
write can show; the tail-read code is chosen by the key's offset within its page, which they do not vary.""",
["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h"],
[("can_read_underside() keeps the over-read inside the key's page", "src/t1ha_bits.h"),
 ("aligned one-shot reads cannot cross a page", "src/t1ha_bits.h:tail64_le_aligned")],
["all public functions"])

prop("C07", "t1ha0 runs on every CPU and picks the best implementation for it",
"""On every x86 CPU and operating-system configuration (any combination of the CPUID feature bits, highest CPUID leaf, OSXSAVE and XCR0 contents),
t1ha0, the t1ha0 self-check and the aggregate self-check never execute an instruction that this machine does not support or the operating system has not enabled. t1ha0 and t1ha0_resolve select the fastest
implementation usable there: AES-NI with AVX2, else AES-NI with AVX, else plain AES-NI, else the portable one for the word size
(t1ha1_le on 64-bit, t1ha0_32le on 32-bit; t1ha2_atonce on 64-bit where t1ha1 is left out with T1HA1_DISABLED). Builds without run-time selection
(T1HA0_RUNTIME_SELECT=0, or T1HA0_AESNI_AVAILABLE=0) always use that portable one.""",
["configurations", "fault_sequences"],
"""all CPUID/XCR0 configurations, including inconsistent ones that hypervisors and kernels really present (AVX masked off but
AVX2 left on, OSXSAVE clear, YMM state not enabled, low maximum leaf)""",
"""The existing tests run on the one CPU of the build machine: exactly one dispatch outcome is ever exercised, and an
illegal instruction on a lesser machine cannot occur.""",
["src/t1ha0.c", "t1ha.h", "src/t1ha_bits.h", "src/t1ha0_selfcheck.c", "src/t1ha0_ia32aes_avx.c", "src/t1ha0_ia32aes_avx2.c", "src/t1ha0_ia32aes_noavx.c"],
[("t1ha_ia32cpu_features / t1ha_ia32_*_avail", "src/t1ha0.c, src/t1ha_bits.h"), ("t1ha0_resolve", "src/t1ha0.c")],
["t1ha0", "t1ha0_resolve", "t1ha_selfcheck__t1ha0", "t1ha_selfcheck__all_enabled"])

prop("C08", "t1ha0 is usable at any moment of process start-up and never changes",
"""t1ha0 may be called as soon as the dynamic loader has relocated the program: from any constructor in any constructor order, before or after the
library's own initialisation, and from several threads at once under any interleaving, and every such call returns a correct result. During the life of a process all calls
of t1ha0, through whatever route (direct, by its address, through the function pointer, through what t1ha0_resolve returns), at any time and from
any thread, give the same result for the same key and seed.""",
["schedules", "histories", "configurations"],
"""all orders of constructors and threads around the library's initialisation, at instruction granularity, in the
indirect-function and function-pointer builds, on every simulated CPU, and all call histories""",
"""The existing test program calls t1ha0 only from main(), long after initialisation, on one thread; the start-up
window and the alternative dispatch builds are never exercised.""",
["src/t1ha0.c", "t1ha.h"],
[("GNU indirect function / constructor / self-replacing proxy", "src/t1ha0.c")],
["t1ha0", "t1ha0_resolve", "t1ha0_funcptr"],
[("t1ha0_funcptr", "selected implementation in builds without indirect functions", "src/t1ha0.c")])

prop("C09", "Self-checks report a malfunction if and only if there is one",
"""Every self-check function returns 0 when all the hash functions it covers return the reference value for each of the 81 reference vectors, and exactly -1 when
any of them - usable on the current CPU - returns any wrong value (for the 128-bit functions: the returned 64-bit word) for at least one of its vectors, whichever vector, whichever bits are wrong, and however many
are wrong at once. The verdict reflects the functions' behaviour at the time of the call: it is the same on repeated calls, and follows a malfunction that appears
or disappears between calls.""",
["fault_sequences", "histories", "configurations"],
"""all malfunctions (which function, which of its 81 vectors, which wrong value, at which call), all combinations of them,
all self-check functions, and all histories of malfunction and recovery, on every simulated CPU""",
"""The existing tests run the self-checks only on healthy code, where a self-check that compares nothing passes
just as well.""",
["src/t1ha_selfcheck.c", "src/t1ha_selfcheck_all.c", "src/t1ha0_selfcheck.c", "src/t1ha1_selfcheck.c", "src/t1ha2_selfcheck.c"],
[("t1ha_selfcheck() probes 81 vectors and accumulates mismatches", "src/t1ha_selfcheck.c"),
 ("per-family and aggregate verdicts", "src/t1ha*_selfcheck*.c")],
["t1ha_selfcheck__*"])

prop("C10", "A corrupted, torn, misplaced or truncated record never keeps its digest",
"""When a record is stored or transmitted with its digest (any hash function of the library, at once or streamed, 64- or 128-bit), verification after an intact delivery
accepts it, and verification after any storage or wire fault that changed its bytes, its length or the seed - bit flips anywhere, torn or lost or stale or misdirected block writes,
reordered, duplicated or dropped packets, truncation or zero-extension, a wrong seed - rejects it. A fault that the reference t1ha
algorithm itself does not distinguish (a true hash collision) is the only exception.""",
["fault_sequences", "inputs"],
"""all records up to many MiB, all lengths, all positions and kinds of storage and wire fault, all hash functions""",
"""The existing tests hash 81 fixed patterns and never hash a corrupted one; a position, bit or seed half that does not
take part in the digest for some length is invisible to them.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_bits.h"],
[("every byte of the key, the length and the seed enter the mixing", "src/*.c")],
["t1ha0*", "t1ha1_*", "t1ha2_*"])

prop("C11", "Portable digests agree on every node, build and release",
"""Every node computes the same published t1ha1 (le, be) and t1ha2 (at once 64/128-bit, streaming 64/128-bit) digest for the same bytes, length and seed,
whatever its build: 32- or 64-bit, any compiler and optimisation level, any documented setting of T1HA_SYS_UNALIGNED_ACCESS, T1HA_USE_FAST_ONESHOT_READ,
T1HA0_AESNI_AVAILABLE, T1HA0_RUNTIME_SELECT, T1HA_USE_INDIRECT_FUNCTIONS and T1HA0/1/2_DISABLED (for the functions that remain), whatever the address of the key, and for keys of any length including beyond 4 GiB.
The same holds for each specific implementation behind t1ha0 (t1ha0_32le, t1ha0_32be, t1ha0_ia32aes_noavx, _avx, _avx2) wherever it is built and can run. Digests recorded by an earlier release stay
valid: each equals the value of the algorithm as published.""",
["configurations", "inputs", "histories"],
"""all pairs of builds exchanging records and digests during a rolling upgrade, all keys, lengths and seeds""",
"""The existing tests run one configuration per build directory against 81 fixed vectors of at most 247 bytes;
the alternative code paths selected by configuration macros are never compiled, and no two builds are compared.""",
["src/t1ha1.c", "src/t1ha2.c", "src/t1ha0.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_bits.h", "t1ha.h"],
[("endianness- and alignment-neutral fetch/tail macros", "src/t1ha_bits.h"),
 ("32-bit emulation of 64x64->128 multiplication", "src/t1ha_bits.h:mul_64x64_128")],
["t1ha1_le", "t1ha1_be", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_init/update/final", "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_*"])

prop("C12", "The stdin hashing tool never reports success for lost or wrong output",
"""`test --hash-stdin-strings` prints, for every line of standard input in order, its t1ha2 64-bit digest; under any pattern of short reads, interrupted
system calls, allocation failures and read or write errors it either prints exactly the digests of the lines it was given and
exits with success, or exits with failure.""",
["fault_sequences", "inputs"],
"""all inputs (line lengths, embedded NUL bytes, missing final newline) and all sequences of I/O and allocation faults""",
"""No existing test runs this mode at all, let alone under I/O faults.""",
["tests/main.c"],
[("hash_stdin_strings()", "tests/main.c")],
["exit status and standard output of the tool"])

prop("C13", "Clock measurement in the benchmark survives misbehaving clocks",
"""The benchmark tool's clock probing finds a working clock source if and only if there is one, never one that is missing, stands still or runs backwards, and the best-rated of the working
ones when nothing disturbs it; it never crashes and leaves the process's signal handlers as they were. The measurement loop terminates within a bounded number of clock readings once the clocks behave again, whatever combination of jumps, stalls, reading errors,
preemptions and core migrations came before, and under delays alone (preemption, migration) on a clock finer than its own reading cost it reports the true duration of the measured function.""",
["fault_sequences", "schedules"],
"""all behaviours of the clock sources""",
"""No existing test substitutes the clock; the benchmark is only run on the build machine's healthy clocks.""",
["tests/mera.c", "tests/bench.c"],
[("mera_init / mera_bench", "tests/mera.c")],
["mera_init", "mera_bench"])

prop("C14", "Calls work for any caller: any processor state, little stack",
"""Any library function called according to the platform's calling convention returns the result that depends on its arguments only, whatever the calling thread left in
the other registers, the vector registers, the status flags, the floating-point control words (MXCSR, x87 control word: rounding, precision, flush-to-zero, masked or unmasked exceptions) and its unused stack memory; it needs no more than a
few KiB of stack (7 KiB is always enough, so threads on minimal stacks can call it), whatever the length of the key; and it hands the processor back as the calling convention demands:
callee-saved registers and stack pointer preserved, direction flag clear, floating-point control words unchanged, x87 register stack empty (not in MMX mode), no dirty upper halves of vector
registers unless the caller had left them so.""",
["inputs", "histories", "configurations"],
"""all states of the calling thread's registers, flags, modes and stack, all functions, key lengths and builds""",
"""The existing tests call every function from one ordinary C program on an 8 MiB stack in the default floating-point mode, and check nothing but the
returned values.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_selfcheck.c", "src/t1ha_bits.h"],
[("SSE/AVX state in the AES-NI functions, _mm_empty()/_mm256_zeroupper() after SIMD code", "src/t1ha0_ia32aes_a.h, src/t1ha0_ia32aes_b.h"), ("small fixed-size local buffers only", "src/t1ha_bits.h")],
["t1ha0*", "t1ha1_*", "t1ha2_*", "t1ha0_resolve", "t1ha_selfcheck__*"])

prop("C15", "Every call does a bounded amount of work, whatever the key, the past and other threads",
"""Every library call returns after a number of its own instructions that is bounded by a constant plus a constant times the length of its key or piece (in
optimised 64-bit builds 2000 plus 10 per byte is always enough, in any build 4000 plus 24 per byte; a self-check needs less than three million): whatever the contents and the
address of the key and the seed, however long or finely cut the stream was before, however many calls the process has made, and even if other threads are preempted, or stopped
for good, at any instruction of their calls, or a signal handler calls the library in between. No call ever waits for another thread.""",
["schedules", "crash_points", "histories", "inputs"],
"""all interleavings, all instructions at which other threads stop, all keys, all streams and histories""",
"""The existing tests call each function once per pattern from one thread on short benign keys; they neither stop a thread inside a call nor count what a call costs,
so a lock, a wait, a retry loop or work that grows with the past goes unnoticed.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_bits.h", "src/t1ha_selfcheck.c"],
[("one pass over the key in blocks, no locks and no shared state", "src/t1ha*.c"), ("run-time selection computed without synchronisation", "src/t1ha0.c:t1ha0_resolve"), ("t1ha2_update / t1ha2_final work on at most the new bytes and one block", "src/t1ha2.c")],
["t1ha0*", "t1ha1_*", "t1ha2_*", "t1ha0_resolve", "t1ha_selfcheck__*"])

prop("C16", "Calls need nothing from the operating system and leave nothing behind",
"""Every hash, streaming, t1ha0, t1ha0_resolve and self-check call, and the start-up of the library, gives the same result in a process that the operating system starves as in an
ordinary one: when every, any one or some requests for memory, memory maps, files, clocks, random numbers or system values fail, when system calls are refused, and whatever environment
variables, files, clocks, process identities and freshly allocated memory hold. No call crashes, writes output, or changes errno, signal handling, locale, environment or memory protection,
and calls accumulate no memory, descriptors or streams however often they are made. (The functions have no way to report a failure, so nothing they do may fail.)""",
["fault_sequences", "histories", "inputs", "configurations"],
"""all sequences of refused requests and arbitrary answers, all calls, keys and builds""",
"""The existing tests run in a process where every request succeeds; a refused allocation, an unusual environment variable or a descriptor limit never occurs, and a leak or an overwritten errno is not looked at.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_bits.h", "src/t1ha_selfcheck.c", "t1ha.h"],
[("all working state lives in the caller's context or on the stack", "src/t1ha*.c, t1ha.h:t1ha_context_t"), ("run-time selection from CPUID and XGETBV only", "src/t1ha0.c:t1ha_ia32cpu_features")],
["t1ha0*", "t1ha1_*", "t1ha2_*", "t1ha0_resolve", "t1ha_selfcheck__*"])

prop("C90", "t1ha functions are good hashes (avalanche, SMHasher)",
"""The hash functions are statistically indistinguishable from random functions to the degree documented (SMHasher passes; t1ha2 satisfies the strict avalanche criterion).""",
["inputs"], "statistics over all keys",
"""81 reference vectors say nothing about distribution.""",
["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c"], [("mixing functions", "src/*.c")], ["hash values"])

prop("C91", "t1ha is as fast as documented",
"""t1ha0 is the fastest of the family on the current CPU and t1ha1/t1ha2 outperform the documented competitors.""",
["inputs", "configurations"], "all CPUs and key lengths",
"""Timing is not asserted by any test.""",
["src/t1ha0.c", "README.md"], [("run-time dispatch", "src/t1ha0.c")], ["elapsed time"])

prop("C92", "Big-endian and non-x86 builds return the same portable digests",
"""On big-endian CPUs, ARM, PowerPC and Elbrus, t1ha1 and t1ha2 return the same digests as on x86.""",
["configurations", "inputs"], "all non-x86 targets",
"""Tests run only on the host.""",
["src/t1ha_bits.h"], [("bswap paths under __BYTE_ORDER__", "src/t1ha_bits.h")], ["t1ha1_*", "t1ha2_*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
