#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the fields stay uniform)."""
import json, os
X86B = "include/rseq/arch/x86/bits.h"
ARCHB = ["include/rseq/arch/%s/bits.h" % a for a in ("x86", "arm", "aarch64", "ppc", "mips", "s390", "riscv", "loongarch")]
ARCHH = ["include/rseq/arch/%s.h" % a for a in ("x86", "arm", "aarch64", "ppc", "mips", "s390", "riscv", "loongarch")]
MP = "src/rseq-mempool.c"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---- restartable sequences -------------------------------------------------------------------
p("C01", "A critical section either commits completely or leaves its target unchanged",
  "Every restartable-sequence operation makes its result visible through one single word-sized store to the target, and that store is the last instruction of the section. Whatever the exit (restart by the kernel, wrong CPU, failed comparison), if the operation does not report success then the word it targets has not been written, and an operation without a tentative step has written no caller memory at all.",
  ["schedules", "programs", "configurations"], "every helper x ordering x index kind x architecture, interrupted at every instruction",
  "Tests run x86-64 only and preempt at a handful of random points; a store placed before the guard or after the commit only shows when the kernel interrupts in a window of one or two instructions.",
  ARCHB + ARCHH, [("commit store followed directly by the post-commit label", ARCHB[0]), ("RSEQ_ASM_DEFINE_TABLE start/post-commit range", ARCHH[0])],
  [("v", "target word of the operation", X86B)], ["return value", "memory at the target address"])
p("C02", "A critical section acts only on the CPU or concurrency id it was asked for",
  "Inside the section, after arming it and before any write to caller memory, every operation compares the requested index with the thread's current CPU number (or concurrency id in that mode), and takes the abort exit when they differ. No path reaches a store to caller memory or reports success or a mismatch without that comparison having succeeded within the same section.",
  ["schedules", "programs", "configurations"], "every helper x ordering x index kind x architecture, every migration point",
  "A missing or misplaced index check is only observable when a migration lands between reading the index and arming the section.",
  ARCHB + ARCHH + ["include/rseq/arch/templates/bits.h"], [("RSEQ_ASM_CMP_CPU_ID", ARCHH[0]), ("RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET", "include/rseq/arch/templates/bits.h")],
  None, ["return value", "memory"])
p("C03", "Each operation does exactly what its documented pseudo-code says",
  "For all arguments, each operation compares, adds, loads, copies and stores exactly the words (in full pointer width) and byte ranges its documented pseudo-code names, in the documented order. It returns 0 when it committed, a positive value when the documented comparison failed, and -1 when it aborted, on every architecture.",
  ["inputs", "configurations", "programs"], "all argument values, every helper x ordering x index kind x architecture",
  "Tests use a few counters, lists and buffers of small sizes on one architecture; operand mix-ups, narrow compares and wrong polarity need particular values to show.",
  ARCHB + ["include/rseq/pseudocode.h"], [("per-arch asm goto bodies", ARCHB[0])], None, ["return value", "memory"])
p("C04", "Every critical-section descriptor is one the kernel accepts and restarts from",
  "Every section publishes a descriptor with version 0 and no flags, whose address range is exactly the code from the instruction following the arming store up to just after the commit store, and whose abort address lies outside that range and is immediately preceded by the registered signature. The arming store writes the address of that very descriptor, and every other way out of the section is declared to debuggers.",
  ["programs", "schedules", "configurations"], "every helper variant on every architecture",
  "A wrong range or signature only matters when the kernel must restart the thread inside the section; then it kills the process or skips the restart.",
  ARCHH + ARCHB + ["include/rseq/arch/generic/common.h"], [("RSEQ_ASM_DEFINE_TABLE", "include/rseq/arch/generic/common.h"), ("RSEQ_ASM_DEFINE_ABORT", ARCHH[0]), ("RSEQ_ASM_DEFINE_EXIT_POINT", "include/rseq/arch/generic/common.h"), ("RSEQ_ASM_STORE_RSEQ_CS", ARCHH[0])])
p("C05", "Release operations and barrier primitives order memory as advertised",
  "On every architecture the release flavour of an operation orders all earlier accesses, including its own tentative stores, before the commit store. The exported barrier, load-acquire and store-release primitives order (for both the compiler and the processor) at least what their names promise.",
  ["schedules", "configurations"], "all interleavings and all supported memory models",
  "x86 hides nearly every missing barrier and the other architectures are never built by the test suite.",
  ARCHB + ARCHH, [("rseq_smp_mb/rmb/wmb, rseq_smp_load_acquire, rseq_smp_store_release", ARCHH[0]), ("RSEQ_TEMPLATE_MO_RELEASE barrier before the commit", ARCHB[1])])
p("C06", "Critical sections never corrupt the state of the calling code",
  "Whatever exit an operation takes, it leaves every register, flag and memory word that the compiler was not told about as it was before, and the compiler is told that caller memory may have changed. No operation touches the stack, makes a call or traps inside the section, so it can be inlined anywhere.",
  ["programs", "inputs", "schedules"], "every helper variant inlined in any caller, every exit and abort point",
  "Clobber omissions depend on register allocation at the inlining site; the tests only contain a few sites built with one compiler.",
  ARCHB + ARCHH, [("asm goto clobber lists", ARCHB[0]), ("save and restore of memcpy operands", X86B)])
p("C07", "Operations honour the requested ordering and index kind or refuse",
  "The public entry points run exactly the variant for the requested ordering and per-CPU index kind, passing every argument through unchanged, and return its result. A combination that is not provided returns -1 without touching any memory.",
  ["inputs", "configurations"], "all enum values (including out-of-range ones), all helpers",
  "Tests instantiate a fixed set of template combinations and never the rejected ones.",
  ["include/rseq/rseq.h", "include/rseq/arch/templates/bits.h"] + ARCHB, [("rseq_load_*__ptr dispatchers", "include/rseq/rseq.h")])
p("C08", "The thread area layout and accessors match the kernel ABI on every architecture",
  "The shared per-thread area has the kernel's field offsets, widths and alignment, the offsets used inside critical sections agree with it, and the accessors read or clear exactly the field they name, once, for the calling thread. A feature is reported available exactly when the active feature size covers its field, and preparing for unload clears the armed section pointer.",
  ["configurations", "inputs"], "all architectures and word sizes, all feature sizes",
  "Only one architecture is built, with one kernel feature size.",
  ["include/rseq/abi.h", "include/rseq/rseq.h", "include/rseq/thread-pointer.h"] + ARCHH, [("struct rseq_abi", "include/rseq/abi.h"), ("rseq_current_*, rseq_*_available, rseq_prepare_unload", "include/rseq/rseq.h")])
# ---- registration -----------------------------------------------------------------------------
p("C09", "Registration never claims success it does not have",
  "Registering a thread returns 0 only if the C library owns the registration or the kernel accepted this thread's area, and unregistering returns 0 only under the matching condition; a refusal is reported as -1, except that a refusal after another thread of the process had succeeded ends the process. The kernel is always given the calling thread's own area with the same length and signature for both operations, and is never called when the C library owns the registration.",
  ["histories", "fault_sequences", "configurations"], "every sequence of register/unregister over all threads, every kernel answer, every kernel feature size",
  "The test machine has a libc that owns registration, so the owning path and its failures never run.",
  ["src/rseq.c"], [("rseq_register_current_thread / rseq_unregister_current_thread", "src/rseq.c"), ("sys_rseq", "src/rseq.c")],
  [("rseq_ownership", "library owns registration", "src/rseq.c"), ("rseq_size", "active feature size", "src/rseq.c")])
p("C10", "Initialisation happens once and is published before anyone can use it",
  "However many threads enter concurrently, the library decides who owns the registration exactly once, and a thread that proceeds past initialisation observes the final offset, flags, size and ownership. No path returns with the initialisation lock held.",
  ["schedules"], "all interleavings of first-use in any number of threads",
  "The race window is a few instructions at process start-up.",
  ["src/rseq.c"], [("rseq_init double-checked locking", "src/rseq.c")], [("init_done", "initialisation published", "src/rseq.c")])
p("C11", "The active feature size never exceeds what is allocated and supported",
  "The published feature size is 0 until a registration succeeded when the library owns it, and afterwards never more than the kernel's supported size (at least the original 20 bytes) nor more than the allocated area. When the C library owns the registration, its size is taken over as is except for the historic values 20 and 32, for which the kernel's size capped at 32 is used.",
  ["configurations", "histories"], "all kernel feature sizes and alignments, all C library sizes, all registration histories",
  "Depends on kernel and libc versions that the test machine does not have.",
  ["src/rseq.c"], [("get_rseq_kernel_feature_size", "src/rseq.c"), ("rseq_init size selection", "src/rseq.c")])
p("C12", "Kernel and CPU queries answer truthfully and fail loudly",
  "The availability query answers true for the kernel only if the kernel recognises the system call, and for the C library only if it owns an active registration; unknown queries answer false. The fallback CPU number is a valid CPU or the process ends, and the fallback node is the kernel's answer or the error it returned.",
  ["inputs", "fault_sequences", "configurations"], "all query values and all kernel answers",
  "Error answers of the kernel never happen in the tests.",
  ["src/rseq.c", "include/rseq/rseq.h"], [("rseq_available", "src/rseq.c"), ("rseq_fallback_current_cpu/node", "src/rseq.c")])
# ---- memory pools -----------------------------------------------------------------------------
p("C13", "Pool and pool-set operations are mutually exclusive and always let go",
  "All shared allocator state of a pool (free list, space accounting, range list, allocation tracking) and of a pool set (its entries) is read and changed by allocation, free and add operations only while holding that object's lock. Every such operation releases the lock exactly once on every path that returns, and never holds it when it returns.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of allocation, free and add calls, all failure paths",
  "Lost updates and stuck locks need a precise interleaving or an allocation failure inside the locked region.",
  [MP], [("pool->lock", MP), ("pool_set->lock", MP)], [("free_list_head, next_unused, range_list, alloc_bitmap, entries", "shared allocator state", MP)])
p("C14", "Live allocations never overlap and lie inside their pool",
  "Every successful allocation returns an item, aligned on the item size, lying entirely inside the usable per-CPU area of one of the pool's ranges, and disjoint from every other live item, for every item size, stride and number of ranges. Space is handed out again only after it was freed, and an allocation fails only when no freed item is left, the newest range is full and no further range can be added.",
  ["histories", "inputs", "schedules"], "every history of allocations and frees, all item sizes, strides and range counts",
  "Tests fill a pool once per configuration; overlap needs a specific size/stride combination or free order.",
  [MP], [("bump allocation against stride", MP), ("free list push and pop", MP)], [("next_unused", "bytes handed out in a range", MP), ("free_list_head", "freed items", MP)])
p("C15", "Freeing returns an item to the pool it came from, ready for reuse",
  "Given only the item pointer and the pool's stride, free finds the range and pool that produced the item and puts exactly that item back on that pool's free list, from which a later allocation gets the same address again. The bookkeeping link is kept where it cannot overwrite live data: in the dedicated area for robust pools, in the initial-values area for copy-on-write-init pools and in the item's own CPU 0 memory otherwise.",
  ["histories", "inputs", "configurations"], "all items, strides, populate policies and robustness settings",
  "An inconsistent mapping shows only for some policy/robustness/CPU-count combination after several frees.",
  [MP], [("__rseq_percpu_to_free_list_ptr / __rseq_free_list_to_percpu_ptr", MP), ("stride-aligned range lookup", MP)])
p("C16", "Initialised allocations hold the requested content on every CPU",
  "A zeroing allocation hands out an item that reads as zero over its whole length for every possible CPU of the pool, and an initialising allocation one that holds the caller's bytes on every CPU, whether the item is fresh or recycled, taken from a pool or from a pool set. The initial-values area, when there is one, gets the same content so that CPUs not yet populated see it too.",
  ["inputs", "histories", "configurations"], "all item sizes, CPU counts, policies and previous contents",
  "Tests check a few CPUs right after creation; a missed CPU or area only shows for recycled items or unpopulated pages.",
  [MP], [("rseq_percpu_zero_item, rseq_percpu_init_item", MP), ("public wrappers selecting zeroed/init", MP)])
p("C17", "Robust pools stop the process on double free, corruption and leaks",
  "In a robust pool, freeing an item that is not allocated, handing out an item that is already allocated, reusing a freed item whose content changed on any CPU or in the initial values, destroying a pool with a damaged free list or altered freed items, and destroying it with live items each end the process before returning. Correct use never does.",
  ["histories", "inputs"], "every misuse history over all CPUs and item positions",
  "Tests trigger one instance of each misuse on one CPU.",
  [MP], [("alloc bitmap", MP), ("check_free_list", MP), ("check_pool_poison / rseq_percpu_check_poison_item", MP)], [("alloc_bitmap", "which items are live", MP)])
p("C18", "Freed items are poisoned everywhere, and only freed items",
  "When poisoning is on, freeing an item fills its whole length on every CPU and in the initial-values area with the pool's poison value before the item can be handed out again, except for the word holding the free-list link of a non-robust pool. The value is the one set by the user, or the documented default of the pool's policy for robust pools.",
  ["inputs", "histories", "configurations"], "all item sizes, CPU counts, policies and poison values",
  "Tests look at one item on a few CPUs with one value.",
  [MP], [("rseq_percpu_poison_item", MP), ("default poison selection in rseq_mempool_create", MP)])
p("C19", "Every range is mapped so that all its areas exist, aligned and in order",
  "For every stride, CPU count, policy and robustness setting, a range maps one block per CPU, then the initial values if the policy has them, then the dedicated free-list area if robust, with the first block aligned on the stride and the bookkeeping header just below it, and the recorded extent is exactly what is mapped. Per-CPU address computation by the allocator and by users agrees with that layout.",
  ["inputs", "configurations"], "all strides, CPU counts and policies, any address returned by the kernel",
  "Alignment slack depends on the address the kernel picks; sizes in tests are few.",
  [MP, "include/rseq/mempool.h"], [("rseq_mempool_range_create", MP), ("aligned_mmap_anonymous", MP), ("rseq_percpu_ptr", "include/rseq/mempool.h")])
p("C20", "A failed allocation or creation leaks nothing and reports failure",
  "Whenever creating a pool, growing it or allocating from it fails at any step (mapping, memory file, advice, tracking memory, user initialisation, name copy), every resource taken so far is released exactly once, no half-built range stays reachable, the pool stays usable, and the caller gets a null result with the error code set. On success no file descriptor stays open.",
  ["fault_sequences"], "failure of any system or library call at any point",
  "Tests do not inject failures.",
  [MP], [("error_alloc paths in rseq_mempool_range_create and rseq_mempool_create", MP), ("rseq_memfd_create_init / rseq_memfd_close", MP)])
p("C21", "Destroying a pool or pool set frees everything once and reports failure",
  "Destroying a pool runs the robustness checks, unmaps every range, and frees the tracking memory, the name and the pool itself, each exactly once; destroying a set does so for every pool in it. If a range cannot be unmapped, the call returns an error and the pool remains consistent so that the caller can retry.",
  ["histories", "fault_sequences"], "pools with any number of ranges, any unmap failure",
  "The failure path is never executed and leaks are not observed by the tests.",
  [MP], [("rseq_mempool_destroy", MP), ("rseq_mempool_set_destroy", MP)])
p("C22", "Copy-on-write-init pools stay private to the creating process across fork",
  "For pools with an initial-values area, none of the per-CPU or initial-value memory is inherited by a forked child, so neither process can change the other's values, and destroying such a pool in the child releases only what the child inherited and skips the content checks. Pools without such an area behave as ordinary private memory.",
  ["histories", "configurations"], "all fork points, all ranges of the pool, all policies",
  "Tests fork once with one range.",
  [MP], [("madvise DONTFORK / WIPEONFORK", MP), ("pool_mappings_accessible", MP)])
p("C23", "Invalid requests are refused with EINVAL and have no effect",
  "A request with an argument outside the documented domain (null attribute object, unknown populate policy, negative CPU count, undetectable CPU count, stride below a page or not a power of two, item larger than the stride, unrepresentable item size, initial content longer than the item, CPU count of a non per-CPU pool, no NUMA flags) returns the documented failure value with errno EINVAL, before taking any resource or changing any state. Requests inside the domain are not refused.",
  ["inputs"], "all argument values",
  "Tests try one bad value per parameter at most.",
  [MP, "src/rseq-utils.h"], [("argument validation in rseq_mempool_create, __rseq_percpu_malloc and the attr setters", MP)])
p("C24", "Attributes and growth limits take effect exactly as requested",
  "Each attribute setter records exactly its own setting, a pool created with attributes uses exactly those values (documented defaults otherwise, one CPU and no initial values for global pools), and later changes to the attribute object do not affect it. A pool never has more ranges than its configured maximum, counts each range once, and grows without limit when the maximum is 0.",
  ["inputs", "histories", "configurations"], "all attribute values and setter sequences, all allocation histories",
  "Only a few attribute combinations are tested and limits are tested at one value.",
  [MP], [("rseq_mempool_attr_set_*", MP), ("rseq_mempool_create", MP), ("max_nr_ranges check", MP)])
p("C25", "A pool set serves each request from the smallest pool that fits",
  "An allocation of a given length from a pool set is served from the pool with the smallest item size that can hold it, trying successively larger pools only when one is out of memory and failing with ENOMEM only after all have been tried. A set never holds two pools of the same item size (the second addition fails with EBUSY, leaving the set and the caller's pool untouched), and requests larger than every pool fail without touching any.",
  ["inputs", "histories"], "all lengths, all subsets of pool sizes, all exhaustion states",
  "Tests use two or three pools and few sizes.",
  [MP], [("__rseq_mempool_set_malloc", MP), ("rseq_mempool_set_add_pool", MP)])
p("C26", "The CPU count covers every possible CPU and reading it is memory safe",
  "The reported number of CPUs is one more than the highest CPU id in the kernel's possible-CPU list whenever that list is readable and well formed, else the larger of the highest CPU directory plus one and the configured-processor count, and 0 if nothing is known; a value is remembered only once it is positive. Whatever the files contain, parsing stays inside its buffer and every file and directory handle is closed.",
  ["inputs", "fault_sequences"], "all file contents, sizes and read errors",
  "The test machine has one fixed sysfs content.",
  ["src/smp.c"], [("get_max_cpuid_from_mask", "src/smp.c"), ("get_cpu_mask_from_sysfs", "src/smp.c"), ("get_possible_cpus_array_len", "src/smp.c")], [("possible_cpus_array_len_cache", "cached count", "src/smp.c")])
p("C27", "NUMA placement requests cover each page of the area exactly once",
  "For every area length, NUMA initialisation asks the kernel to place each whole page of the area exactly once, on the node of the given CPU, in batches that never exceed its fixed buffers, and passes the caller's flags. A failed request is reported to the caller and an unknown CPU is refused.",
  ["inputs", "fault_sequences"], "all lengths, CPUs and flags, all kernel answers",
  "Multi-batch areas and failures do not occur in tests.",
  [MP], [("rseq_mempool_range_init_numa", MP)])
p("C28", "Size rounding is exact for every input",
  "Rounding a length up to a power of two yields the smallest power of two not below it for every representable length, and the bit-search, power-of-two and alignment helpers give the mathematical result for every input, on 32-bit and 64-bit words alike. Item sizes are never below a pointer.",
  ["inputs", "configurations"], "all 2^64 (2^32) inputs",
  "Tests sample a few values around powers of two.",
  ["src/rseq-utils.h", MP], [("rseq_fls_u64, rseq_fls_u32, rseq_get_count_order_ulong, is_pow2, offset_align", "src/rseq-utils.h")])
# ---- whole-library / not applicable ------------------------------------------------------------
p("C29", "Public headers build and assemble for every advertised architecture",
  "Every architecture the headers advertise can be built, in an optimised build from C and C++, with each operation, barrier and accessor used on arbitrary (not only constant) arguments, and provides the same set of operations with the same contract. Exported names used by the headers exist in the library.",
  ["configurations", "programs"], "all supported architectures, word sizes and endiannesses, both languages",
  "The test suite builds one architecture.",
  ARCHB + ARCHH + ["include/rseq/arch.h"], [("architecture selection", "include/rseq/arch.h")])
p("C30", "Critical sections make progress",
  "A thread that keeps retrying an aborted operation on its current CPU eventually commits, unless it is interrupted inside the section on every attempt.",
  ["schedules"], "all schedules", "Depends on scheduler and timer behaviour.",
  ARCHB, [("retry loop in the caller", "doc")])
p("C31", "Concurrent per-CPU structures built from the operations are linearizable",
  "Counters, lists and buffers built from the operations behave as if each successful operation took effect atomically between its call and return, for every history of concurrent threads.",
  ["schedules", "histories"], "all concurrent histories", "Histories cannot be enumerated by tests.",
  ARCHB, [("operations used together by client code", "tests/")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
