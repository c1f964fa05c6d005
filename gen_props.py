#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long strings stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
X86="include/rseq/arch/x86/bits.h"; XH="include/rseq/arch/x86.h"; RH="include/rseq/rseq.h"
RC="src/rseq.c"; MC="src/rseq-mempool.c"; MH="include/rseq/mempool.h"; SC="src/smp.c"
p("C01","A per-CPU operation that reports success took effect exactly once, atomically",
 "When a restartable-sequence operation (compare-and-store, double-compare-and-store, add, indirect add, pop, store-then-store, copy-then-store) returns 0, its documented effect was applied exactly once, as one indivisible step with respect to every other operation on the same CPU or concurrency-id slot, including operations run by signal handlers and by threads that preempted it. Counters, lists, stacks and buffers built from these operations therefore never lose, duplicate or mix updates, whatever the compiler, optimisation level, index mode or memory-order variant used.",
 ["schedules","inputs","programs","configurations"],
 "every placement of preemptions, migrations, signals and remote fences at every instruction of the operation, every operand shape and every compilation of the inline operation",
 "The stress tests sample whatever interleavings the host scheduler happens to produce at a few injected delay points, with one compiler, one optimisation level and a fixed set of operands; they only look at end-of-run sums.",
 [X86,XH,RH,"include/rseq/pseudocode.h","include/rseq/arch/generic/common.h","include/rseq/arch/templates/bits.h"],
 [("critical section descriptor [start, post-commit) with a single final store as commit","include/rseq/arch/x86/bits.h"),("index check inside the critical section","include/rseq/arch/x86.h RSEQ_ASM_CBNE_CPU_ID")],
 ["return value of the rseq_load_*__ptr operations","the memory they operate on"])
p("C02","An operation that reports abort or mismatch leaves no effect",
 "When an operation returns 1 (comparison failed) it has modified no memory at all, and when it returns -1 (aborted) its final store was not performed and no memory was modified other than the speculative destinations the operation documents (second word, copy destination, loaded-value output), those only with the values the operation was asked to write and only after its comparisons held. It returns 1 only if the compared memory really differed (or, for the pop operation, equalled) during that call. The caller's own state (arguments, local variables) is intact after any return, so the call can simply be retried.",
 ["schedules","inputs","programs"],
 "every interruption point of every operation, every operand shape, every compilation",
 "Tests retry until success and check totals; an update leaked by an aborted attempt, a write past a copy length or a clobbered caller register on a rarely taken exit is not observed unless it happens to corrupt the total.",
 [X86,XH,RH],
 [("abort and teardown handlers restoring the argument registers","include/rseq/arch/x86/bits.h memcpy teardown"),("final store is the last instruction before the post-commit label","include/rseq/arch/x86/bits.h")],
 ["return value","operand memory","caller state after return"])
p("C03","Operations never act on another CPU's slot or for an unregistered thread",
 "An operation given an index performs its final store only while the calling thread is really running with that CPU number (or, in concurrency-id mode, holds that concurrency id) and is registered; in every other case, including an unsupported index mode or memory order, it returns -1 and stores nothing.",
 ["schedules","inputs","configurations"],
 "every pair of (requested index, actual CPU / concurrency id), every migration point before and inside the operation, registered and unregistered threads, every mode and memory-order value",
 "Tests always pass the index just read and register every thread; a migration in the few instructions between reading the index and entering the sequence is hit only by luck.",
 [X86,XH,RH,"include/rseq/abi.h","include/rseq/arch/templates/bits.h"],
 [("comparison of the requested index with the area's field inside the critical section","include/rseq/arch/x86.h RSEQ_ASM_CBNE_CPU_ID"),("mode / memory-order dispatch","include/rseq/rseq.h")],
 ["return value","operand memory"])
p("C04","An interrupted operation always resumes cleanly and retries make progress",
 "Whatever instruction of an operation a preemption, migration, signal or remote fence lands on, the thread is never killed by the kernel: it continues in the operation's own abort path and the operation returns. An operation that was not interrupted and was given the thread's current index never reports abort, so a retry loop finishes as soon as one attempt runs undisturbed.",
 ["schedules","programs"],
 "every instruction of every operation in every compilation, any number of successive interruptions",
 "A bad descriptor, signature or abort address only matters when the kernel interrupts inside a window of a few instructions; the tests' delay injection reaches a few points only and never checks that an undisturbed attempt succeeds at once.",
 [XH,X86,"include/rseq/arch/generic/common.h"],
 [("abort handler preceded by the registered signature, outside the sequence","include/rseq/arch/x86.h RSEQ_ASM_DEFINE_ABORT"),("descriptor table","include/rseq/arch/generic/common.h RSEQ_ASM_DEFINE_TABLE")],
 ["thread survival","return value","number of attempts"])
p("C05","A committed update is never visible before the data it publishes",
 "For the store-then-store and copy-then-store operations (relaxed and release), at the instant the final store becomes visible the second word or the whole copied block already holds exactly the new data, for every length (zero included) and every interruption; a consumer that observes the committed index or pointer therefore never reads a missing, partial or mixed record.",
 ["schedules","inputs"],
 "every interleaving of producer and consumer, every copy length and alignment, every interruption point",
 "The buffer tests only consume on the same CPU through the same kind of operation and use a fixed 64-byte-class record; a copy off by one byte on a rare length or a reordered commit is not exercised.",
 [X86,RH],
 [("speculative stores precede the final store","include/rseq/arch/x86/bits.h store_store and memcpy_store")],
 ["memory seen by other CPUs when the commit appears"])
p("C06","After a fence on a CPU no operation there still uses the old pointer",
 "Once a remote restartable-sequence fence on a CPU has completed, no operation on that CPU still reads through or updates memory reached through a per-CPU pointer value replaced before the fence: indirect-add and pop operations either committed earlier or restart and see the new pointer. Memory unlinked before the fence, or popped from a list on that CPU, can thus be reclaimed safely.",
 ["schedules"],
 "every interleaving of pointer replacement, fence, reclamation and operations in flight",
 "The membarrier test runs one manager against spinning workers for a while; the window is the few instructions between loading the pointer and committing.",
 [X86,RH,"include/rseq/pseudocode.h"],
 [("every dependent load is inside the critical section","include/rseq/arch/x86/bits.h load_add_load_load_add_store, load_cbeq_store_add_load_store")],
 ["accesses to retired memory"])
p("C07","After preparing for unload, a thread can be interrupted safely",
 "Once a thread has executed its last operation from a library and called the prepare-for-unload function, the library's code and descriptors can be unmapped or reused: no later preemption, migration or signal of that thread makes the kernel look at them, in any index mode, whether or not the last operation aborted, failed or succeeded.",
 ["schedules","histories"],
 "every outcome of the last operation, every interruption before, during and after the call, libc-owned and self-owned registrations",
 "No test unloads code that contained a critical section.",
 [RH,"include/rseq/abi.h"],
 [("clearing the thread's descriptor pointer","include/rseq/rseq.h rseq_prepare_unload")],
 ["thread survival after unload"])
p("C08","Debugger tables list every critical section and every way out of it",
 "Every critical section an operation can execute is listed in the descriptor pointer table of the object containing it, and every instruction outside the section that execution can reach from inside it is the post-commit address, the abort address or a listed exit point. A debugger stepping over the sections with these tables therefore always regains control.",
 ["schedules","programs"],
 "every path through every operation, every compilation, including the compare-twice configuration",
 "No test reads the tables.",
 ["include/rseq/arch/generic/common.h",X86],
 [("descriptor pointer array and exit point array","include/rseq/arch/generic/common.h")],
 ["object-file tables against executed control flow"])
p("C09","Registration results tell the truth",
 "Registering the current thread returns 0 exactly when afterwards the kernel has that thread registered (by this library or by libc), and -1 with the kernel's error and without any registration otherwise; unregistering returns 0 exactly when the thread's own registration has ended. This holds through every sequence of register, unregister and re-register by any threads, and for every area size the kernel supports, so a registered thread can always unregister.",
 ["histories","fault_sequences","configurations","schedules"],
 "every history of register/unregister calls over several threads, every system-call failure, every kernel feature size, with and without libc ownership",
 "The registration test performs one registration sequence on the host kernel, whose libc normally owns the registration.",
 [RC,RH],
 [("register / unregister system calls with matching length and signature","src/rseq.c")],
 ["return value and errno","kernel registration state"])
p("C10","Registration ownership is decided once and respected",
 "Who owns registration (libc or this library) is decided once per process: threads racing through their first registration all see the same owner and a fully initialised offset, size and flags before they proceed. If libc owns it, the library never registers or unregisters anything and uses libc's area; otherwise each thread gets its own area, whose published offset is right for every thread.",
 ["schedules","configurations"],
 "every interleaving of first registrations and of the constructor, every combination of libc symbols present or absent",
 "Tests run on one libc and initialise from the constructor before any thread exists.",
 [RC],
 [("double-checked initialisation under a lock with release/acquire publication","src/rseq.c rseq_init")],
 ["rseq_offset / rseq_size / rseq_flags, registration system calls issued"])
p("C11","Advertised feature size and fields never exceed what the kernel provides",
 "The advertised size of the active area, and the node-id and concurrency-id availability derived from it, never cover a field that the kernel does not maintain or that lies outside the registered area, for every combination of libc version and kernel feature size; fields that are maintained in a libc-independent registration are advertised after the first registration, and nothing is advertised before it or when registration failed. The availability query reports libc ownership exactly when libc registers threads, and kernel support exactly when the kernel has the system call.",
 ["configurations","histories","schedules"],
 "every libc-reported size, kernel feature size and alignment, first and later threads, before and after registration",
 "Tests see exactly one combination of libc and kernel.",
 [RC,RH,"include/rseq/abi.h"],
 [("active size computation","src/rseq.c rseq_init, rseq_register_current_thread"),("availability predicates","include/rseq/rseq.h")],
 ["rseq_size","rseq_node_id_available","rseq_mm_cid_available","rseq_available"])
p("C12","CPU, node and concurrency-id queries report where the thread really was",
 "The current-CPU, current-node and concurrency-id queries return a value that was true of the calling thread at some instant during the call: for a registered thread straight from its area, for an unregistered thread through the system fallback. The raw query is negative exactly when the thread is not registered, and the CPU hint for starting a sequence is always a possible CPU number; fallback errors are reported, never returned as a bogus CPU.",
 ["schedules","fault_sequences","configurations"],
 "every migration instant, registered and unregistered threads, failing fallbacks",
 "Tests compare with the CPU they pinned themselves to; nothing migrates them inside the query and the fallbacks never fail.",
 [RH,RC],
 [("reading the area with fallback on negative","include/rseq/rseq.h rseq_current_cpu"),("fallback system calls","src/rseq.c")],
 ["returned values"])
p("C13","The detected CPU count covers every possible CPU",
 "The auto-detected maximum number of CPUs is greater than every CPU number the system can ever report, and equals the highest possible CPU number plus one whenever the kernel's possible-CPU list (at most one page) is readable, however the read is split, interrupted or retried. If the list is unavailable the documented fallbacks (CPU directories, configured-processor count) are used and the larger wins; if everything fails zero is returned and a later call tries again, and pool creation that depends on it fails cleanly.",
 ["fault_sequences","configurations","schedules"],
 "every possible-CPU list, every split of the read into short reads, interrupted reads, open/read errors, directory contents, concurrent first calls",
 "Tests run on one machine with a healthy sysfs.",
 [SC,RC,MC],
 [("sysfs parsing, fallbacks, cache","src/smp.c")],
 ["rseq_get_max_nr_cpus","pools created with auto-detection"])
p("C14","Live pool items never share memory",
 "An item handed out by a pool owns its full (rounded) length in every CPU's region until it is freed: it never overlaps another live item of the same or another pool, nor the allocator's own metadata, and its content on every CPU, addressed by the item pointer, CPU number and stride, changes only when the program writes it. This holds for any interleaving of allocations and frees by any threads, for every pool type, policy, stride and item size.",
 ["schedules","histories","configurations","fault_sequences"],
 "every interleaving of malloc/zmalloc/malloc_init/free on shared pools, growth across ranges, every attribute combination, allocations that fail in between",
 "The mempool test allocates from a single thread, in one pool at a time, with robust pools only.",
 [MC,MH],
 [("free list and bump allocation under the pool lock","src/rseq-mempool.c __rseq_percpu_malloc"),("free list kept in init values / CPU 0 / dedicated stride","src/rseq-mempool.c")],
 ["addresses and contents of live items"])
p("C15","Initialised allocations are initialised on every CPU",
 "A zeroed allocation reads as zero over its whole length on every CPU, and an initialised allocation (from a pool or a pool set) reads as the given content on every CPU, whatever any CPU had written in that memory before it was freed, on recycled and fresh items, and while other threads allocate, free and write concurrently.",
 ["histories","schedules","configurations"],
 "every history of previous use of the memory, every CPU, every attribute combination, interleavings with other allocations",
 "Tests check a freshly filled robust pool, and initialised content only on CPU 0.",
 [MC,MH],
 [("per-CPU initialisation with propagation through shared init pages","src/rseq-mempool.c rseq_percpu_zero_item / rseq_percpu_init_item")],
 ["content read through rseq_percpu_ptr on every CPU"])
p("C16","Pools neither lose nor invent capacity",
 "A pool limited to N ranges serves exactly N times (stride / rounded item size) simultaneously live items, fails with ENOMEM beyond that, and serves again as soon as one item is freed; an unlimited pool only grows when no freed or unused item is left. Freed items are always available again, under any interleaving and after any failed growth.",
 ["schedules","histories","fault_sequences","configurations"],
 "every history and interleaving of allocations, frees and failed growth attempts, every stride / item size / range limit",
 "The test fills a pool once from one thread; no failure or concurrency is involved.",
 [MC],
 [("free list, next-unused offset and range limit","src/rseq-mempool.c")],
 ["success or ENOMEM of each allocation, number of mappings"])
p("C17","A failed pool operation leaves no trace",
 "If any resource request inside attribute, pool, pool-set creation or pool growth fails (memory, mapping, memory file, advice, user init callback), the operation returns failure with a meaningful errno, keeps no mapping, file descriptor or heap memory from the attempt, and leaves everything existing (live items, other pools) untouched and usable, so that the same call succeeds once the resource is back; invalid arguments are rejected with EINVAL in the same way.",
 ["fault_sequences","histories","schedules"],
 "every resource request of every operation failing, any combination and repetition",
 "No test makes a system call or allocation fail.",
 [MC,MH],
 [("error paths of range and pool creation","src/rseq-mempool.c rseq_mempool_range_create, rseq_mempool_create")],
 ["return value and errno","mappings, descriptors and heap after the call"])
p("C18","Destroying pools and sets returns everything, or says so",
 "Destroying a pool or pool set releases every mapping, file descriptor and heap block it ever obtained and nothing belonging to anyone else, and returns 0; if the system refuses to unmap, it returns -1 with that error rather than claiming success, and for a pool keeps what is left so that a later destroy can finish the job. Attribute objects are independent of the pools made from them.",
 ["histories","fault_sequences","configurations"],
 "every history of growth before destroy, failures of unmapping at any range, every attribute combination",
 "Tests only check that destroy of a healthy pool returns 0.",
 [MC,MH],
 [("range teardown keeping the list coherent on partial failure","src/rseq-mempool.c rseq_mempool_destroy")],
 ["return value","mappings, descriptors and heap after the call"])
p("C19","Robust pools detect misuse, and only misuse",
 "In a robust pool a double free stops the program at the second free, a write to a freed item on any CPU stops it at the next allocation of that item or at destroy, items still allocated at destroy stop it there, and a corrupted free list stops it at destroy. A program that uses the pool correctly is never stopped, whatever the interleaving, contents written or failures injected.",
 ["histories","schedules","inputs","fault_sequences"],
 "every misuse instance (which item, word, CPU, moment, range) inside every otherwise legal history",
 "The tests misuse a one-item, one-CPU, one-range pool in six fixed ways, single threaded.",
 [MC,MH],
 [("allocation bitmap, poison checks, free-list traversal","src/rseq-mempool.c")],
 ["program termination by abort"])
p("C20","Freed items are wiped with the poison on every CPU",
 "When a pool has a poison value (set explicitly or implied by robustness), a freed item holds that value over its whole length on every CPU from the return of the free until its next allocation, except that a non-robust pool may keep its own link in the first word of CPU 0's copy (zero policy) or of the shared initial copy, visible on CPUs that never wrote (init policy); so no CPU's old data survives a free.",
 ["histories","schedules","configurations"],
 "every item size, CPU count, policy, poison value and history of writes",
 "Tests only check poison indirectly in robust pools with one CPU.",
 [MC,MH],
 [("poisoning of init values and of every CPU that differs","src/rseq-mempool.c rseq_percpu_poison_item")],
 ["content of freed items on every CPU"])
p("C21","Pool sets serve each request from the smallest pool that fits and has room",
 "A pool-set allocation of length L succeeds whenever some pool in the set with item size at least L has room, is served by the smallest such pool, falls back to the next larger one exactly when the smaller are full or cannot grow, fails with ENOMEM only when none is left, and initialises the item as asked. Adding a pool of an already present size is refused with EBUSY and leaves both unchanged; items are freed back to the pool they came from.",
 ["histories","schedules","fault_sequences","configurations"],
 "every mix of pools, request lengths, exhaustion and failure patterns, concurrent adds and allocations",
 "Pool sets have no test at all.",
 [MC,MH],
 [("ordered search with retry in a larger pool on ENOMEM","src/rseq-mempool.c __rseq_mempool_set_malloc")],
 ["address, errno and content of each allocation"])
p("C22","Forked children cannot disturb the parent's pools",
 "After a fork at any point in a pool's life, nothing a child does (writing items, allocating, freeing, destroying) changes any byte of the parent's items or allocator state, and vice versa; destroying an inherited copy-on-write-init pool in the child is valid, releases what the child inherited and reports success, with items live or not; a zero-policy pool remains fully usable in the child as a private copy.",
 ["histories","crash_points","schedules"],
 "every instant of fork in a pool history, every child action sequence, both policies, several ranges",
 "The fork test destroys an empty single-range pool in the child and looks only at the exit status.",
 [MC,MH],
 [("mappings excluded from fork, canary page wiped in children","src/rseq-mempool.c rseq_mempool_range_create, pool_mappings_accessible")],
 ["contents in parent and child, return value of destroy in the child"])
p("C23","Each CPU's region is initialised exactly once with its own CPU number",
 "A pool's init callback is called for every range of the pool exactly once per CPU with that CPU's number and precisely the memory that the CPU will use (and once with -1 for a global pool), before any item of the range is handed out; a failing callback makes the creation or growth fail, and the pool reports the CPU count it was configured with. The NUMA helper moves every page of the region it is given to that CPU's node exactly once and reports failures.",
 ["configurations","fault_sequences","histories"],
 "every CPU count, stride, growth history, callback failure position and page-move failure",
 "No test sets an init callback.",
 [MC,MH],
 [("init callbacks at range creation","src/rseq-mempool.c rseq_mempool_range_create"),("batched page moves","src/rseq-mempool.c rseq_mempool_range_init_numa")],
 ["callback arguments, page-move requests"])
p("C24","CPUs that never touch a pool cost no memory",
 "Allocating (plain, zeroed, or initialised) and freeing items never makes a CPU's pages private when that CPU's content already is what it has to be: in a zero-policy pool untouched CPUs stay on the zero page, and in an init-policy pool CPUs that never wrote keep sharing the init pages (the allocator's own link in CPU 0 of a non-robust zero-policy pool excepted). Memory use therefore scales with the CPUs actually used, not with the configured maximum.",
 ["histories","configurations"],
 "every history of allocations and frees, item size, CPU count and default poison",
 "No test looks at resident pages.",
 [MC,MH],
 [("compare before write on each CPU","src/rseq-mempool.c rseq_percpu_zero_item, rseq_percpu_init_item, rseq_percpu_poison_item")],
 ["private/resident pages per CPU region"])
p("C25","Ordering helpers order memory accesses exactly as their names promise",
 "The ordering helpers a program pairs with the operations keep their promise on every processor the library runs on: accesses before rseq_smp_mb() are visible to other threads before those after it (two threads that each store, issue it, then load the other's word never both miss); stores before rseq_smp_wmb() or rseq_smp_store_release() are visible before those after it; loads after rseq_smp_rmb() or rseq_smp_load_acquire() are not satisfied before those preceding it; rseq_smp_acquire__after_ctrl_dep() orders a tested load before what follows; release commits publish what was written before them. RSEQ_READ_ONCE and RSEQ_WRITE_ONCE access the object once, whole, for every width from 1 to 8 bytes, never touching a neighbouring byte, yield its value in its own type, evaluate each argument once, and a polling loop using them sees another thread's store.",
 ["schedules","configurations","inputs"],
 "every interleaving and store-buffer or load-reordering behaviour the processor permits, every width, every value, every optimisation level",
 "The tests run on one strongly ordered processor and cannot force a store to linger or a load to be satisfied early.",
 ["include/rseq/arch/x86.h","include/rseq/arch/aarch64.h","include/rseq/arch/riscv.h","include/rseq/arch/ppc.h","include/rseq/arch/s390.h","include/rseq/arch/arm.h","include/rseq/arch/mips.h","include/rseq/arch/loongarch.h","include/rseq/compiler.h"],
 [("fences and acquire/release helpers per architecture","include/rseq/arch/*.h rseq_smp_mb, rseq_smp_load_acquire, rseq_smp_store_release"),("single whole accesses","include/rseq/compiler.h RSEQ_READ_ONCE, RSEQ_WRITE_ONCE")],
 ["values loaded by other threads","bytes next to the accessed object"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
