#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["tcmalloc/" + f for f in files],
            state=[dict(name=a, meaning=b, where="tcmalloc/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="tcmalloc/" + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Live allocations are disjoint, large enough, aligned and never corrupted",
 "Every successful allocation through any entry point (malloc, calloc, realloc, aligned and sized variants, hot/cold new, batch-free paths) returns memory of at least the requested size, aligned as asked (and by default to the guaranteed new alignment), that overlaps no other live allocation; calloc memory is zero and realloc preserves the common prefix. Bytes written by the owner stay intact until the owner frees the block, no matter what other threads allocate, free, flush or release in between. Every freed block becomes allocatable again exactly once.",
 ["histories", "schedules", "inputs"],
 "all sequences of allocation/deallocation/maintenance calls from any number of threads, all sizes and alignments",
 "Tests sample a few size patterns; an overlap needs particular interleavings of refill, overflow, span release and reuse across tiers. The stable tests do not even link the allocator.",
 ["tcmalloc.cc", "cpu_cache.h", "transfer_cache.h", "central_freelist.h", "span.h", "huge_page_aware_allocator.h", "pagemap.h"],
 [("fast_alloc / slow_alloc / do_free dispatch", "tcmalloc.cc"), ("per-size-class caches handing objects upward and downward", "cpu_cache.h"), ("span carve-up and free bitmap", "span.cc")],
 observe=["return values of the allocation API", "bytes of live blocks", "malloc_usable_size"])

prop("C02", "Size-class mapping is sufficient, tight, monotone and alignment-correct",
 "For every size and alignment a request is mapped to a class whose object size is at least the request, is a multiple of the requested alignment, and is the smallest such class the table offers; larger requests never map to smaller blocks. The size predicted for a request to operator new or for an aligned request (size query without allocating), the size reported for the allocated block and the size returned by the size-reporting allocation functions agree (malloc's own blocks are never smaller than predicted), and an unsampled block may be freed with any size that maps to the same class. Every class satisfies the published constraints on object size, pages per span, objects per span and batch size.",
 ["inputs", "configurations"],
 "all request sizes (exhaustively up to the largest class and around page multiples beyond), all power-of-two alignments, every shipped size-class table",
 "Tests iterate over a few sizes; a wrong rounding at one boundary of one table for one alignment passes them.",
 ["sizemap.h", "sizemap.cc", "size_classes.cc", "legacy_size_classes.cc", "experimental_pow2_size_class.cc", "reuse_relaxed_below_64_size_classes.cc", "tcmalloc_policy.h", "alloc_at_least.h", "alloc_at_least.cc", "tcmalloc.cc"],
 [("ClassIndex lookup array", "sizemap.h"), ("GetSizeClass alignment walk", "sizemap.h"), ("ValidSizeClasses", "sizemap.cc")])

prop("C03", "Per-CPU caches hand out each cached object exactly once under preemption",
 "In the restartable per-CPU cache every object stored is later returned exactly once: pushes, pops, batch operations, capacity changes, draining, stopping a CPU and moving to a larger or smaller slab never lose, duplicate or invent an object, for any point at which the kernel preempts or migrates the thread. A size class never holds more objects than its capacity, a failed operation changes nothing, and a drained CPU reports exactly the objects and capacity it held.",
 ["schedules", "histories", "fault_sequences"],
 "every instruction at which a thread can be preempted or migrated inside the restartable sections, every interleaving of operations on one CPU with a remote drain or resize, all operation histories",
 "Preemption inside a sequence of a few instructions happens about once in millions of operations in a stress test, and a lost update then shows as a silent duplicate.",
 ["internal/percpu_tcmalloc.h", "internal/percpu.h", "internal/percpu.cc", "internal/percpu_rseq_asm.S"],
 [("restartable push/pop sections with commit store", "internal/percpu_tcmalloc.h"), ("StopConcurrentMutations / fence", "internal/percpu_tcmalloc.h")])

prop("C04", "CPU-cache capacity is conserved and bounded",
 "Bytes of capacity of the per-CPU front-end are conserved: for every CPU, the capacity given to its size classes plus its unassigned capacity never exceeds the limit set for it, and stealing between CPUs or size classes, reclaiming, resizing classes and resizing slabs move capacity without creating or losing any. Bytes reported as cached equal the objects actually held, which never exceed the capacity, and reclaiming a cache leaves it empty with its objects returned to the next tier.",
 ["histories", "configurations"],
 "all histories of refill, overflow, steal, shuffle, reclaim, slab resize and limit change over all CPUs",
 "The unit tests are randomized smoke runs checking a few totals at the end.",
 ["cpu_cache.h", "cpu_cache.cc", "internal/percpu_tcmalloc.h"],
 [("UpdateCapacity / Steal / ShuffleCpuCaches / StealCapacityForSizeClassWithinCpu", "cpu_cache.h")])

prop("C05", "The transfer cache is a bounded store that loses and duplicates nothing",
 "Objects inserted into the middle-tier cache are returned by later removals exactly once or passed on to the next tier exactly once; the number held always lies between zero and the current capacity, and capacity grows and shrinks only within its configured maximum. Moving the unused part of the cache back (plunder) returns objects the low-water mark proves idle and no others, and all reported counts (insert/remove hits, misses, used) agree with what happened.",
 ["histories", "schedules"],
 "all sequences and interleavings of insert/remove range, plunder, grow, shrink and resize on every size class",
 "Existing tests are mocks plus random stress with coarse end-of-run checks.",
 ["transfer_cache_internals.h", "transfer_cache.h", "central_freelist.h"],
 [("slot array with used_/max bookkeeping in one word", "transfer_cache_internals.h")])

prop("C06", "Central free lists give every object of a span to at most one owner",
 "Each object carved from a span is handed out at most once until it is returned, lies wholly inside the span and at a multiple of the object size; a span is returned to the page heap exactly when its last outstanding object comes back. The counts of objects, spans, overhead, utilisation and span lifetimes reported equal the real ones whenever no operation is in progress, and a span with free objects can always be found again for allocation.",
 ["histories", "schedules"],
 "all sequences of batch removals and insertions for every size class (bitmap, intrusive list and single-object spans)",
 "Tests run random sequences for a handful of classes and mostly check that nothing crashes.",
 ["central_freelist.h", "central_freelist.cc", "span.h", "span.cc", "hinted_tracker_lists.h"],
 [("Span::FreelistPopBatch / FreelistPushBatch", "span.h"), ("nonempty_ bucketed lists", "central_freelist.h")])

prop("C07", "The page heap hands out disjoint aligned page runs and accounts for every page",
 "Every page run handed out by the page heap has at least the requested length and alignment, lies in memory of the right kind, and overlaps no other live run; freed runs are reused or released but never lost. At every moment system memory obtained equals in-use plus free plus unmapped pages as reported, per memory kind, regardless of which internal tier (packing, large regions, whole huge pages) served each run.",
 ["histories", "configurations", "fault_sequences"],
 "all sequences of allocations, aligned allocations, deletions and releases of any length, for every tier option and with failing system calls",
 "The tests check statistics at a few chosen points; a leak or overlap between tiers needs specific size mixes.",
 ["huge_page_aware_allocator.h", "huge_page_aware_allocator.cc", "page_allocator.h", "page_allocator.cc", "span.h"],
 [("AllocSmall/AllocLarge/AllocEnormous routing, donated tail pages", "huge_page_aware_allocator.h")])

prop("C08", "Huge-page packing keeps each page in one state and reports it truthfully",
 "Within each partly used huge page, every small page is exactly one of in use, free and backed, or released; allocations never overlap, freeing returns exactly the run that was allocated, and a huge page is handed back exactly when its last run is freed. Used, free and unmapped totals, and counts of full, partial, released and donated huge pages, always equal those of the individual pages; releasing memory touches only free pages and never more than needed beyond one huge page's granularity.",
 ["histories", "configurations", "fault_sequences"],
 "all sequences of get/put/release with any sizes, span densities, release modes, and with failing unback calls",
 "Randomized unit tests compare totals occasionally; list-membership and subrelease bookkeeping errors stay invisible.",
 ["huge_page_filler.h", "huge_page_tracker.h", "hinted_tracker_lists.h", "internal/range_tracker.h"],
 [("PageTracker Get/Put/ReleaseFree", "huge_page_tracker.h"), ("tracker lists keyed by longest free range", "huge_page_filler.h")])

prop("C09", "Large-allocation regions place runs disjointly and track backing exactly",
 "In a region of contiguous huge pages, allocations are disjoint and inside the region, and freeing restores exactly the pages taken. Each huge page is reported backed if and only if it has been used since it was last released, only huge pages with no used page are ever released, and the used, free and unmapped totals equal the sum over the pages; a caller is told correctly whether its run contains pages that may not be backed.",
 ["histories", "fault_sequences"],
 "all sequences of allocate, free and release over several regions and lengths, with failing unback calls",
 "Unit tests use a few random mixes without failing system calls and compare aggregate numbers.",
 ["huge_region.h", "internal/range_tracker.h"],
 [("HugeRegion::Inc/Dec backing accounting", "huge_region.h")])

prop("C10", "Free huge-page address ranges are kept merged, disjoint and findable",
 "The store of free address ranges always holds exactly the ranges freed minus those taken, as maximal non-adjacent runs in address order; its recorded totals, longest-run hints and search order are right after any insertion, removal and merge. An allocation takes its pages from a free range and never fails when a sufficient range is free; system memory is requested only otherwise.",
 ["histories", "inputs"],
 "all histories of insertions and removals with any tree shape (random priorities) and any range lengths",
 "Tests run one random mix and check totals; hint errors only degrade or misplace later searches.",
 ["huge_address_map.h", "huge_address_map.cc", "huge_allocator.h", "huge_allocator.cc"],
 [("treap with longest-subtree augmentation", "huge_address_map.cc"), ("HugeAllocator::FindCheapest/AllocateRange", "huge_allocator.cc")])

prop("C11", "The huge-page cache never serves a range twice and respects its limit",
 "Ranges held in the huge-page cache are disjoint from those in use; a request is served from the cache or by fresh memory and is labelled correctly as backed or not. Cached size never exceeds the current limit after a release, the limit stays within its bounds, memory that cannot be unbacked is neither lost nor counted as released, and all hit/miss/usage statistics agree with history.",
 ["histories", "fault_sequences"],
 "all histories of get, release, unbacked release and forced release, with clock advances and failing unback calls",
 "Tests use fixed scenarios; statistics windows and failure paths are barely sampled.",
 ["huge_cache.h", "huge_cache.cc", "internal/timeseries_tracker.h"],
 [("MaybeGrowCacheLimit / MaybeShrinkCacheLimit / ShrinkCache", "huge_cache.cc")])

prop("C12", "Bitmaps and range trackers find, mark and unmark exact ranges",
 "A fixed-size range tracker marks and unmarks exactly the bits asked for, finds a run of at least the requested length whenever one exists (choosing the best fit as specified), and its used count, longest free run and allocation count are exact at all times. All bit queries (next set or clear bit, previous bit, counting, range iteration) agree with the abstract set for every position, length and word boundary.",
 ["inputs", "histories"],
 "all bit patterns and ranges over several sizes including non-multiples of the word size",
 "Tests use a few sizes and random patterns; word-boundary off-by-ones need specific positions.",
 ["internal/range_tracker.h"],
 [("Bitmap word scans", "internal/range_tracker.h"), ("RangeTracker::FindAndMark/Unmark", "internal/range_tracker.h")])

prop("C13", "Memory limits are enforced: hard never exceeded, soft triggers release",
 "With a hard limit set, an allocation that cannot be kept under it after releasing free memory fails loudly instead of being granted, and usage returned to callers never exceeds it; with a soft limit, crossing it makes the allocator release free memory until below or nothing more can be released. Setting, reading back, lowering, raising and removing either limit behave consistently (the hard limit is never below an accepted soft limit), and hit and shrink counters match history.",
 ["histories", "configurations"],
 "all sequences of limit changes, allocations, frees and releases, for all page-run sizes",
 "Tests check one growth pattern with one limit pair.",
 ["page_allocator.h", "page_allocator.cc", "huge_page_aware_allocator.h"],
 [("ShrinkToUsageLimit / ShrinkHardBy / set_limit", "page_allocator.cc")])

prop("C14", "Releasing memory to the system never harms live data and reports the truth",
 "Memory is returned to the operating system only when no live allocation uses it; the amount reported as released equals what the system was actually asked to drop and the decrease of backed memory. A request to release N bytes releases at least N when that much is releasable (and is carried over if more was released than asked), and memory reused after release behaves as fresh memory.",
 ["histories", "fault_sequences"],
 "all histories mixing allocation, free and release requests, with system calls that fail at any point",
 "Tests release once after a fixed pattern; failure of the system call is not tested end to end.",
 ["huge_page_aware_allocator.h", "huge_page_filler.h", "huge_cache.cc", "malloc_extension.cc", "tcmalloc.cc", "internal/system_allocator.h", "background.cc"],
 [("ReleaseAtLeastNPages", "huge_page_aware_allocator.h"), ("SystemAllocator::Release", "internal/system_allocator.h"), ("MallocExtension_Internal_ReleaseMemoryToSystem extra bytes", "tcmalloc.cc")])

prop("C15", "Guarded sampling isolates each allocation and reports each error correctly",
 "Every guarded allocation occupies its own page between inaccessible guard pages, is at least as large and as aligned as asked, and no page is used by two live allocations; the pool never exceeds its limits and slots are reusable after free. An access outside the block or after its free faults and is classified correctly (overflow, underflow, use after free, double free), with writes into the slack detected at free, and no valid program is ever reported.",
 ["histories", "schedules", "inputs"],
 "all sequences of guarded allocation, free and out-of-bounds or stale access, all sizes and alignments up to a page",
 "Tests sample a few sizes; slot selection and error classification depend on history.",
 ["guarded_page_allocator.h", "guarded_page_allocator.cc", "internal/gwp_asan_state.h", "segv_handler.cc"],
 [("ReserveFreeSlot / FreeSlot", "guarded_page_allocator.cc"), ("GetAllocationOffset right/left alignment, magic bytes", "guarded_page_allocator.cc")])

prop("C16", "The sample registry shows exactly the live samples, each once",
 "A sample registered is visible to every iteration that starts after registration completes and before unregistration starts, with exactly the data it was registered with, and is never shown after unregistration. Records are reused, never shared by two live samples, and concurrent registration, unregistration and iteration never lose or duplicate a record or run the disposal callback twice.",
 ["schedules", "histories"],
 "every interleaving of register, unregister, bulk unregister and iterate by several threads",
 "The tests run threads for a short time; graveyard races need specific preemption points.",
 ["internal/sampled_allocation_recorder.h", "internal/sampled_allocation.h"],
 [("lock-free all-list push and graveyard pop", "internal/sampled_allocation_recorder.h")])

prop("C17", "Sampling weights account for every byte allocated",
 "Sampling points lie on the line of bytes a thread requests (a request of k bytes taking k+1); a request is sampled exactly if a point lies in it, and its weight is the mean interval in force when that point was picked (an interval of zero or below counts as zero) plus the request's bytes from the point on, so weights account for every byte requested, whatever the allocation sizes, the interval chosen or the moment it changes. Sampling disabled means no samples; an interval of one means every allocation is sampled, and samples carry the requested size, alignment and true allocated size.",
 ["histories", "configurations"],
 "all sequences of allocation sizes and interval changes for any random draw",
 "Tests check statistical averages with tolerance, which hide off-by-one or lost-bytes errors.",
 ["sampler.h", "sampler.cc", "allocation_sampling.h", "allocation_sampling.cc", "internal/exponential_biased.h"],
 [("RecordAllocationSlow weight arithmetic", "sampler.cc")])

prop("C18", "Heap and peak-heap profiles describe exactly the sampled live objects",
 "A heap profile lists exactly the sampled objects live at the time of the snapshot, each once, with what was requested, the size given, the stack and the time, its count the number of objects nearest to the bytes it stands for and its sum that many whole objects; the allocation profile covers exactly the samples between start and stop, and its start and duration are those of the session. A snapshot of the largest sampled heap is taken exactly when a sampled allocation makes the sampled heap exceed the previous peak by the configured growth fraction; the peak-heap profile then shows exactly what was live at that moment, including objects freed since, until a larger peak; with a growth fraction of at least one the peak never decreases.",
 ["histories"],
 "all histories of sampled allocations, frees, snapshots, and profile start/stop",
 "Tests compare coarse totals for one allocation pattern.",
 ["peak_heap_tracker.h", "peak_heap_tracker.cc", "stack_trace_table.cc", "allocation_sample.cc", "internal/sampled_allocation_recorder.h"],
 [("MaybeSaveSample growth threshold", "peak_heap_tracker.cc"), ("DumpHeapProfile / AllocationSample", "allocation_sample.cc")])

prop("C19", "Hooks run exactly while registered",
 "A registered hook is called for every matching event from the end of registration until the start of removal, exactly once per event, with the true arguments; a hook not registered is never called. Adding fails when the table is full or the hook is null, removing an unknown hook fails and changes nothing, and traversal returns exactly the registered hooks, also under concurrent add and remove.",
 ["schedules", "histories"],
 "all histories and interleavings of add, remove, traverse and invoke with up to capacity-plus-one distinct hooks",
 "The only test is end-to-end and does not fill, fragment or race the table.",
 ["internal/hook_list.h", "internal/hook_list.cc", "malloc_hook.h", "malloc_hook.cc", "malloc_hook_invoke.h"],
 [("slot array with moving end index", "internal/hook_list.h")])

prop("C20", "Coarse cycle timestamps order and measure correctly across wrap-around",
 "A coarse 32-bit timestamp distinguishes 'never set' from every real time, and its age at any later moment within the wrap-around period is right to within one unit, also when the counter wraps in between. Comparisons between two timestamps less than half the period apart agree with real time order and are antisymmetric.",
 ["inputs"],
 "all pairs of cycle-counter values at any distance, including wrap-around and the reserved zero value",
 "The test uses a few constants.",
 ["internal/clock.h"],
 [("Cycles32 truncation and modular comparison", "internal/clock.h")])

prop("C21", "Stack-trace filters never forget what was added and never go negative",
 "The counting filter reports a trace as contained whenever the values added for it exceed those removed, and as absent once the values of all traces sharing its counters sum to zero. The decaying filter forgets exactly the oldest entries beyond its window, each exactly once, so that draining it leaves exactly the values added.",
 ["histories", "schedules"],
 "all histories and interleavings of add, remove, evaluate and decay, with hash collisions",
 "Tests use a few traces with no collisions and a single thread.",
 ["internal/stacktrace_filter.h"],
 [("StackTraceFilter::Add/Evaluate", "internal/stacktrace_filter.h"), ("DecayingStackTraceFilter ring", "internal/stacktrace_filter.h")])

prop("C22", "The page map returns exactly what was stored for every page",
 "For every page the map returns the span and size class most recently stored for it and nothing for pages never set, independent of how pages share leaves and of the order and extent of ensure, set and clear operations. Searching for the next mapped page finds the first one after the start and no other; enumerating the allocated spans lists each live one exactly once, with its extent and object size, and no freed one.",
 ["inputs", "histories"],
 "all page numbers over the address-space width (leaf boundaries in particular) and all histories of range set/clear",
 "Tests set random pages; boundary leaves and sparse search are barely hit.",
 ["pagemap.h", "pagemap.cc"],
 [("PageMap2/PageMap3 radix lookup", "pagemap.h")])

prop("C23", "Internal metadata storage is disjoint, aligned and exactly accounted",
 "Blocks from the metadata arena are disjoint, aligned as requested and inside memory obtained from the system; freed metadata objects are reused and never handed out twice. Bytes allocated, unallocated, unavailable and non-resident, and block counts, always add up to the memory obtained.",
 ["histories", "inputs"],
 "all histories of sizes and alignments, metadata object new/delete, and returned ranges",
 "Tests check only a few aligned allocations.",
 ["arena.h", "arena.cc", "metadata_object_allocator.h"],
 [("Arena::Alloc and free block list", "arena.cc"), ("MetadataObjectAllocator free list", "metadata_object_allocator.h")])

prop("C24", "Reported memory statistics add up and match reality",
 "At every quiescent point the documented identities between exported statistics hold: bytes in use by the application, bytes in each cache tier, page-heap free and unmapped bytes sum to the memory obtained from the system, with metadata to the virtual and physical figures, and derived figures (heap size, slack, required, local, external fragmentation, fragmentation, peaks) follow from them. The bytes in use change exactly by the blocks allocated and freed, per-class spans and sampled figures match the page map and the live samples, and releasing moves free bytes to unmapped bytes and counts them. Statistics read through every interface (numeric property, property map, text and machine-readable dump) agree with each other; the numeric physical, virtual, required and external figures include non-resident metadata by design.",
 ["histories", "configurations"],
 "all histories of allocation, free, flush and release, single and multi-threaded, at quiescent points",
 "Tests compare selected fields with tolerance after one pattern.",
 ["global_stats.cc", "stats.cc", "tcmalloc.cc", "malloc_extension.cc"],
 [("ExtractTCMallocStats / property table", "global_stats.cc")])

prop("C25", "Thread caches stay bounded and return everything when a thread ends",
 "In thread-cache mode, objects cached by a thread are handed back to it or to the shared tiers exactly once and reported cache sizes equal the objects held. The budgets of all thread caches plus what is unclaimed equal the configured total at all times; a new cache gets one step's worth, or the minimum where no step can be had; a cache's budget grows only out of what is unclaimed, while that is positive, or out of another cache that is above the minimum; lowering the total scales the budgets down with the share per thread. A thread's end (or marking it idle) returns every object it cached and its whole budget.",
 ["histories", "schedules"],
 "all histories of allocation, free, scavenging, budget change and thread birth and death",
 "Stress tests check only that nothing crashes.",
 ["thread_cache.h", "thread_cache.cc"],
 [("Scavenge / IncreaseCacheLimit / budget stealing", "thread_cache.cc")])

prop("C26", "Invalid deallocations are detected before they corrupt the heap",
 "Freeing a large, sampled or guarded block again before its memory is reused, freeing an address outside the address space of the heap, misaligned, or inside a large block, and freeing with a size, alignment or family (malloc or new) that contradicts the allocation of a sampled block, or a size no large block of that length can have, stop the program with a report naming the error, before the heap changes; small blocks of another size class or of pages no longer theirs are stopped when they reach the central free list. A deallocation that keeps the documented rules (including free_sized with the size last given to realloc) is never stopped. With assertions compiled in, wrong sizes and alignments of small blocks are stopped as well.",
 ["inputs", "histories"],
 "all block sizes, kinds (small, large, sampled, guarded), offsets within a block and wrong sizes or alignments",
 "Death tests try a few sizes each.",
 ["tcmalloc.cc", "error_reporting.cc", "span.h", "allocation_sampling.h", "huge_page_aware_allocator.h"],
 [("do_free_with_size checks, span-state checks", "tcmalloc.cc"), ("report functions", "error_reporting.cc"), ("do_realloc in place", "tcmalloc.cc"), ("PageMap::UnregisterSizeClass", "pagemap.cc"), ("MaybeUnsampleAllocation", "allocation_sampling.h")])

prop("C27", "Lifetime profiles pair every sampled allocation with its own free",
 "The lifetime profiler reports for each sampled allocation freed during profiling its own lifetime, thread and CPU relation and size, grouped by its own allocation and free stacks, each once; allocations still live at the end are reported as censored and those made before the profile started are not paired.",
 ["histories", "schedules"],
 "all histories of profile start/stop, sampled allocations and frees by several threads",
 "Tests use a few threads and a fixed pattern.",
 ["deallocation_profiler.h", "deallocation_profiler.cc"],
 [("DeallocationProfilerList, live-allocation table", "deallocation_profiler.cc")])

prop("C28", "Sliding-window statistics report exact window extremes and totals",
 "Windowed minimum, maximum and demand statistics equal those of the samples within the window at the moment of asking, for any sampling times including long gaps and repeated instants. Decisions derived from them (how much freed memory to keep for demand peaks) never release below the demand they report and count correct, pending and total decisions consistently.",
 ["histories", "inputs"],
 "all sequences of clock advances and reported values",
 "Tests use a handful of fixed sequences.",
 ["internal/timeseries_tracker.h", "huge_page_subrelease.h", "huge_cache.h"],
 [("epoch ring buffer", "internal/timeseries_tracker.h"), ("SkippedSubreleaseCorrectnessTracker", "huge_page_subrelease.h")])

prop("C29", "Tunable parameters read back what was set, within documented bounds",
 "Each runtime parameter and each per-limit setting reads back the value set through any interface, clamped or rejected exactly as documented, takes effect on the component it governs, and does not disturb any other parameter. Experiment selection depends only on the documented environment variables and enables exactly the experiments named and not disabled.",
 ["configurations", "histories"],
 "all sequences of parameter sets and reads, all documented values; all environment strings over the experiment names",
 "Tests set some parameters once.",
 ["parameters.cc", "parameters.h", "malloc_extension.cc", "experiment.cc", "experiment_config.h"],
 [("TCMalloc_Internal_Set*/Get*", "parameters.cc"), ("SelectExperiments", "experiment.cc")])

prop("C30", "Residency and page-flag queries count exactly the asked range",
 "For any address range, the bytes reported resident, swapped, huge-page backed, stale or locked equal the sum over the pages in the range with partial first and last pages counted by their covered bytes, as the kernel's tables say. A failed or truncated kernel answer yields no result rather than a wrong one.",
 ["inputs", "fault_sequences"],
 "all start offsets and lengths, all page-flag combinations, buffer-boundary crossings and short reads",
 "Tests use a few ranges.",
 ["internal/residency.h", "internal/residency.cc", "internal/mincore.h", "internal/mincore.cc", "internal/pageflags.h", "internal/pageflags.cc"],
 [("chunked reads over a fixed buffer", "internal/mincore.cc")])

prop("C31", "Intrusive lists keep every element exactly once, in order",
 "Every intrusive list holds exactly the elements added and not removed, in the order its operations define, with a correct length and emptiness at all times; removing any element leaves the others untouched, and bucketed lists find an element whenever one exists at or after the requested bucket.",
 ["histories"],
 "all histories of push, pop, remove, splice and batch operations",
 "Tests use few elements and orders.",
 ["internal/linked_list.h", "hinted_tracker_lists.h", "span.h"],
 [("TList / LinkedList / HintedTrackerLists", "internal/linked_list.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
