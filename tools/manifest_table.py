TR = "The design is checked exhaustively by TLC within the constants of the cfg; the code is bound by validating recorded executions, so behaviours never executed are not decided."
CLAIMED = {
 "C01": ("TLA+ spec of live blocks refined by a tier model (TLC) + validation of recorded histories of every entry point, single- and multi-threaded", TR),
 "C02": ("TLA+ spec of size classes and the lookup built from them (TLC, all small tables) + validation of the complete size/alignment map of the real tables, of mutated tables and of API-visible sizes", TR),
 "C03": ("TLA+ spec of a per-CPU slab under preemption, migration, stopping, draining and resizing (TLC) + validation of recorded executions of the real slab interrupted at chosen machine instructions, and of free-running ownership monitoring", TR),
 "C04": ("TLA+ spec of capacity accounting at atomic-step granularity (TLC) + validation of recorded histories of the real CPU cache, sequential, interrupted at chosen instructions, and free running", TR),
 "C05": ("TLA+ spec of transfer cache, shard manager and resizing (TLC) + validation of sequential histories and controlled/enumerated schedules of the real code", TR),
 "C06": ("TLA+ specs of a span's free list and of the central free list at lock granularity (TLC) + validation of sequential histories and controlled/enumerated schedules of the real code", TR),
 "C07": ("TLA+ spec of the page heap refined by a model of its tiers filler/regions/cache (TLC) + validation of recorded histories of the real page heap incl. failing unbacks, donation and releases", TR),
 "C08": ("TLA+ spec of partly used huge pages with the filler's incremental totals and list membership checked against the pages (TLC) + validation of recorded histories of the real filler incl. failing unbacks and treatments interleaved with other operations", TR),
 "C09": ("TLA+ spec of a region's incremental bookkeeping against its pages (TLC) + validation of recorded histories of the real region set incl. failing unbacks", TR),
 "C10": ("TLA+ spec of the free-range store and allocator (TLC) + trace validation of the real code", TR),
 "C11": ("TLA+ spec of the huge-page cache with overlapping unbacks (TLC) + trace validation incl. failing and re-entrant unbacks", TR),
 "C12": ("TLA+ spec of bitmap/range tracker (TLC) + exhaustive small-size and boundary trace validation", TR),
 "C13": ("TLA+ spec of limit enforcement against measured backed memory, with the claimed-credit variant as a counterexample (TLC) + validation of recorded allocation/limit histories of the running allocator incl. refused releases and aborts", TR),
 "C14": ("TLA+ spec of releasing and its accounting (TLC) + validation of recorded release histories of the running allocator against the kernel calls it makes, incl. failing and locked memory", TR),
 "C15": ("TLA+ spec of guarded slots, their protection and what deallocation checks find (TLC) + validation of recorded histories of the real guarded page allocator, alone and under the whole allocator, with misuses made in child processes", TR),
 "C16": ("TLA+ spec of the sample registry at lock/CAS granularity (TLC) + validation of controlled schedules of the real code", TR),
 "C17": ("TLA+ spec of sampling points on the line of requested bytes against the incremental counter the code keeps (TLC) + validation of recorded histories of the real sampler, alone and under the allocator", TR),
 "C18": ("TLA+ spec of the sampled live heap, profiling sessions and the peak snapshot (TLC) + validation of every row of every profile of recorded histories of the running allocator, sequential and with several threads", TR),
 "C19": ("TLA+ spec of the hook table at atomic-step granularity (TLC) + linearisation-style validation of controlled schedules of the real code", TR),
 "C20": ("TLA+ spec of wrapped timestamps (TLC, all distances at small width) + boundary trace validation", TR),
 "C21": ("TLA+ spec of counting/decaying filters at atomic-step granularity (TLC) + validation of sequential histories and controlled schedules", TR),
 "C22": ("TLA+ spec of the radix-tree page map (TLC, every address width used) + validation of histories of the real map and of enumerations of the running allocator against the live blocks", TR),
 "C23": ("TLA+ spec of the metadata arena with its free list and of the object allocator, statistics kept incrementally (TLC) + validation of recorded histories of the real arena: placement, reuse before growth, and every statistic", TR),
 "C24": ("TLA+ account of where every byte is and how each reported figure follows from it (TLC, all small accounts) + validation of readings through every interface against the live blocks of recorded histories of the running allocator", TR),
 "C25": ("TLA+ spec of thread-cache budgets, list lengths and thread ends (TLC) + validation of recorded histories of the running allocator in thread-cache mode", TR),
 "C26": ("TLA+ rules of correct deallocation and a spec of the checks a deallocation passes through (TLC, every kind of block and deallocation of a small heap) + validation of the verdicts of the real allocator, with and without assertions, on correct and incorrect deallocations made in child processes", TR),
 "C28": ("TLA+ specs of the epoch ring and of the incremental counting of skipped releases against their ideals (TLC) + validation of recorded histories of the real trackers under a mocked clock", TR),
 "C31": ("pointer-level TLA+ spec of bucketed lists refining sequences (TLC) + trace validation", TR),
}
NOT = {
 "C27": "Not built in the time available: a specification of the lifetime profiler's event matching could decide it the same way as C18.",
 "C29": "Not built in the time available: parameter setters and experiment selection could be specified and checked the same way.",
 "C30": "Not built in the time available: it needs a model of /proc page flags and pagemap files behind stand-in files.",
}
