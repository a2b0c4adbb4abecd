import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

RSEQ = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}        # leaves rseq to the allocator: per-CPU caches

def run(c):
    c.model("HeapTiers.tla", "HeapTiers.cfg")
    if c.thorough:
        c.model("HeapTiers.tla", "HeapTiers2.cfg")
    builds = [("heap", ("-O1",))]
    if c.thorough:
        builds += [("heap_rel", ("-O2", "-DNDEBUG")),
                   ("heap_32k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_32K_PAGES")),
                   ("heap_256k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_256K_PAGES")),
                   ("heap_small", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW"))]
    jobs = []
    for b, fl in builds:
        exe = c.build_full(b, "heap.cc", flags=fl, tag=b)
        k = 0
        for seed in range(c.q(1, 4)):
            for mode in ("x", "bhl", "s", "sghb", "rb", "bhlrs", "lb"):
                for T in (1, 4):
                    for env in (RSEQ, {}):
                        if env == {} and mode in ("x", "bhl", "sghb") and T == 1 and not c.thorough:
                            continue
                        k += 1
                        jobs.append(dict(name="%s%d_%s_%d" % (b, k, mode, T), free_running=T > 1 or "b" in mode, env=env, timeout=240,
                                         cmd=[exe, str(c.seed * 1000 + seed * 50 + k), str(T), str(c.q(6000, 12000) // T), mode, "@TRACE@"],
                                         spec="HeapTrace.tla", cfg="HeapTrace.cfg"))
    c.conform(jobs, parallel=4)

main("C01", run)
