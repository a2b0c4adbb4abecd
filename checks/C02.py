import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

RSEQ = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}

def run(c):
    c.model("SizeClassesMC.tla", "SizeClassesMC.cfg")
    builds = [("sizes", ("-O1",))]
    if c.thorough:
        builds += [("sizes_32k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_32K_PAGES")),
                   ("sizes_256k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_256K_PAGES")),
                   ("sizes_small", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW")),
                   ("sizes_numa", ("-O1", "-DTCMALLOC_INTERNAL_NUMA_AWARE"))]
    jobs = []
    envs = [("def", {}), ("rseq", RSEQ), ("full", {"TCMALLOC_HEAP_PARTITIONING": "1"}), ("light", {"TCMALLOC_HEAP_PARTITIONING": "2"}),
            ("pow2", {"BORG_EXPERIMENTS": "TEST_ONLY_TCMALLOC_POW2_SIZECLASS"}), ("reuse", {"TCMALLOC_REUSE_SIZE_CLASSES": "reuse"})]
    for b, fl in builds:
        exe = c.build_full(b, "sizes.cc", flags=fl, tag=b)
        for i, (en, env) in enumerate(envs):
            if b == "sizes_numa" and en in ("full", "light"):
                continue
            for s in range(c.q(1, 3)):
                seed = str(c.seed * 100 + i + 7 * s)
                if en in ("def", "full", "light"):
                    jobs.append(dict(name="%s_t_%s%d" % (b, en, s), cmd=[exe, "table", seed, str(c.q(80, 400)), "@TRACE@"], env=env, timeout=300))
                jobs.append(dict(name="%s_a_%s%d" % (b, en, s), cmd=[exe, "api", seed, str(c.q(3000, 20000)), "@TRACE@"], env=env, timeout=300))
                if en in ("rseq", "full"):
                    jobs.append(dict(name="%s_s_%s%d" % (b, en, s), cmd=[exe, "sapi", seed, str(c.q(1500, 8000)), "@TRACE@"], env=env, timeout=300))
    for j in jobs:
        j.update(spec="SizeClassesTrace.tla", cfg="SizeClassesTrace.cfg")
    c.conform(jobs)

main("C02", run)
