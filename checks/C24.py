import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def run(c):
    c.model("StatsMC.tla", c.q("StatsMC.cfg", "StatsDeep.cfg"), timeout=c.q(300, 7200))
    exes = [c.build_full("stats", VERIF + "/drivers/stats.cc", flags=("-O1",)),
            c.build_full("statsn", VERIF + "/drivers/stats.cc", flags=("-O1", "-DNDEBUG"))]
    rseq = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}
    jobs = []
    for i in range(c.q(36, 500)):
        # per-CPU caches, caches per thread, and the heap in two partitions
        env = (rseq, {}, dict(rseq, TCMALLOC_HEAP_PARTITIONING=str(1 + i % 2)))[i % 3]
        jobs.append(dict(name="st%d" % i, cmd=[exes[i % 2], str(c.seed * 1000 + i), c.q("500", "1500"), "@TRACE@"], env=env,
                         spec="StatsTrace.tla", cfg="StatsTrace.cfg", timeout=300, free_running=True))
    c.conform(jobs)


main("C24", run)
