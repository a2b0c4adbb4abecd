import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def run(c):
    c.model("ThreadCachesMC.tla", c.q("ThreadCachesMC.cfg", "ThreadCachesDeep.cfg"), timeout=c.q(500, 7200))
    exes = [c.build_full("threadcache", VERIF + "/drivers/threadcache.cc", flags=("-O1",)),
            c.build_full("threadcachen", VERIF + "/drivers/threadcache.cc", flags=("-O1", "-DNDEBUG"))]
    env = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}
    jobs = []
    for i in range(c.q(40, 600)):
        jobs.append(dict(name="th%d" % i, cmd=[exes[i % 2], str(c.seed * 1000 + i), c.q("500", "1500"), "@TRACE@"], env=env,
                         spec="ThreadCachesTrace.tla", cfg="ThreadCachesTrace.cfg", timeout=300, free_running=True))
    c.conform(jobs)


main("C25", run)
