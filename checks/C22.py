import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    for cfg in ["PageMapMC.cfg", "PageMapMC3.cfg", "PageMapMC5.cfg"]: c.model("PageMap.tla", cfg)
    if c.thorough:
        for cfg in ["PageMapMC2.cfg", "PageMapMC4.cfg"]: c.model("PageMap.tla", cfg, timeout=1500)
    exe = c.build("pagemap", [VERIF + "/drivers/pagemap.cc"] + LOGGING, flags=("-O1", "-DNDEBUG"))
    spans = c.build_full("spans", "spans.cc", flags=("-O1",))
    jobs = []
    for i in range(c.q(8, 32)):
        jobs.append(dict(name="map%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(30, 120)), "@TRACE@"],
                         spec="PageMapTrace.tla", cfg="PageMapTrace.cfg"))
    for i in range(c.q(10, 60)):
        env = {"GLIBC_TUNABLES": "glibc.pthread.rseq=%d" % (i % 2)}
        jobs.append(dict(name="spans%d" % i, cmd=[spans, str(c.seed * 1000 + i), str(c.q(40, 120)), "@TRACE@", str([0, 0, 300000, 2000000, 0][i % 5])],
                         spec="SpansTrace.tla", cfg="SpansTrace.cfg", env=env))
    c.conform(jobs)

main("C22", run)
