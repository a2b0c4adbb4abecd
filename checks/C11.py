import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("HugeCacheMC.tla", "HugeCacheMC2.cfg")
    if c.thorough:
        c.model("HugeCacheMC.tla", "HugeCacheMC3.cfg")
        c.model("HugeCacheMC.tla", "HugeCacheMC.cfg")
    exe = c.build("huge_cache", [VERIF + "/drivers/huge_cache.cc"] + LOGGING + ["tcmalloc/" + f for f in (
        "huge_address_map.cc", "huge_allocator.cc", "huge_cache.cc")])
    jobs = []
    for i in range(c.q(16, 96)):
        N = [48, 96, 160, 300][i % 4]
        fail, nest = [(0, 0), (20, 0), (0, 30), (15, 30)][(i // 4) % 4]
        jobs.append(dict(name="hc%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(2500, 8000)), str(N), str(fail), str(nest), "@TRACE@"],
                         spec="HugeCacheTrace.tla", cfg="HugeCacheTrace.cfg"))
    c.conform(jobs)

main("C11", run)
