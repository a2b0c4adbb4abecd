import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("HugeMap.tla", "HugeMapMC.cfg")
    c.model("HugeMap.tla", "HugeAllocMC.cfg")
    exe = c.build("hugemap", [VERIF + "/drivers/hugemap.cc"] + LOGGING + ["tcmalloc/" + f for f in (
        "huge_address_map.cc", "huge_allocator.cc")])
    jobs = []
    n = c.q(8, 48)
    ev = c.q(2500, 8000)
    for i in range(n):
        mode = "map" if i % 2 == 0 else "alloc"
        N = [12, 24, 48, 96][(i // 2) % 4] if mode == "map" else [40, 80, 160, 24][(i // 2) % 4]
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(ev), str(N), "@TRACE@"],
                         spec="HugeMapTrace.tla", cfg="HugeMapTrace.cfg"))
    c.conform(jobs)

main("C10", run)
