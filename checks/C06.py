import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    for cfg in ["SpanFreelistMC.cfg", "SpanFreelistMC2.cfg"]: c.model("SpanFreelist.tla", cfg)
    c.model("CentralFreeList.tla", "CentralFreeListMC2.cfg")
    if c.thorough:
        c.model("SpanFreelist.tla", "SpanFreelistMC3.cfg")
        c.model("CentralFreeList.tla", "CentralFreeListMC.cfg", timeout=1500)
    seq = c.build_full("cfl", "cfl.cc", flags=("-O1",), tag="dbg")
    # the allocator's other parts are never reached by the functions used here
    con = c.build("cfls", [VERIF + "/drivers/cfl.cc", "tcmalloc/span.cc"] + LOGGING, flags=SCHED_FLAGS + ("-DNDEBUG",),
                  ldflags=("-Wl,--unresolved-symbols=ignore-all",), tag="sched")
    jobs = []
    def job(exe, mode, i, n):
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(n), "@TRACE@"],
                         spec="CentralFreeListTrace.tla", cfg="CentralFreeListTrace.cfg"))
    for i in range(c.q(8, 40)): job(seq, "seq", i, c.q(8, 25))
    for i in range(c.q(4, 16)): job(con, "conc", i, c.q(12, 60))
    for i in range(c.q(4, 16)): job(con, "dfs", i, c.q(4, 12))
    c.conform(jobs)

main("C06", run)
