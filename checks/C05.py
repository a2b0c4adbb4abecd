import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("TransferCache.tla", "TransferCacheMC.cfg")
    if c.thorough: c.model("TransferCache.tla", "TransferCacheMC2.cfg", timeout=1500)
    seq = c.build("tc", [VERIF + "/drivers/transfer_cache.cc"] + LOGGING, flags=("-O1",), tag="tc_dbg")
    con = c.build("tcs", [VERIF + "/drivers/transfer_cache.cc"] + LOGGING, flags=SCHED_FLAGS + ("-DNDEBUG",), tag="tc_sched")
    jobs = []
    def job(exe, mode, i, n):
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(n), "@TRACE@"],
                         spec="TransferCacheTrace.tla", cfg="TransferCacheTrace.cfg"))
    for i in range(c.q(4, 16)): job(seq, "seq", i, c.q(20, 60))
    for i in range(c.q(3, 12)): job(seq if i % 2 else con, "shard", i, c.q(20, 60))
    for i in range(c.q(4, 16)): job(con, "conc", i, c.q(40, 200))
    for i in range(c.q(4, 16)): job(con, "dfs", i, c.q(2, 6))
    c.conform(jobs)

main("C05", run)
