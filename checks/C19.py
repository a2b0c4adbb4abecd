import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("HookList.tla", "HookListMC.cfg")
    exe = c.build("hook_list", [VERIF + "/drivers/hook_list.cc"] + LOGGING, flags=SCHED_FLAGS)
    jobs = []
    def job(mode, i, n):
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(n), "@TRACE@"],
                         spec="HookListTrace.tla", cfg="HookListTrace.cfg"))
    for i in range(c.q(2, 8)): job("seq", i, c.q(150, 600))
    for i in range(c.q(4, 24)): job("rand", i, c.q(60, 200))
    for i in range(c.q(4, 24)): job("dfs", i, c.q(8, 20))
    c.conform(jobs)

main("C19", run)
