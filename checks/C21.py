import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("FilterMC.tla", "FilterMC.cfg")
    exe = c.build("filter", [VERIF + "/drivers/filter.cc"] + LOGGING, flags=SCHED_FLAGS)
    jobs = []
    def job(mode, i, n):
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(n), "@TRACE@"],
                         spec="FilterTrace.tla", cfg="FilterTrace.cfg"))
    for i in range(c.q(3, 16)): job("seq", i, c.q(150, 600))
    for i in range(c.q(5, 32)): job("conc", i, c.q(60, 200))
    c.conform(jobs)

main("C21", run)
