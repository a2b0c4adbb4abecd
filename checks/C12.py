import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("RangeTracker.tla", "RangeTrackerMC.cfg")
    exe = c.build("range_tracker", [VERIF + "/drivers/range_tracker.cc"] + LOGGING)
    jobs = []
    def job(mode, i, ev):
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(ev), "@TRACE@"],
                         spec="RangeTrackerTrace.tla", cfg="RangeTrackerTrace.cfg"))
    job("exh", 0, c.q(0, 1))
    job("bexh", 0, 0)
    for i in range(c.q(6, 60)):
        job("rand", i, c.q(2500, 5000))
        job("brand", i, c.q(1000, 2500))
    c.conform(jobs)

main("C12", run)
