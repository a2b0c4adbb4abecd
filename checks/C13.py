import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Limits.tla", "Limits.cfg")
    exe = c.build_full("limits", "limits.cc", flags=("-O1",))
    jobs = []
    for i in range(c.q(96, 800)):
        jobs.append(dict(name="lim%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(600, 2500)), str([0, 0, 2, 2, 3][i % 5]), str([0, 0, 0, 25][i % 4]), "@TRACE@"],
                         spec="LimitsTrace.tla", cfg="LimitsTrace.cfg"))
    c.conform(jobs)

main("C13", run)
