import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("TimeSeriesMC.tla", "TimeSeriesMC.cfg")
    c.model("SkipMC.tla", "SkipMC.cfg")
    exe = c.build("timeseries", [VERIF + "/drivers/timeseries.cc", "tcmalloc/huge_cache.cc"] + LOGGING)
    jobs = []
    for kind, n in (("ts4", 12000), ("ts16", 8000), ("mm16", 10000), ("mm600", 6000), ("skip", 12000), ("sub", 12000)):
        for i in range(c.q(2, 12)):
            jobs.append(dict(name="%s_%d" % (kind, i), cmd=[exe, kind, str(c.seed * 1000 + i), str(c.q(n, 3 * n)), "@TRACE@"],
                             spec="TimeSeriesTrace.tla", cfg="TimeSeriesTrace.cfg"))
    c.conform(jobs)

main("C28", run)
