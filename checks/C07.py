import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    for cfg in ["PageHeapTiers2.cfg"] + (["PageHeapTiers3.cfg"] if c.thorough else []): c.model("PageHeapTiers.tla", cfg)
    if c.thorough: c.model("PageHeapTiers.tla", "PageHeapTiers.cfg", timeout=1500)
    exe = c.build_full("page_heap", "page_heap.cc", flags=("-O1",))
    jobs = []
    for i in range(c.q(50, 300)):
        jobs.append(dict(name="heap%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(250, 800)), str(i % 5), str([0, 15, 40][i % 3]), "@TRACE@"],
                         spec="PageHeapTrace.tla", cfg="PageHeapTrace.cfg"))
    c.conform(jobs)

main("C07", run)
