import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("HugeRegionMC.tla", "HugeRegionMC.cfg")
    builds = [("", ("-O1",))]
    if c.thorough:
        builds += [("_32k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_32K_PAGES")),
                   ("_256k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_256K_PAGES")),
                   ("_rel", ("-O2", "-DNDEBUG"))]
    jobs = []
    for tag, fl in builds:
        exe = c.build("huge_region" + tag, [VERIF + "/drivers/huge_region.cc"] + LOGGING, flags=fl, tag=tag)
        for i in range(c.q(8, 16)):
            jobs.append(dict(name="region%s_%d" % (tag, i), cmd=[exe, str(c.seed * 1000 + i), str(c.q(2500, 8000)), str((0, 20)[i % 2]), "@TRACE@"],
                             spec="HugeRegionTrace.tla", cfg="HugeRegionTrace.cfg"))
    c.conform(jobs)

main("C09", run)
