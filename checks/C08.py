import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("FillerMC.tla", "FillerMC.cfg")
    c.model("FillerMC.tla", "FillerMC2.cfg")
    builds = [("", ("-O1",)), ("_256k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_256K_PAGES"))]
    if c.thorough:
        c.model("FillerMC.tla", "FillerMC3.cfg", timeout=1500)
        builds += [("_32k", ("-O1", "-UTCMALLOC_INTERNAL_8K_PAGES", "-DTCMALLOC_INTERNAL_32K_PAGES")),
                   ("_rel", ("-O2", "-DNDEBUG"))]
    jobs = []
    for tag, fl in builds:
        exe = c.build("filler" + tag, [VERIF + "/drivers/filler.cc"] + LOGGING, flags=fl, tag=tag)
        for i in range(c.q(8 if not tag else 3, 16)):
            jobs.append(dict(name="filler%s_%d" % (tag, i), cmd=[exe, str(c.seed * 1000 + i), str(c.q(4000, 15000)), str((0, 20)[i % 2]), "@TRACE@"],
                             spec="FillerTrace.tla", cfg="FillerTrace.cfg"))
    c.conform(jobs)

main("C08", run)
