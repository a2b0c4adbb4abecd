import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def run(c):
    c.model("ProfilesMC.tla", c.q("ProfilesMC.cfg", "ProfilesDeep.cfg"), timeout=c.q(300, 7200))
    exes = [c.build_full("profiles", VERIF + "/drivers/profiles.cc", flags=("-O1",)),
            c.build_full("profilesn", VERIF + "/drivers/profiles.cc", flags=("-O1", "-DNDEBUG"))]
    rseq = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}
    c.conform([dict(name="pf%d" % i, cmd=[exes[i % 2], str(c.seed * 1000 + i), c.q("400", "900"), "@TRACE@"],
                    env=(rseq, rseq, {}, dict(rseq, TCMALLOC_HEAP_PARTITIONING=str(1 + i % 2)))[i % 4],
                    spec="ProfilesTrace.tla", cfg="ProfilesTrace.cfg", timeout=300, free_running=True) for i in range(c.q(60, 800))])


main("C18", run)
