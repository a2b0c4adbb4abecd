import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Guarded.tla", "Guarded.cfg")
    if c.thorough:
        c.model("Guarded.tla", "GuardedDeep.cfg", timeout=1800)
    exe = c.build_full("guarded", "guarded.cc", flags=("-O1",))
    c.conform([dict(name="g%s%d" % (m[0], i), cmd=[exe, str(c.seed * 1000 + i), str(c.q(700, 2000)), m, "@TRACE@"],
                    spec="GuardedTrace.tla", cfg="GuardedTrace.cfg", free_running=True)
               for i in range(c.q(36, 300)) for m in ("own", "whole")])

main("C15", run)
