import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Frees.tla", "Frees.cfg")
    for mode, flags in (("dbg", ("-O1",)), ("opt", ("-O1", "-DNDEBUG"))):
        exe = c.build_full("frees_" + mode, "frees.cc", flags=flags)
        c.conform([dict(name="%s%d" % (mode, i), cmd=[exe, str(c.seed * 1000 + i), str(c.q(300, 400)), "@TRACE@"],
                        spec="FreesTrace.tla", cfg="FreesTrace.cfg", free_running=True)
                   for i in range(c.q(20, 250))])

main("C26", run)
