import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Cycles.tla", "CyclesMC.cfg")
    exe = c.build("cycles", [VERIF + "/drivers/cycles.cc"] + LOGGING)
    c.conform([dict(name="cycles%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(40000, 200000)), "@TRACE@"],
                    spec="CyclesTrace.tla", cfg="CyclesTrace.cfg") for i in range(c.q(4, 24))])

main("C20", run)
