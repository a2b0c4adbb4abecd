import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Lists.tla", "ListsMC.cfg")
    if c.tier == "thorough": c.model("Lists.tla", "ListsMC4.cfg")
    dbg = c.build("lists", [VERIF + "/drivers/lists.cc"] + LOGGING)
    opt = c.build("lists_opt", [VERIF + "/drivers/lists.cc"] + LOGGING, flags=("-O2", "-DNDEBUG"))
    c.conform([dict(name="lists%d" % i, cmd=[(dbg, opt)[i % 2], str(c.seed * 1000 + i), str(c.q(90, 500)), "@TRACE@"],
                    spec="ListsTrace.tla", cfg="ListsTrace.cfg") for i in range(c.q(8, 32))])

main("C31", run)
