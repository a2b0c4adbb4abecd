import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Arena.tla", "Arena.cfg")
    if c.thorough:
        c.model("Arena.tla", "ArenaDeep.cfg", timeout=1800)
    exe = c.build_full("arena", "arena.cc", flags=("-O1",))
    c.conform([dict(name="ar%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(700, 2500)), "@TRACE@"],
                    spec="ArenaTrace.tla", cfg="ArenaTrace.cfg") for i in range(c.q(60, 500))])

main("C23", run)
