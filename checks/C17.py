import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Sampler.tla", "Sampler.cfg")
    if c.thorough:
        c.model("Sampler.tla", "SamplerDeep.cfg", timeout=1800)
    exe = c.build_full("sampler", "sampler.cc", flags=("-O1",))
    c.conform([dict(name="sm%d" % i, cmd=[exe, str(c.seed * 1000 + i), str(c.q(1500, 3000)), "@TRACE@"],
                    spec="SamplerTrace.tla", cfg="SamplerTrace.cfg", free_running=True) for i in range(c.q(60, 500))])

main("C17", run)
