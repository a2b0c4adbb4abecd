import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

def run(c):
    c.model("Recorder.tla", "RecorderMC.cfg")
    if c.thorough: c.model("Recorder.tla", "RecorderMC2.cfg")
    exe = c.build("recorder", [VERIF + "/drivers/recorder.cc"] + LOGGING, flags=SCHED_FLAGS + ("-DNDEBUG",))
    jobs = []
    def job(mode, i, n):
        jobs.append(dict(name="%s%d" % (mode, i), cmd=[exe, mode, str(c.seed * 1000 + i), str(n), "@TRACE@"],
                         spec="RecorderTrace.tla", cfg="RecorderTrace.cfg"))
    for i in range(c.q(2, 8)): job("seq", i, c.q(200, 800))
    for i in range(c.q(4, 24)): job("conc", i, c.q(150, 400))
    for i in range(c.q(4, 24)): job("dfs", i, c.q(4, 10))
    c.conform(jobs)

main("C16", run)
