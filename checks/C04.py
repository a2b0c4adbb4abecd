import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SRCS = [VERIF + "/drivers/cpucache.cc"] + LOGGING + ["tcmalloc/internal/percpu.cc", "tcmalloc/internal/percpu_rseq_asm.S",
                                                     "tcmalloc/internal/sysinfo.cc", "tcmalloc/internal/delay_injection.cc", "tcmalloc/experiment.cc"]
LD = ("-Wl,--unresolved-symbols=ignore-all",)


def instructions(exe, out):
    """Lists the instructions of the operations: every place at which they can be stopped."""
    syms = []
    for l in subprocess.run(["nm", "-S", exe], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) != 4 or p[2] not in "tTwW":
            continue
        n = p[3]
        ok = n.startswith("op_") or re.match(r"_ZN(K)?8tcmalloc17tcmalloc_internal18cpu_cache_internal8CpuCacheI3Fwd", n) or \
            re.match(r"_ZN(K)?8tcmalloc17tcmalloc_internal6subtle6percpu12TcmallocSlab", n)
        if not ok or "trampoline" in n or "CheckFailed" in n or ".cold" in n or "Activate" in n or "InvokeObject" in n:
            continue
        syms.append((int(p[0], 16), int(p[1], 16), n))
    n = 0
    with open(out, "w") as f:
        for a, size, name in syms:
            d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "--start-address=%#x" % a, "--stop-address=%#x" % (a + size), exe],
                               capture_output=True, text=True).stdout
            for m in re.finditer(r"^\s*([0-9a-f]+):\t(\S+)", d, re.M):
                if m.group(2) in ("int3", "nop", "nopw", "nopl", "(bad)"):
                    continue
                f.write("%s %s\n" % (name, m.group(1)))
                n += 1
    return n


def run(c):
    c.model("CpuCache.tla", c.q("CpuCache.cfg", "CpuCacheDeep.cfg"), timeout=c.q(700, 7200))
    env = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}
    exes = [c.build("cpucache", SRCS, flags=("-O2",), ldflags=LD), c.build("cpucachen", SRCS, flags=("-O2", "-DNDEBUG"), tag="n", ldflags=LD)]
    rc, out, _ = sh([exes[0], "probe"], env=env)
    if rc == 96:
        c.log("restartable sequences are not available here: only the model was checked")
        c.assumptions.append("restartable sequences were not available, so the code was not run")
        return
    for e in exes:
        n = instructions(e, e + ".bp")
        c.log("%d instructions at which an operation can be stopped" % n)
    t = dict(spec="CpuCacheTrace.tla", cfg="CpuCacheTrace.cfg", env=env)
    jobs = []
    for i in range(c.q(32, 400)):
        jobs.append(dict(t, name="seq%d" % i, cmd=[exes[i % 2], "seq", str(c.seed * 1000 + i), c.q("150", "400"), "@TRACE@"]))
    for i in range(c.q(64, 1000)):
        e = exes[i % 2]
        jobs.append(dict(t, name="st%d" % i, cmd=[e, "step", str(c.seed * 1000 + i), "500", e + ".bp", "@TRACE@"]))
    c.conform(jobs)
    jobs = []
    for i in range(c.q(8, 80)):
        jobs.append(dict(t, name="free%d" % i, cmd=[exes[i % 2], "free", str(c.seed * 1000 + i), str(c.q(700, 4000)), "@TRACE@"], free_running=True))
    c.conform(jobs, parallel=2)


main("C04", run)
