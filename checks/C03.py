import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SRCS = [VERIF + "/drivers/slab.cc"] + LOGGING + ["tcmalloc/internal/percpu.cc", "tcmalloc/internal/percpu_rseq_asm.S",
                                                 "tcmalloc/internal/sysinfo.cc", "tcmalloc/internal/delay_injection.cc", "tcmalloc/experiment.cc"]


def instructions(exe, out):
    """Lists the instructions of the operations: every place at which the kernel can interrupt them."""
    syms = []
    for l in subprocess.run(["nm", "-S", exe], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) != 4 or p[2] not in "tTwW":
            continue
        n = p[3]
        ok = n.startswith("op_") or re.fullmatch(r"TcmallocSlab_Internal_(Push|Pop)Batch", n) or \
            ("6percpu" in n and ("TcmallocSlab" in n or "Fence" in n or "Synchronize" in n))
        if not ok or "trampoline" in n or "CheckFailed" in n or "CallOnce" in n or ".cold" in n:
            continue
        syms.append((int(p[0], 16), int(p[1], 16), n))
    n = 0
    with open(out, "w") as f:
        for a, size, name in syms:
            d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "--start-address=%#x" % a, "--stop-address=%#x" % (a + size), exe],
                               capture_output=True, text=True).stdout
            for m in re.finditer(r"^\s*([0-9a-f]+):\t(\S+)", d, re.M):
                if m.group(2) in ("int3", "nop", "nopw", "nopl", "(bad)"):
                    continue
                f.write("%s %s\n" % (name, m.group(1)))
                n += 1
    return n


def run(c):
    c.model("Slab.tla", "Slab.cfg")
    if c.thorough:
        c.model("Slab.tla", "SlabDeep.cfg", timeout=3600)
    env = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}
    exes = [c.build("slab", SRCS, flags=("-O2",)), c.build("slabn", SRCS, flags=("-O2", "-DNDEBUG"), tag="n")]
    rc, out, _ = sh([exes[0], "probe"], env=env)
    if rc == 96:
        c.log("restartable sequences are not available here: only the model was checked")
        c.assumptions.append("restartable sequences were not available, so the code was not run")
        return
    bps = []
    for e in exes:
        n = instructions(e, e + ".bp")
        c.log("%d instructions at which an operation can be interrupted" % n)
        bps.append(e + ".bp")
    stress = c.build("slabs", SRCS, flags=("-O2", "-DVERIF_STRESS", "-DTCMALLOC_INTERNAL_LATENCY_INJECTION", "-DNDEBUG"), tag="s")
    jobs = []
    for i in range(c.q(120, 1500)):
        k = i % 2
        jobs.append(dict(name="st%d" % i, cmd=[exes[k], "step", str(c.seed * 1000 + i), "400", bps[k], "@TRACE@"], env=env,
                         spec="SlabTrace.tla", cfg="SlabTrace.cfg"))
    c.conform(jobs)
    jobs = []
    for i in range(c.q(6, 60)):
        jobs.append(dict(name="free%d" % i, cmd=[stress, "stress", str(c.seed * 1000 + i), str(c.q(1000, 5000)), "@TRACE@"], env=env,
                         spec="SlabTrace.tla", cfg="SlabTrace.cfg", free_running=True))
    c.conform(jobs, parallel=2)


main("C03", run)
