"""Shared machinery of the checks: build from /repo, run TLC, record and validate traces."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed (no answer about the property)."""


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(input=stdin, timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace"), True


# Drivers run without address-space randomisation where the system allows it: some hashes depend on addresses.
try:
    NOASLR = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 else []
except OSError:
    NOASLR = []

# Sources of the allocator that are not part of the linked library.
NOT_LINKED = re.compile(
    r"(_test|_fuzz|_benchmark|benchmark|_main|_test_helper)\.(cc|c)$|/want_|/testing/|selsan|"
    r"percpu_rseq_unsupported|malloc_hook_recorder|mock_|enable_heap_partitioning|/benchmarks?/")

# What almost every component needs to link (checks fall back to the whole library if not enough).
LOGGING = ["tcmalloc/internal/logging.cc", "tcmalloc/internal/allocation_guard.cc", "tcmalloc/internal/util.cc",
           "tcmalloc/malloc_hook.cc", "tcmalloc/internal/environment.cc", "tcmalloc/internal/hook_list.cc"]

# Code run under the controlled scheduler (drivers/sched.h).
SCHED_FLAGS = ("-O1", "-fsanitize=thread", "-DVERIF_SCHED")

BASE_FLAGS = ["-w", "-DTCMALLOC_INTERNAL_8K_PAGES", "-fno-omit-frame-pointer"]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.obj = os.path.join(self.dir, "obj")
        os.makedirs(self.obj)
        self.out = os.path.join(VERIF, "out")
        os.makedirs(self.out, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.states = self.transitions = self.traces = self.events = self.steps_spec = 0
        self.models, self.samples, self.extra = [], [], {}
        self.actions = {}
        self.violations = []
        self.candidates = 0
        self.assumptions = []
        self.lock = threading.Lock()
        self.use_ccache = shutil.which("ccache") is not None
        self.gen = os.path.join(self.dir, "gen")

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def protos(self):
        if os.path.exists(os.path.join(self.gen, "tcmalloc/internal/profile.pb.h")):
            return
        os.makedirs(self.gen, exist_ok=True)
        rc, out, _ = sh(["protoc", "-I.", "--cpp_out=" + self.gen, "tcmalloc/internal/profile.proto"], cwd=REPO)
        if rc:
            raise CheckError("protoc failed: " + out[-2000:])

    def incs(self):
        return ["-I" + os.path.join(VERIF, "compat"), "-I" + REPO, "-I" + self.gen, "-I" + os.path.join(VERIF, "drivers")]

    def compile_one(self, src, flags, obj, std="c++20"):
        cxx = [] if not self.use_ccache else ["ccache"]
        env = {"CCACHE_DIR": os.path.join(VERIF, "build", "ccache"), "CCACHE_MAXSIZE": "3G",
               "CCACHE_NOHASHDIR": "1"}
        if src.endswith(".S"):
            cmd = cxx + ["gcc", "-c", src, "-o", obj, "-I" + REPO]
        else:
            cmd = cxx + ["g++", "-std=" + std] + BASE_FLAGS + flags + self.incs() + ["-c", src, "-o", obj]
        rc, out, to = sh(cmd, timeout=800, env=env)
        if rc:
            raise CheckError("compile of %s failed%s:\n%s" % (src, " (timeout)" if to else "", out[:3000]))
        return obj

    def build(self, name, srcs, flags=("-O1",), libs=(), ldflags=(), proto=False, driver_flags=(), tag=""):
        """Compiles srcs (paths relative to /repo, or absolute) in parallel and links <name>."""
        if proto:
            self.protos()
            srcs = list(srcs) + [os.path.join(self.gen, "tcmalloc/internal/profile.pb.cc")]
        else:
            os.makedirs(self.gen, exist_ok=True)
        t = time.time()
        jobs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for s in srcs:
                p = s if os.path.isabs(s) else os.path.join(REPO, s)
                o = os.path.join(self.obj, tag + re.sub(r"[^A-Za-z0-9]", "_", p) + ".o")
                fl = list(flags)
                if p.startswith(VERIF + "/drivers"):
                    fl += list(driver_flags)
                jobs.append(ex.submit(self.compile_one, p, fl, o))
            objs = [j.result() for j in jobs]
        exe = os.path.join(self.dir, name)
        link = lambda extra, pb: sh(["g++", "-o", exe] + objs + extra + list(ldflags) + list(libs) + self.absl_libs() +
                                    (["-lprotobuf"] if pb else []) + ["-lpthread", "-ldl"], timeout=300)
        rc, out, _ = link([], proto)
        if rc and "undefined reference" in out and not proto:
            # A definition moved to another file, or a new dependency: offer every other source.
            rest = [s for s in self.allocator_sources() if s not in srcs and os.path.join(REPO, s) not in srcs and
                    not s.endswith("/tcmalloc.cc") and not s.endswith(".S")]
            need = set(re.findall(r"undefined reference to `(.*?)'", out))
            self.log("linking with the whole library for:", sorted(need)[:40])
            self.build_archive(rest, flags, tag)
            rc, out, _ = link(["-Wl,--start-group", os.path.join(self.dir, tag + "rest.a"), "-Wl,--end-group"], True)
        if rc:
            raise CheckError("link of %s failed:\n%s" % (name, out[-3000:]))
        self.log("built %s (%d sources) in %.1fs" % (name, len(srcs), time.time() - t))
        return exe

    def build_full(self, name, driver, flags=("-O1",), tag="", ldflags=(), extra=()):
        """The whole allocator, replacing malloc, linked with a driver."""
        return self.build(name, self.allocator_sources() + [os.path.join(VERIF, "drivers", driver)] + list(extra),
                          flags=flags, proto=True, tag=tag, ldflags=ldflags)

    def build_archive(self, srcs, flags, tag):
        self.protos()
        srcs = list(srcs) + [os.path.join(self.gen, "tcmalloc/internal/profile.pb.cc"), "tcmalloc/internal/percpu_rseq_asm.S"]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            jobs = []
            for s in srcs:
                p = s if os.path.isabs(s) else os.path.join(REPO, s)
                o = os.path.join(self.obj, tag + re.sub(r"[^A-Za-z0-9]", "_", p) + ".o")
                jobs.append(ex.submit(self.compile_one, p, list(flags), o))
            objs = [j.result() for j in jobs]
        ar = os.path.join(self.dir, tag + "rest.a")
        rc, out, _ = sh(["ar", "crs", ar] + objs)
        if rc:
            raise CheckError("ar: " + out)
        return ar

    def absl_libs(self):
        return sorted(l for l in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")
                      if "flags" not in l and "test" not in l)

    def allocator_sources(self):
        """Every .cc of the allocator itself (as it is in the working tree)."""
        res = []
        for d in ("tcmalloc", "tcmalloc/internal"):
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                p = d + "/" + f
                if f.endswith(".cc") and not NOT_LINKED.search("/" + p):
                    res.append(p)
        res.append("tcmalloc/internal/percpu_rseq_asm.S")
        return res

    # -------------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, env=None, workers=1, args=(), timeout=600, heap="3g", light=True):
        meta = os.path.join(self.dir, "tlc-%s-%s" % (os.path.basename(cfg), os.urandom(4).hex()))
        os.makedirs(meta)
        jopts = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
        if light:
            jopts += ["-XX:TieredStopAtLevel=1"] if workers == 1 else []
        cmd = ["java", "-Xmx" + heap, "-Xss64m"] + jopts + ["-Djava.io.tmpdir=" + meta,
               "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config",
               os.path.join(VERIF, "specs", cfg)] + list(args) + [os.path.join(VERIF, "specs", spec)]
        t = time.time()
        rc, out, to = sh(cmd, timeout=timeout, env=env, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        return dict(rc=rc, out=out, timeout=to, wall=time.time() - t)

    @staticmethod
    def stats(out):
        m = re.findall(r"([\d,]+) states generated,? ([\d,]+) distinct states found", out)
        if not m:
            m = re.findall(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        a, b = m[-1]
        return int(a.replace(",", "")), int(b.replace(",", ""))

    def model(self, spec, cfg, workers=NPROC, timeout=700, heap="8g", require_actions=()):
        """Exhaustive TLC run of the design: must hold; a failure is an error of the model."""
        r = self.tlc(spec, cfg, workers=workers, timeout=timeout, heap=heap, args=["-coverage", "1"], light=False)
        g, d = self.stats(r["out"])
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError("model %s/%s failed rc=%s timeout=%s\n%s" % (spec, cfg, r["rc"], r["timeout"], r["out"][-3500:]))
        acts = {}
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", r["out"], re.M):
            acts[m.group(1)] = acts.get(m.group(1), 0) + int(m.group(3))
        dead = [a for a, n in acts.items() if n == 0 and a not in ("Init",)]
        for a in require_actions:
            if acts.get(a, 0) == 0:
                dead.append(a)
        if dead:
            raise CheckError("model %s/%s: actions never taken: %s" % (spec, cfg, dead))
        self.states += d
        self.transitions += g
        self.models.append(dict(spec=spec, cfg=cfg, generated=g, distinct=d, wall_s=round(r["wall"], 1), actions=acts))
        self.log("model %s %s: %d generated, %d distinct states, %.1fs" % (spec, cfg, g, d, r["wall"]))

    def simulate(self, spec, cfg, num, depth, seed=None, timeout=300, env=None):
        """Behaviours of the spec (lists of action records printed as 'SIM <json>' by the sim module)."""
        r = self.tlc(spec, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)],
                     timeout=timeout, env=env, light=False)
        beh = []
        for line in r["out"].splitlines():
            m = re.match(r'^<<"SIM", "(.*)">>$', line)
            if m:
                beh.append(json.loads(m.group(1).encode().decode("unicode_escape")))
        if not beh:
            raise CheckError("simulation %s/%s produced nothing rc=%s\n%s" % (spec, cfg, r["rc"], r["out"][-3000:]))
        self.log("simulated %d behaviours of %s in %.1fs" % (len(beh), spec, r["wall"]))
        return beh

    def validate_one(self, spec, cfg, trace, env=None, timeout=600, heap="3g"):
        """Returns (status, matched, total, detail); status: ok | reject | error."""
        e = {"TRACE": trace}
        e.update(env or {})
        r = self.tlc(spec, cfg, env=e, timeout=timeout, heap=heap)
        total = sum(1 for l in open(trace) if l.strip())
        m = re.search(r'<<"TRACE", (\d+), (\d+)>>', r["out"])
        if m and "No error has been found" in r["out"]:
            k, n = int(m.group(1)), int(m.group(2))
            if n != total:
                return "error", k, total, "TLC read %d of %d lines" % (n, total)
            return ("ok" if k == n else "reject"), k, n, ""
        inv = re.search(r"(Invariant|Action property|property) (\w+) is violated", r["out"])
        if inv:
            lv = len(re.findall(r"^State \d+:", r["out"], re.M))
            return "reject", max(0, lv - 1), total, "invariant %s" % inv.group(2)
        return "error", 0, total, "rc=%s timeout=%s\n%s" % (r["rc"], r["timeout"], r["out"][-3000:])

    # ------------------------------------------------------- record + validate
    def conform(self, jobs, parallel=NPROC):
        """jobs: dicts with name, cmd (driver command; '@TRACE@' is replaced by the trace path),
        spec, cfg, and optionally env, timeout, tenv (TLC env), stdin.
        Each job records a trace of the real code and validates it."""
        def once(job, trace):
            if os.path.exists(trace):
                os.remove(trace)
            cmd = NOASLR + [c.replace("@TRACE@", trace) for c in job["cmd"]]
            rc, out, to = sh(cmd, timeout=job.get("timeout", 120), env=job.get("env"), cwd=self.dir,
                             stdin=job.get("stdin"))
            n = 0
            if os.path.exists(trace):
                n = sum(1 for l in open(trace) if l.strip())
            okrc = job.get("ok_rc", (0,))
            if to:
                return "hang", n, n, "driver did not finish:\n" + out[-2000:]
            if rc == 99 and rc not in okrc:     # driver's own failure (set-up problem), not a verdict
                return "error", n, n, out[-2000:]
            if rc not in okrc:
                return "crash", n, n, "driver ended with %s after %d events:\n%s" % (rc, n, out[-2500:])
            if n == 0:
                return "error", 0, 0, "empty trace\n" + out[-1000:]
            st, k, tot, det = self.validate_one(job["spec"], job["cfg"], trace, env=job.get("tenv"),
                                                timeout=job.get("tlc_timeout", 600), heap=job.get("heap", "3g"))
            return st, k, tot, det

        def run(job):
            trace = os.path.join(self.dir, job["name"] + ".ndjson")
            st, k, n, det = once(job, trace)
            if st == "ok":
                with self.lock:
                    self.traces += job.get("traces", 1)
                    self.events += n
                    for l in open(trace):
                        m = re.search(r'"op": ?"(\w+)"', l)
                        if m:
                            self.actions[m.group(1)] = self.actions.get(m.group(1), 0) + 1
                    if len(self.samples) < 3:
                        with open(trace) as f:
                            self.samples.append(dict(job=job["name"], events=n, head=[l.strip()[:400] for _, l in zip(range(4), f)]))
                if not job.get("keep"):
                    os.remove(trace)
                return None
            if st == "error":
                raise CheckError("job %s: %s" % (job["name"], det))
            return (job, trace, st, k, n, det)

        bad = []
        with cf.ThreadPoolExecutor(parallel) as ex:
            for r in ex.map(run, jobs):
                if r:
                    bad.append(r)
        for job, trace, st, k, n, det in bad[:4]:
            # confirm: re-run; a rejection counts only if it repeats
            keep = os.path.join(self.out, "%s-%s.ndjson" % (self.pid, job["name"]))
            if os.path.exists(trace):
                shutil.copyfile(trace, keep)
            repeated = False
            if st == "reject":
                st1, k1, _, _ = self.validate_one(job["spec"], job["cfg"], keep, env=job.get("tenv"),
                                                  timeout=job.get("tlc_timeout", 600), heap=job.get("heap", "3g"))
                if st1 != "reject":
                    raise CheckError("rejection of %s did not repeat on the same trace" % job["name"])
                if job.get("free_running"):
                    repeated = True
            for _ in range(0 if repeated else job.get("retries", 2)):
                st2, k2, n2, det2 = once(job, trace)
                if st2 in ("reject", "crash", "hang"):
                    repeated = True
                    break
            self.candidates += 1
            self.log("job %s: %s at event %d of %d (repeated: %s)" % (job["name"], st, k, n, repeated))
            if not repeated:
                continue
            ctx = ""
            if st == "reject" and os.path.exists(keep):
                lines = open(keep).read().splitlines()
                ctx = "\n".join(lines[max(0, k - 3):k + 1])
            self.violation(job["name"], dict(kind=st, cmd=job["cmd"], env=job.get("env"), spec=job["spec"], cfg=job["cfg"],
                                             trace=keep, matched=k, events=n, rejected_event=ctx, detail=det))
        if bad and not self.violations:
            raise CheckError("%d rejection(s) that did not repeat: %s" % (len(bad), bad[0][5][:500]))

    def violation(self, name, info):
        path = os.path.join(self.out, "%s-%s.replay.json" % (self.pid, re.sub(r"[^A-Za-z0-9_.-]", "_", name)))
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append((name, path))
        self.log("violation detail:", json.dumps({k: v for k, v in info.items() if k not in ("spec", "cfg", "trace", "env")})[:1800])

    # ---------------------------------------------------------------- finish
    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   models=self.models, event_counts=self.actions, samples=self.samples or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
                  seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for name, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        self.log("done: %d states, %d traces, %d events, %d violations" % (self.states, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0


def write_script(path, cmds):
    with open(path, "w") as f:
        for c in cmds:
            f.write(" ".join(str(x) for x in c) + "\n")
    return path


def main(pid, fn, level="model_checking"):
    try:
        c = Check(pid, level)
        try:
            fn(c)
        except CheckError as e:
            if not c.violations:
                raise
            c.log("check error after a violation was established:", e)
        rc = c.finish()
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(rc)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e), flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
