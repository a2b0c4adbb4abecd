#!/usr/bin/env python3
"""mkseed.py: creates /verif/seeded/<id> from a spec file (python dict literal on stdin).
 keys: id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source), srcs, flags, run (optional shell), env"""
import json, os, shutil, subprocess, sys
V = "/verif"
subprocess.run("[ -d /tmp/rc ] || git clone -q /repo /tmp/rc; cd /tmp/rc && git checkout -q -- . && git pull -q", shell=True, check=True)
s = eval(sys.stdin.read())
d = os.path.join(V, "seeded", s["id"])
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
for f, old, new in s["edits"]:
    p = os.path.join("/tmp/rc", f)
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old))
    open(p, "w").write(t.replace(old, new))
diff = subprocess.run(["git", "-C", "/tmp/rc", "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/tmp/rc", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
shutil.copytree(V + "/compat", d + "/compat")
open(d + "/demo.cc", "w").write(s["demo"])
lib = s.get("lib", "minimal")
open(d + "/demo.sh", "w").write(r'''#!/bin/bash
# Builds demo.cc against /repo's sources (cwd) in a scratch directory and runs it.
H="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
SRCS="%s"
FLAGS="-std=c++20 -O1 -w -DTCMALLOC_INTERNAL_8K_PAGES %s -I$H/compat -I$R -I$T"
protoc -I"$R" --cpp_out="$T" tcmalloc/internal/profile.proto || exit 0
LIB=%s
if [ "$LIB" = full ] || [ "$LIB" = archive ]; then
  for f in tcmalloc/*.cc tcmalloc/internal/*.cc; do
    case "$f" in *_test.cc|*_fuzz.cc|*benchmark*|*want_*|*percpu_rseq_unsupported*|*mock_*|*enable_heap_partitioning*|*_main.cc|*_test_helper.cc|*malloc_hook_recorder*|*selsan*) continue;; esac
    [ "$LIB" = archive ] && [ "$f" = tcmalloc/tcmalloc.cc ] && continue
    L="$L $f"
  done
  L="$L $T/tcmalloc/internal/profile.pb.cc tcmalloc/internal/percpu_rseq_asm.S"
fi
export FLAGS T
printf '%%s\n' $L | xargs -r -P 8 -I{} sh -c 'case {} in *.S) g++ -I. -c {} -o $T/$(echo {} | tr -c "A-Za-z0-9\n" _).o;; *) g++ $FLAGS -c {} -o $T/$(echo {} | tr -c "A-Za-z0-9\n" _).o;; esac' || { echo "demo: library build failed"; exit 0; }
OBJ="$(ls $T/*.o 2>/dev/null)"
if [ "$LIB" = archive ]; then ar crs $T/lib.a $OBJ; OBJ="-Wl,--start-group $T/lib.a -Wl,--end-group"; fi
g++ $FLAGS "$H/demo.cc" $SRCS -o "$T/demo" $OBJ $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -v flags | grep -v test) -lprotobuf -lpthread -ldl || { echo "demo: build failed"; exit 0; }
cd "$T" && %s timeout 200 ./demo
''' % (" ".join(s.get("srcs", [])), s.get("flags", ""), lib, s.get("env", "")))
print(s["id"], len(diff.splitlines()), "diff lines")
