#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy of /repo and store it under seeded/<id>.
usage: plant.py SPEC.py   -- SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (C source), NEEDS, BREAKS"""
import os, sys, subprocess, shutil, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]; out = os.path.join(HERE, "seeded", ID)
W = "/tmp/plant/" + ID; R = W + "/repo"
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    sh("git -C /repo worktree prune; cp -a /repo %s && rm -rf %s/_build" % (R, R))
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh")
        open(W + "/" + s, "w").write(t)
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.c", "w").write(ns["DEMO"])
    libs = ns.get("LIBS", "-lpthread")
    open(out + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository, after build.sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r -- "$t"' EXIT
gcc -std=gnu11 -g -O1 -w %s -I_build/lib/include -Iinclude -o "$t/demo" "$here/demo.c" _build/lib/librcpr.a %s || exit 2
cd "$t" && timeout 60 ./demo
""" % (ns.get("CFLAGS", ""), libs))
    if ns.get("GUARD"):   # the demonstration needs the library with run-time checking of tables built in
        open(out + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository, after build.sh; compiles the library again, with run-time checking of tables
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -r -- "$t"' EXIT
cp -r _build/lib/include "$t/inc" || exit 2
sed -i 's|/\\* #undef RCPR_VTABLE_RUNTIME_ENFORCEMENT \\*/|#define RCPR_VTABLE_RUNTIME_ENFORCEMENT|; /#define RCPR_VTABLE_CHECK_ASSERT/d' "$t/inc/rcpr/config.h"
grep -q "define RCPR_VTABLE_RUNTIME_ENFORCEMENT" "$t/inc/rcpr/config.h" || exit 2
mkdir "$t/o"; cd "$t/o"
find "$repo/src" -name '*.c' -o -name '*.s' -o -name '*.S' | grep -v 'platform/kqueue\\|platform/poll\\|/arm\\|aarch64\\|x86/\\|ppc\\|windows\\|ms_' | xargs -P 8 -n 8 gcc -std=gnu11 -g -O1 -w -I"$t/inc" -I"$repo/include" -I"$repo/src" -Wa,-I"$repo/src/fiber/platform/sysv/x86_64" -c || exit 2
gcc -std=gnu11 -g -O1 -w -I"$t/inc" -I"$repo/include" -o "$t/demo" "$here/demo.c" *.o -lpthread || exit 2
cd "$t" && timeout 60 ./demo
""")
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    p = sh("bash %s/build.sh" % W); assert p.returncode == 0, p.stdout[-2000:]
    p = sh("bash %s/demo.sh" % out, cwd=R); assert p.returncode == 0, "demo fails on the unchanged tree: %d %s" % (p.returncode, p.stdout[-2000:])
    for f, a, b in ns["EDITS"]:
        t = open(R + "/" + f).read(); assert t.count(a) == 1, (f, a, t.count(a)); open(R + "/" + f, "w").write(t.replace(a, b))
    d = sh("git -C %s diff" % R).stdout; open(out + "/patch.diff", "w").write(d)
    p = sh("git -C /repo apply --check %s/patch.diff" % out); assert p.returncode == 0, p.stdout
    # changed lines must be the original repository's
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    p = sh("bash %s/build.sh" % W); assert p.returncode == 0, p.stdout[-2000:]
    p = sh("bash %s/demo.sh" % out, cwd=R); rc = p.returncode; assert rc not in (0, 2), "demo passes with the change: %d %s" % (rc, p.stdout[-2000:])
    msg = p.stdout.strip()[-200:]
    p = sh("bash %s/test.sh %s/o.json" % (W, W)); last = p.stdout.strip().splitlines()[-1]
    assert last.startswith("46 passed"), p.stdout[-3000:]
    print("OK", ID, "demo exit", rc, msg, "|", last)
except AssertionError as e:
    print("FAILED", ID, e); shutil.rmtree(out, ignore_errors=True); sys.exit(1)
finally:
    shutil.rmtree(W, ignore_errors=True)
