#!/usr/bin/env python3
import os, subprocess, json, shutil, sys
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, sh=None):
    SEEDS[id] = (prop, edits, demo, needs, breaks, sh)
DEMO_SH = '''#!/bin/bash
set -u
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DHAS_RES_NINIT -I"$d" -I/repo -I/repo/src "$d/demo.cpp" -o "$t/demo" -L/repo/_build -ldkim++ -Wl,-rpath,/repo/_build -lssl -lcrypto -lsodium -lresolv -lpthread || exit 3
cd "$t" && ulimit -v 4000000 && timeout 100 "$t/demo"
'''
exec(open(os.environ.get("LIST", "/tmp/mk/list.py")).read())
only = sys.argv[1:]
for id, (prop, edits, demo, needs, breaks, sh) in SEEDS.items():
    if only and id not in only: continue
    W = "/tmp/mkw"; shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b" % (W, W, W), shell=True)
    base = {}
    for f, old, new in edits:
        p = W + "/" + f; s = open(p).read()
        if s.count(old) != 1: print(id, "EDIT", f, "count", s.count(old), repr(old)); sys.exit(1)
        # removed lines must be original
        o = open("/tmp/base/" + f).read()
        if old not in o: print(id, "note: text not in the original", repr(old[:60]))
        open(p, "w").write(s.replace(old, new))
    S = "/verif/seeded/" + id; shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    open(S + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", W, "diff"]))
    if demo is not None:
        open(S + "/demo.cpp", "w").write('#include "dk.hpp"\n' + demo); shutil.copy("/tmp/mk/dk.hpp", S)
    open(S + "/demo.sh", "w").write(sh or DEMO_SH); os.chmod(S + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
    print("made", id)
