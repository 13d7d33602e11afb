#!/usr/bin/env python3
"""developer helper: mkseed.py ID PROP FILE SPECFILE  - SPECFILE is JSON {edits:[[file,old,new],..],needs,breaks,demo(C++ text),flags,sh}
Creates /verif/seeded/ID from edits made on a scratch copy of /repo's tracked files."""
import json, os, subprocess, sys, shutil, tempfile
def make(sid, prop, edits, needs, breaks, demo=None, sh=None, flags="-O1 -fopenmp", extra=None):
    d = f"/verif/seeded/{sid}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True)
        for f, old, new in edits:
            p = os.path.join(t, f); s = open(p, newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"]).decode(); assert diff.strip()
        open(d + "/patch.diff", "w").write(diff)
    finally: shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None: open(d + "/demo.cpp", "w").write(demo)
    for n, c in (extra or {}).items(): open(d + "/" + n, "w").write(c)
    if sh is None:
        sh = f'''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w {flags} -I"$PWD/include" -I"$PWD/apps" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 200 "$T/demo"
'''
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
