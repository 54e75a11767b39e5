#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec.json: writes /verif/seeded/ID from {"edits":[[file,old,new],...],"demo":..,"needs":..,"what_it_breaks":..,"files":{name:text}}"""
import json, os, subprocess, sys
def make(id, prop, edits, demo, needs, what, files=None):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            p = f"/repo/{f}"; s = open(p).read()
            if isinstance(old, tuple):   # (text, n): the n-th occurrence only
                parts = s.split(old[0]); n = old[1]; assert len(parts) > n + 1, (f, len(parts), old)
                open(p, "w").write(old[0].join(parts[:n + 1]) + new + old[0].join(parts[n + 1:])); continue
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(f"{d}/meta.json", "w"), indent=1)
    for n, t in (files or {}).items(): open(f"{d}/{n}", "w").write(t)
