#!/usr/bin/env python3
"""seed_confirm.py ID...: for each /verif/seeded/ID: demo passes on the clean tree, patch applies, builds, stable tests pass, demo fails, which checks catch it.
Applies patches to /repo and undoes them straight afterwards.  Options: --all-checks runs every check, --no-check none."""
import json, os, subprocess, sys, tempfile
V = "/verif"
base = json.load(open("/opt/vp/BASELINE.json"))
args = [a for a in sys.argv[1:] if not a.startswith("-")]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build_test():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILED " + b.stderr[-1500:] + b.stdout[-1500:]
    f = tempfile.mktemp(suffix=".json")
    sh(f"bash /opt/vp/test.sh {f}")
    d = json.load(open(f)); os.unlink(f)
    return d
def passed(d):
    s = json.dumps(d)
    return d
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("repo dirty")
ok0 = build_test()
for i in args:
    d = f"{V}/seeded/{i}"; meta = json.load(open(f"{d}/meta.json")); res = {}
    tmp = tempfile.mkdtemp(); sh(f"cp -r {d}/. {tmp}/ && rm -f {tmp}/*.diff {tmp}/meta.json")
    r = sh(f"bash {tmp}/demo.sh", cwd="/repo"); res["demo_clean"] = r.returncode
    if r.returncode: print(i, "DEMO FAILS ON CLEAN", r.stdout[-800:], r.stderr[-800:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stderr); continue
    try:
        t = build_test(); res["tests_same"] = (t == ok0) if not isinstance(t, str) else t
        if t != ok0 and not isinstance(t, str): res["tests"] = json.dumps(t)[:600]
        r = sh(f"bash {tmp}/demo.sh", cwd="/repo"); res["demo_patched"] = r.returncode
        res["demo_msg"] = (r.stdout + r.stderr).strip()[-160:]
        if "--no-check" not in sys.argv:
            props = [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]] if "--all-checks" in sys.argv else [meta["property"]]
            for p in props:
                c = sh(f"./check {p} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res[p] = (c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "FAILED", "ERROR", "UNREPRO"))][:2], c.stdout.splitlines()[-1:])
    finally:
        sh("git -C /repo checkout -- .")
        sh(f"rm -rf {tmp}")
    print(i, json.dumps(res, indent=1))
build_test()
