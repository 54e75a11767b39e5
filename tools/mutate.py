#!/usr/bin/env python3
"""Mutation sweep (development aid): mutate.py FILE(relative to /repo) N PARTS...   PARTS: target/variant/test/cases
Applies N random single-line mutations, each in a scratch copy of /repo, and lists those no part notices."""
import os, random, re, shutil, subprocess, sys, json, concurrent.futures, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, n, parts = sys.argv[1], int(sys.argv[2]), [p.split("/") for p in sys.argv[3:]]
rng = random.Random(int(os.environ.get("SEED", "1")))
J = int(os.environ.get("JOBS", "4"))
src = open(f"/repo/{f}").read().split("\n")
lo, hi = int(os.environ.get("LO", "1")), int(os.environ.get("HI", str(len(src))))
OPS = [(r" \+= ", [" = ", " -= "]), (r" -= ", [" += ", " = "]), (r" \*= ", [" = "]), (r"(?<=[\w\])])\+(?=[\w(])", ["-"]), (r"(?<=[\w\])])-(?=[\w(])", ["+"]), (r"(?<=[\w\])])\*(?=[\w(])", ["+"]), (r" \* ", [" + "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
       (r" < ", [" <= "]), (r"(?<=[a-z])<(?=[a-z(])(?!.*>)", ["<="]), (r" > ", [" >= ", " < "]), (r"==", ["!="]), (r"!=", ["==", "<"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["3", "1"]), (r"\b3\b", ["2"]), (r"\b0\.0\b", ["1.0"]), (r"true", ["false"]), (r"false", ["true"]),
       (r"num_LM", ["num_lm"]), (r"num_lm", ["num_LM"]), (r"\bl_max", ["L_max"]), (r"node_types", ["neigh_types"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"_adj\b", [""]), (r"_deriv\b", [""]), (r"\blm1\b", ["lm2"]), (r"\blm2\b", ["lm1"])]
muts = []
for i, l in enumerate(src):
    if not (lo <= i + 1 <= hi): continue
    t = l.strip()
    if not t or t.startswith(("//", "#", "using", "template")): continue
    for a, bs in OPS:
        for m in re.finditer(a, l):
            for b in bs: muts.append((i, l[:m.start()] + b + l[m.end():]))
    if t.endswith(";") and not t.startswith(("return", "const", "auto", "double", "int", "break", "}")) : muts.append((i, "//" + l))
rng.shuffle(muts)
tls = threading.local(); cnt = iter(range(100)); lock = threading.Lock()
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1", TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0")
def go(m):
    i, new = m
    if not hasattr(tls, "d"):
        with lock: tls.d = f"/tmp/mut{os.getpid()}_{next(cnt)}"
        shutil.copytree("/repo", tls.d, ignore=shutil.ignore_patterns("_build", ".git"))
    t = list(src); t[i] = new
    open(f"{tls.d}/{f}", "w").write("\n".join(t))
    env = dict(ENV, VERIF_REPO=tls.d)
    desc = f"{i+1}: {src[i].strip()[:110]}  ->  {new.strip()[:110]}"
    for p in parts:
        b = subprocess.run([sys.executable, "-c", f"import sys; sys.path.insert(0,'{V}/lib'); import checks; print(checks.build_target('{p[0]}','{p[1]}'))"], env=env, capture_output=True, text=True)
        if b.returncode: return ("nobuild", desc)
        exe = b.stdout.strip().split("\n")[-1]
        cmd = eval(exe) if exe.startswith("[") else [exe]
        with tempfile.TemporaryDirectory() as td:
            try: r = subprocess.run(cmd + ["--prop", p[2], "--seed", "5", "--cases", p[3], "--workers", "2", "--time", "60", "--tmp", td, "--shrink", "1"], env=env, capture_output=True, text=True, errors="replace", timeout=300)
            except subprocess.TimeoutExpired: return ("timeout", desc)
        if r.returncode: return (f"killed by {p[1]}/{p[2]} rc={r.returncode}", desc)
    return ("SURVIVED", desc)
tot = {}
with concurrent.futures.ThreadPoolExecutor(J) as ex:
    for r, d in ex.map(go, muts[:n]):
        k = r.split(" ")[0]; tot[k] = tot.get(k, 0) + 1
        if k in ("SURVIVED", "timeout") or "rc=3" in r: print(r, d, flush=True)
print(tot)
subprocess.run(f"rm -rf /tmp/mut{os.getpid()}_*", shell=True)
