#!/bin/bash
# Builds the harness binaries once, so that the object cache is warm.  Checks rebuild whatever is missing or stale.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
python3 - <<'P'
import sys, time
sys.path.insert(0, "lib")
import checks
t0 = time.time()
seen = set()
for parts in checks.CHECKS.values():
    for p in parts:
        if p[:2] in seen: continue
        seen.add(p[:2])
        try: checks.build_target(*p[:2])
        except Exception as e: print("setup:", p[:2], e)
print("setup: built", sorted(seen), f"in {time.time()-t0:.0f} s")
P
exit 0
