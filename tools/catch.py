#!/usr/bin/env python3
"""catch.py [-j N] [-t tier] ID...: run the check of each seeded bug's property on a scratch copy with the bug.
Optional ID:Pxx runs another property's check."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]; j = 2; tier = "quick"
while a and a[0] in ("-j", "-t"):
    if a[0] == "-j": j = int(a[1])
    else: tier = a[1]
    a = a[2:]
S = "/verif/seeded"
ids = a or sorted(os.listdir(S))
def one(x):
    bid, _, prop = x.partition(":")
    prop = prop or json.load(open(f"{S}/{bid}/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="catch."); t = time.time()
    try:
        subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
        subprocess.run(["git", "apply", f"{S}/{bid}/patch.diff"], cwd=wt, check=True)
        r = subprocess.run(["python3", "/verif/check.py", prop] + (["thorough"] if tier == "thorough" else []),
                           env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER=tier, VERIF_OUT=wt + ".out"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        ok = r.returncode == 1 and any(f"property={prop}" in l for l in v)
        return f"{'CAUGHT' if ok else 'MISSED'} {x} {prop} rc={r.returncode} {time.time()-t:.0f}s {v[:1] if ok else r.stdout[-300:]}"
    finally:
        shutil.rmtree(wt, ignore_errors=True)
with ThreadPoolExecutor(j) as ex:
    for res in ex.map(one, ids): print(res, flush=True)
