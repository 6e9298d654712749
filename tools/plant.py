#!/usr/bin/env python3
"""plant.py DIR...: turn bug descriptions into /verif/seeded/<id>/ after confirming them in a scratch copy.

A description is a Python file: PROPERTY, NEEDS, BREAKS (strings), EDITS = [(file, old, new), ...],
DEMO (text of a Go test file with TestDemo, put beside the root package's tests by an overlay).
Confirmed: applies, compiles, keeps the stable tests, changes only original lines, the demo passes
without the change and fails with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
REPO = "/repo"; SEED = "/verif/seeded"; BASE = "470e253"
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds for the scenario in demo_test.go.txt
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go" || exit 2
printf '{"Replace": {"%s": "%s"}}' "$PWD/zz_demo_test.go" "$tmp/zz_demo_test.go" > "$tmp/ov.json"
mkdir "$tmp/t"
TMPDIR="$tmp/t" go test -vet=off -count=1 -timeout 120s -overlay "$tmp/ov.json" -run '^TestDemo$' .
'''
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def stable(wt):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ, TMPDIR=wt + ".tmp")
    os.makedirs(env["TMPDIR"], exist_ok=True)
    r = subprocess.run("go test -json -vet=off -count=1 -p 1 -timeout 3m ./...", shell=True, cwd=wt, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return sorted(want - ok)
def one(f):
    d = runpy.run_path(f); bid = os.path.basename(f)[:-3]
    wt = tempfile.mkdtemp(prefix="plant.")
    try:
        run(["cp", "-a", REPO + "/.", wt])
        out = os.path.join(SEED, bid); os.makedirs(out, exist_ok=True)
        open(out + "/demo.sh", "w").write(d.get("DEMO_SH", DEMO_SH)); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go.txt", "w").write(d["DEMO"])
        r = run(["bash", out + "/demo.sh"], cwd=wt)
        if r.returncode: return bid, "demo fails on the unchanged tree\n" + r.stdout[-2500:]
        for fn, old, new in d["EDITS"]:
            p = os.path.join(wt, fn); s = open(p).read()
            if s.count(old) != d.get("COUNT", 1): return bid, f"{fn}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "HEAD"], cwd=wt, stdout=subprocess.PIPE).stdout
        open(out + "/patch.diff", "wb").write(diff)
        # original lines only
        removed, cur = [], None
        for l in diff.decode().splitlines():
            if l.startswith("--- "): cur = l[6:]
            elif l.startswith("-"): removed.append((cur, l[1:].strip()))
        notorig = [x for x in removed if x[1] and x[1] not in
                   [y.strip() for y in run(["git", "show", f"{BASE}:{x[0]}"], cwd=REPO).stdout.splitlines()]]
        r = run(["go", "build", "./..."], cwd=wt)
        if r.returncode: return bid, "does not compile\n" + r.stdout[-1500:]
        bad = stable(wt)
        if bad: return bid, f"breaks stable tests {bad}"
        r = run(["bash", out + "/demo.sh"], cwd=wt)
        if r.returncode == 0: return bid, "demo passes with the change"
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        return bid, "ok" + (f" (not original: {notorig})" if notorig else "")
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(wt + ".tmp", ignore_errors=True)
if __name__ == "__main__":
  for f in sys.argv[1:]:
    bid, res = one(f)
    if not res.startswith("ok"): shutil.rmtree(os.path.join(SEED, bid), ignore_errors=True)
    print(bid, res, flush=True)
