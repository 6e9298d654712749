#!/usr/bin/env python3
"""mutate.py [-j N] [-n COUNT] [-s SEED] [-o OUT.jsonl] [FILE...]: mutation sampling of /repo.

Random small changes (tools/mutgen) that compile and keep the stable tests are given to the quick checks of the
file's area until one reports a violation. What none reports is printed as SURVIVED, to be looked at by hand.
"""
import json, os, random, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import stable
AREA = {"wpk.go": "P08 P12 P07 P01 P13 P10 P18 P03 P04 P02 P19 P09 P14 P05 P06 P16 P20", "writer.go": "P03 P05 P01 P04 P18 P10 P13 P26 P15 P16 P06 P19",
        "tagset.go": "P09 P11 P07 P12 P26 P02 P19", "union.go": "P14", "dir.go": "P12 P13 P14 P24 P23",
        "bulk/bulk.go": "P02 P12 P19 P07", "fsys/fsys.go": "P02 P12 P19 P07", "mmap/mmap.go": "P02 P12 P19 P07", "util/seqmap.go": "P17 P10 P15 P16",
        "util/strutil.go": "P25 P12 P10", "util/uintio.go": "P11 P07 P01", "luawpk/adjusttags.go": "P22 P20", "luawpk/luapath.go": "P25",
        "luawpk/luawpk.go": "P20 P21 P22 P26", "luawpk/nametid.go": "P21 P20 P26", "luawpk/runlvm.go": "P27 P25 P20 P26",
        "cmd/build/build.go": "P27 P25", "cmd/extract/extract.go": "P23 P26", "cmd/pack/pack.go": "P24 P26 P22"}
def main():
    a = sys.argv[1:]; j, n, seed, out = 3, 100, 1, "/tmp/mut.jsonl"
    while a and a[0].startswith("-"):
        if a[0] == "-j": j = int(a[1])
        elif a[0] == "-n": n = int(a[1])
        elif a[0] == "-s": seed = int(a[1])
        elif a[0] == "-o": out = a[1]
        a = a[2:]
    files = a or list(AREA)
    gen = tempfile.mkdtemp(prefix="mutgen.")
    subprocess.run(["go", "build", "-o", gen + "/mutgen", "."], cwd="/verif/tools/mutgen", check=True)
    r = subprocess.run([gen + "/mutgen"] + files, cwd="/repo", stdout=subprocess.PIPE, text=True, check=True)
    shutil.rmtree(gen)
    muts = [json.loads(l) for l in r.stdout.splitlines()]
    random.Random(seed).shuffle(muts); muts = muts[:n]
    lock = threading.Lock()
    def one(m):
        wt = tempfile.mkdtemp(prefix="mut."); t = time.time()
        try:
            subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
            p = os.path.join(wt, m["file"]); b = open(p, "rb").read()
            open(p, "wb").write(b[:m["from"]] + m["text"].encode() + b[m["to"]:])
            if subprocess.run(["go", "vet", "-assign=false", "./..."] if 0 else ["go", "build", "./..."], cwd=wt, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                m["res"] = "nocompile"
            elif stable(wt): m["res"] = "tests"
            else:
                m["res"] = "SURVIVED"; m["runs"] = []
                for prop in AREA[m["file"]].split():
                    t1 = time.time()
                    try:
                        c = subprocess.run(["python3", "/verif/check.py", prop], timeout=900, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=wt + ".out"))
                        rc, o = c.returncode, c.stdout
                    except subprocess.TimeoutExpired: rc, o = -1, ""
                    m["runs"].append([prop, rc, round(time.time() - t1)])
                    if rc == 1 and f"VIOLATION property={prop}" in o: m["res"] = "killed " + prop; break
                    if rc != 0: m["res"] = f"BROKEN {prop} rc={rc} " + o[-400:]; break
        finally:
            for d in (wt, wt + ".tmp", wt + ".out"): shutil.rmtree(d, ignore_errors=True)
        m["sec"] = round(time.time() - t)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
            if not m["res"].startswith(("nocompile", "tests")):
                print(m["res"], f"{m['file']}:{m['line']}", m["what"], repr(m["old"][:70]), "->", repr(m["text"][:70]), m["sec"], "s", flush=True)
    with ThreadPoolExecutor(j) as ex: list(ex.map(one, muts))
if __name__ == "__main__": main()
