#!/usr/bin/env python3
"""Applies each planted bug to a copy of /repo's HEAD, runs its property's quick check there and records the rule that reports it (tools/catches.json)."""
import json, os, glob, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = f"{V}/tools/catches.json"
res = json.load(open(out)) if os.path.exists(out) else {}


def go(d):
    i = d.split("/")[-2]
    if sys.argv[1:] and not any(a in i for a in sys.argv[1:]):
        return
    p = json.load(open(d))["property"]
    r = f"/tmp/catch/{i}"
    shutil.rmtree(r, ignore_errors=True)
    subprocess.run(["bash", "-c", f"mkdir -p {r} && git -C /repo archive HEAD | tar -x -C {r} && cd {r} && patch -s -p1 < {V}/seeded/{i}/patch.diff"], check=True)
    x = subprocess.run(["python3", V + "/check.py", p, "quick"], env=dict(os.environ, KOFFT_REPO=r), capture_output=True, text=True)
    k = [l.split("[")[1].split("]")[0] for l in x.stdout.splitlines() if "[" in l and " in " in l]
    res[i] = f"`{k[0]}`" if x.returncode == 1 and k else {0: "missed"}.get(x.returncode, f"exit {x.returncode}")
    print(i, p, res[i], flush=True)
    shutil.rmtree(r, ignore_errors=True)


with ThreadPoolExecutor(3) as ex:
    list(ex.map(go, sorted(glob.glob(V + "/seeded/*/meta.json"))))
json.dump(res, open(out, "w"), indent=1, sort_keys=True)
