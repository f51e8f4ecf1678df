#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current tree from its source."""
import importlib, json, os, sys, time, traceback

if os.environ.get("PYTHONHASHSEED") != "0":      # reproducible set orders
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from kai import build  # noqa: E402

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    """[(fn, kind, match, text)] of this property's listed findings"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, text = line[len("finding: "):].partition(" :: ")
            kv = dict(x.split("=", 1) for x in head.split(" ; "))
            if kv.get("property") == pid:
                out.append((kv.get("fn", ""), kv.get("kind", ""), kv.get("match", ""), text))
    return out


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viols, self.cov, self.seen = [], {}, set()
        self.notes = []

    def viol(self, fn, file, line, kind, what, **data):
        k = (fn, kind, what)
        if k in self.seen:
            return
        self.seen.add(k)
        self.viols.append(dict(fn=fn, file=file, line=line, kind=kind, what=what, **data))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report(pid, tier)
    w = build.Work()
    try:
        mod = importlib.import_module("rules." + pid.lower())
        mod.run(w, rep, tier)
    except build.BuildError as e:
        print("cannot analyse the tree: " + str(e))
        return 2
    finally:
        w.close()
    kn = known(pid)
    new, old = [], []
    for v in rep.viols:
        m = [k for k in kn if k[0] in v["fn"] and k[1] == v["kind"] and k[2] in v["what"]]
        (old if m else new).append((v, m[0][3] if m else ""))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"explanation": getattr(mod, "EXPLANATION", "").strip() or mod.__doc__.strip()}
    cov.update(rep.cov)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "assumptions": list(getattr(mod, "ASSUMPTIONS", ()))}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v, text in old:
        print(f"KNOWN-FINDING: property={pid} {text} ({v['fn']}: {v['what']})")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as f:
            json.dump([v for v, _ in new], f, indent=1, default=str)
        for v, _ in new[:20]:
            print(f"  {v['file']}:{v['line']} in {v['fn']} [{v['kind']}] {v['what']}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} ({', '.join(f'{k}={x}' for k, x in rep.cov.items() if isinstance(x, (int, float)))}) in {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
