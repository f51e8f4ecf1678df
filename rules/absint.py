"""Runs the abstract interpreter over all entry points of a configuration."""
import os
from multiprocessing import Pool
from kai.mir import Prog
from kai import run, specs

_cfg = {}


def _go(a):
    key, tmo = a
    return run.analyse(key, dict(_cfg), tmo)


def reach_hashes(prog, keys):
    """per root, the identity of every body reachable from it"""
    refs = {}

    def strs(x, out):
        if isinstance(x, str):
            if x in prog.fns:
                out.add(x)
        elif isinstance(x, list):
            for y in x:
                strs(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                strs(y, out)
    for k, f in prog.fns.items():
        s = set()
        strs(f.blocks, s)
        refs[k] = s
    out = {}
    for k in keys:
        seen = set(k.split(" >> "))
        todo = sorted(seen)
        while todo:
            for y in refs[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        out[k] = tuple(sorted((y, prog.fns[y].d.get("h")) for y in seen))
    return out


_done = {}


def analyse(path, want=None, cfg=None, tmo=240, procs=None, histories=False):
    """want: predicate on (key, path); returns (prog, results).  A root whose reachable bodies are identical to those already
    analysed in an earlier configuration is not analysed again."""
    prog = Prog(path)
    run.set_prog(prog)
    _cfg.clear()
    _cfg.update(cfg or {})
    keys = [k for k in run.roots(prog) if want is None or want(k, prog.fns[k].path)]
    if histories:
        keys += run.histories(prog)
    hs = reach_hashes(prog, keys)
    tag = bool(_cfg.get("std", True))
    if _done:
        new = [k for k in keys if not any(_done.get((t, k)) == hs[k] for t in (True, False))]
        keys = new
    for k in keys:
        _done[(tag, k)] = hs[k]
    # big functions first so that the pool finishes evenly
    keys.sort(key=lambda k: (-len(prog.fns[k.split(' >> ')[-1]].blocks), k))
    with Pool(procs or min(8, os.cpu_count() or 1)) as pool:
        rs = list(pool.imap(_go, [(k, tmo) for k in keys], chunksize=1))
    return prog, rs


def tally(items):
    c = {"ok": 0, "viol": 0, "undec": 0}
    for x in items:
        c[x["st"]] = c.get(x["st"], 0) + 1
    return c


def coverage(rs):
    blind = {r["key"]: r["status"] for r in rs if r["status"] != "ok"}
    vis = set()
    for r in rs:
        vis |= set(r.get("visited", ()))
    return {"entry_points_analysed": len(rs), "functions_interpreted": len(vis), "entry_points_not_finished": blind}


CONFIGS_QUICK = [("all", {"std": True}), ("nostd", {"std": False})]
if os.environ.get("KAI_CONFIGS"):
    CONFIGS_QUICK = [(c, {"std": c != "nostd"}) for c in os.environ["KAI_CONFIGS"].split(",")]

CONFIGS_THOROUGH = [("all", {"std": True}), ("sse", {"std": True}), ("default", {"std": True}), ("nostd", {"std": False}), ("avx", {"std": True})]


def configs(tier):
    return CONFIGS_QUICK if tier == "quick" else CONFIGS_THOROUGH


def each(w, tier, want, extra=None, histories=False, cfgs=None):
    _done.clear()
    for cfg, c in cfgs or configs(tier):
        prog, rs = analyse(w.kofft(cfg), want, dict(c, **(extra or {})), histories=histories)
        yield cfg, prog, rs
