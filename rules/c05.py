"""Information-flow analysis: the contents and the lengths of buffers an instance recycles between calls are labelled sources, the
caller-visible outputs are sinks.  Contents: no output element may carry a recycled-content label (writes that provably cover a range
clear it).  Lengths: no transform may be called on a slice whose length depends on a recycled buffer's length, and no loop that moves
data elsewhere may have a trip count depending on it."""
from kai import specs
from . import absint

ASSUMPTIONS = ("the twiddle and chirp tables a planner hands out are determined by their key (property C06)",
               "streaming objects are excluded: their output depends on earlier frames by design")


def run(w, rep, tier):
    n = flows = lens = skipped = 0
    allrs = []
    for cfg, prog, rs in absint.each(w, tier, None):
        allrs += rs
        for r in rs:
            if r["status"] != "ok" or "Stream" in r["path"]:
                continue
            n += 1
            known = not set(r["unknown"]) - {"closure?", "core::ops::function::Fn::call"}
            for pos, labs in r.get("flows", {}).items():
                if pos == "0" and "fft" in r["path"] and prog.fns[r["key"]].locals[1][1] == "self":
                    continue        # the instance's own state
                flows += 1
                bad = [x for x in labs if x.startswith(("hist", "uninit"))]
                if bad and not known:
                    skipped += 1
                elif bad:
                    rep.viol(r["path"], r["file"], r["line"], "recycled-content",
                             f"{'the result' if pos == 'ret' else 'argument ' + str(prog.fns[r['key']].locals[int(pos) + 1][1])} may depend on {', '.join(bad)}", config=cfg)
            for x in r.get("lenflow", ()):
                lens += 1
                rep.viol(x["fn"], r["file"], x["line"], "recycled-length", f"{x['what']} depends on a recycled buffer's length", entry=r["key"], config=cfg)
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(entry_points=n, sinks_checked=flows, undecided_because_of_unmodelled_calls=skipped)
