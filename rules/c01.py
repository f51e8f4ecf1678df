"""Path-sensitive abstract interpretation of every fallible entry point over symbolic buffer lengths, strides and hops: on every
path that returns Ok each documented error condition must be refuted, and on every path that returns an error the documented
condition of that error must follow from the path's constraints.  A violation is reported only when the path's constraints are
exact and have a concrete solution; anything else is counted as undecided."""
from kai import specs
from . import absint

ASSUMPTIONS = ("slices, vectors and requested counts hold at most 2^31 elements", "errors of caller-supplied transforms are arbitrary")


def run(w, rep, tier):
    tot = {"ok": 0, "viol": 0, "undec": 0}
    und = []
    n = 0
    allrs = []
    for cfg, prog, rs in absint.each(w, tier, lambda k, p: specs.spec_for(p) is not None):
        allrs += rs
        for r in rs:
            if r["errs"]:
                n += 1
            for x in r["errs"]:
                tot[x["st"]] += 1
                if x["st"] == "viol":
                    rep.viol(r["path"], r["file"], r["line"], "error-contract", x["what"], model=x.get("model"), config=cfg)
                elif x["st"] == "undec":
                    und.append(f"{cfg}: {r['key']}: {x['what']}")
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(fallible_entry_points=n, outcome_obligations=sum(tot.values()), proved=tot["ok"], undecided=tot["undec"],
                   undecided_list=sorted(set(und)))
