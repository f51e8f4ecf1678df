"""Effect analysis of every fallible entry point: on each abstract path that ends in an error return, the set of caller buffers
written so far (directly, through callees, vector stores, swaps or element references) must be disjoint from the buffers the call
must preserve."""
from kai import specs
from . import absint

ASSUMPTIONS = ("slices and vectors hold at most 2^31 elements", "errors raised by caller-supplied transforms are excluded")


def run(w, rep, tier):
    tot = {"ok": 0, "viol": 0, "undec": 0}
    und = []
    n = 0
    allrs = []
    for cfg, prog, rs in absint.each(w, tier, lambda k, p: specs.spec_for(p) is not None):
        allrs += rs
        for r in rs:
            n += bool(r["keep"])
            for x in r["keep"]:
                tot[x["st"]] += 1
                if x["st"] == "viol":
                    rep.viol(r["path"], r["file"], r["line"], "write-before-error", f"{', '.join(x['dirty'])} written before returning {x['variant']}",
                             model=x.get("model"), config=cfg)
                elif x["st"] == "undec":
                    und.append(f"{cfg}: {r['key']}: {x.get('dirty')} before {x['variant']}")
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(fallible_entry_points=n, error_paths=sum(tot.values()), proved=tot["ok"], undecided=tot["undec"], undecided_list=sorted(set(und)))
