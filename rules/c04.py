"""Abstract interpretation with symbolic lengths: the length of every returned sequence, as a polynomial (with floor divisions) of
the arguments, must equal the documented one on every successful path."""
from kai import specs
from . import absint

ASSUMPTIONS = ("slices, vectors and requested counts hold at most 2^31 elements",)


def run(w, rep, tier):
    tot = {"ok": 0, "viol": 0, "undec": 0}
    und = []
    n = 0
    allrs = []
    for cfg, prog, rs in absint.each(w, tier, lambda k, p: specs.spec_for(p) is not None):
        allrs += rs
        for r in rs:
            n += bool(r["shape"])
            for x in r["shape"]:
                tot[x["st"]] += 1
                if x["st"] == "viol":
                    rep.viol(r["path"], r["file"], r["line"], "shape", x["what"], model=x.get("model"), config=cfg)
                elif x["st"] == "undec":
                    und.append(f"{cfg}: {r['key']}: {x['what']}")
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(entry_points_with_shape=n, shape_obligations=sum(tot.values()), proved=tot["ok"], undecided=tot["undec"], undecided_list=sorted(set(und)))
