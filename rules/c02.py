"""Abstract interpretation of every public call over symbolic lengths, strides, hops, counts and levels: every index, slice range,
integer operation, division, unwrap, assertion and panic site reached (also inside helpers, closures and vector loads/stores) is an
obligation that must follow from the path's constraints.  A violation is reported only for exact paths with a concrete model."""
from kai import specs
from . import absint

ASSUMPTIONS = ("slices, vectors and requested counts hold at most 2^31 elements",
               "documented argument assertions of infallible calls (listed in kai/specs.py ASSERTS) are not violations")


def run(w, rep, tier):
    tot = {"ok": 0, "viol": 0, "undec": 0}
    und = set()
    kinds = {}
    allrs = []
    for cfg, prog, rs in absint.each(w, tier, None, histories=True):
        allrs += rs
        for r in rs:
            for x in r["obls"]:
                if x["kind"] == "uninit" or specs.assert_allowed(x["fn"]):
                    continue
                tot[x["st"]] += 1
                kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
                if x["st"] == "viol":
                    rep.viol(x["fn"], x["file"], x["line"], x["kind"], x["desc"], entry=r["key"], model=x.get("model"),
                             call_path=x.get("trail"), config=cfg)
                elif x["st"] == "undec":
                    und.add(f"{x['fn']}:{x['line']} [{x['kind']}] {x['desc']}")
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(obligations=sum(tot.values()), proved=tot["ok"], undecided=tot["undec"], obligations_by_kind=kinds,
                   undecided_sites=sorted(und))
