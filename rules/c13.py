"""Two static termination arguments.  (1) Loops: for every loop of every entry point the abstract interpreter looks for a ranking
quantity - a linear expression of the carried variables (or 2|x|+[x<0] of a signed one) that the loop's own exit test keeps
non-negative and that every path round the loop decreases by at least one; iterator-driven loops are bounded by the iterator's
remaining length.  A loop is reported when an exact path from its entry returns to the identical state (in one or two iterations),
so that it provably repeats for ever.  (2) Recursion: every cycle of the call graph is reported."""
import re
from kai.mir import Prog
from .graph import Graph, short
from . import absint

ASSUMPTIONS = ("iterators of the standard library and rayon finish", "reads from a file eventually reach its end",
               "the caller's own transform implementations terminate")


def sccs(nodes, succ):
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = n[0]; n[0] += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for x in it:
                if x not in idx:
                    idx[x] = low[x] = n[0]; n[0] += 1
                    st.append(x); on.add(x)
                    work.append((x, iter(succ(x))))
                    break
                elif x in on:
                    low[v] = min(low[v], idx[x])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        x = st.pop(); on.discard(x); comp.append(x)
                        if x == v:
                            break
                    out.append(comp)
    return out


ENDLESS = re.compile(r"(core::iter::(sources::)?(repeat|repeat_with|from_fn|successors)(::\w+)?|Iterator::cycle)$")


def run(w, rep, tier):
    tot = {"ok": 0, "viol": 0, "undec": 0}
    und, allrs, cyc = {}, [], 0
    for cfg, prog, rs in absint.each(w, tier, None, {"term": True}):
        allrs += rs
        g = Graph(prog)
        for comp in sccs(sorted(prog.fns), lambda k: g.refs(prog.fns[k])):
            k = sorted(comp)[0]
            if len(comp) == 1 and k not in g.refs(prog.fns[k]):
                continue
            cyc += 1
            f = prog.fns[k]
            guarded = recursion_guard(g, prog, comp)
            if not guarded:
                rep.viol(f.path, f.file, f.line, "recursion", "calls itself on every path: " + " -> ".join(short(x) for x in sorted(comp)), config=cfg)
            else:
                und.setdefault("recursion " + short(k), cfg)
        for r in rs:
            for x in r.get("term", ()):
                tot[x["st"]] += 1
                if x["st"] == "viol":
                    rep.viol(x["fn"], r["file"], x["line"], "no-progress", f"loop can return to the state it started from (reached from {r['path']})",
                             model=x.get("model"), config=cfg)
                elif x["st"] == "undec":
                    und.setdefault(f"{x['fn']} loop {x['loop']}", x["line"])
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(loops_examined=sum(tot.values()), proved_terminating=tot["ok"], undecided=len(und), undecided_list=und, call_graph_cycles=cyc)


def recursion_guard(g, prog, comp):
    """True when some member can return without re-entering the cycle"""
    comp = set(comp)
    for k in comp:
        f = prog.fns[k]
        bad = set()
        for c in g.calls(f):
            if c.inst in comp:
                bad.add(c.block)
        # a return reachable while avoiding the recursive calls?
        seen, todo, ret = {0}, [0], False
        while todo:
            b = todo.pop()
            if b in bad:
                continue
            if f.blocks[b]["t"][0] == "return":
                ret = True
                break
            for s in f.succs(b):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        if ret:
            return True
    return False
