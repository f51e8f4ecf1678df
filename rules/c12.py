"""Effect analysis over the call graph: from every function callable from outside (file-based song identification excepted) all
reachable calls are classified; reading the clock, environment, processor count, random numbers, atomics, hash-map order or a
parallel reduction without fixed order is a violation unless it happens inside a function that can only return a number or yes/no
and receives no data (a tuning decision; what may be done with its result is decided by C11).  Every global initialised on first
use must be initialised by code that captures nothing from its caller."""
import re
from kai.mir import Prog
from .graph import Graph, short
from .absint import configs
from . import ambient

ASSUMPTIONS = ("rayon's indexed collect and for_each over disjoint items are order independent",
               "which CPU features are present is part of the platform, not an ambient input (variants are compared by C10)")

SKIP = re.compile(r"kofft::(media::|fft::__test_|fft::set_parallel_)")
OK_STATIC = re.compile(r"(once_lock::OnceLock|lazy_lock::LazyLock|Once\b)")
CELLS = re.compile(r"(Atomic|Mutex|RwLock|Cell<|UnsafeCell|LocalKey)")


def run(w, rep, tier):
    cov = {"entry_points": 0, "call_sites": 0, "decision_functions": set(), "globals": set(), "functions": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        dec = {k for k, f in prog.fns.items() if ambient.decision(prog, f)}
        for k, f in sorted(prog.fns.items()):
            if f.d.get("closure") or not f.d.get("exported") or SKIP.search(k) or k in dec:
                continue
            cov["entry_points"] += 1
            for y, path in g.reach(k, lambda z: z in dec).items():
                fy = prog.fns[y]
                cov["functions"].add((cfg, y))
                for c in g.calls(fy):
                    cov["call_sites"] += 1
                    s = ambient.source(prog, fy, c)
                    if s:
                        rep.viol(fy.path, fy.file, c.line, s[0], f"result of {short(k)} may depend on {s[1]}", path=[short(x) for x in path], config=cfg)
                    if c.callee and re.search(r"(OnceLock|OnceCell|LazyLock)::<T>::(get_or_init|get_or_try_init)", c.callee):
                        init = captured(prog, fy, c)
                        if init:
                            rep.viol(fy.path, fy.file, c.line, "global-init", f"a global reached from {short(k)} is initialised from a caller's values ({init})",
                                     path=[short(x) for x in path], config=cfg)
                for name, ty in ambient.static_reads(prog, fy):
                    t = prog.tys[ty]["s"]
                    cov["globals"].add(name)
                    if CELLS.search(t) and not OK_STATIC.search(t):
                        rep.viol(fy.path, fy.file, fy.line, "global-state", f"result of {short(k)} may depend on the mutable global {name}",
                                 path=[short(x) for x in path], config=cfg)
        cov["decision_functions"] |= {short(x) for x in dec if any(ambient.source(prog, prog.fns[x], c) for c in g.calls(prog.fns[x]))}
    rep.cov.update(entry_points=cov["entry_points"], functions_reached=len(cov["functions"]), call_sites_classified=cov["call_sites"],
                   globals_read=len(cov["globals"]), ambient_decision_functions=sorted(cov["decision_functions"]))


def captured(prog, fn, c):
    """type of the initialiser's captured values, if it captures any"""
    if len(c.args) < 2:
        return None
    a = c.args[1]
    if a[0] == "const":
        return None
    t = prog.tys[fn.locals[a[1][0]][0]]
    if t["k"] == "closure" and t.get("f"):
        return ", ".join(prog.tys[x]["s"] for x in t["f"])
    return None
