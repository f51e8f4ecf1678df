"""Tuning and parallelism.  Tuning functions are those that observe something ambient (environment, processor count, overrides set at run time)
and return a plain number or yes/no.  (1) Value flow: on every traced path of a function that asks one (or is handed its answer), the answer may
be compared and passed on, but must not occur in a value written or returned, nor cut the work (exact chunks without their remainder).
(2) Both outcomes compute the same: the paths that differ only in such a decision are summarised - the sequence of transform calls, and between
two of them the closed form of every element written as a function of the elements before - and the summaries must agree.  (3) Closures handed to a
worker pool may not accumulate samples behind a lock or in an atomic, where the order of threads would show.  (4) The parallel STFT forms obey the framing law
of the sequential ones (rule of C17)."""
import re
from kai.mir import Prog
from kai.trace import TooMany, contains, subterms
from .graph import Graph, short
from .absint import configs
from . import ambient, c17
from .c16 import T16, mod, direction
from .form import Forms, Poly, num, atom, add, sub, mul, subst, same, show, unkey, NEXT

ASSUMPTIONS = ("one generic iteration stands for a loop", "functions handed a tuning answer are followed into their parameters",
               "loops the summary does not understand make a pair of outcomes undecided")
SKIP = re.compile(r"kofft::(media::|fft::__test_|fft::set_parallel_)")
LOCKED = re.compile(r"(Mutex|RwLock)<.*(f32|f64|Complex)|Atomic(F32|F64)")
RAYON = re.compile(r"(^|\W)rayon(_core)?::|std::thread::(scope|spawn)|Scope<.*spawn|thread::Builder")


def run(w, rep, tier):
    cov = {"functions": set(), "pairs": 0, "paths": 0, "closures": 0, "tuning": set(), "undecided": set(), "forms": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        dec = {k for k, f in prog.fns.items() if not f.d.get("closure") and ambient.decision(prog, f)}
        amb = set()
        for k in dec:
            if any(ambient.source(prog, prog.fns[y], c) for y in g.reach(k, lambda z: False) for c in g.calls(prog.fns[y])):
                amb.add(k)
        cov["tuning"] |= {short(k) for k in amb}
        names = {prog.fns[k].path for k in amb}
        work, seen = [], set()
        for k, f in sorted(prog.fns.items()):
            if f.d.get("closure") or k in dec or SKIP.search(k):
                continue
            if any(asks(prog, g, x, amb) for x in [f] + [prog.fns[c] for c in deepclosures(prog, g, f)]):
                work.append((k, frozenset()))
        while work:
            k, params = work.pop()
            if (k, params) in seen:
                continue
            seen.add((k, params))
            try:
                work += study(rep, cov, prog, cfg, k, prog.fns[k], names, amb, params)
                cov["functions"].add(short(k))
            except TooMany:
                cov["undecided"].add(short(k))
        for k, f in sorted(prog.fns.items()):
            for c in g.calls(f):
                if not RAYON.search(c.callee or ""):
                    continue
                for a in c.args:
                    if a[0] == "const":
                        continue
                    t = prog.tys[f.locals[a[1][0]][0]]
                    if t["k"] != "closure":
                        continue
                    cov["closures"] += 1
                    for x in t.get("f") or ():
                        if LOCKED.search(prog.tys[x]["s"]):
                            rep.viol(f.path, f.file, c.line, "shared-accumulator", f"{short(k)}: tasks of the worker pool update {prog.tys[x]['s']}, so the order in which threads "
                                     "arrive decides the order of floating-point operations", config=cfg)
            if mod(f.path) == "stft" and not f.d.get("closure") and "tests" not in k and (k.endswith("|Fft") or "|" not in k) and any(RAYON.search(c.callee or "") for c in g.calls(f)):
                sub_ = {"functions": set(), "paths": 0, "stores": 0, "forms": set(), "undecided": set()}
                try:
                    c17.Fn(rep, sub_, prog, cfg, k, f, {}).run()
                    cov["forms"].add(short(k))
                except TooMany:
                    cov["undecided"].add(short(k))
    rep.cov.update(tuning_functions=sorted(cov["tuning"]), functions=sorted(cov["functions"]), paths=cov["paths"], outcome_pairs=cov["pairs"],
                   worker_closures=cov["closures"], parallel_forms=sorted(cov["forms"]), undecided=sorted(cov["undecided"]))


def asks(prog, g, f, amb):
    return any((c.inst in amb or c.callee in amb) for c in g.calls(f))


def deepclosures(prog, g, f):
    out, todo = [], [f]
    while todo:
        x = todo.pop()
        for c in g.closures(x):
            if c not in out:
                out.append(c)
                todo.append(prog.fns[c])
    return out


def tainted(t, names, params):
    return contains(t, lambda x: x[0] == "call" and x[1] in names or x[0] == "arg" and x[1] in params)


def study(rep, cov, prog, cfg, k, f, names, amb, params):
    more = []

    def opaque(y):
        return y in amb or y != k and (y in prog.fns and direction(prog.fns[y].path) is not None or direction(y.split("|")[0]) is not None) or \
            y in prog.fns and prog.fns[y].path in names

    T = T16(prog, opaque, visits=2, maxpaths=3000)
    T.exits = []
    args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
    outs = T.run(f, args)
    bad = lambda t: tainted(t, names, params)
    sums = []
    for st, ret in outs:
        cov["paths"] += 1
        if bad(ret) and not tainted_ok(ret):
            if not contains(ret, lambda x: x[0] == "call" and direction(x[1]) is not None):
                rep.viol(f.path, f.file, f.line, "tuning-in-result", f"{short(k)} returns a value computed from a tuning setting", config=cfg)
        fm = Forms()
        exact, fronts, rests = {}, [], []
        for e in st.evs:
            n = e.name.split("::")[-1]
            if e.name == "write":
                v = fm.value(e.args[0])
                own = ("x", v[1], v[2].key(), v[3] if len(v) > 3 else ()) if v is not None and v[0] == "ref" else None
                p = fm.poly(e.args[1]) if e.args[1][0] != "agg" else None
                parts = [p] if p is not None else [fm.poly(x) for x in e.args[1][3]]
                if v is not None and v[0] == "ref" and not data(v[1]):
                    continue
                for q in parts:
                    for a in q.atoms():
                        if a[0] == "x" and v is not None and v[0] == "ref" and a[2] == v[2].key():
                            continue
                        if a[0] != "x" and bad(a):
                            rep.viol(f.path, f.file, e.line, "tuning-in-value", f"{short(k)}: the value written to {where(v)} depends on a tuning setting", config=cfg)
            elif n in ("par_chunks_exact_mut", "par_chunks_exact", "chunks_exact_mut", "chunks_exact") and any(bad(a) for a in e.args[1:]):
                exact[e.res] = e
            elif n in ("into_remainder", "remainder", "take_remainder"):
                exact.clear()
            if n in ("index", "index_mut", "get", "get_mut") and len(e.args) > 1 and e.args[1][0] == "agg":
                kind = str(e.args[1][1]).split("::")[-1]
                b = e.args[1][3]
                if bad(e.args[1]):
                    (fronts if kind in ("RangeTo", "RangeToInclusive") or kind in ("Range", "RangeInclusive") and b[0] == ("int", 0) else rests).append(e)
            if n in ("take", "skip", "step_by", "truncate", "take_any", "resize") and any(bad(a) for a in e.args[1:]):
                rep.viol(f.path, f.file, e.line, "tuning-cuts-work", f"{short(k)}: a tuning setting decides how many elements are processed ({n})", config=cfg)
            if e.name != "write" and (opaque(e.inst or "") or direction(e.name) is not None) and e.name not in names:
                key = e.inst if e.inst in prog.fns else None
                for i, a in enumerate(e.args):
                    if bad(a) and a[0] not in ("arg",) or a[0] == "arg" and a[1] in params:
                        if key and len(e.args) == prog.fns[key].argc:
                            more.append((key, frozenset([i + 1])))
        if fronts and not rests:
            rep.viol(f.path, f.file, fronts[0].line, "tuning-cuts-work", f"{short(k)}: only the front of a buffer is used, up to a position set by tuning, and the rest is not processed", config=cfg)
        for e in exact.values():
            rep.viol(f.path, f.file, e.line, "tuning-cuts-work", f"{short(k)}: the work is cut into exact chunks of a tuned size and the remainder is not processed", config=cfg)
        err = ret[0] == "agg" and isinstance(ret[1], str) and ret[1].endswith("Result") and ret[2] == 1
        if not err:
            outc = {strip(d): v for d, v in st.dec.items() if bad(d) and not NEXT.search(str(d[1][1] if d[0] == "variant" and d[1][0] == "call" else ""))}
            other = {strip(d): v for d, v in st.dec.items() if not bad(d) and not (d[0] == "variant") and not contains(d, lambda x: x[0] == "call" and x[2] is not None and not "TypeId" in x[1])}
            if any("TypeId" in str(d) for d in other) and "|f32" not in k:
                continue
            s = summary(fm, st, bad, names)
            if s == "zero":
                continue
            sums.append((outc, other, s))
    for i, (o1, t1, s1) in enumerate(sums):
        for o2, t2, s2 in sums[:i]:
            if o1 == o2 or all(o2.get(d, v) == v for d, v in o1.items()) or any(t2.get(d, v) != v for d, v in t1.items()):
                continue
            cov["pairs"] += 1
            if s1 is None or s2 is None:
                cov["undecided"].add(short(k))
                continue
            d = differ(s1, s2)
            if d == "?":
                cov["undecided"].add(short(k))
            elif d:
                rep.viol(f.path, f.file, d[1], "arms-differ", f"{short(k)}: {d[0]}", config=cfg)
                return more
    return more


def data(root):
    return True


def where(v):
    return f"element {show(v[2])}" if v is not None and v[0] == "ref" else "a buffer"


def tainted_ok(ret):
    return ret[0] == "agg" and isinstance(ret[1], str) and ret[1].endswith("Result")


def strip(d):
    """the term without the numbers of its calls"""
    if isinstance(d, tuple):
        if len(d) == 4 and d[0] in ("call", "mut"):
            return (d[0], d[1], None, strip(d[3]))
        return tuple(strip(x) for x in d)
    return d


J = ("j", "*")


def summary(fm, st, bad, names):
    """[segment]: a segment is ("call", name, args) or {(root, fields, index): (value, count, line)}; "zero" when some loop is not entered, None if not understood"""
    segs, cur, loops = [], {}, {}
    inner = {}
    for e in st.evs:
        if NEXT.search(e.name):
            if e.args[0][0] != "mut":
                if st.dec.get(("variant", e.res)) != 1:
                    return "zero"
                j = ("j", e.res[2])
                fm.iters[j] = fm.base(e.args[0])
                loops[j] = fm.counts(fm.iters[j])
            continue
        if e.name == "write":
            v = fm.value(e.args[0])
            if v is None or v[0] != "ref":
                return None
            root, idx, fields = v[1], v[2], v[3] if len(v) > 3 else ()
            if root[0] != "arg":
                return None
            parts = [(fields, e.args[1])]
            if e.args[1][0] == "agg" and e.args[1][1] != "array":
                parts = [(fields + (i,), x) for i, x in enumerate(e.args[1][3])]
            js = [a for a in idx.atoms() if a[0] == "j"]
            full = covers(fm, root, idx, js, loops)
            for fl, x in parts:
                val = fm.poly(x)
                ent, rd = val, [a for a in val.atoms() if a[0] == "x" and a[1] == root]
                key = (root, fl)
                if full:
                    # every element of the buffer: written as a function of the buffer before
                    ok = True
                    for a in rd:
                        if not same(unkey(a[2]), idx):
                            ok = False
                    if not ok:
                        return None
                    for a in rd:
                        before = cur.get((root, a[3]))
                        me = atom(("x", root, atom(J).key(), a[3]))
                        if before is not None and before[1] != lid(js):
                            val = subst(val, a, before[0])
                        else:
                            val = subst(val, a, me)
                    if any(q in js for q in val.atoms()):
                        return None
                    cur[key] = (val, lid(js), e.line)
                else:
                    return None
            continue
        if direction(e.name) is not None:
            if cur:
                segs.append({q: (v[0], v[2]) for q, v in cur.items()})
                cur = {}
            segs.append(("call", re.sub(r"<.*?>", "", e.name), strip(tuple(fm.base(a) for a in e.args)), e.line))
    if cur:
        segs.append({q: (v[0], v[2]) for q, v in cur.items()})
    return segs


def lid(js):
    return tuple(sorted(map(str, js)))


def covers(fm, root, idx, js, loops):
    """the index runs over the whole of the buffer: one loop over its elements, or chunks and the elements of each"""
    n = fm.length(root) if root[0] != "elem" else None
    if len(js) == 1:
        c = loops.get(js[0]) or []
        return same(idx, atom(js[0])) and len(c) == 1 and n is not None and same(c[0], n)
    if len(js) == 2:
        for a, b in (js, js[::-1]):
            it = fm.iters.get(a)
            if it is None or it[0] != "call":
                continue
            nm = it[1].split("::")[-1]
            base = it
            while base[0] == "call" and base[1].split("::")[-1] in ("enumerate", "into_iter"):
                base = fm.base(base[3][0])
            nm = base[1].split("::")[-1] if base[0] == "call" else ""
            if nm in ("chunks_mut", "par_chunks_mut", "chunks", "par_chunks") and fm.root(base[3][0])[0] == root:
                size = fm.poly(base[3][1])
                if same(idx, add(mul(size, atom(a)), atom(b))):
                    return True
    return False


def differ(a, b):
    if len([x for x in a if isinstance(x, tuple)]) != len([x for x in b if isinstance(x, tuple)]):
        return ("the outcomes of a tuning decision make a different number of transform calls", (a + b)[0][-1] if a + b and isinstance((a + b)[0], tuple) else 0)
    if [isinstance(x, tuple) for x in a] != [isinstance(x, tuple) for x in b]:
        x = next((y for y in a + b if isinstance(y, dict)), {})
        line = next(iter(x.values()))[1] if x else 0
        return ("one outcome of a tuning decision changes elements where the other does not", line)
    for x, y in zip(a, b):
        if isinstance(x, tuple):
            if x[1].split("::")[-1] != y[1].split("::")[-1]:
                return (f"one outcome of a tuning decision calls {x[1].split('::')[-1]}, the other {y[1].split('::')[-1]}", x[3])
            if x[2] != y[2]:
                return "?"
            continue
        for q in sorted(set(x) | set(y), key=str):
            me = atom(("x", q[0], atom(J).key(), q[1]))
            u, v = x.get(q, (me, 0)), y.get(q, (me, 0))
            if not same(u[0], v[0]):
                return (f"the outcomes of a tuning decision compute different elements: {show(u[0])} and {show(v[0])}", max(u[1], v[1]))
    return None
