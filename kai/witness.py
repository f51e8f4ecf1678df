"""Small-model search: is a set of integer constraints satisfied by some concrete values of
the inputs?  Used only to turn 'not proved' into 'definitely reachable'."""
from .poly import *
from . import poly as _p

DOM = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 64, 100, 128, 256, 1000, 1024]
BIG = [(1 << 61) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def free_lower(cons, others):
    """constraints that only bound an otherwise unused unknown from below can always be met"""
    cnt = {}
    for c in list(cons) + list(others):
        for s in c.syms():
            cnt[s] = cnt.get(s, 0) + 1

    def drop(c):
        ss = c.syms()
        return len(ss) == 1 and all(v > 0 for m, v in c.t if m) and all(cnt[s] == 1 and SYMS[s].hi is None and SYMS[s].defn is None for s in ss)
    return [c for c in cons if not drop(c)]


def find(cons, nes, pow2, npow2, allow_hist=True, budget=60000, big=False, note=()):
    """returns (status, model): 'sat' with model, 'fuzzy' when an inexact symbol is involved, 'none'"""
    cons = free_lower(cons, list(nes) + list(pow2) + list(npow2))
    items = [("ge", c) for c in cons] + [("ne", c) for c in nes] + [("pow2", c) for c in pow2] + [("npow2", c) for c in npow2]
    syms = set()
    for _, c in items:
        syms |= c.syms()
    # derived closure
    base, der = set(), {}
    todo = list(syms)
    while todo:
        s = todo.pop()
        if s in der or s in base:
            continue
        d = SYMS[s].defn
        if d is not None:
            der[s] = d
            for a in d[1]:
                todo += list(a.syms())
        else:
            base.add(s)
    for s in base:
        k = SYMS[s].kind
        if k == FUZZY or (k == HIST and not allow_hist):
            return "fuzzy", None
        if s in ELROOT and ("elf", ELROOT[s]) in note:
            return "fuzzy", None
    deps = {}

    def dep(s):
        if s in deps:
            return deps[s]
        if s in base:
            deps[s] = frozenset([s])
        else:
            r = frozenset()
            for a in der[s][1]:
                for x in a.syms():
                    r |= dep(x)
            deps[s] = r
        return deps[s]

    allsy = set(base) | set(der)
    ic = []
    for k, c in items:
        r = frozenset()
        for s in c.syms():
            r |= dep(s)
        ic.append((k, c, r))
    # bounds as constraints on derived/base are checked through lo/hi
    cnt = {s: 0 for s in base}
    for _, _, r in ic:
        for s in r:
            cnt[s] += 1
    order = sorted(base, key=lambda s: (SYMS[s].kind == ITER, -cnt[s], s))
    pos = {s: i for i, s in enumerate(order)}
    at = [[] for _ in order]
    const = []
    for k, c, r in ic:
        if r:
            at[max(pos[s] for s in r)].append((k, c))
        else:
            const.append((k, c))
    dat = [[] for _ in order]
    for s in der:
        r = dep(s)
        if r:
            dat[max(pos[x] for x in r)].append(s)
    # constants appearing in constraints are useful values
    extra = set()
    for _, c, _ in ic:
        for m, v in c.t:
            if m == () and abs(v) <= (1 << 64):
                for q in (abs(v), abs(v) + 1, abs(v) - 1):
                    if 0 <= q <= 4096:
                        extra.add(q)
    dom = sorted(set(DOM) | extra)
    env = {}
    left = [budget]

    def ev(s):
        if s in env:
            return env[s]
        v = eval_d(der[s])
        env[s] = v
        return v

    def eval_d(d):
        e2 = {}
        for a in d[1]:
            for x in a.syms():
                q = ev(x)
                if q is None:
                    return None
                e2[x] = q
        return eval_derived(d, e2)

    def okc(k, c):
        e2 = {}
        for x in c.syms():
            q = ev(x)
            if q is None:
                return False
            e2[x] = q
        v = eval_poly(c, e2)
        if k == "ge":
            return v >= 0
        if k == "ne":
            return v != 0
        p2 = v > 0 and v & (v - 1) == 0
        return p2 if k == "pow2" else not p2

    for k, c in const:
        if not okc(k, c):
            return "none", None

    def rec(i):
        if i == len(order):
            return True
        s = order[i]
        lo = SYMS[s].lo if SYMS[s].lo is not None else -(1 << 63)
        hi = SYMS[s].hi if SYMS[s].hi is not None else None
        # linear propagation of single-variable bounds given what is assigned
        lb, ub = lo, hi
        for k, c in at[i]:
            if k != "ge" or any(x in der and s in dep(x) for x in c.syms()):
                continue
            a, b = 0, 0
            okl = True
            for m, v in c.t:
                n = m.count(s)
                if n > 1:
                    okl = False
                    break
                w = v
                for x in m:
                    if x != s:
                        q = ev(x)
                        if q is None:
                            okl = False
                            break
                        w *= q
                if not okl:
                    break
                if n:
                    a += w
                else:
                    b += w
            if not okl:
                continue
            if a > 0:
                l = -(b // a)  # ceil(-b/a)
                lb = l if lb is None else max(lb, l)
            elif a < 0:
                u = b // (-a)
                ub = u if ub is None else min(ub, u)
            elif b < 0:
                return False
        if lb is not None and ub is not None and lb > ub:
            return False
        cand = [v for v in dom if (lb is None or v >= lb) and (ub is None or v <= ub)]
        if lb is not None and lb not in cand:
            cand = [lb, lb + 1] + cand if (ub is None or lb + 1 <= ub) else [lb] + cand
        if ub is not None and ub not in cand and (lb is None or ub >= lb):
            cand.append(ub)
        if big:
            cand += [v for v in BIG if (lb is None or v >= lb) and (ub is None or v <= ub)]
        if lo is not None and lo < 0:
            cand += [v for v in (-1, -2, -5) if (lb is None or v >= lb) and (ub is None or v <= ub)]
        for v in cand:
            left[0] -= 1
            if left[0] < 0:
                return False
            env[s] = v
            fine = True
            for d in dat[i]:
                q = ev(d)
                if q is None:
                    fine = False
                    break
            if fine:
                fine = all(okc(k, c) for k, c in at[i])
            if fine and rec(i + 1):
                return True
            for d in dat[i]:
                env.pop(d, None)
            for d in list(env):
                if d in der and s in dep(d):
                    env.pop(d, None)
            env.pop(s, None)
        return False

    if rec(0):
        return "sat", {SYMS[s].name: env[s] for s in order}
    return "none", None


def connected(st, seeds):
    """constraints of the state connected with the symbols of seeds (transitively)"""
    sy = set()
    for p in seeds:
        sy |= p.syms()
    todo = set(sy)
    seen = set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        d = SYMS[s].defn
        if d:
            for a in d[1]:
                todo |= a.syms() - seen
    sy = seen
    ch = True
    groups = [("c", c) for c in st.cons] + [("n", c) for c in st.nes] + [("p", c) for c in st.pow2] + [("q", c) for c in st.npow2]
    picked = set()
    while ch:
        ch = False
        for g in groups:
            if g in picked:
                continue
            s2 = g[1].syms()
            full = set()
            td = list(s2)
            while td:
                x = td.pop()
                if x in full:
                    continue
                full.add(x)
                d = SYMS[x].defn
                if d:
                    for a in d[1]:
                        td += list(a.syms())
            if full & sy:
                picked.add(g)
                sy |= full
                ch = True
    out = {"c": [], "n": [], "p": [], "q": []}
    for k, c in sorted(picked, key=lambda g: (g[0], g[1].t)):
        out[k].append(c)
    return out["c"], out["n"], out["p"], out["q"]
