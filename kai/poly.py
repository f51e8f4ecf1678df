"""Polynomials over integer symbols and a small relational numeric domain.

A `Poly` is an integer polynomial; every relation is `Poly >= 0`, `== 0` or `!= 0`.
Entailment treats monomials as variables (linear reasoning by Fourier-Motzkin with
integer tightening), after adding products of known bounds for the non-linear
monomials that occur (reformulation-linearisation at degree two).
"""
from functools import lru_cache
from math import gcd

INPUT, ITER, DERIVED, FUZZY, HIST = "input", "iter", "derived", "fuzzy", "hist"
ISIZE_MAX = (1 << 63) - 1
LENMAX = 1 << 31   # assumed bound on the length of any slice, vector or array


class Sym:
    __slots__ = ("id", "name", "kind", "lo", "hi", "defn")

    def __init__(self, id, name, kind, lo, hi, defn):
        self.id, self.name, self.kind, self.lo, self.hi, self.defn = id, name, kind, lo, hi, defn


SYMS = []
HISTDEP = set()      # join/loop symbols one of whose alternatives is the length of a recycled buffer
ELROOT = {}          # symbol describing an element of a buffer -> root of that buffer
_derived = {}


def reset():
    SYMS.clear()
    ELROOT.clear()
    HISTDEP.clear()
    _derived.clear()
    infeasible_cached.cache_clear()


def new_sym(name, kind, lo=0, hi=None, defn=None):
    s = Sym(len(SYMS), name, kind, lo, hi, defn)
    SYMS.append(s)
    return s.id


class Poly:
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t  # tuple of (mono, coef) sorted
        self.h = hash(t)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.t == o.t

    def __repr__(self):
        return show(self)

    @property
    def const(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def syms(self):
        return {s for m, _ in self.t for s in m}

    def __add__(self, o):
        o = P(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return mk(d)

    def __sub__(self, o):
        o = P(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) - c
        return mk(d)

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly(tuple((m, c * k) for m, c in self.t))

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + c * e
        return mk(d)

    def subst(self, env):
        """env: sym -> Poly"""
        if not any(s in env for m, _ in self.t for s in m):
            return self
        out = ZERO
        for m, c in self.t:
            if not any(s in env for s in m):
                out = out + Poly(((m, c),))
                continue
            p = Poly((((), c),))
            for s in m:
                p = p * (env[s] if s in env else S(s))
            out = out + p
        return out


def mk(d):
    return Poly(tuple(sorted((m, c) for m, c in d.items() if c != 0)))


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly((((), x),)) if x else ZERO


ZERO = Poly(())


def S(s):
    return Poly((((s,), 1),))


ONE = P(1)


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        n = "*".join(SYMS[s].name for s in m)
        if not n:
            out.append(str(c))
        elif c == 1:
            out.append(n)
        else:
            out.append(f"{c}*{n}")
    return " + ".join(out).replace("+ -", "- ")


def eval_poly(p, env):
    tot = 0
    for m, c in p.t:
        v = c
        for s in m:
            v *= env[s]
        tot += v
    return tot


def npot(x):
    return 1 if x <= 1 else 1 << (x - 1).bit_length()


def derived(op, args, name=None):
    """memoised derived symbol; returns (sym poly, [constraints >=0])"""
    key = (op,) + tuple(args)
    if key in _derived:
        return _derived[key]
    nm = name or f"{op}({','.join(show(a) for a in args)})"
    hi = None
    if op in ("tz", "lz", "popcnt"):
        hi = 64
    s = new_sym(nm, DERIVED, 0, hi, (op, tuple(args)))
    x = S(s)
    cons = []
    if op == "div":
        a, b = args
        cons = [a - b * x, b * x + b - ONE - a]
    elif op == "npot":
        (a,) = args
        cons = [x - a, x - ONE]
    elif op == "and":
        a, b = args
        cons = [a - x, b - x]
    elif op in ("min",):
        a, b = args
        cons = [a - x, b - x]
    elif op in ("max",):
        a, b = args
        cons = [x - a, x - b]
    _derived[key] = (x, cons)
    return _derived[key]


def eval_derived(defn, env):
    op, args = defn
    a = [eval_poly(x, env) for x in args]
    if op == "div":
        return None if a[1] == 0 else a[0] // a[1]
    if op == "npot":
        return npot(a[0])
    if op == "and":
        return a[0] & a[1] if a[0] >= 0 and a[1] >= 0 else None
    if op == "or":
        return a[0] | a[1] if a[0] >= 0 and a[1] >= 0 else None
    if op == "xor":
        return a[0] ^ a[1] if a[0] >= 0 and a[1] >= 0 else None
    if op == "tz":
        return 64 if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    if op == "lz":
        return 64 - a[0].bit_length()
    if op == "popcnt":
        return bin(a[0]).count("1")
    if op == "shl":
        return None if a[1] > 63 or a[1] < 0 else (a[0] << a[1]) & ((1 << 64) - 1)
    if op == "shr":
        return None if a[1] > 63 or a[1] < 0 else a[0] >> a[1]
    if op == "min":
        return min(a)
    if op == "max":
        return max(a)
    if op == "satsub":
        return max(0, a[0] - a[1])
    return None


# ---------------------------------------------------------------- FM
FM_LIMIT = 260


def _tight(d, c):
    g = 0
    for v in d.values():
        g = gcd(g, v)
        if g == 1:
            return d, c
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g  # floor: d*x + c >= 0, integer x
    return d, c


def fm_infeasible(cons):
    """cons: list of (dict var->coef, const) meaning sum+const >= 0; True if surely infeasible."""
    cur = {}

    def put(store, d, c):
        if not d:
            return c >= 0
        k = tuple(sorted(d.items()))
        o = store.get(k)
        if o is None or c < o:
            store[k] = c
        return True

    for d, c in cons:
        d, c = _tight(d, c)
        if not put(cur, d, c):
            return True
    # Gaussian elimination of equalities (opposite pairs) with a unit coefficient
    changed = True
    while changed:
        changed = False
        for k, c in list(cur.items()):
            nk = tuple((v, -x) for v, x in k)
            oc = cur.get(nk)
            if oc is None or oc + c != 0:
                continue
            pv = None
            for v, x in k:
                if x in (1, -1) and (pv is None or str(v) > str(pv[0])):
                    pv = (v, x)
            if pv is None:
                continue
            v, x = pv
            # x*v + rest + c == 0  ->  v = -(rest+c)/x
            rest = {w: -y * x for w, y in k if w != v}
            rc = -c * x
            new = {}
            for k2, c2 in cur.items():
                if k2 == k or k2 == nk:
                    continue
                d2 = dict(k2)
                y = d2.pop(v, 0)
                if y:
                    for w, z in rest.items():
                        d2[w] = d2.get(w, 0) + y * z
                    d2 = {w: z for w, z in d2.items() if z}
                    c2 = c2 + y * rc
                    d2, c2 = _tight(d2, c2)
                if not put(new, d2, c2):
                    return True
            cur = new
            changed = True
            break
    while cur:
        # contradiction between opposite constraints
        pos, neg = {}, {}
        for k in cur:
            for v, co in k:
                if co > 0:
                    pos[v] = pos.get(v, 0) + 1
                else:
                    neg[v] = neg.get(v, 0) + 1
        vs = set(pos) | set(neg)
        best = min(vs, key=lambda v: (pos.get(v, 0) * neg.get(v, 0) - pos.get(v, 0) - neg.get(v, 0), str(v)))
        ps, ns, rest = [], [], {}
        for k, c in cur.items():
            co = 0
            for v, x in k:
                if v == best:
                    co = x
                    break
            if co > 0:
                ps.append((co, k, c))
            elif co < 0:
                ns.append((co, k, c))
            else:
                rest[k] = c
        if len(ps) * len(ns) + len(rest) > FM_LIMIT:
            return False
        for a, k1, c1 in ps:
            for b, k2, c2 in ns:
                g = gcd(a, -b)
                m1, m2 = -b // g, a // g
                d = {}
                for v, x in k1:
                    if v != best:
                        d[v] = d.get(v, 0) + x * m1
                for v, x in k2:
                    if v != best:
                        d[v] = d.get(v, 0) + x * m2
                d = {v: x for v, x in d.items() if x}
                c = c1 * m1 + c2 * m2
                d, c = _tight(d, c)
                if not put(rest, d, c):
                    return True
        cur = rest
    return False


def _dec(p):
    d = {}
    c = 0
    for m, k in p.t:
        if m == ():
            c = k
        else:
            d[m] = k
    return d, c


def bounds_of(mono, big):
    out = []
    lo_ok = all(SYMS[s].lo is not None and SYMS[s].lo >= 0 for s in mono)
    if lo_ok:
        lo = 1
        for s in mono:
            lo *= SYMS[s].lo
        out.append(({mono: 1}, -lo))
    elif len(mono) == 1 and SYMS[mono[0]].lo is not None:
        out.append(({mono: 1}, -SYMS[mono[0]].lo))
    if len(mono) == 1:
        hi = SYMS[mono[0]].hi
        if hi is not None and (big or hi < (1 << 31)):
            out.append(({mono: -1}, hi))
    return out


MAXC = 46


@lru_cache(maxsize=400000)
def infeasible_cached(cons, goal, big):
    return _infeasible(cons, goal, big)


def relevant(cons, seed_monos, cap=MAXC):
    """cons relevant to the seed monomials, by shared symbols, breadth first"""
    seen_syms = {s for m in seed_monos for s in m}
    # definitions of derived symbols pull in the symbols they are defined from
    picked = []
    rest = list(cons)
    for _ in range(4):
        newp, nrest = [], []
        add = set()
        for c in rest:
            sy = c.syms()
            if sy & seen_syms:
                newp.append(c)
                add |= sy
            else:
                nrest.append(c)
        if not newp:
            break
        newp.sort(key=lambda c: (len(c.t), c.t))
        for c in newp:
            if len(picked) >= cap:
                return picked
            picked.append(c)
        rest = nrest
        seen_syms |= add
    return picked


def _infeasible(cons, goal, big):
    """cons: frozenset of Poly >= 0. goal: tuple of Poly >= 0 assumed in addition."""
    for g in goal:
        if g.is_const() and g.const < 0:
            return True
    allc = list(goal)
    seed = {m for g in goal for m, _ in g.t if m}
    if not goal:
        sel = sorted(cons, key=lambda c: (len(c.t), c.t))
        sel = sel[: MAXC * 2]
    else:
        sel = relevant(cons, seed)
    allc += sel
    # derived definitions
    done = set()
    todo = {s for c in allc for s in c.syms()}
    while todo:
        s = todo.pop()
        if s in done:
            continue
        done.add(s)
        dn = SYMS[s].defn
        if dn:
            _, cs = derived(dn[0], dn[1])
            if dn[0] == "div" and not dn[1][1].is_const():
                pass  # valid only when divisor >= 1: the state adds it explicitly
            else:
                for c in cs:
                    if c not in allc:
                        allc.append(c)
                        todo |= c.syms() - done
    # products for non-linear monomials
    monos = {m for c in allc for m, _ in c.t if len(m) >= 2}
    extra = []
    if monos:
        lin = [c for c in allc if all(len(m) <= 1 for m, _ in c.t)][:40]
        msyms = {s for m in monos for s in m}
        pairs = set()
        for m in sorted(monos)[:12]:
            if len(m) == 2:
                x, y = m
                for a, b in ((x, y), (y, x)):
                    if SYMS[b].lo is None or SYMS[b].lo < 0:
                        continue
                    for c in lin:
                        if a in c.syms() and len(c.t) <= 4:
                            pairs.add((c, b))
        for c, b in sorted(pairs, key=lambda z: (len(z[0].t), z[0].t, z[1]))[:60]:
            q = c * S(b)
            if all(len(m) <= 1 or m in monos or set(m) <= msyms for m, _ in q.t):
                extra.append(q)
        # (x - l)(y - k) >= 0 from lower bounds >= 1
        lbs = {}
        for c in lin:
            if len(c.t) == 2 and c.t[0][0] == () and c.t[1][1] == 1:
                lbs.setdefault(c.t[1][0][0], []).append(c)
        for m in sorted(monos)[:12]:
            if len(m) == 2 and m[0] in lbs and m[1] in lbs:
                extra.append(lbs[m[0]][0] * lbs[m[1]][0])
    fm = [_dec(c) for c in allc + extra]
    vs = {v for d, _ in fm for v in d}
    for v in sorted(vs):
        fm += bounds_of(v, big)
    return fm_infeasible(fm)


def hist_syms(p):
    """recycled-buffer lengths a polynomial depends on"""
    out, todo, seen = set(), list(p.syms()), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if SYMS[x].kind == HIST or x in HISTDEP:
            out.add(x)
        if SYMS[x].defn:
            for a in SYMS[x].defn[1]:
                todo += list(a.syms())
    return out
