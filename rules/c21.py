"""Multi-level wavelets.  On the MIR paths of the multi-level functions (two generic loop iterations, the single-level transforms opaque) the
returned terms are unfolded into the chain of single-level calls: what each level is given, what becomes of its two results.  The forward side
must hand every level an even number of samples (decided from the parity decisions of the path and the pushes on it), feed the approximation to
the next level and append the details in order; the inverse side must take the details from the last to the first, with the current signal cut
to exactly the length of the details it is combined with.  The lengths of the single-level results are decided as closed forms."""
import re
from kai.mir import Prog
from kai.trace import TooMany, contains
from .graph import short
from .absint import configs
from .c16 import T16, mod
from .c22 import T22, FAM
from .form import Forms, Poly, sub, add, atom, num, same, show, subst, unkey, NEXT

ASSUMPTIONS = ("loops are followed for two generic iterations", "the functions passed to the generic forms have the lengths of the library's single-level transforms")
SINGLE = re.compile(r"::(haar|db\d+|sym\d+|coif\d+)_(forward|inverse)(\||$)")
CALL = re.compile(r"function::(impls::<impl core::ops::function::)?Fn(Mut|Once)?(<.*)?::call(_mut|_once)?$")
LEN = re.compile(r"(Vec::<T, A>|slice::<impl \[T\]>)::len$")


def run(w, rep, tier):
    cov = {"functions": set(), "levels": 0, "lengths": 0, "undecided": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        for k, f in sorted(prog.fns.items()):
            n = f.path.split("::")[-1]
            if mod(f.path) != "wavelet" or f.d.get("closure") or "test" in k:
                continue
            m = FAM.match(n)
            if m and not m.group(3):
                lengths(rep, cov, prog, cfg, k, f, m.group(2))
            elif "multi" in n and "batch" not in n and ("forward" in n or "inverse" in n):
                way = "forward" if "forward" in n else "inverse"
                try:
                    ok = (fwd if way == "forward" else inv)(rep, cov, prog, cfg, k, f)
                except TooMany:
                    ok = False
                cov["functions" if ok else "undecided"].add(short(k))
    rep.cov.update(functions=sorted(cov["functions"]), levels=cov["levels"], lengths=cov["lengths"], undecided=sorted(cov["undecided"]))


def paths(prog, f, visits):
    T = T16(prog, lambda y: bool(SINGLE.search(y)), visits=visits, maxpaths=6000)
    T.exits = []
    return T.run(f, [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)])


def ascall(t):
    """(arguments, term) of a single-level call or a call of the function argument"""
    if t[0] == "call" and CALL.search(t[1]) and len(t[3]) == 2 and t[3][1][0] == "agg" and t[3][0][0] == "arg":
        return list(t[3][1][3])
    if t[0] == "call" and SINGLE.search(t[1]):
        return list(t[3])
    return None


def layers(t):
    """(base, [(method, args)] innermost first)"""
    out = []
    while t[0] == "mut":
        out.append((t[1].split("::")[-1], t[3][1:]))
        t = t[3][0]
    return t, out[::-1]


def slen(t):
    """x of len(x)"""
    return t[3][0] if t[0] == "call" and LEN.search(t[1]) else None


def parity_of(t, st, env):
    """0/1/None: parity of a usize term, env: parities of the lengths of bases"""
    if t[0] == "int":
        return t[1] % 2
    x = slen(t)
    if x is not None:
        return length_parity(x, st, env)
    if t[0] == "cast":
        return parity_of(t[1], st, env)
    if t[0] == "bin" and t[1] in ("Add", "Sub", "BitXor"):
        a, b = parity_of(t[2], st, env), parity_of(t[3], st, env)
        return None if a is None or b is None else (a + b) % 2
    if t[0] == "bin" and t[1] in ("Mul", "BitAnd"):
        a, b = parity_of(t[2], st, env), parity_of(t[3], st, env)
        return 0 if a == 0 or b == 0 else None if a is None or b is None else a * b
    if t[0] == "bin" and t[1] == "Rem" and t[3][0] == "int" and t[3][1] % 2 == 0:
        return parity_of(t[2], st, env)
    if t[0] == "call" and t[1].split("::")[-1] == "next_multiple_of" and t[3][1][0] == "int" and t[3][1][1] % 2 == 0:
        return 0
    return None


def length_parity(x, st, env):
    b, ls = layers(x)
    p = env.get(b)
    for name, args in ls:
        if name in ("push", "push_mut", "insert", "pop", "remove"):
            p = None if p is None else 1 - p
        elif name in ("resize", "truncate") and args:
            q = parity_of(args[0], st, env) if name == "resize" else None
            p = q
        elif name in ("extend", "append", "extend_from_slice", "drain", "clear", "retain", "dedup", "split_off", "resize_with", "set_len"):
            p = None
    return p


def bases(t, out):
    if isinstance(t, tuple):
        x = slen(t) if len(t) > 3 else None
        if x is not None:
            out.add(layers(x)[0])
        for y in t:
            bases(y, out)


def parities(st):
    """the assignments of parities to the lengths of the bases that agree with the decisions of the path"""
    bs = set()
    for d in st.dec:
        if d[0] in ("bin", "call") and "multiple" in d[1] or d[0] == "bin" and contains(d, lambda x: x[0] == "bin" and x[1] in ("Rem", "BitAnd")):
            bases(d, bs)
    bs = sorted(bs, key=str)[:4]
    out = []
    for m in range(1 << len(bs)):
        env = {b: m >> i & 1 for i, b in enumerate(bs)}
        ok = True
        for d, v in st.dec.items():
            if d[0] == "call" and d[1].split("::")[-1] == "is_multiple_of" and d[3][1] == ("int", 2):
                p = parity_of(d[3][0], st, env)
                ok = ok and (p is None or (p == 0) == bool(v))
            elif d[0] == "bin" and d[1] in ("Eq", "Ne") and (d[3][0] == "int" and d[3][1] in (0, 1)) and contains(d[2], lambda x: x[0] == "bin" and x[1] in ("Rem", "BitAnd")):
                if d[2][0] == "bin" and d[2][1] in ("Rem", "BitAnd") and d[2][3] == ("int", 2 if d[2][1] == "Rem" else 1):
                    p = parity_of(d[2][2], st, env)
                    ok = ok and (p is None or ((p == d[3][1]) == (d[1] == "Eq")) == bool(v))
            elif d[0] == "bin" and d[1] in ("Rem", "BitAnd") and d[3] == ("int", 2 if d[1] == "Rem" else 1):
                p = parity_of(d[2], st, env)
                if isinstance(v, int):
                    ok = ok and (p is None or p == v)
            elif d[0] == "variant" and v == 0 and d[1][0] == "call" and d[1][1].split("::")[-1] in ("last", "first"):
                b, ls = layers(d[1][3][0])
                if not ls and env.get(b) == 1:
                    ok = False
        if ok:
            out.append(env)
    return out


def fwd(rep, cov, prog, cfg, k, f):
    good = False
    for st, ret in paths(prog, f, 3):
        if ret[0] != "agg" or ret[1] != "tuple" or len(ret[3]) != 2:
            return False
        cur, det = ret[3]
        root, ls = layers(det)
        pushed = [a[0] for n, a in ls if n == "push"]
        if any(n not in ("push", "reserve") for n, a in ls) or not (root[0] == "call" and root[1].split("::")[-1] in ("with_capacity", "new")):
            return False
        chain = []
        t, top = cur, True
        while t[0] == "fld" and t[2] in (0, 1) and ascall(t[1]) is not None:
            if t[2] == 1:
                rep.viol(f.path, f.file, f.line, "wrong-half", f"{short(k)}: the details of a level, not its approximation, are " + ("returned as the approximation" if top else "decomposed further"), config=cfg)
                return True
            chain.append(t[1])
            a = ascall(t[1])[0]
            t, top = layers(a)[0], False
        chain.reverse()
        if t[0] != "arg":
            return False
        if t[1] != 1:
            return False
        envs = parities(st)
        if not envs:
            continue
        for c in chain:
            a = ascall(c)[0]
            cov["levels"] += 1
            good = True
            for env in envs:
                b, ls = layers(a)
                p = length_parity(a, st, env)
                if p == 0:
                    continue
                if p is None and (any(n not in ("push",) for n, _ in ls) or b in env):
                    return False
                rep.viol(f.path, f.file, f.line, "odd-level", f"{short(k)}: a level of odd length " + (f"gets {len(ls)} padding samples and " if ls else "") +
                         "reaches the single-level transform with an odd number of samples, so its last sample is lost", config=cfg)
                return True
        want = [("fld", c, 1) for c in chain]
        if pushed != want:
            if sorted(map(str, pushed)) == sorted(map(str, want)):
                rep.viol(f.path, f.file, f.line, "detail-order", f"{short(k)}: the details are not stored from the first level to the last", config=cfg)
            elif len(pushed) < len(want):
                rep.viol(f.path, f.file, f.line, "detail-lost", f"{short(k)}: {len(want)} levels are computed but {len(pushed)} details are stored", config=cfg)
            elif all(p[0] == "fld" and ascall(p[1]) is not None for p in pushed):
                rep.viol(f.path, f.file, f.line, "wrong-half", f"{short(k)}: what is stored for a level is not its details", config=cfg)
            else:
                return False
            return True
    return good


def inv(rep, cov, prog, cfg, k, f):
    good = False
    for st, ret in paths(prog, f, 3):
        chain, t = [], ret
        while True:
            b, ls = layers(t)
            a = ascall(b)
            if a is None or len(a) != 2:
                break
            chain.append((b, a, ls))
            t = a[0]
        if b[0] != "arg" or b[1] != 1:
            return False
        chain.reverse()
        fm = Forms()
        fm.iters = {}
        seen = []
        for c, (cur, d), after in chain:
            cov["levels"] += 1
            good = True
            dr = layers(d)
            v = fm.value(d)
            if dr[1] or d[0] != "fld" or v is None:
                return False
            seen.append(d)
            r = order(fm, d, f)
            if r is None:
                return False
            if r > 0 and len(seen) == 1:
                rep.viol(f.path, f.file, f.line, "detail-order", f"{short(k)}: the details are taken from the first level to the last, but the last level was computed last and must be undone first", config=cfg)
                return True
            cb, cl = layers(cur)
            cut = [a for n, a in cl if n in ("truncate", "resize")]
            lend = fm.poly(("call", "core::slice::<impl [T]>::len", None, (d,)))
            ld = [x for x in cut if x]
            if ld:
                got = fm.poly(ld[-1][0])
                if not same(got, lend):
                    diff = sub(got, lend).const()
                    if diff is None or any(n not in ("truncate", "resize") for n, _ in cl):
                        return False
                    rep.viol(f.path, f.file, f.line, "cut", f"{short(k)}: the current signal is cut to the length of the details {int(diff):+d} before the two are combined", config=cfg)
                    return True
                continue
            if cl or not plain(cb):
                return False
            if any(mentions(x, cb) and mentions(x, d) for x in st.dec):
                continue
            rep.viol(f.path, f.file, f.line, "uncut", f"{short(k)}: the current signal is combined with the details of a level without being cut to their length; after a level of odd length it is one sample longer", config=cfg)
            return True
        if len(set(seen)) != len(seen):
            rep.viol(f.path, f.file, f.line, "detail-order", f"{short(k)}: two levels are undone with the same details", config=cfg)
            return True
        if chain and chain[-1][2]:
            return False
    return good


def plain(t):
    return t[0] == "arg" or ascall(t) is not None


def mentions(t, x):
    return contains(t, lambda y: y == x)


def order(fm, d, f):
    """+1: first to last, -1: last to first"""
    v = fm.value(d)
    if v is None or v[0] not in ("ref", "elem") and not isinstance(v[0], str):
        return None
    p = next((q for q in v if isinstance(q, Poly)), None)
    if p is None:
        return None
    js = [a for a in p.atoms() if a[0] == "j"]
    if len(js) != 1:
        return None
    c = sub(subst(p, js[0], num(1)), subst(p, js[0], num(0))).const()
    if c in (1, -1):
        return int(c)
    return None


def lengths(rep, cov, prog, cfg, k, f, way):
    T = T22(prog, lambda y: False, visits=2, maxpaths=3000)
    T.exits = []
    try:
        outs = T.run(f, [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)])
    except TooMany:
        cov["undecided"].add(short(k))
        return
    a0 = ("len", ("arg", 1, f.locals[1][1]))
    for st, ret in outs:
        fm = Forms()
        parts = ret[3] if ret[0] == "agg" and ret[1] == "tuple" else (ret,)
        if len(parts) != (2 if way == "forward" else 1):
            cov["undecided"].add(short(k))
            return
        for i, x in enumerate(parts):
            l = fm.length(x)
            if l is None or any(z != a0 and not (z[0] == "q" and all(w == a0 for q in z[1:] for w in unkey(q).atoms())) for z in l.atoms()):
                cov["undecided"].add(short(k))
                continue
            cov["lengths"] += 1
            for m in range(0, 12):
                n = 2 * m if way == "forward" else m
                got = at(l, a0, n)
                want = m if way == "forward" else 2 * m
                if got is not None and got != want:
                    rep.viol(f.path, f.file, f.line, "level-length", f"{short(k)}: " + (f"{('approximation', 'details')[i]} of {n} samples have {got} values instead of {want}" if way == "forward" else
                             f"{n} coefficients give {got} samples instead of {want}"), config=cfg)
                    return


def at(l, a0, n):
    l = subst(l, a0, num(n))
    for z in list(l.atoms()):
        if z[0] == "q":
            a, b = (subst(unkey(q), a0, num(n)).const() for q in z[1:])
            if a is None or not b:
                return None
            l = subst(l, z, num(a // b))
    return l.const()
