"""Fixed-size kernels and direct sums.  (1) every unrolled N-point kernel is a straight-line program: its outputs are computed in the domain of
linear forms over the input samples (value flow through every load, store and complex operation) and compared coefficient by coefficient with
the DFT matrix.  (2) the direct-sum transforms are summarised loop by loop: output index, summed input index, summand and the range of both
loops are extracted as closed forms over the length and the two loop variables and compared with the definition of the transform."""
import re, math
from fractions import Fraction as F
from kai.mir import Prog
from kai.trace import TooMany, contains, subterms
from .graph import short
from .absint import configs
from .c16 import T16
from .form import Forms, Poly, num, atom, add, sub, mul, neg, inv, trig, subst, same, show, unkey, agree, PI, NEXT

ASSUMPTIONS = ("a direct-sum transform written with loop-carried state (recurrences, manual counters) is not summarised and is reported as undecided",
               "three visits of every loop head are followed, two of them used to recognise loop-carried state")
SKIP = re.compile(r"kofft::(media|visual)::|__test_|::tests?::")
ONE, HALF = num(F(1)), num(F(1, 2))
PIP = atom(PI)


def run(w, rep, tier):
    cov = {"kernels": set(), "kernel_coefficients": 0, "sums": set(), "summands": 0, "ranges": 0, "undecided": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        for k, f in sorted(prog.fns.items()):
            if SKIP.search(k) or f.d.get("closure"):
                continue
            m = re.search(r"(?:^|::)fft_?(\d+)$", f.path)
            if m and f.argc == 1 and re.match(r"^&mut \[.*Complex", prog.tys[f.locals[1][0]]["s"]):
                kernel(rep, cov, prog, cfg, k, f, int(m.group(1)))
            m = re.match(r"kofft::(dct|dst)::(?:dct|dst)([1-4])(_inplace_stack\w*)?$", f.path)
            if m:
                direct(rep, cov, prog, cfg, k, f, m.group(1) + m.group(2))
            elif f.path == "kofft::hartley::dht":
                direct(rep, cov, prog, cfg, k, f, "dht")
    rep.cov.update(kernels=sorted(cov["kernels"]), kernel_coefficients=cov["kernel_coefficients"], direct_sums=sorted(cov["sums"]),
                   summands=cov["summands"], ranges=cov["ranges"], undecided=sorted(cov["undecided"]))


def field(v, i):
    if v[0] == "agg" and len(v[3]) > i:
        return v[3][i]
    return ("fld", v, i)


def kernel(rep, cov, prog, cfg, k, f, n):
    T = T16(prog, lambda y: False, visits=2)
    T.exits = []
    try:
        outs = T.run(f, [("arg", 1, f.locals[1][1])])
    except TooMany:
        cov["undecided"].add(short(k))
        return
    for st, _ in outs:
        fm = Forms()
        mem, line = {}, {}
        ok = True
        for e in st.evs:
            if e.name == "write":
                v = fm.value(e.args[0])
                if v is None or v[0] != "ref" or v[1] != ("arg", 1, f.locals[1][1]) or v[2].const() is None:
                    ok = False
                    break
                i = int(v[2].const())
                fl = v[3] if len(v) > 3 else ()
                for c in ((fl[0],) if fl else (0, 1)):
                    mem[(i, c)] = fm.poly(e.args[1] if fl else field(e.args[1], c))
                    line[(i, c)] = e.line
            elif e.args and any(e.args[0] == ("arg", 1, f.locals[1][1]) for _ in [0]) and not re.search(r"::(len|is_empty|iter|as_ref|deref)$", e.name):
                ok = False
                break
        if not ok or len(mem) != 2 * n:
            if mem:
                cov["undecided"].add(short(k))
            continue
        bad = None
        for (i, c), p in sorted(mem.items()):
            got = {}
            for mono, co in p.m.items():
                if len(mono) != 1 or mono[0][1] != 1 or mono[0][0][0] != "x":
                    ok = False
                    break
                a = mono[0][0]
                ix = unkey(a[2]).const()
                if ix is None or len(a[3]) != 1:
                    ok = False
                    break
                got[(int(ix), a[3][0])] = float(co)
            if not ok:
                break
            for j in range(n):
                th = 2 * math.pi * ((i * j) % n) / n
                want = {0: math.cos(th), 1: math.sin(th)} if c == 0 else {0: -math.sin(th), 1: math.cos(th)}
                for d in (0, 1):
                    cov["kernel_coefficients"] += 1
                    g = got.get((j, d), 0.0)
                    if abs(g - want[d]) > 1e-5 and bad is None:
                        bad = (line[(i, c)], f"output {i} ({'re' if c == 0 else 'im'}) takes input {j} ({'re' if d == 0 else 'im'}) with factor {g:.5f}, the {n}-point DFT has {want[d]:.5f}")
        if not ok:
            cov["undecided"].add(short(k))
            continue
        cov["kernels"].add(short(k))
        if bad:
            rep.viol(f.path, f.file, bad[0], "wrong-coefficient", f"{short(k)}: {bad[1]}", config=cfg)


def defn(kind, n, k, i):
    """(summand factor, first i, end i, [other terms (index, factor; factor may be 'alt')])"""
    z, i1 = num(F(0)), ONE
    th = {"dct1": lambda: mul(mul(i, k), inv(sub(n, ONE))),
          "dct2": lambda: mul(mul(add(i, HALF), k), inv(n)),
          "dct3": lambda: mul(mul(i, add(k, HALF)), inv(n)),
          "dct4": lambda: mul(mul(add(i, HALF), add(k, HALF)), inv(n)),
          "dst1": lambda: mul(mul(add(i, ONE), add(k, ONE)), inv(add(n, ONE))),
          "dst2": lambda: mul(mul(add(i, HALF), add(k, ONE)), inv(n)),
          "dst3": lambda: mul(mul(add(i, ONE), add(k, HALF)), inv(n)),
          "dst4": lambda: mul(mul(add(i, HALF), add(k, HALF)), inv(n)),
          "dht": lambda: mul(mul(add(i, i), k), inv(n))}[kind]()
    a = mul(PIP, th)
    if kind == "dht":
        return add(trig("cos", a), trig("sin", a)), z, n, []
    if kind == "dct1":
        return mul(num(F(2)), trig("cos", a)), ONE, sub(n, ONE), [(z, ONE), (sub(n, ONE), "alt")]
    if kind == "dct3":
        return trig("cos", a), ONE, n, [(z, HALF)]
    if kind == "dst3":
        return trig("sin", a), z, sub(n, ONE), [(sub(n, ONE), "althalf")]
    return trig("cos" if kind.startswith("dct") else "sin", a), z, n, []


def direct(rep, cov, prog, cfg, k, f, kind):
    T = T16(prog, lambda y: False, visits=3)
    T.exits = []
    args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
    try:
        outs = T.run(f, args)
    except TooMany:
        cov["undecided"].add(short(k))
        return
    m = re.match(r"^&(mut )?\[f\d+; (.*)\]$", prog.tys[f.locals[1][0]]["s"])
    x = args[0]
    stores, seen = [], 0
    for st, ret in outs:
        fm = Forms()
        try:
            got = outputs(fm, st, x, f)
        except Exception as ex:
            raise
        for g in got:
            stores.append((fm, st) + g)
    N = None
    decided = 0
    groups = {}
    for fm, st, out, idx, val, line in stores:
        r = classify(fm, st, x, idx, val, prog, f)
        if r is None:
            cov["undecided"].add(short(k))
            return
        groups.setdefault(r["ordinal"], []).append((r, line))
    # loop-carried state: the first and the second outer iteration, and the first and second inner one, have to be alike
    forms = [set(r["canon"] for r, _ in g) for _, g in sorted(groups.items())]
    if len(forms) > 1 and forms[0] != forms[1] and not forms[1] <= forms[0]:
        cov["undecided"].add(short(k))
        return
    inner1 = {r["parts"][0] for g in groups.values() for r, _ in g if r["parts"]}
    inner2 = {r["parts"][1] for g in groups.values() for r, _ in g if len(r["parts"]) > 1}
    if not inner1 or not inner2 or not inner2 <= inner1:
        cov["undecided"].add(short(k))
        return
    cov["sums"].add(short(k))
    done = set()
    for g in groups.values():
        for r, line in g:
            if r["canon"] in done:
                continue
            done.add(r["canon"])
            judge(rep, cov, prog, cfg, k, f, kind, r, line)


KV, IV, NV = ("j", "k"), ("j", "i"), ("len", ("arg", "n"))


def outputs(fm, st, x, f):
    """[(output root, index polynomial, value term, line)] of the stores into anything but the input"""
    out = []
    for e in st.evs:
        if e.name == "write":
            v = fm.value(e.args[0])
            if v is None or v[0] != "ref" or v[1] == x or len(v) > 3:
                continue
            out.append((v[1], v[2], e.args[1], e.line))
        elif e.name == "collected":
            j = [q for q in st.evs if q.name.startswith("lazy::") and q.args[0] == e.args[0]]
            if j:
                it = fm.value(("fld", ("var", j[-1].res, 1), 0))
                out.append((("collected",), atom(("j", j[-1].res[2])), e.args[1], e.line))
                fm.iters[("j", j[-1].res[2])] = fm.base(e.args[0])
    return out


def classify(fm, st, x, idx, val, prog, f):
    """the store of one output sample as a closed form, loop variables renamed"""
    p = fm.poly(val)
    # the length
    L = {fm.length(x).key()}
    lens = [a for a in allatoms(p) | allatoms(idx) if a[0] == "len"]
    for a in set(lens):
        if a != ("len", x) and not (a[1][0] == "cst"):
            return None
    def ren(q):
        for a in set(z for z in allatoms(q) if z[0] == "len"):
            q = subst(q, a, atom(NV))
        return q
    ks = [a for a in idx.atoms() if a[0] == "j"]
    if len(ks) != 1:
        return None
    kv = ks[0]
    if not same(idx, atom(kv)):
        # affine output index: loop variable shifted
        d = sub(idx, atom(kv)).const()
        if d is None:
            return None
    order = [e.res[2] for e in st.evs if NEXT.search(e.name)]
    itk = fm.iters.get(kv)
    ords = [u for u in order if fm.iters.get(("j", u)) == itk]
    inner = sorted({a for a in allatoms(p) if a[0] == "j" and a != kv}, key=lambda a: order.index(a[1]) if a[1] in order else -1)
    its = {repr(fm.iters.get(a)) for a in inner}
    if len(its) > 1:
        return None
    if any(a[0] in ("t", "undefined", "nan") for a in allatoms(p)):
        return None
    # split into parts by inner loop variable
    parts, rest = {}, Poly()
    for mono, c in p.m.items():
        vs = {z for a, _ in mono for z in allatoms(Poly({((a, 1),): F(1)})) if z[0] == "j" and z != kv}
        t = Poly({mono: c})
        if not vs:
            rest = add(rest, t)
        elif len(vs) == 1:
            v = vs.pop()
            parts[v] = add(parts.get(v, Poly()), t)
        else:
            return None
    ps = []
    for v in inner:
        ps.append(ren(subst(subst(parts.get(v, Poly()), v, atom(IV)), kv, atom(KV))))
    rest = ren(subst(rest, kv, atom(KV)))
    idx = ren(subst(idx, kv, atom(KV)))
    # path facts
    facts = []
    for d, v in st.dec.items():
        if d[0] == "variant":
            continue
        fa = fact(fm, d, v, kv, inner, ren)
        if fa and not (fa[0] != "other" and any(a[0] == "j" and a[1] not in ("k", "i") and len(a) == 2 for a in allatoms(unkey(fa[1])))):
            facts.append(fa)
    kc = [ren(c) for c in fm.counts(itk)] if itk is not None else []
    ic = [ren(subst(c, kv, atom(KV))) for c in fm.counts(fm.iters[inner[0]])] if inner else []
    taken = len(ps)
    return {"ordinal": ords.index(kv[1]) if kv[1] in ords else 0, "parts": [q.key() for q in ps], "pp": ps, "rest": rest, "idx": idx, "kc": kc, "ic": ic,
            "facts": tuple(facts), "canon": (tuple(q.key() for q in ps), rest.key(), idx.key(), tuple(facts), tuple(c.key() for c in kc), tuple(c.key() for c in ic)),
            "first": inner[0] if inner else None}


def fact(fm, d, v, kv, inner, ren):
    """a branch decision as ("eq"|"ne"|"lt"|"even"|"other", polynomial key[, bound])"""
    def r(t):
        p = fm.poly(t)
        for n, a in enumerate(inner):
            p = subst(p, a, atom(("j", "i", n) if n else IV))
        return ren(subst(p, kv, atom(KV)))
    if d[0] == "bin" and d[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        a, b = r(d[2]), r(d[3])
        diff = sub(a, b)
        if d[1] in ("Eq", "Ne"):
            return ("eq" if (d[1] == "Eq") == (v == 1) else "ne", diff.key())
        op = d[1]
        if v != 1:
            op = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op]
        if op in ("Gt", "Ge"):
            diff = neg(diff)
        return ("lt", diff.key())        # diff < 0 (or <= 0)
    if d[0] == "call" and d[1].split("::")[-1] == "is_multiple_of" and d[3][1] == ("int", 2):
        return ("even" if v == 1 else "odd", r(d[3][0]).key())
    if d[0] == "call" and d[1].split("::")[-1] in ("is_empty", "is_power_of_two"):
        return None
    if d[0] == "bin" and d[1] in ("Rem", "BitAnd"):
        if d[3] == ("int", 2) and d[1] == "Rem" or d[3] == ("int", 1) and d[1] == "BitAnd":
            return ("even" if v == 0 else "odd", r(d[2]).key())
    return ("other", repr(d)[:40], v)


def allatoms(p):
    out = set()
    for mono in p.m:
        for a, _ in mono:
            if a in out:
                continue
            out.add(a)
            if a[0] in ("cos", "sin", "inv"):
                out |= allatoms(unkey(a[1]))
            elif a[0] == "x":
                out |= allatoms(unkey(a[2]))
            elif a[0] == "q":
                out |= allatoms(unkey(a[1])) | allatoms(unkey(a[2]))
    return out


def judge(rep, cov, prog, cfg, k, f, kind, r, line):
    n, kk, ii = atom(NV), atom(KV), atom(IV)
    want, lo, hi, extra = defn(kind, n, kk, ii)
    facts = r["facts"]
    name = short(k)

    def viol(what, text):
        rep.viol(f.path, f.file, line, what, f"{name}: {text}", config=cfg)
    eqs, parity, other, small = [], None, False, False
    for fa in facts:
        if fa[0] == "eq":
            eqs.append(unkey(fa[1]))
        elif fa[0] in ("even", "odd"):
            q = unkey(fa[1])
            if same(q, kk):
                parity = fa[0]
            elif NV in allatoms(q) and len(allatoms(q)) == 1:
                pass
            else:
                other = True
        elif fa[0] == "ne" and len(unkey(fa[1]).m) > 2:
            pass
        elif fa[0] == "lt":
            q = unkey(fa[1])
            js = {a for a in allatoms(q) if a[0] == "j"}
            if js and NV not in allatoms(q):
                # an upper bound by a small constant
                c = q.m.get((), F(0))
                if all(co > 0 for m, co in q.m.items() if m) and abs(c) <= 4:
                    small = True
        elif fa[0] == "other":
            other = True

    def app(p):
        for e in eqs:
            # an equation with one linear atom
            for a in (KV, IV, NV):
                co = e.m.get(((a, 1),))
                if co is not None and isinstance(co, F):
                    rest = Poly({m: c for m, c in e.m.items() if m != ((a, 1),)})
                    if a in allatoms(rest):
                        continue
                    p = subst(p, a, mul(rest, num(-1 / co)))
                    break
        return p
    if not r["parts"]:
        # no inner iteration on this path: only the terms outside the sum are there
        return check_rest(viol, cov, kind, r, extra, parity, app, other, small)
    # the element each iteration reads
    part = r["pp"][0]
    xs = {a for a in allatoms(part) if a[0] == "x"}
    if len(xs) != 1:
        if len(xs) > 1 and not other:
            cov["undecided"].add(name)
        return
    xa = xs.pop()
    ix = unkey(xa[2])
    if xa[1][0] != "arg":
        cov["undecided"].add(name)
        return
    co = Poly()
    for mono, c in part.m.items():
        if mono.count((xa, 1)) != 1:
            cov["undecided"].add(name)
            return
        co = add(co, Poly({tuple(y for y in mono if y != (xa, 1)): c}))
    # summand: with i expressed through the element index
    d = ix.m.get(((IV, 1),))
    if d not in (F(1), F(-1)):
        cov["undecided"].add(name)
        return
    cov["summands"] += 1
    w = subst(want, IV, ix)
    if not same(app(co), app(w)):
        if other or small or agree(app(co), app(w), [{KV: a, IV: b, NV: c} for a, b, c in ((1, 2, 7), (3, 5, 11), (4, 1, 6), (9, 13, 17))]):
            cov["undecided"].add(name)
        else:
            viol("wrong-summand", f"input sample i enters output k with {pretty(subst_i(co, ix))}, the definition has {pretty(want)}{cond(facts)}")
        return
    # ranges
    if len(r["ic"]) == 1 or any(True for _ in r["ic"]):
        cov["ranges"] += 1
        first = subst(ix, IV, num(F(0)))
        lasts = [subst(ix, IV, c) for c in r["ic"]]
        if d == F(1):
            if not same(app(first), app(lo)) and not any(same(app(l), app(lo)) for l in lasts):
                dd = sub(first, lo)
                if dd.const() is not None and not other:
                    viol("wrong-range", f"the sum starts at sample {show0(first)} instead of {show0(lo)}")
            if not any(same(app(l), app(hi)) for l in lasts):
                dd = [sub(l, hi).const() for l in lasts]
                if len(lasts) == 1 and dd[0] is not None and not other and not eqs:
                    viol("wrong-range", f"the sum ends before sample {show0(lasts[0])} instead of {show0(hi)}")
                elif not any(x is not None and x < 0 for x in dd) or other or eqs:
                    cov["undecided"].add(name)
                else:
                    viol("wrong-range", f"the sum ends before sample {show0(lasts[0])} instead of {show0(hi)}")
    # outputs
    if r["kc"]:
        cov["ranges"] += 1
        last = [subst(r["idx"], KV, c) for c in r["kc"]]
        if not same(subst(r["idx"], KV, num(F(0))), num(F(0))) and not facts_on_k(facts):
            viol("wrong-range", f"outputs are written from {show0(subst(r['idx'], KV, num(F(0))))} on")
    check_rest(viol, cov, kind, r, extra, parity, app, other, small)


def facts_on_k(facts):
    return any(fa[0] in ("other", "eq", "lt") for fa in facts)


def check_rest(viol, cov, kind, r, extra, parity, app, other, small):
    if kind.startswith("dct1") and any(fa[0] == "eq" for fa in r["facts"]):
        pass
    want = Poly()
    xr = None
    for a in allatoms(r["rest"]) | {a for p in r["pp"] for a in allatoms(p)}:
        if a[0] == "x":
            xr = a[1]
    if xr is None:
        return
    for ix, c in extra:
        e = atom(("x", xr, ix.key(), ()))
        if isinstance(c, str):
            if parity is None:
                cov["undecided"].add(kind)
                return
            s = F(1) if parity == "even" else F(-1)
            c = num(s / 2 if c == "althalf" else s)
        want = add(want, mul(c, e))
    if not same(app(r["rest"]), app(want)):
        if other or small or any(fa[0] == "eq" for fa in r["facts"]):
            cov["undecided"].add(kind)
        else:
            viol("wrong-end-terms", f"outside the sum the output has {pretty(r['rest'])}, the definition has {pretty(want)}{cond(r['facts'])}")


def subst_i(co, ix):
    """the factor in terms of the sample index"""
    off = subst(ix, IV, num(F(0)))
    d = ix.m.get(((IV, 1),))
    return subst(co, IV, sub(atom(IV), off) if d == F(1) else sub(off, atom(IV)))


def pretty(p):
    return show(p).replace("ik", "k").replace("ii", "i").replace("len('arg')", "n").replace("len(n)", "n")


def show0(p):
    return pretty(p)


def cond(facts):
    c = [f"{fa[0]}({pretty(unkey(fa[1]))})" for fa in facts if fa[0] in ("eq", "ne", "lt", "even", "odd") and any(a[0] == "j" for a in allatoms(unkey(fa[1])))]
    return f" [when {', '.join(c)}]" if c else ""
