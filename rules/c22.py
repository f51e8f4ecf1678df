"""Filter banks.  The analysis and synthesis taps of every single-level wavelet transform are read off the MIR as linear forms: along the path
on which the filter lies inside the signal, every store of the forward transform is a sum of coefficients times input[2i + d] and every store
of the inverse adds coefficients times approx[i] and detail[i] to output[2i + d].  The taps of the two are convolved; the result must be the
identity (perfect reconstruction away from the boundary)."""
import re
from fractions import Fraction as F
from kai.mir import Prog
from kai.trace import TooMany
from .graph import short
from .absint import configs
from .c16 import T16, mod
from .form import Forms, Poly, num, atom, add, sub, mul, subst, same, show, unkey, fval, NEXT

ASSUMPTIONS = ("taps are extracted under the hypothesis that the filter lies inside the signal; what is done at the boundary is not judged",
               "coefficients are compared with a tolerance of 1e-5")
FAM = re.compile(r"^(haar|db\d+|sym\d+|coif\d+)_(forward|inverse)(_inplace_stack)?$")

RANGE = re.compile(r"::Range\w*(::<.*>)?::contains$|Range\w*<.*>.*::contains$")


class T22(T16):
    """follows only the path on which indices lie inside the signal"""
    def switch(self, s, fr, t):
        v = self.operand(s, fr, t[1])
        if v[0] in ("bin", "not") or v[0] == "call" and RANGE.search(v[1]):
            a, ng = self.atom(v)
            if (a[0] == "bin" and a[1] == "Lt" or a[0] == "call" and RANGE.search(a[1])) and a not in s.dec and len(t[2]) == 1:
                want = self.hyp(a)
                if want is not None:
                    s = self.put_dec(s, a, want)
        return super().switch(s, fr, t)

    def hyp(self, a):
        fm = Forms()
        if a[0] == "call":
            return 1
        x, y = fm.poly(a[2]), fm.poly(a[3])
        if not any(q[0] == "j" for q in x.atoms()) or any(q[0] not in ("j",) for q in x.atoms()):
            return None
        if y.const() == 0:
            return 0
        if y.atoms() and all(q[0] == "len" or q[0] == "q" or q[0] == "t" for q in y.atoms()):
            return 1
        return None


def run(w, rep, tier):
    cov = {"families": set(), "taps": 0, "identities": 0, "undecided": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        fams = {}
        for k, f in sorted(prog.fns.items()):
            m = FAM.match(f.path.split("::")[-1])
            if mod(f.path) != "wavelet" or f.d.get("closure") or not m or k.count("|") and k.split("|")[1] not in ("", "N"):
                continue
            try:
                t = taps(rep, cov, prog, cfg, k, f, m.group(2))
            except TooMany:
                t = None
            if t is None:
                cov["undecided"].add(short(k))
            else:
                fams.setdefault(m.group(1) + (m.group(3) or ""), {})[m.group(2)] = (t, f, k)
        for fam, d in fams.items():
            if len(d) == 2:
                cov["families"].add(fam)
                A, S = d["forward"], d["inverse"]
                for a in A[0]:
                    for s in S[0]:
                        pr(rep, cov, cfg, fam, {"forward": (a,) + A[1:], "inverse": (s,) + S[1:]}, len(A[0]) > 1, len(S[0]) > 1)
            else:
                cov["undecided"].add(fam)
    rep.cov.update(families=sorted(cov["families"]), taps=cov["taps"], identities=cov["identities"], undecided=sorted(cov["undecided"]))


def consts(p):
    """element reads of constant arrays replaced by their values"""
    for _ in range(3):
        for a in list(p.atoms()):
            if a[0] == "x" and a[1][0] == "agg" and a[1][1] == "array":
                i = unkey(a[2]).const()
                if i is not None and i.denominator == 1 and 0 <= i < len(a[1][3]):
                    e = a[1][3][int(i)]
                    if e[0] == "flt":
                        p = subst(p, a, num(F(fval(e[1], e[2]))))
    return p


def taps(rep, cov, prog, cfg, k, f, way):
    """{(channel, offset): coefficient}; channel 0 = approximation, 1 = detail"""
    T = T22(prog, lambda y: False, visits=2, maxpaths=3000)
    T.exits = []
    args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
    tys = [prog.tys[f.locals[i][0]]["s"] for i in range(1, f.argc + 1)]
    outs = T.run(f, args)
    sets = {}
    for st, ret in outs:
        fm = Forms()
        fm.iters = {}
        out, ran, feas = {}, False, True
        for e in st.evs:
            if NEXT.search(e.name) and e.args[0][0] != "mut":
                some = st.dec.get(("variant", e.res))
                if some == 1:
                    ran = True
                elif some == 0:
                    c = fm.counts(fm.base(e.args[0]))
                    if len(c) == 1 and c[0].const() is not None and c[0].const() > 0:
                        feas = False
        feas = feas and not any(d[0] == "variant" and v == 0 and d[1][0] == "call" and d[1][1].split("::")[-1] in ("get", "get_mut") for d, v in st.dec.items())
        # a path taken only for one exact value of a sample proves nothing about the taps
        feas = feas and not any(d[0] == "bin" and (d[1], v) in (("Eq", 1), ("Ne", 0)) and any(a[0] == "x" for a in sub(fm.poly(d[2]), fm.poly(d[3])).atoms()) for d, v in st.dec.items())
        if not ran or not feas:
            continue
        if way == "forward":
            if ret[0] == "agg" and ret[1] == "tuple" and len(ret[3]) == 2:
                chans = [fm.root(x)[0] for x in ret[3]]
            else:
                chans = [a for a, t in zip(args, tys) if t.startswith("&mut")]
            src = [args[0]]
        else:
            o = [a for a, t in zip(args, tys) if t.startswith("&mut")]
            chans = o or [fm.root(ret)[0]]
            src = args[:2]
        if len(chans) != (2 if way == "forward" else 1):
            return None
        done = set()
        for e in st.evs:
            if NEXT.search(e.name) and e.args[0][0] == "mut":
                done.add(fm.base(e.args[0]))
                continue
            if e.name != "write":
                continue
            v = fm.value(e.args[0])
            if v is None or v[0] != "ref" or v[1] not in chans:
                continue
            ch = chans.index(v[1])
            own = ("x", v[1], v[2].key(), ())
            val = fm.poly(e.args[1])
            acc = own in val.atoms()
            val = sub(val, atom(own)) if acc else val
            idx = v[2]
            # inner loops over the taps: constant range
            inner = [j for j in fm.iters if (j in idx.atoms() or any(j in unkey(x[2]).atoms() for x in val.atoms() if x[0] == "x"))]
            cases = [(idx, val)]
            for j in inner:
                cnt = fm.counts(fm.iters[j])
                if len(cnt) == 1 and cnt[0].const() is not None and cnt[0].const() <= 64:
                    cases = [(subst(i, j, num(F(q))), subst(x, j, num(F(q)))) for i, x in cases for q in range(int(cnt[0].const())) if holds(fm, st.dec, j, q)]
            if not acc and any(j not in idx.atoms() and fm.iters[j] not in done for j in inner):
                rep.viol(f.path, f.file, e.line, "overwrites", f"{short(k)}: each tap overwrites element {show(idx)} of the output instead of adding to it", config=cfg)
                return None
            for i, x in cases:
                x = consts(x)
                for mono, c in x.m.items():
                    xs = [a for a, ex in mono if a[0] == "x" and ex == 1]
                    if len(mono) != 1 or len(xs) != 1 or xs[0][1] not in src:
                        return None
                    s = src.index(xs[0][1])
                    p = unkey(xs[0][2])
                    d = sub(p, add(i, i)) if way == "forward" else sub(i, add(p, p))
                    if d.const() is None:
                        if any(a[0] != "j" for a in d.atoms()):
                            return None
                        rep.viol(f.path, f.file, e.line, "tap-place", f"{short(k)}: " + (f"output {show(i)} is computed from input sample {show(p)}" if way == "forward" else
                                 f"coefficient {show(p)} is added to output sample {show(i)}") + ", which is not twice the coefficient index plus a constant", config=cfg)
                        return None
                    if way == "inverse" and not acc and d.const() not in (0, 1):
                        rep.viol(f.path, f.file, e.line, "overwrites", f"{short(k)}: coefficient {show(p)} overwrites output sample {show(i)}, which earlier coefficients contribute to", config=cfg)
                        return None
                    key = (ch if way == "forward" else s, int(d.const()))
                    c = float(c)
                    if key in out and abs(out[key] - c) > 1e-9:
                        return None
                    out[key] = c
        key = frozenset((d, v) for d, v in st.dec.items() if not NEXT.search(str(d[1][1] if d[0] == "variant" and d[1][0] == "call" else "")) and
                        not (d[0] == "bin" and ontap(fm, d)))
        sets.setdefault(key, {}).update(out)
    sets = [x for i, x in enumerate(sets.values()) if x not in list(sets.values())[:i]]
    cov["taps"] += sum(map(len, sets))
    return sets if any(sets) else None


def tapvars(fm):
    return {j for j, it in fm.iters.items() if (lambda c: len(c) == 1 and c[0].const() is not None)(fm.counts(it))}


def ontap(fm, d):
    """a comparison of a tap number with a constant"""
    p = sub(fm.poly(d[2]), fm.poly(d[3]))
    return bool(p.atoms()) and all(a in tapvars(fm) for a in p.atoms())


REL = {"Eq": lambda x: x == 0, "Ne": lambda x: x != 0, "Lt": lambda x: x < 0, "Le": lambda x: x <= 0, "Gt": lambda x: x > 0, "Ge": lambda x: x >= 0}


def holds(fm, dec, j, q):
    """tap number j = q is consistent with the decisions of the path"""
    for d, v in dec.items():
        if d[0] == "bin" and d[1] in REL and v in (0, 1) and ontap(fm, d):
            p = subst(sub(fm.poly(d[2]), fm.poly(d[3])), j, num(F(q))).const()
            if p is not None and REL[d[1]](p) != bool(v):
                return False
    return True


def pr(rep, cov, cfg, fam, d, manya, manys):
    (A, fa, ka), (S, fs, ks) = d["forward"], d["inverse"]
    da = [o for _, o in A] or [0]
    ds = [o for _, o in S] or [0]
    # out[n] = sum_i sum_c S[c, n-2i] * sum_k A[c, k] x[2i+k]
    lo, hi = min(da) - max(ds) - 2, max(da) - min(ds) + 2
    for p in (0, 1):
        for m in range(lo, hi + 1):
            s = 0.0
            for (c, o), v in S.items():
                if (p - o) % 2:
                    continue
                i2 = p - o
                s += v * A.get((c, p + m - i2), 0.0)
            want = 1.0 if m == 0 else 0.0
            cov["identities"] += 1
            if abs(s - want) > 1e-5:
                rep.viol(fs.path, fs.file, fs.line, "not-inverse", f"{short(ks)} does not undo {short(ka)}: reconstructed sample {'2i' if p == 0 else '2i+1'} contains {s:.6g} times "
                         f"the input sample {m:+d} places away instead of {want:g}", config=cfg)
                return
