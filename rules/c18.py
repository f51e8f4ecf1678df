"""Line families of the multi-dimensional transforms.  Every 1-D transform call of a 2-D/3-D transform is summarised as an affine family of
lines: start offset as a polynomial in the loop variables and dimensions, stride, number of samples, and the number of iterations of each loop.
Lines gathered into a scratch buffer by a loop and written back are summarised from the gather and the scatter loop.  On every successful path
that enters its loops the families have to be exactly one per axis: all lines of that axis, once, whatever the order or nesting of the loops."""
import re
from fractions import Fraction as F
from kai.mir import Prog
from kai.trace import TooMany, contains, subterms
from .graph import short
from .absint import configs
from .c16 import T16, direction, mod, successful
from .form import Forms, Poly, num, atom, add, sub, mul, neg, inv, subst, same, show, unkey, NEXT

ASSUMPTIONS = ("the strided 1-D transforms visit exactly the elements start + i*stride (their gather and scatter loops are decided by C16)",
               "loops with manual counters are not summarised and are reported as undecided")


def run(w, rep, tier):
    cov = {"functions": set(), "paths": 0, "families": set(), "undecided": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        for k, f in sorted(prog.fns.items()):
            if mod(f.path) != "ndfft" or f.d.get("closure") or "tests" in k:
                continue
            m = re.match(r".*::fft(\d)d\w*$", f.path)
            if m:
                check(rep, cov, prog, cfg, k, f, int(m.group(1)))
            if re.match(r".*::flatten_(\d)d$", f.path):
                flat(rep, cov, prog, cfg, k, f)
    rep.cov.update(functions=sorted(cov["functions"]), paths=cov["paths"], families=sorted(cov["families"]), undecided=sorted(cov["undecided"]))


def isu(prog):
    return lambda y: y in prog.fns and direction(prog.fns[y].path) is not None and mod(prog.fns[y].path) != "ndfft" or y not in prog.fns and direction(y.split("|")[0]) is not None


def check(rep, cov, prog, cfg, k, f, rank):
    args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
    ty = [prog.tys[f.locals[i][0]]["s"] for i in range(1, f.argc + 1)]
    dims = [a for a, t in zip(args, ty) if t == "usize"]
    data = [a for a, t in zip(args, ty) if re.match(r"&mut \[.*Complex", t)]
    if len(dims) != rank or not data:
        cov["undecided"].add(short(k))
        return
    data = data[0]
    outs = None
    for v in (3, 2):
        T = T16(prog, isu(prog), visits=v, maxpaths=12000)
        T.exits = []
        try:
            outs = T.run(f, args)
            break
        except TooMany:
            pass
    if outs is None:
        cov["undecided"].add(short(k))
        return
    cov["functions"].add(short(k))
    reported = set()

    def viol(line, kind, text):
        if (kind, text) not in reported:
            reported.add((kind, text))
            rep.viol(f.path, f.file, line, kind, f"{short(k)}: {text}", config=cfg)
    for stage in (0, 1):
        visits = {}
        for st, ret in outs:
            if ret[0] == "agg" and isinstance(ret[1], str) and ret[1].endswith("Result") and ret[2] == 1:
                continue
            if not successful(prog, f, st, ret):
                continue
            if any(x[0] == "call" and direction(x[1].split("|")[0]) for x in subterms(ret)) and contains(ret, lambda y: y[0] == "agg" and y[2] == 1 and str(y[1]).endswith("Result")):
                continue
            one_path(viol, cov, st, f, k, dims, data, prog, rank, visits, stage)
        # a call whose line moves from round to round without a loop variable: the state is carried by hand
        for line, vs in visits.items():
            if vs["two"] and not vs["same"]:
                cov["undecided"].add(short(k))
                return


def pathfacts(fm, st):
    """lengths fixed by decisions of the path, and dimensions the path knows to be one or zero"""
    eq = []
    for d, v in st.dec.items():
        if d[0] == "bin" and (d[1] == "Eq" and v == 1 or d[1] == "Ne" and v == 0):
            eq.append((fm.poly(d[2]), fm.poly(d[3])))
    return eq


def one_path(viol, cov, st, f, k, dims, data, prog, rank, visits, stage):
    fm = Forms()
    eq = pathfacts(fm, st)
    D = [fm.poly(d) for d in dims]
    DA = [next(iter(p.atoms())) for p in D]
    prod = num(F(1))
    for p in D:
        prod = mul(prod, p)

    def nm(p):
        for _ in range(3):
            p = subst(p, ("len", data), prod)
            for a, b in eq:
                for x, y in ((a, b), (b, a)):
                    if len(x.m) == 1:
                        (mono, c), = x.m.items()
                        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "len" and c == 1:
                            p = subst(p, mono[0][0], y)
        return p
    zero, one = set(), set()
    for a, b in eq:
        for x, y in ((a, b), (b, a)):
            for i, p in enumerate(D):
                if same(x, p) and y.const() == 0:
                    zero.add(i)
                if same(x, p) and y.const() == 1:
                    one.add(i)
    for d, v in st.dec.items():
        if d[0] == "bin" and d[1] in ("Lt", "Le", "Gt", "Ge"):
            a, b = fm.poly(d[2]), fm.poly(d[3])
            op = d[1] if v == 1 else {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[d[1]]
            if op in ("Gt", "Ge"):
                a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
            for i, p in enumerate(D):
                if same(a, p) and b.const() is not None and b.const() <= (2 if op == "Lt" else 1):
                    one.add(i)
    if zero:
        return
    for e in st.evs:
        # a loop that is not entered
        if NEXT.search(e.name) and e.args[0][0] != "mut" and st.dec.get(("variant", e.res)) == 0:
            return
    cov["paths"] += 1
    fams, lines, seen = {}, {}, {}
    for n, e in enumerate(st.evs):
        nme = (e.inst or e.name).split("|")[0]
        if not direction(nme) or mod(nme) == "ndfft":
            continue
        fam = family(fm, st, e, n, nme, data, nm, viol, k)
        if fam is None:
            cov["undecided"].add(short(k))
            return
        if isinstance(fam, str):
            if stage:
                viol(e.line, *fam.split("|"))
            return
        seen.setdefault(e.line, []).append(fam[0])
        lines.setdefault(e.line, set()).add(fam[0])
        fams[fam[0]] = (fam, e.line)
    for ln, fs in seen.items():
        v = visits.setdefault(ln, {"two": False, "same": False})
        if len(fs) > 1:
            v["two"] = True
            v["same"] |= any(a == b for i, a in enumerate(fs) for b in fs[i + 1:])
    if stage == 0:
        return
    if any(len(s) > 1 for s in lines.values()):
        cov["undecided"].add(short(k))
        return
    sites = {}
    for ln, s in lines.items():
        sites.setdefault(next(iter(s)), []).append(ln)
    # the families expected
    S = []
    for i in range(rank):
        p = num(F(1))
        for q in D[i + 1:]:
            p = mul(p, q)
        S.append(p)
    want = {}
    for i in range(rank):
        loops = merge([(S[b], D[b]) for b in range(rank) if b != i])
        want[(num(F(0)).key(), S[i].key(), D[i].key(), loops)] = i
    names = [d[2] for d in dims]
    got = set(fams)
    for key in got:
        cov["families"].add(f"{short(k)}: start {show(unkey(key[0]))} stride {show(unkey(key[1]))} samples {show(unkey(key[2]))} over " + ", ".join(f"{show(unkey(a))} x {show(unkey(b))}" for a, b in key[3]))
        if len(sites[key]) > 1:
            if key in want:
                viol(sites[key][1], "axis-twice", f"the lines along {names[want[key]]} are transformed twice")
            continue
        if key in want:
            continue
        if one:
            cov["undecided"].add(short(k))
            continue
        (fam, line) = fams[key]
        if any(has_opaque(unkey(x)) for x in key[:3]) or any(has_opaque(unkey(x)) for l in key[3] for x in l):
            cov["undecided"].add(short(k))
            return
        if partial(key, want, got):
            cov["undecided"].add(short(k))
            return
        viol(line, "wrong-lines", "a 1-D transform runs over lines that are not those of any axis: start " + show(unkey(key[0])) + ", stride " + show(unkey(key[1])) + ", samples " +
             show(unkey(key[2])) + ", loops " + ", ".join(f"{show(unkey(b))} times step {show(unkey(a))}" for a, b in key[3]))
    for key, i in want.items():
        if key not in got and i not in one and not (got - set(want)):
            viol(f.line, "axis-missing", f"a successful path does not transform the lines along {names[i]}")


def partial(key, want, got):
    """a family that, together with another one, may cover an axis (split loops)"""
    return len([g for g in got if g not in want and g[1] == key[1] and g[2] == key[2]]) > 1


def dimmin(a):
    """the minimum of two dimensions"""
    return a[0] == "t" and a[1][0] == "call" and a[1][1].split("::")[-1] == "min" and all(x[0] == "arg" for x in a[1][3])


def has_opaque(p):
    return any(not dimmin(a) and a[0] not in ("t0", "len", "inv", "j", "argv") and not (a[0] == "t" and a[1][0] == "arg") for a in p.atoms())


def merge(loops):
    """canonical form of a set of (step, count) loops"""
    loops = [(s, c) for s, c in loops if c.const() != 1]
    ch = True
    while ch:
        ch = False
        for a in loops:
            for b in loops:
                if a is not b and same(a[0], mul(b[0], b[1])):
                    loops = [x for x in loops if x is not a and x is not b] + [(b[0], mul(a[1], b[1]))]
                    ch = True
                    break
            if ch:
                break
    return tuple(sorted(((s.key(), c.key()) for s, c in loops), key=repr))


def family(fm, st, e, n, nme, data, nm, viol, k):
    """the lines one transform call stands for: (key, ...)"""
    name = nme.split("::")[-1]
    if "out_of_place" in name or "split" in name:
        return None
    r, off, cnt = fm.root(e.args[1])
    stride = num(F(1))
    if name in ("fft_strided", "ifft_strided"):
        stride = fm.poly(e.args[2])
        cnt = fm.length(e.args[3])
    elif name in ("fft", "ifft", "fft_inplace", "ifft_inplace", "stockham_fft", "fft_parallel"):
        cnt = fm.length(e.args[1])
    else:
        return None
    inner = None
    if r != data:
        g = gathered(fm, st, n, r, off, data)
        if g is None:
            return None
        if g == "mismatch":
            return "gather-scatter|the transformed line is written back to other places than it was read from"
        off, stride, gcount = g
        cnt = nm(cnt)
        for gc in gcount:
            if not any(same(nm(c), cnt) for c in gc):
                if len(gc) == 1 and (sub(nm(gc[0]), cnt)).const() is not None:
                    return f"partial-line|only {show(nm(gc[0]))} of the {show(cnt)} samples of a line are gathered or written back"
                return None
    off, stride, cnt = nm(off), nm(stride), nm(cnt)
    js = [a for a in off.atoms() if a[0] == "j"]
    if any(a[0] == "j" for p in (stride, cnt) for a in p.atoms()):
        return None
    loops = []
    rest = off
    for j in js:
        co = Poly()
        for mono, c in off.m.items():
            if (j, 1) in mono:
                co = add(co, Poly({tuple(x for x in mono if x != (j, 1)): c}))
            elif any(a == j for a, _ in mono):
                return None
        if any(a[0] == "j" for a in co.atoms()):
            return None
        rest = sub(rest, mul(atom(j), co))
        cs = [nm(c) for c in fm.counts(fm.iters[j])]
        it = fm.iters[j]
        if not cs:
            ch = chunkcount(fm, it, nm)
            if ch is None:
                return None
            cs = [ch]
        if len({c.key() for c in cs}) != 1:
            return None
        loops.append((co, cs[0]))
    # loops of the path that do not move the line: the same line again and again
    return ((rest.key(), stride.key(), cnt.key(), merge(loops)),)


def chunkcount(fm, it, nm):
    it = fm.base(it)
    while it[0] == "call" and it[1].split("::")[-1] in ("enumerate", "into_iter", "iter", "iter_mut", "by_ref"):
        it = fm.base(it[3][0])
    if it[0] == "call" and it[1].split("::")[-1] in ("chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "par_chunks_mut", "par_chunks_exact_mut"):
        L, c = nm(fm.length(it[3][0])), nm(fm.poly(it[3][1]))
        i = inv(c)
        if i is None:
            return None
        q = mul(L, i)
        if all(e > 0 for mono in q.m for _, e in mono) and all(co.denominator == 1 for co in q.m.values()):
            return q
    return None


def gathered(fm, st, n, root, off, data):
    """(offset, stride, counts) of the line of the data copied into the buffer before call n and back after it"""
    def copies(evs, into):
        out = {}
        for e in evs:
            if e.name != "write":
                continue
            d = fm.value(e.args[0])
            s = fm.value(e.args[1])
            if d is None or s is None or d[0] != "ref" or s[0] != "ref":
                continue
            if (d[1], s[1]) == ((root, data) if into else (data, root)):
                b, l = (d, s) if into else (s, d)
                js = [a for a in b[2].atoms() if a[0] == "j"]
                if len(js) != 1 or b[2].m.get(((js[0], 1),)) not in (1, -1):
                    return None
                j = js[0]
                base = subst(b[2], j, num(F(0)))
                up = b[2].m[((js[0], 1),)] == 1
                line = subst(l[2], j, sub(atom(j), sub(base, off)) if up else sub(sub(base, off), atom(j)))
                o = subst(line, j, num(F(0)))
                sp = sub(line, o)
                strd = Poly()
                for mono, c in sp.m.items():
                    if (j, 1) not in mono:
                        return None
                    strd = add(strd, Poly({tuple(x for x in mono if x != (j, 1)): c}))
                out[(o.key(), strd.key())] = (o, strd, fm.counts(fm.iters[j]), j)
        return out
    prev = max([i for i in range(n) if direction((st.evs[i].inst or st.evs[i].name).split("|")[0])] or [-1])
    nxt = min([i for i in range(n + 1, len(st.evs)) if direction((st.evs[i].inst or st.evs[i].name).split("|")[0])] or [len(st.evs)])
    a, b = copies(st.evs[prev + 1:n], True), copies(st.evs[n + 1:nxt], False)
    if not a or not b or len(a) > 1 or len(b) > 1:
        return None
    (ka, va), (kb, vb) = list(a.items())[0], list(b.items())[0]
    if ka != kb:
        return "mismatch"
    return va[0], va[1], [va[2], vb[2]]


def flat(rep, cov, prog, cfg, k, f):
    """the flattening helpers append every innermost vector, in order"""
    T = T16(prog, lambda y: False, visits=2, maxpaths=3000)
    T.exits = []
    try:
        outs = T.run(f, [("arg", 1, f.locals[1][1])])
    except TooMany:
        cov["undecided"].add(short(k))
        return
    cov["functions"].add(short(k))
    for st, ret in outs:
        for e in st.evs:
            if re.search(r"Extend\b.*::(extend|extend_from_slice)$|Vec<.*>::(extend|extend_from_slice|append)$|Vec::<.*>::(extend_from_slice|append)$", e.name):
                for x in subterms(e.args[1]):
                    if x[0] == "call" and re.search(r"Iterator::(rev|skip|step_by|filter|take)$", x[1]) and not (x[3][1:] == (("int", 0),)):
                        rep.viol(f.path, f.file, e.line, "flatten-order", f"{short(k)} does not append every element in order ({x[1].split('::')[-1]})", config=cfg)
