"""Variants of one step compute the same function.  (1) Straight-line arithmetic (complex operations, the number trait): the closed form of the
result is compared across precisions, build configurations (plain and fused multiply-add, with and without std) and operator/method forms.
(2) Vector lanes: an intrinsic store is summarised per generic lane; the scalar tail on the same path writes what lane d would have
written d elements further on, and starts no later than the last lane ends.  (3) Real-FFT packing: each function of a family (same signature up to the precision)
is summarised per path as phases between transform calls - every element written as a closed form of the elements read, with buffers named by what
they hold - and portable, vectorised, packed and planner variants of both precisions must agree.  (4) Hand-written twins (same name for f32
and f64) must agree wherever they write the same element."""
import re
from fractions import Fraction
from kai.mir import Prog
from kai.trace import TooMany, contains
from .graph import Graph, short
from .absint import configs
from .c16 import T16, mod, direction
from .form import Forms, Poly, num, atom, add, sub, mul, neg, subst, same, show, unkey, evaluate, NEXT

ASSUMPTIONS = ("one generic iteration stands for a loop", "code for other processors (NEON, WebAssembly) is not compiled on this host and not analysed",
               "forms the summary does not understand are undecided")
LANE = ("lane",)
VEC = re.compile(r"::_mm(256|512)?_([a-z0-9]+)_(ps|pd|ss|sd|f32|f64)$")
WIDTH = {None: 128, "256": 256, "512": 512}
SKIP = re.compile(r"kofft::(media::|fft::__test_)|::tests?::")
TABLE = re.compile(r"get_(\w+_)?twiddles?$|twiddle")


class VForms(Forms):
    """closed forms with vector values as functions of a generic lane"""

    def root(self, t):
        x = self.base(t)
        if x[0] == "call":
            n = x[1].split("::")[-1]
            if n in ("as_ptr", "as_mut_ptr", "cast", "cast_mut", "cast_const", "as_mut_slice", "as_slice") and len(x[3]) == 1:
                return self.root(x[3][0])
            if n in ("add", "offset", "wrapping_add") and "ptr::" in x[1] and len(x[3]) == 2:
                r, off, _ = self.root(x[3][0])
                return r, add(off, self.poly(x[3][1])), None
            if n == "sub" and "ptr::" in x[1] and len(x[3]) == 2:
                r, off, _ = self.root(x[3][0])
                return r, sub(off, self.poly(x[3][1])), None
        return super().root(t)

    def poly1(self, t):
        if t[0] == "call":
            m = VEC.search(t[1])
            if m:
                r = self.vec(m.group(2), m.group(3), t[3])
                if r is not None:
                    return r
        if t[0] == "bin" and t[1] == "Shr" and t[3][0] == "int":
            return atom(("q", self.poly(t[2]).key(), num(Fraction(1 << t[3][1])).key()))
        return super().poly1(t)

    def vec(self, op, kind, a):
        p = self.poly
        if op in ("set1", "broadcast") and len(a) == 1 or op == "set" and kind in ("ss", "sd") and len(a) == 1:
            return p(a[0])
        if op in ("loadu", "load") and kind in ("ps", "pd"):
            r, off, _ = self.root(a[0])
            return atom(("x", r, add(off, atom(LANE)).key(), ()))
        if op == "setzero":
            return num(Fraction(0))
        if op in ("add", "sub", "mul") and len(a) == 2:
            return {"add": add, "sub": sub, "mul": mul}[op](p(a[0]), p(a[1]))
        if op in ("fmadd", "fmsub", "fnmadd", "fnmsub") and len(a) == 3:
            q = mul(p(a[0]), p(a[1]))
            if op.startswith("fn"):
                q = neg(q)
            return add(q, p(a[2])) if op.endswith("add") else sub(q, p(a[2]))
        if op in ("cvtss", "cvtsd") and len(a) == 1:
            return subst(p(a[0]), LANE, num(Fraction(0)))
        return None


def opaque_in(p):
    return any(deep(a) for a in p.atoms())


def deep(a):
    return contains(a, lambda x: x[0] in ("undefined", "undef") or x[0] == "t" and not plain(x[1]))


def plain(t):
    """a parameter or a field of one"""
    while t[0] == "fld":
        t = t[1]
    return t[0] == "arg"


def canon(t, env):
    """a term without call numbers, with the precision abstracted"""
    if isinstance(t, str):
        return re.sub(r"\bf(32|64)\b", "fXX", re.sub(r"Complex(32|64)\b", "Complex", t))
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] == "mut":
            return canon(t[3][0], env)
        if len(t) == 3 and t[0] == "arg":
            return ("arg", t[1], "")
        if len(t) == 4 and t[0] == "call":
            return (t[0], canon(t[1], env), None, canon(t[3], env))
        if len(t) == 2 and t[0] == "j":
            return ("j", env.setdefault(t[1], len(env)) if not isinstance(t[1], str) else t[1])
        return tuple(canon(x, env) for x in t)
    return t


def cpoly(p, env):
    """the polynomial with canonical atoms"""
    out = Poly({})
    for mono, c in p.m.items():
        q = num(c)
        for a, e in mono:
            b = catom(a, env)
            for _ in range(abs(e)):
                q = mul(q, Poly({((b, 1 if e > 0 else -1),): Fraction(1)}))
        out = add(out, q)
    return out


def catom(a, env):
    if a[0] == "x":
        return ("x", canon(a[1], env), cpoly(unkey(a[2]), env).key(), a[3])
    if a[0] in ("cos", "sin", "inv"):
        return (a[0], cpoly(unkey(a[1]), env).key())
    if a[0] == "q":
        return ("q", cpoly(unkey(a[1]), env).key(), cpoly(unkey(a[2]), env).key())
    return canon(a, env)


def run(w, rep, tier):
    cov = {"values": 0, "lanes": 0, "families": 0, "summaries": 0, "twins": 0, "undecided": set(), "functions": set()}
    vals, fams, twins = {}, {}, {}
    cfgs = list(configs(tier))
    if not any(c == "avx" for c, _ in cfgs):
        cfgs.append(("avx", {"std": True}))
    for cfg, _ in cfgs:
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        for k, f in sorted(prog.fns.items()):
            if f.d.get("closure") or SKIP.search(k) or SKIP.search(f.path):
                continue
            try:
                if mod(f.path) == "num" or "as num::Float>" in f.path:
                    straight(cov, vals, prog, cfg, k, f)
                if any(VEC.search(c.callee or "") and re.search(r"_store|_stream", c.callee) for c in g.calls(f)):
                    lanes(rep, cov, prog, cfg, k, f, twins)
                elif any(twinname(k) == twinname(o) and o != k for o in twinset(prog, k)):
                    lanes(rep, cov, prog, cfg, k, f, twins)
                if mod(f.path) == "rfft":
                    family(cov, fams, prog, cfg, k, f)
            except TooMany:
                cov["undecided"].add(short(k))
    judge_values(rep, cov, vals)
    judge_families(rep, cov, fams)
    judge_twins(rep, cov, twins)
    rep.cov.update(value_forms=cov["values"], lane_pairs=cov["lanes"], families=cov["families"], summaries=cov["summaries"], twin_elements=cov["twins"],
                   functions=sorted(cov["functions"]), configurations=[c for c, _ in cfgs], undecided=sorted(cov["undecided"]))


# ---- (1) straight-line arithmetic

def tystr(prog, f, i):
    return re.sub(r"\bf(32|64)\b", "fXX", prog.tys[f.locals[i][0]]["s"])


def straight(cov, vals, prog, cfg, k, f):
    rt = tystr(prog, f, 0)
    if rt not in ("fXX", "num::Complex<fXX>", "(fXX, fXX)") or len(f.blocks) > 60:
        return
    T = T16(prog, lambda y: False, visits=2)
    T.exits = []
    outs = T.run(f, [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)])
    if len(outs) != 1:
        return
    st, ret = outs[0]
    fm = VForms()
    parts = list(ret[3]) if ret[0] == "agg" else [ret] if rt == "fXX" else [("fld", ret, 0), ("fld", ret, 1)]
    ps = tuple(cpoly(fm.poly(x), {}) for x in parts)
    if any(opaque_in(p) for p in ps):
        cov["undecided"].add(short(k))
        return
    key = (f.path.split("::")[-1], tuple(tystr(prog, f, i) for i in range(0, f.argc + 1)))
    vals.setdefault(key, []).append((ps, cfg, k, f))
    cov["values"] += 1


def judge_values(rep, cov, vals):
    for key, l in sorted(vals.items(), key=str):
        cls = classes(l, lambda a, b: len(a[0]) == len(b[0]) and all(same(x, y) for x, y in zip(a[0], b[0])))
        for c in cls[1:]:
            ps, cfg, k, f = c[0]
            ref = cls[0][0]
            i = next(i for i in range(len(ps)) if not same(ps[i], ref[0][i]))
            rep.viol(f.path, f.file, f.line, "variant-differs", f"{short(k)} ({cfg}) computes {show(ps[i])}, {short(ref[2])} ({ref[1]}) computes {show(ref[0][i])}", config=cfg)


def classes(l, eq):
    out = []
    for x in l:
        for c in out:
            if eq(c[0], x):
                c.append(x)
                break
        else:
            out.append([x])
    return sorted(out, key=len, reverse=True)


# ---- (2) vector lanes and (4) twins

def twinname(k):
    return re.sub(r"\bf(32|64)\b", "fXX", k)


def twinset(prog, k):
    """functions written twice, once per precision: same path up to the precision in the self type"""
    m = re.search(r"<f(32|64)>::(\w+)\|$", k)
    if not m:
        return []
    o = k.replace("<f32>", "<f@>").replace("<f64>", "<f32>").replace("<f@>", "<f64>")
    return [o] if o in prog.fns else []


def lanes(rep, cov, prog, cfg, k, f, twins):
    T = T16(prog, lambda y: y != k and (direction(y.split("|")[0]) is not None or bool(TABLE.search(y.split("|")[0]))), visits=2, maxpaths=1500)
    T.exits = []
    outs = T.run(f, [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)])
    cov["functions"].add(short(k))
    reported = set()
    for st, ret in outs:
        fm = VForms()
        W = []
        for e in st.evs:
            m = VEC.search(e.name)
            if m and m.group(2) in ("storeu", "store") and m.group(3) in ("ps", "pd"):
                r, off, _ = fm.root(e.args[0])
                W.append((r, off, (), fm.poly(e.args[1]), WIDTH[m.group(1)] // (32 if m.group(3) == "ps" else 64), e.line))
            elif e.name == "write":
                v = fm.value(e.args[0])
                if v is None or v[0] != "ref":
                    x = fm.base(e.args[0])
                    if x[0] == "call" and "ptr::" in x[1]:
                        r, off, _ = fm.root(x)
                        v = ("ref", r, off)
                    else:
                        continue
                flds = v[3] if len(v) > 3 else ()
                parts = [(flds, e.args[1])] if e.args[1][0] != "agg" else [(flds + (i,), x) for i, x in enumerate(e.args[1][3])]
                for fl, x in parts:
                    W.append((v[1], v[2], fl, fm.poly(x), 1, e.line))
        vec = [x for x in W if x[4] > 1]
        for r, i, fl, val, wd, line in vec:
            if opaque_in(val):
                cov["undecided"].add(short(k))
                continue
            offs = []
            for r2, i2, fl2, val2, w2, line2 in W:
                if r2 != r or fl2 != fl:
                    continue
                d = sub(i2, i).const()
                if d is None or not isinstance(d, Fraction):
                    continue
                offs.append((d, w2, line2))
                if w2 > 1 or d < 0 or opaque_in(val2):
                    continue
                cov["lanes"] += 1
                want = subst(val, LANE, num(d))
                if not same(want, val2) and (line, line2) not in reported:
                    reported.add((line, line2))
                    rep.viol(f.path, f.file, line2, "lane-differs", f"{short(k)}: the scalar loop computes {show(val2)}, the vector lanes (line {line}) compute {show(want)} for the same element", config=cfg)
            done = Fraction(0)
            for d, w2, line2 in sorted(offs):
                if d > done and done > 0 and ("gap", line) not in reported:
                    reported.add(("gap", line))
                    rep.viol(f.path, f.file, line2, "lane-gap", f"{short(k)}: the vector store of line {line} covers {done} elements, the scalar loop goes on at element {d}", config=cfg)
                    break
                if d >= 0:
                    done = max(done, d + w2)
        for r, i, fl, val, wd, line in W:
            env = {}
            key = (canon(r, env), cpoly(subst(i, LANE, num(Fraction(0))), env).key(), fl)
            v = cpoly(subst(val, LANE, num(Fraction(0))), env)
            if opaque_in(v) or any(opaque_in(unkey(a[2])) for a in v.atoms() if a[0] == "x"):
                continue
            twins.setdefault((twinname(k)), {}).setdefault(key, []).append((v, cfg, k, f, line))


def judge_twins(rep, cov, twins):
    for name, d in sorted(twins.items()):
        bad = False
        for key, l in d.items():
            if bad or len({x[2] for x in l}) < 2:
                continue
            cov["twins"] += 1
            a = l[0]
            for b in l[1:]:
                if b[2] != a[2] and not any(same(b[0], c[0]) for c in l if c[2] == a[2]):
                    rep.viol(b[3].path, b[3].file, b[4], "twin-differs", f"{short(b[2])} computes {show(b[0])} where {short(a[2])} (line {a[4]}) computes {show(a[0])}", config=b[1])
                    bad = True
                    break


# ---- (3) real-FFT packing

def signature(prog, f):
    out = []
    for i in range(1, f.argc + 1):
        s = tystr(prog, f, i)
        s = re.sub(r"fft::ScalarFftImpl<fXX>|\bF\b|\bSelf\b", "F", s)
        out.append(s)
    return tuple(out)


def family(cov, fams, prog, cfg, k, f):
    if "closure" in k or not any("[num::Complex<" in tystr(prog, f, i) for i in range(1, f.argc + 1)):
        return
    # variants that take finished tables are reached through the functions that hand them over
    T = T16(prog, lambda y: bool(TABLE.search(y.split("|")[0])) or y != k and mod(y.split("|")[0]) != "rfft" and direction(y.split("|")[0]) is not None, visits=2, maxpaths=1500)
    T.exits = []
    outs = T.run(f, [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)])
    done = False
    for st, ret in outs:
        if ret[0] == "agg" and isinstance(ret[1], str) and ret[1].endswith("Result") and ret[2] == 1:
            continue
        s = phases(st)
        if s == "zero":
            continue
        if s is None:
            cov["undecided"].add(short(k))
            continue
        if any(isinstance(x, tuple) for x in s):
            done = True
            fams.setdefault(signature(prog, f), []).append((s, cfg, k, f))
            cov["summaries"] += 1
    if done:
        cov["functions"].add(short(k))


def phases(st):
    """[writes, call, writes, call, ...] with buffers named by what they hold; writes map (buffer, fields) to [(index, value, count, line)]"""
    fm = VForms()
    evs = list(st.evs)
    loops = {}
    for e in evs:
        if NEXT.search(e.name) and e.args[0][0] != "mut":
            if st.dec.get(("variant", e.res)) != 1:
                return "zero"
            j = ("j", e.res[2])
            fm.iters[j] = fm.base(e.args[0])
            loops[j] = fm.counts(fm.iters[j])
    content = {}
    out, cur, raw = [], {}, []
    calls = 0
    for e in evs:
        n = e.name.split("::")[-1]
        if e.name == "write":
            v = fm.value(e.args[0])
            if v is None or v[0] != "ref":
                return None
            flds = v[3] if len(v) > 3 else ()
            parts = [(flds, e.args[1])] if e.args[1][0] != "agg" else [(flds + (i,), x) for i, x in enumerate(e.args[1][3])]
            for fl, x in parts:
                raw.append((v[1], v[2], fl, fm.poly(x), e.line))
            continue
        if n in ("copy_from_slice", "clone_from_slice"):
            r, off, _ = fm.root(e.args[0])
            s, soff, _ = fm.root(e.args[1])
            if off.m or soff.m:
                return None
            if not flush(fm, loops, content, cur, raw):
                return None
            content[r] = content.get(s, ("arg", s))
            continue
        if re.match(r"(rfft|irfft)", n) and direction(e.name) is not None:
            return "zero"
        if direction(e.name) is not None:
            if not flush(fm, loops, content, cur, raw):
                return None
            a = next((x for x in e.args if fm.base(x)[0] == "call" and "index" in fm.base(x)[1] or fm.root(x)[0][0] == "arg" and fm.base(x) is not e.args[0]), None)
            if a is None:
                return None
            r, off, ln = fm.root(a)
            if off.m:
                return None
            calls += 1
            seg = {}
            for (x, fl), l in cur.items():
                seg[("BUF" if x == r else cname(x), fl)] = l
            out.append(seg)
            out.append(("call", direction(e.name), cpoly(fm.length(a), {}), e.line))
            cur = {}
            content[r] = ("Z", calls)
        elif n in ("swap", "rotate_left", "rotate_right", "reverse", "fill", "copy_within", "swap_with_slice"):
            return None
    if not flush(fm, loops, content, cur, raw):
        return None
    out.append({(cname(x), fl): l for (x, fl), l in cur.items()})
    return out


def cname(r):
    return canon(r, {})


def flush(fm, loops, content, cur, raw):
    """moves the collected writes into cur; False when a write is not understood"""
    for r, i, fl, val, line in raw:
        js = [a for a in i.atoms() if a[0] == "j"]
        if opaque_in(val) or len(js) > 1 or any(deep(a) for a in i.atoms()):
            return False
        # a plain copy of one buffer into another
        if len(val.m) == 1:
            (mono, c), = val.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "x" and mono[0][0][3] == fl == () and same(unkey(mono[0][0][2]), i) and js and mono[0][0][1] != r:
                content[r] = content.get(mono[0][0][1], ("arg", mono[0][0][1]))
                continue
        cnt = None
        lo = None
        if js:
            j = js[0]
            c = loops.get(j) or []
            cnt = c[0] if len(c) == 1 else None
            co = next((q for mono, q in i.m.items() if mono == ((j, 1),)), None)
            if co is None:
                return False
            rest = sub(i, mul(num(co), atom(j)))
            J = atom(("j", "*"))
            if co in (1, -1):
                lo = rest if co == 1 else (sub(rest, sub(cnt, num(Fraction(1)))) if cnt is not None else None)
                val, i = subst(val, j, mul(num(co), sub(J, rest))), J
            else:
                lo = num(Fraction(0))
                val, i = subst(val, j, J), subst(i, j, J)
        v = Poly({})
        for mono, c in val.m.items():
            q = num(c)
            for a, e in mono:
                if a[0] == "x":
                    if any(rr == a[1] and f2 == a[3] for rr, f2 in cur) and a[1] not in content:
                        return False
                    if (a[1], a[3]) in cur and a[1] in content:
                        return False
                    h = content.get(a[1])
                    nm = ("hold", h) if h is not None and h[0] == "Z" else ("hold", ("arg", canon(h[1] if h is not None else a[1], {})))
                    a = ("x", nm, a[2], a[3])
                elif a[0] == "j" and a[1] != "*":
                    return False
                for _ in range(abs(e)):
                    q = mul(q, Poly({((a, 1 if e > 0 else -1),): Fraction(1)}))
            v = add(v, q)
        env = {}
        cur.setdefault((r, fl), []).append((cpoly(i, env), cpoly(v, env), cpoly(cnt, env) if cnt is not None else None, cpoly(lo, env) if lo is not None else None, line))
    raw.clear()
    return True


J = ("j", "*")


def judge_families(rep, cov, fams):
    for sig, l in sorted(fams.items(), key=str):
        cov["families"] += 1
        uniq = classes(l, lambda a, b: difference(a[0], b[0]) is None)
        ref = uniq[0][0]
        for c in uniq[1:]:
            s, cfg, k, f = c[0]
            d = difference(ref[0], s)
            if d is None:
                continue
            if d[0] == "?":
                cov["undecided"].add(short(k))
                continue
            line, text = d[1], d[2]
            rep.viol(f.path, f.file, line, "variant-differs", f"{short(k)} ({cfg}): {text} (the other variants of this signature, e.g. {short(ref[2])}, do otherwise)", config=cfg)


def difference(a, b):
    """None, ("?",) or (kind, line, text); the text speaks about b"""
    if len(a) != len(b):
        return ("calls", lastline(b), f"{sum(isinstance(x, tuple) for x in b)} transform calls instead of {sum(isinstance(x, tuple) for x in a)}")
    unsure = None
    for x, y in zip(a, b):
        if isinstance(x, tuple):
            if x[1] != y[1]:
                return ("call", y[3], f"transform {y[1]} instead of {x[1]}")
            if not same(x[2], y[2]):
                return ("call", y[3], f"a transform of {show(y[2])} samples instead of {show(x[2])}")
            continue
        for q in sorted(set(x) | set(y), key=str):
            if q not in x or q not in y:
                if q[0] == "BUF" or q[0][0] == "arg" and q[0][1] != 1:
                    z = (x.get(q) or y.get(q))[0]
                    rest = [r for r in (y if q in x else x) if r[0] == q[0]]
                    if rest:
                        return ("missing", z[-1] if q in y else lastline(b), f"part {q[1]} of the elements of {label(q[0])} is {'' if q in y else 'not '}written")
                unsure = ("?",)
                continue
            d = entries(x[q], y[q], q)
            if d is not None and d[0] == "missing":
                who = b if d[3] else a
                if any(isinstance(z, dict) and z is not (y if d[3] else x) and any(same(e[0], d[4]) for l in z.values() for e in l) for z in who):
                    d = ("?",)
                elif not d[3]:
                    d = ("missing", d[1], d[2])
            if d is not None:
                if d[0] != "?":
                    return d
                unsure = d
    return unsure


def label(r):
    return "the transform's buffer" if r == "BUF" else f"argument {r[1]}" if isinstance(r, tuple) and r[0] == "arg" else "a buffer"


def entries(x, y, q):
    lx, ly = [e for e in x if loopy(e)], [e for e in y if loopy(e)]
    cx, cy = [e for e in x if not loopy(e)], [e for e in y if not loopy(e)]
    # a fixed element: same element elsewhere, or an instance of the other's loop
    for e in cy + [("", ) + tuple(e) for e in cx]:
        flip = e[0] == ""
        e = e[1:] if flip else e
        const, loop = (cy, ly) if flip else (cx, lx)
        hit = [o for o in const if same(o[0], e[0])]
        inst = [(o, subst(o[1], J, e[0])) for o in loop if same(o[0], atom(J)) and not outside(e[0], o)]
        if hit:
            if not any(same(o[1], e[1]) for o in hit):
                o = hit[-1]
                mine, other = (o, e) if flip else (e, o)
                return ("value", mine[4], f"element {show(mine[0])} of {label(q[0])} is {show(mine[1])} instead of {show(other[1])}")
        elif inst:
            if not any(same(v, e[1]) for _, v in inst):
                return ("?",)
        else:
            if loop and all(outside(e[0], o) for o in loop):
                if flip:
                    return ("missing", ly[0][4] if ly else 0, f"element {show(e[0])} of {label(q[0])} is never written", True, e[0])
                return ("missing", e[4], f"element {show(e[0])} of {label(q[0])} is written, which the others never do", False, e[0])
            return ("?",)
    for e in ly:
        hit = [o for o in lx if same(o[0], e[0])]
        if not hit:
            return ("?",)
        if not any(same(o[1], e[1]) for o in hit):
            o = hit[0]
            return ("value", e[4], f"element {show(e[0])} of {label(q[0])} is {show(e[1])} instead of {show(o[1])}")
        if len(lx) == len(ly) and len(hit) == 1 and len(cx) == len(cy):
            o = hit[0]
            if None not in (o[2], e[2], o[3], e[3]) and not (same(o[2], e[2]) and same(o[3], e[3])):
                if any(not same(u, v) and (sub(u, v).const() is not None or apart(u, v)) for u, v in ((o[2], e[2]), (o[3], e[3]))):
                    return ("range", e[4], f"the loop over {label(q[0])} covers {show(e[2])} elements from {show(e[3])} instead of {show(o[2])} from {show(o[3])}")
                return ("?",)
    if lx and not ly:
        return ("?",)
    return None


def apart(a, b):
    """two counts denote different numbers for some even length (one length atom only)"""
    at = {x for p in (a, b) for y in p.atoms() for x in innermost(y)}
    if len(at) != 1:
        return False
    l, = at
    if l[0] != "len":
        return False
    try:
        return any(abs(evaluate(a, {l: n}) - evaluate(b, {l: n})) > 1e-6 for n in (8, 10, 12, 14, 36, 38))
    except (KeyError, TypeError, ZeroDivisionError):
        return False


def innermost(a):
    if a[0] == "q":
        return {x for k in a[1:3] for y in unkey(k).atoms() for x in innermost(y)}
    return {a}


def outside(i, o):
    """the fixed index lies outside the range of the loop entry, for certain"""
    if not same(o[0], atom(J)) or o[2] is None or o[3] is None:
        return False
    hi, lo = sub(i, add(o[3], o[2])).const(), sub(i, o[3]).const()
    return hi is not None and hi >= 0 or lo is not None and lo < 0


def loopy(e):
    return any(a == J for a in e[0].atoms())


def lastline(b):
    for x in reversed(b):
        if isinstance(x, tuple):
            return x[3]
        for l in x.values():
            return l[0][-1]
    return 0
