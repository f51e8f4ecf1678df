"""Framing of the short-time transforms.  Every function of the STFT module is traced path by path (transforms opaque, helpers and closures
inlined) and every store is read as a closed form in the loop variables.  Forward forms: the buffer given to a forward transform holds, at
position d, signal[start + d] * window[d] with imaginary part zero, and zero only where start + d is known to lie beyond the signal; start is
frame number times hop (batch), the caller's start (single frame) or a state that advances by exactly hop per frame (streams).  Inverse
forms: what is added to the output after an inverse transform is frame[d].re * window[d] at start + d, the norm is window[d]^2 at the same
place, and the division is by the norm of the same sample; a stream returns exactly the samples it has divided, and clears only samples that
no earlier frame has reached."""
import re
from fractions import Fraction as F
from kai.mir import Prog
from kai.trace import TooMany, contains, subterms
from .graph import short
from .absint import configs
from .c16 import T16, direction, mod
from .form import Forms, Poly, num, atom, add, sub, mul, subst, same, show, unkey, NEXT

ASSUMPTIONS = ("index arithmetic does not saturate (C01/C02 decide the ranges)", "one generic iteration stands for a loop; frames are independent of each other",
               "values that are not sums of products of element reads are reported as undecided")


def run(w, rep, tier):
    cov = {"functions": set(), "paths": 0, "stores": 0, "forms": set(), "undecided": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        streams = {}
        for k, f in sorted(prog.fns.items()):
            if mod(f.path) != "stft" or f.d.get("closure") or "tests" in k or "|" in k and not k.endswith("|Fft"):
                continue
            try:
                Fn(rep, cov, prog, cfg, k, f, streams).run()
            except TooMany:
                cov["undecided"].add(short(k))
        stream_check(rep, cov, cfg, streams)
    rep.cov.update(functions=sorted(cov["functions"]), paths=cov["paths"], stores=cov["stores"], forms=sorted(cov["forms"]), undecided=sorted(cov["undecided"]))


def opq(prog):
    return lambda y: y in prog.fns and direction(prog.fns[y].path) is not None or direction(y.split("|")[0]) is not None


def jvars(p):
    out = {a for a in p.atoms() if a[0] == "j"}
    return out


def affine(p, j):
    """p = rest + coeff*j, or None"""
    co, rest = Poly(), Poly()
    for mono, c in p.m.items():
        if (j, 1) in mono:
            co = add(co, Poly({tuple(x for x in mono if x != (j, 1)): c}))
        elif any(a == j for a, _ in mono):
            return None
        else:
            rest = add(rest, Poly({mono: c}))
    if deep(co, j) or deep(rest, j):
        return None
    return rest, co


def deep(p, j):
    return any(contains(a, lambda x: x == j) for a in p.atoms())


class Fn:
    def __init__(self, rep, cov, prog, cfg, k, f, streams):
        self.rep, self.cov, self.prog, self.cfg, self.k, self.f, self.streams = rep, cov, prog, cfg, k, f, streams
        self.reported = set()
        self.tys = [prog.tys[f.locals[i][0]]["s"] for i in range(1, f.argc + 1)]

    def viol(self, line, kind, text):
        if (kind, text) not in self.reported:
            self.reported.add((kind, text))
            self.rep.viol(self.f.path, self.f.file, line, kind, f"{short(self.k)}: {text}", config=self.cfg)

    def undecided(self, why=""):
        self.cov["undecided"].add(short(self.k) + (f" ({why})" if why else ""))

    def run(self):
        f = self.f
        T = T16(self.prog, opq(self.prog), visits=2, maxpaths=8000)
        T.exits = []
        self.args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
        outs = T.run(f, self.args)
        self.cov["functions"].add(short(self.k))
        self.zeroed = {}
        self.stream = f.argc > 0 and self.args[0][2] == "self"
        for st, ret in outs:
            if ret[0] == "agg" and isinstance(ret[1], str) and ret[1].endswith("Result") and ret[2] == 1:
                continue
            self.cov["paths"] += 1
            self.path(st, ret)
        for r, (ok, line) in self.zeroed.items():
            if line and not ok:
                self.viol(line, "not-cleared", f"contributions are added to {show(atom(('len', r)))[4:-1]}, which is never set to zero")

    # ---------------------------------------------------------------- one path
    def path(self, st, ret):
        fm = self.fm = Forms()
        fm.ints = {a for a, t in zip(self.args, self.tys) if t == "usize"}
        self.st = st
        self.state = {}           # field index -> polynomial after the path
        self.contents = {}        # root of a local buffer -> (index loop variable, index, value)
        fwd, inv = {}, {}
        ops = []                  # stores: (n, line, root, index, part, value)
        lastnext = None
        for n, e in enumerate(st.evs):
            if NEXT.search(e.name) and st.dec.get(("variant", e.res)) == 1:
                lastnext = ("j", e.res[2])
                fm.iters[lastnext] = fm.base(e.args[0])
            nm = (e.inst or e.name).split("|")[0]
            d = direction(nm)
            if d:
                r, off, cnt = self.place(e.args[1])
                (fwd if d == "fwd" else inv)[n] = (r, off, e)
                continue
            if re.search(r"Vec::<.*>::push$|Vec<.*>::push$", e.name) and lastnext:
                r, off, _ = self.place(e.args[0])
                ops += self.split(n, e.line, r, add(off, atom(lastnext)), (), e.args[1])
            if e.name == "write":
                t = e.args[0]
                if t[0] == "fld" and t[1][:1] == ("arg",) and self.stream and t[1][1] == 1:
                    self.state[t[2]] = fm.poly(e.args[1])
                    continue
                v = fm.value(t)
                if v is None or v[0] != "ref":
                    continue
                ops += self.split(n, e.line, v[1], v[2], v[3] if len(v) > 3 else (), e.args[1])
        self.cov["stores"] += len(ops)
        for op in ops:
            if not op[4]:
                self.contents[op[2]] = (op[3], op[5])
        for n, (r, off, e) in fwd.items():
            self.forward(n, r, off, e, [o for o in ops if o[0] < n and o[2] == r])
        if inv or any(self.divides(o) for o in ops):
            self.inverse(inv, ops, ret)
        if self.stream:
            self.stream_path(ret, fwd, inv, ops)

    def place(self, t):
        return self.fm.root(t)

    def split(self, n, line, r, i, part, v):
        fm = self.fm
        if v[0] == "agg" and str(v[1]).endswith("Complex") and len(v[3]) == 2 and not part:
            return [(n, line, r, i, (c,), fm.poly(v[3][c])) for c in (0, 1)]
        return [(n, line, r, i, part, fm.poly(v))]

    def facts(self):
        """decided comparisons a < b of index expressions: (difference a - b, truth)"""
        out = []
        self.other = False
        for d, v in self.st.dec.items():
            if d[0] == "bin" and d[1] in ("Lt", "Eq"):
                x, y = (d[3], d[2]) if d[1] == "Lt" else (d[2], d[3])
                x = self.fm.base(x)
                if y == ("int", 0) and x[0] == "call" and x[1].endswith("::saturating_sub"):
                    out.append((self.fm.poly(x[3][1]), self.fm.poly(x[3][0]), v if d[1] == "Lt" else 1 - v))
                    continue
            if d[0] == "bin" and d[1] == "Lt":
                out.append((self.fm.poly(d[2]), self.fm.poly(d[3]), v))
            elif contains(d, lambda y: y[0] == "fld" and y[1][:2] == ("arg", 1)) and not (d[0] == "bin" and d[1] == "Eq" and contains(d, lambda y: y[0] == "call" and y[1].endswith("::len"))
                                                                                           and not contains(d, lambda y: y[0] == "bin" and y != d)):
                self.other = True
            if d[0] == "variant" and isinstance(v, int) and d[1][0] == "call" and re.search(r"slice::.*::get(_mut)?$", d[1][1]) and d[1][3][1][0] != "agg":
                r, off, cnt = self.fm.root(d[1][3][0])
                out.append((self.fm.poly(d[1][3][1]), self.fm.length(d[1][3][0]), v))
        return out

    def frameno(self, r):
        """the frame number of a buffer that is an element of a list of frames"""
        if r[0] == "elem":
            k = unkey(r[2])
            j = jvars(k)
            if len(j) == 1:
                return k, next(iter(j))
        return None

    def start_ok(self, start, r, line, what):
        """start must be frame * hop, a plain argument, or the state of the stream"""
        ks = self.frameno(r)
        if ks:
            k, j = ks
            a = affine(start, j)
            if a is None:
                return self.undecided("start")
            rest, co = a
            if not co.m:
                return self.undecided("start carried by hand")
            if rest.m and rest.const() is not None:
                return self.viol(line, "frame-start", f"{what} of frame {show(k)} starts at {show(start)} instead of frame number times hop")
            one = next(iter(co.m.items())) if len(co.m) == 1 else None
            if rest.m:
                ok = jvars(rest)
                if ok:
                    return self.undecided("start")
                return self.viol(line, "frame-start", f"{what} of frame {show(k)} starts at {show(start)} instead of frame number times hop")
            if one is None or one[1] != 1 or len(one[0]) != 1 or one[0][0][1] != 1 or not self.hop(one[0][0][0]):
                if all(self.hop(a) or a[0] in ("len", "q", "j") for a in co.atoms()):
                    return self.viol(line, "frame-start", f"{what} of frame {show(k)} starts at {show(start)} instead of frame number times hop")
                return self.undecided("start")
            self.cov["forms"].add(f"{short(self.k)}: {what} of frame k starts at k*{show(co)}")
            return
        if jvars(start):
            return self.undecided("start")
        if self.stream:
            self.starts = start
            return
        if len(start.m) == 1 and all(self.hop(a) for a in start.atoms()) and list(start.m.values()) == [1] and len(next(iter(start.m))) == 1:
            self.cov["forms"].add(f"{short(self.k)}: {what} starts at {show(start)}")
            return
        if all(self.hop(a) or a[0] == "len" for a in start.atoms()):
            self.viol(line, "frame-start", f"{what} starts at {show(start)} instead of the requested position")
        else:
            self.undecided("start")

    def hop(self, a):
        return a[0] == "t" and a[1][0] == "arg" and a[1] in self.fm.ints or a[0] == "t" and a[1][0] == "fld" and a[1][1][0] == "arg"

    # ---------------------------------------------------------------- forward
    def forward(self, n, r, off, e, ops):
        fm = self.fm
        facts = self.facts()
        zeros, start = [], None
        for (_, line, _, i, part, v) in ops:
            if part == (1,):
                if v.m and v.const() is None or v.m:
                    self.viol(line, "imaginary", f"the imaginary part of a frame sample is {show(v)}, not zero")
                continue
            if part not in ((), (0,)):
                continue
            js = jvars(i)
            if len(js) > 1:
                self.undecided("index")
                continue
            if not v.m:
                zeros.append((line, i))
                continue
            if v.const() is not None:
                self.viol(line, "sample", f"a frame sample is the constant {show(v)}")
                continue
            xs = [a for a in v.atoms() if a[0] == "x"]
            if len(v.m) == 1 and len(xs) == 1 and list(v.m.values())[0] == 1 and list(v.m)[0] == ((xs[0], 1),):
                if isinstance(xs[0][1], tuple) and contains(xs[0][1], lambda y: y[0] == "arg"):
                    self.viol(line, "not-windowed", f"a frame sample is {show(v)}, not signal times window")
                continue
            if len(v.m) != 1 or len(xs) != 2 or any(c != 1 for c in v.m.values()) or any(ex != 1 for m in v.m for _, ex in m) or len(v.atoms()) != 2:
                if all(a[0] == "x" for a in v.atoms()):
                    self.viol(line, "sample", f"a frame sample is {show(v)}, not signal times window")
                else:
                    self.undecided("sample")
                continue
            d = sub(i, off)
            ds = [sub(unkey(a[2]), d) for a in xs]
            w = [q for q in (0, 1) if not ds[q].m]
            if not w:
                if any(self.opaque(p) for p in ds):
                    self.undecided("window index")
                else:
                    self.viol(line, "window-index", f"the sample at position {show(d)} of the frame is {show(v)}: no factor is taken at the position itself")
                continue
            q = 1 - w[0] if len(w) == 1 else self.sigfactor(xs)
            start = ds[q]
            sroot = xs[q][1]
            if deep(start, next(iter(js))) if js else False:
                self.viol(line, "signal-index", f"the sample at position {show(d)} of the frame is {show(v)}: the signal index does not advance with the position")
                continue
            self.start_ok(start, r, line, "the frame")
            self.guards(line, sub(unkey(xs[q][2]), num(F(0))), sroot, facts, i)
        for line, i in zeros:
            # a zero is written: the decisions of the path on this index
            for a, b, v in facts:
                if v or len(b.atoms()) != 1:
                    continue
                la = next(iter(b.atoms()))
                if la[0] != "len" or la[1] == r or not same(b, atom(la)):
                    continue
                js = jvars(i)
                if not js or not jvars(a) & js:
                    continue
                st = sub(a, sub(i, off))
                self.zero_ok(st, r, line, a)

    def zero_ok(self, st, r, line, a):
        ks = self.frameno(r)
        if ks:
            s2 = affine(st, ks[1])
            if s2 is None:
                return
            st = s2[0]
            if st.const() is not None and st.const() > 0:
                self.viol(line, "zeroed-inside", f"the last samples of the signal are replaced by zero (the test is on {show(a)})")
        elif self.stream:
            self.zstart = (st, line, a)
        else:
            c = st.m.get((), 0)
            if c > 0:
                self.viol(line, "zeroed-inside", f"the last samples of the signal are replaced by zero (the test is on {show(a)})")

    def guards(self, line, idx, root, facts, i):
        pass

    def opaque(self, p):
        return any(a[0] not in ("j", "len", "inv") and not self.hop(a) for a in p.atoms())

    def sigfactor(self, xs):
        """both factors are read at the position itself: the signal is the one named first in the signature"""
        for q in (0, 1):
            if xs[q][1][0] == "arg" and xs[q][1][1] == 1:
                return q
        return 0

    # ---------------------------------------------------------------- inverse
    def divides(self, op):
        n, line, r, i, part, v = op
        return len(v.m) == 1 and any(ex == -1 and a[0] == "x" for m in v.m for a, ex in m)

    def item_of_collected(self, v):
        """reads of values handed on through a collected list are replaced by what was stored there"""
        fm = self.fm
        for _ in range(4):
            ch = False
            for a in list(v.atoms()):
                if a[0] != "x":
                    continue
                if a[1][0] == "elem":
                    t = self.collected(a[1][1], a[1][3], unkey(a[1][2]))
                    if t is None:
                        continue
                    val, jn, jo = t
                    root = fm.root(val)[0]
                    if root not in self.contents:
                        continue
                    i0, p0 = self.contents[root]
                    js = jvars(i0)
                    if len(js) != 1 or not same(i0, atom(next(iter(js)))):
                        continue
                    p = self.rename(subst(subst(p0, next(iter(js)), unkey(a[2])), jo, atom(jn)), jo, jn)
                else:
                    t = self.collected(a[1], a[3], unkey(a[2]))
                    if t is None:
                        continue
                    val, jn, jo = t
                    p = self.rename(subst(fm.poly(val), jo, atom(jn)), jo, jn)
                v = subst(v, a, p)
                ch = True
            if not ch:
                return v
        return v

    def rename(self, p, jo, jn):
        """loop variable jo is jn, also inside element roots"""
        def ren(x):
            if x == jo:
                return jn
            if isinstance(x, tuple):
                return tuple(ren(y) for y in x)
            return x
        out = Poly()
        for mono, c in p.m.items():
            m = []
            for a, ex in mono:
                if a[0] == "x" and a[1][0] == "elem":
                    k = unkey(a[1][2])
                    k = subst(k, jo, atom(jn))
                    a = ("x", ("elem", a[1][1], k.key(), a[1][3]), a[2], a[3])
                m.append((a, ex))
            out = add(out, Poly({tuple(sorted(m, key=repr)): c}))
        return out

    def collected(self, root, fields, idx):
        """element idx of a collected list: (the value collected, loop variable here, loop variable of the collecting loop)"""
        c = self.fm.base(root)
        while c[0] == "fld" and c[1][0] == "var":
            c = self.fm.base(c[1][1])
        if c[0] != "call" or not c[1].endswith("::collect") or len(c[3]) != 2:
            return None
        js = jvars(idx)
        if len(js) != 1 or not same(idx, atom(next(iter(js)))):
            return None
        v = c[3][1]
        while v[0] == "agg" and str(v[1]).endswith(("Result", "Option")):
            v = v[3][0]
        for fl in fields:
            if v[0] != "agg" or fl >= len(v[3]):
                return None
            v = v[3][fl]
        # the loop variable of the collecting loop
        src = self.fm.base(c[3][0])
        jo = [j for j, it in self.fm.iters.items() if it == src]
        if len(jo) != 1:
            return None
        return v, next(iter(js)), jo[0]

    def inverse(self, inv, ops, ret):
        fm = self.fm
        facts = self.facts()
        frames = [r for r, _, _ in inv.values()]
        accs, other = {}, []
        for op in ops:
            n, line, r, i, part, v = op
            if part and part != (0,):
                continue
            i, v = self.item_of_collected(i), self.item_of_collected(v)
            own = ("x", r, i.key(), part)
            own0 = ("x", r, op[3].key(), part)
            if not v.m or self.is_local(r) and r in self.collects():
                continue
            if self.divides((n, line, r, i, part, v)):
                (mono, c), = v.m.items()
                dv = [a for a, ex in mono if ex == -1 and a[0] == "x"]
                nu = [a for a, ex in mono if ex == 1]
                if len(mono) != 2 or len(dv) != 1 or len(nu) != 1 or c != 1:
                    self.undecided("division")
                    continue
                if nu[0] != own or dv[0][2] != i.key():
                    if not self.opaque(sub(unkey(dv[0][2]), i)):
                        self.viol(line, "norm-index", f"{show(atom(own))} is divided by {show(atom(dv[0]))}, the norm of another sample")
                    continue
                accs.setdefault("div", []).append((line, r, dv[0][1], i))
                continue
            c = sub(v, atom(own0)) if own0 in v.atoms() else sub(v, atom(own))
            if own in c.atoms() or own0 in c.atoms():
                if any(a[0] != "x" for a in c.atoms()):
                    self.undecided("accumulation")
                    continue
                self.viol(line, "accumulate", f"{show(atom(own))} is replaced by {show(v)}, not increased by frame times window")
                continue
            kind, d = self.contribution(c, frames)
            if kind is None:
                reads = [a for a in c.atoms() if a[0] == "x"]
                if own not in v.atoms() and own0 not in v.atoms():
                    if not any(a[1] in frames for a in reads):
                        continue
                if all(a[0] == "x" and self.known(a[1], frames) for a in c.atoms()) and reads:
                    other.append((line, r, own, c))
                if any(a[1] in frames for a in reads) and all(a[0] == "x" for a in c.atoms()):
                    self.viol(line, "contribution", f"{show(atom(own))} receives {show(c)}, not the real part of the frame times the window at the same position")
                continue
            if own not in v.atoms() and own0 not in v.atoms():
                if self.is_local(r):
                    continue           # a per-frame buffer, added later
                self.viol(line, "overwrites", f"{show(atom(own))} is overwritten with {show(c)}: the part of earlier frames that overlaps is lost")
                continue
            start = sub(i, d)
            fr = [a for a in c.atoms() if a[0] == "x" and a[1] in frames or a[0] == "x" and a[1][0] == "elem"]
            fr = fr[0][1] if fr else (frames[-1] if frames else ("none",))
            if kind == "norm" and self.collected_norm(start):
                fr = ("elem", None, atom(next(iter(jvars(start)))).key(), ())
            js = jvars(d)
            if js and any(deep(start, j) for j in js):
                if not self.opaque(start):
                    self.viol(line, "output-index", f"position {show(d)} of a frame is added at {show(i)}: the place does not advance with the position")
                continue
            self.start_ok(start, fr, line, "the contribution" if kind == "sig" else "the norm")
            accs.setdefault(kind, []).append((line, r, start, i))
            if self.stream:
                self.acc_start = start
            for a, b, t in facts:
                pass
        # decisions that skip a sample inside the output
        roots = {x[1] for k in ("sig", "norm") for x in accs.get(k, ())}
        sig = accs.get("sig", [])
        nrm = accs.get("norm", [])
        for l, r, start, i in nrm:
            for l2, r2, s2, i2 in sig:
                a, b = sub(start, Poly()), s2
                if r != r2 and not jvars(sub(a, b)) and (sub(a, b)).m and not self.opaque(sub(a, b)):
                    self.viol(l, "norm-start", f"the norm of a frame starts at {show(start)} but its samples at {show(s2)}")
        for l, r, nr, i in accs.get("div", []):
            for l2, r2, s2, i2 in sig:
                if nrm and r2 == r and nr not in {x[1] for x in nrm}:
                    self.viol(l, "norm-buffer", "the division is not by the accumulated norm")
        for line, r, own, c in other:
            if r in {x[2] for x in accs.get("div", [])}:
                self.viol(line, "norm-value", f"the norm {show(atom(own))} receives {show(c)}, not the squared window")
            elif r in {x[1] for x in accs.get("div", [])}:
                self.viol(line, "contribution", f"{show(atom(own))} receives {show(c)}, not the real part of the frame times the window at the same position")
        for l, r, start, i in nrm:
            if r in {x[1] for x in accs.get("div", [])} and r not in {x[2] for x in accs.get("div", [])}:
                self.viol(l, "contribution", f"the output receives the squared window")
        # a form that normalises owns its output: what it adds to starts from zero
        for kind in ("sig", "norm"):
            for l, r, start, i in accs.get(kind, []):
                if r[0] == "arg" and not self.stream:
                    z = self.zeroed.setdefault(r, [False, None])
                    first = min(o[0] for o in ops if o[2] == r and o[1] == l)
                    z[0] |= any(o[2] == r and o[0] < first and not o[5].m for o in ops)
                    z[0] |= any(e.name.split("::")[-1] not in ("iter_mut", "len", "index_mut") and any(r == fm.root(x)[0] for x in e.args) and not NEXT.search(e.name)
                                for e in self.st.evs[:first] if e.name != "write" and not direction((e.inst or e.name).split("|")[0]) and e.args)
                    if accs.get("div"):
                        z[1] = l
        for d, v in self.st.dec.items():
            if d[0] == "bin" and d[1] == "Lt" and d[2][0] == "flt" and v == 1:
                p = fm.poly(d[3])
                xs = [a for a in p.atoms() if a[0] == "x"]
                if len(p.m) == 1 and len(xs) == 1:
                    thr = fm.poly(d[2]).const()
                    if thr is not None and float(thr) > 1e-6:
                        self.viol(self.f.line, "threshold", f"samples whose norm is below {float(thr):g} are not divided")
        self.skipped(facts, inv)
        if accs.get("div"):
            self.coverage(accs["div"])
        self.accs = accs

    def collects(self):
        """buffers that are handed on through a collected list: what they hold is judged where it is added to the output"""
        if not hasattr(self, "_coll") or self._coll[0] is not self.st:
            out = set()
            for e in self.st.evs:
                if e.name == "collected":
                    for x in subterms(e.args[1]):
                        if x[0] == "call":
                            out.add(x)
            self._coll = (self.st, out)
        return self._coll[1]

    def known(self, r, frames):
        while r[0] in ("elem", "fld"):
            r = self.fm.base(r[1])
        return r[0] == "arg" or r in frames

    def is_local(self, r):
        return r[0] == "call"

    def collected_norm(self, start):
        return bool(jvars(start))

    def contribution(self, c, frames):
        """("sig", position) for frame[d].re*window[d], ("norm", position) for window[d]^2"""
        if len(c.m) != 1:
            return None, None
        (mono, k), = c.m.items()
        if k != 1:
            return None, None
        if len(mono) == 1 and mono[0][1] == 2 and mono[0][0][0] == "x" and mono[0][0][3] == () and mono[0][0][1] not in frames:
            return "norm", unkey(mono[0][0][2])
        if len(mono) == 2 and all(ex == 1 and a[0] == "x" for a, ex in mono):
            re_ = [a for a, _ in mono if a[3] == (0,)]
            wi = [a for a, _ in mono if a[3] == ()]
            if len(re_) == 1 and len(wi) == 1 and re_[0][2] == wi[0][2]:
                return "sig", unkey(wi[0][2])
        return None, None

    def skipped(self, facts, inv):
        for a, b, v in facts:
            if v:
                continue
            ats = b.atoms()
            if len(ats) != 1 or next(iter(ats))[0] != "len" or not jvars(a):
                continue
            r = next(iter(ats))[1]
            if r[0] != "arg" or not self.tys[r[1] - 1].startswith("&mut [f"):
                continue
            p = a
            for j in jvars(a):
                x = affine(p, j)
                if x is None:
                    return
                p = x[0]
            c = p.m.get((), 0)
            c += b.m.get((), 0) * -1
            if c > 0:
                self.viol(self.f.line, "skipped-inside", f"contributions to the last samples of the output are left out (the test is {show(a)} < {show(b)})")

    def coverage(self, divs):
        fm = self.fm
        for line, r, nr, i in divs:
            js = jvars(i)
            if len(js) != 1:
                continue
            j = next(iter(js))
            a = affine(i, j)
            if a is None or j not in fm.iters:
                continue
            cnt = fm.counts(fm.iters[j])
            if r[0] == "arg":
                if a[0].const() is not None and a[0].const() > 0:
                    self.viol(line, "norm-range", f"the division starts at sample {show(a[0])}")
                for c in cnt:
                    d = sub(add(a[0], c), atom(("len", r)))
                    if d.const() is not None and d.const() < 0:
                        self.viol(line, "norm-range", f"the division leaves out the last {-d.const()} sample(s)")
            elif self.stream and len(cnt) == 1:
                self.divrange = (a[0], cnt[0], line)

    # ---------------------------------------------------------------- streams
    def stream_path(self, ret, fwd, inv, ops):
        fm = self.fm
        me = re.sub(r"::\w+\|?.*$", "", self.f.path)
        S = self.streams.setdefault(self.f.path.rsplit("::", 1)[0], {})
        name = self.f.path.rsplit("::", 1)[1]
        start = getattr(self, "starts", None)
        fields = {i: v for i, v in self.state.items()}

        def after(p):
            out = p
            tmp = {}
            for a in list(p.atoms()):
                if a[0] == "t" and a[1][0] == "fld" and a[1][1][:1] == ("arg",) and a[1][2] in fields:
                    b = ("var", f"new{a[1][2]}")
                    tmp[b] = fields[a[1][2]]
                    out = subst(out, a, atom(b))
            for b, q in tmp.items():
                out = subst(out, b, q)
            return out
        if fwd and start is not None:
            S["fwd"] = start
            d = sub(after(start), start)
            self.advance(d, "the next frame", S, next(iter(fwd.values()))[2].line)
            z = getattr(self, "zstart", None)
            if z is not None:
                dd = sub(z[0], start)
                if dd.const() is not None and dd.const() > 0:
                    self.viol(z[1], "zeroed-inside", f"the last samples of the signal are replaced by zero (the test is on {show(z[2])})")
        if not fwd and not inv and ret == ("agg", "core::result::Result", 0, (("int", 0),)):
            self.facts()
            self.other_ = self.other
            S.setdefault("stops", []).append(([(a, b) for a, b, v in self.facts() if not v], [(a, b) for a, b, v in self.facts() if v], self))
        if inv and getattr(self, "acc_start", None) is not None:
            s0 = self.acc_start
            S["inv"] = s0
            self.advance(sub(after(s0), s0), "the next frame", S, next(iter(inv.values()))[2].line)
        t = ret
        while t[0] == "agg" and str(t[1]).endswith("Result"):
            t = t[3][0]
        if t[0] == "call" and getattr(self, "divrange", None):
            r, off, cnt = fm.root(t)
            lo, n, line = self.divrange
            if cnt is not None and r[0] == "fld":
                if not same(off, lo) or not same(cnt, n):
                    x = add(sub(off, lo), sub(cnt, n))
                    if not self.opaque(x):
                        self.viol(line, "returned-range", f"samples {show(lo)} .. +{show(n)} are divided by the norm, but samples {show(off)} .. +{show(cnt)} are returned")
                if inv:
                    S["out"] = (off, cnt, after(off), self)
                else:
                    S["flush"] = (off, cnt, self, line)
        if inv:
            # clearing: only what no frame has reached, or what has already been handed out
            s0 = S.get("inv")
            for n, line, r, i, part, v in ops:
                if v.m or r[0] != "fld" or s0 is None:
                    continue
                js = jvars(i)
                if len(js) != 1 or next(iter(js)) not in fm.iters:
                    continue
                a = affine(i, next(iter(js)))
                if a is None:
                    continue
                S.setdefault("clears", []).append((a[0], line, self, fm.counts(fm.iters[next(iter(js))])))

    def advance(self, d, what, S, line):
        ok = len(d.m) == 1 and list(d.m.values()) == [1] and len(next(iter(d.m))) == 1 and self.hop(next(iter(d.atoms())))
        if ok:
            S.setdefault("hop", set()).add(next(iter(d.atoms())))
            self.cov["forms"].add(f"{short(self.k)}: {what} starts {show(d)} further on")
        elif all(self.hop(a) or a[0] in ("len", "q") for a in d.atoms()):
            self.viol(line, "advance", f"{what} starts {show(d)} further on, not one hop")
        else:
            self.undecided("advance")


def stream_check(rep, cov, cfg, streams):
    for name, S in streams.items():
        if "fwd" in S:
            for no, yes, fn in S.get("stops", []):
                # the stream ends only when the start of the next frame is at or beyond the end of the signal
                good = any(same(a, S["fwd"]) and b.atoms() and next(iter(b.atoms()))[0] == "len" for a, b in no)
                if not good and any(same(a, S["fwd"]) and len(b.atoms()) == 1 and next(iter(b.atoms()))[0] == "len" and same(b, atom(next(iter(b.atoms())))) for a, b in yes):
                    fn.viol(fn.f.line, "stream-end", "the stream ends although the next frame starts inside the signal")
                elif not good:
                    bad = [(a, b) for a, b in no + yes if not sub(a, S["fwd"]).m or S["fwd"].atoms() & (a.atoms() | b.atoms())]
                    if bad and not fn.other_ and not any(fn.opaque(a) or fn.opaque(b) for a, b in bad):
                        a, b = bad[0]
                        fn.viol(fn.f.line, "stream-end", f"the stream ends on a comparison of {show(a)} with {show(b)}, not when the next frame starts beyond the signal")
        if "inv" in S and "out" in S and S.get("hop"):
            hop = atom(next(iter(S["hop"])))
            off, cnt, nxt, fn = S["out"]
            if not same(cnt, hop) and not fn.opaque(cnt):
                fn.viol(fn.f.line, "returned-length", f"{show(cnt)} samples are returned per frame, not one hop")
            d = sub(nxt, off)
            if not same(d, cnt) and not fn.opaque(d):
                fn.viol(fn.f.line, "returned-gap", f"the next returned samples start {show(d)} further on although {show(cnt)} were returned")
            if "flush" in S:
                foff, fcnt, ffn, line = S["flush"]
                if not same(foff, off) and not ffn.opaque(sub(foff, off)):
                    ffn.viol(line, "flush-start", f"the tail starts at {show(foff)}, but the next unreturned sample is {show(off)}")
                end = add(foff, fcnt)
                wl = sub(end, sub(S["inv"], hop))
                # what remains is the window of the last frame
                if len(wl.m) != 1 or list(wl.m.values()) != [1] or len(next(iter(wl.m))) != 1:
                    if not ffn.opaque(wl):
                        ffn.viol(line, "flush-end", f"the tail ends {show(wl)} after the start of the last frame")
                else:
                    S["win"] = wl
            for lo, line, fn, cnts in S.get("clears", []):
                d = sub(lo, S["inv"])
                if same(lo, off) and any(same(c, cnt) for c in cnts):
                    continue
                win = S.get("win")
                if win is None:
                    continue
                x = sub(d, win)
                if x.m and not fn.opaque(x):
                    c = x.const()
                    if c is None and all(v > 0 for v in x.m.values()) or c is not None and c > 0:
                        continue
                    fn.viol(line, "cleared-inside", f"samples from {show(d)} after the start of the frame are cleared, although the frame reaches {show(win)} samples")
