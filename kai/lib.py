"""Models of the standard library (and rayon, hashbrown, libm) operations kofft uses."""
from .poly import *
from .val import *
from .state import *

MODELS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def deref(E, st, v):
    while isinstance(v, Ref):
        v = E.load(st, (v.base, v.path))
    return v


def deref1(E, st, v):
    return E.load(st, (v.base, v.path)) if isinstance(v, Ref) else v


def as_slice(E, st, v, mut=False):
    """view v (a slice, vec, array or reference to one) as a slice"""
    for _ in range(4):
        if isinstance(v, Slc):
            return v
        if isinstance(v, (Vec, Arr)):
            return Slc(v.buf, ZERO, v.len, mut)
        if isinstance(v, BoxS):
            return v.s
        if isinstance(v, Ref):
            w = E.load(st, (v.base, v.path))
            if isinstance(w, Top):
                w2 = E.expand(st, w)
                if w2 is not w:
                    E.store(st, (v.base, v.path), w2)
                else:
                    return None
                w = w2
            mut = mut or v.mut
            v = w
            continue
        if isinstance(v, BoxC):
            v = st.cells.get(v.cell)
            continue
        return None
    return None


def need_slice(E, st, v, mut=False):
    s = as_slice(E, st, v, mut)
    if s is None:
        from .engine import Giveup
        raise Giveup("slice view of " + repr(v)[:80])
    return s


# ------------------------------------------------------------------ sequences
def seq_item(E, st, cs, seq, t):
    k = seq[0]
    if k == "range":
        return [(st, seq[1] + t)]
    if k == "slice":
        return [(st, Ref(("b", seq[1], seq[2] + t), (), seq[3]))]
    if k == "vals":
        return [(st, E.rd(st, seq[1], seq[2] + t))]
    if k == "enum":
        return [(s, tup(seq[2] + t, v)) for s, v in seq_item(E, st, cs, seq[1], t)]
    if k == "zip":
        out = []
        for s, a in seq_item(E, st, cs, seq[1], t):
            for s2, b in seq_item(E, s, cs, seq[2], t):
                out.append((s2, tup(a, b)))
        return out
    if k == "rev":
        return seq_item(E, st, cs, seq[1], seq[2] - 1 - t)
    if k == "skip":
        return seq_item(E, st, cs, seq[1], t + seq[2])
    if k == "step":
        return seq_item(E, st, cs, seq[1], t * seq[2])
    if k == "map":
        out = []
        for s, v in seq_item(E, st, cs, seq[1], t):
            out += E.call_closure(s, cs, seq[2], [v])
        return out
    if k == "copied":
        return [(s, deref1(E, s, v)) for s, v in seq_item(E, st, cs, seq[1], t)]
    if k == "chunks":
        buf, off, ch, total, exact, mut = seq[1:]
        if exact:
            return [(st, Slc(buf, off + ch * t, ch, mut))]
        out = []
        for s in assume(st, ("ge", total - ch * t - ch)):
            out.append((s, Slc(buf, off + ch * t, ch, mut)))
        for s in assume(st, ("ge", ch - 1 - total + ch * t)):
            out.append((s, Slc(buf, off + ch * t, total - ch * t, mut)))
        return out
    if k == "windows":
        return [(st, Slc(seq[1], seq[2] + t, seq[3], False))]
    if k == "chain":
        out = []
        for s in assume(st, ("ge", seq[2] - 1 - t)):
            out += seq_item(E, s, cs, seq[1], t)
        for s in assume(st, ("ge", t - seq[2])):
            out += seq_item(E, s, cs, seq[3], t - seq[2])
        return out
    if k == "opaque":
        E.uid += 1
        return [(st, E.fresh_val(st, seq[1], f"item#{E.uid}", seq[2], FUZZY))]
    if k == "repeat":
        return [(st, seq[1])]
    if k == "hint":
        return seq_item(E, st, cs, seq[1], t)
    raise AssertionError(k)


INF = P(1 << 62)


def to_iter(E, st, cs, v):
    """IntoIterator / iterator value -> list of (state, Iter)"""
    if isinstance(v, Iter):
        return [(st, v)]
    if isinstance(v, Struct) and isinstance(v.tag, str):
        if v.tag in ("core::ops::range::Range", "core::range::Range"):
            return range_iter(E, st, v.f[0], v.f[1])
        if v.tag in ("core::ops::range::RangeInclusive",):
            return range_iter(E, st, v.f[0], v.f[1] + 1)
        if v.tag == "core::ops::range::RangeFrom":
            return [(st, Iter(("range", v.f[0]), ZERO, INF))]
    if isinstance(v, Slc):
        return [(st, Iter(("slice", v.buf, v.off, v.mut), ZERO, v.len))]
    if isinstance(v, (Vec, Arr)):
        return [(st, Iter(("vals", v.buf, ZERO), ZERO, v.len))]
    if isinstance(v, Ref):
        w = E.load(st, (v.base, v.path))
        if isinstance(w, Iter):
            return [(st, w)]
        if isinstance(w, Struct) and isinstance(w.tag, str) and "Range" in w.tag:
            return to_iter(E, st, cs, w)
        s = as_slice(E, st, v, v.mut)
        if s is not None:
            return [(st, Iter(("slice", s.buf, s.off, v.mut or s.mut), ZERO, s.len))]
    if isinstance(v, BoxS):
        return to_iter(E, st, cs, v.s)
    if isinstance(v, Enum) and v.tag == OPT:
        n = P(v.v)
        return [(st, Iter(("repeat", v.f[0] if v.f else UNIT), ZERO, n))]
    return None


def range_iter(E, st, a, b):
    a, b = E.toint(a), E.toint(b)
    if st.ent_ge(b - a):
        return [(st, Iter(("range", a), ZERO, b - a))]
    out = [(s, Iter(("range", a), ZERO, b - a)) for s in assume(st, ("ge", b - a))]
    out += [(s, Iter(("range", a), ZERO, ZERO)) for s in assume(st, ("ge", a - b - 1))]
    return out


def norm_it(it):
    """iterator starting at 0"""
    if not it.pos.t:
        return it
    return Iter(("skip", it.seq, it.pos), ZERO, it.end - it.pos)


def elem_ty_of_opaque(E, cs):
    return None


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(E, st, cs, info, a):
    v = a[0]
    if isinstance(v, Struct) and isinstance(v.tag, str) and v.tag.startswith("core::ops::range::Range"):
        if v.tag.endswith("RangeInclusive"):
            return to_iter(E, st, cs, v)
        return [(st, v)]
    return to_iter(E, st, cs, v)


@model("core::slice::<impl [T]>::iter", "rayon::iter::IntoParallelRefIterator::par_iter")
def s_iter(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    return [(st, Iter(("slice", s.buf, s.off, False), ZERO, s.len))]


@model("core::slice::<impl [T]>::iter_mut", "rayon::iter::IntoParallelRefMutIterator::par_iter_mut")
def s_iter_mut(E, st, cs, info, a):
    s = need_slice(E, st, a[0], True)
    return [(st, Iter(("slice", s.buf, s.off, True), ZERO, s.len))]


@model("rayon::iter::IntoParallelIterator::into_par_iter")
def into_par(E, st, cs, info, a):
    return to_iter(E, st, cs, a[0])


def adapter(fn):
    def f(E, st, cs, info, a):
        its = to_iter(E, st, cs, a[0])
        if its is None:
            return None
        out = []
        for s, it in its:
            r = fn(E, s, cs, norm_it(it), a[1:])
            if r is None:
                return None
            out += r
        return out
    return f


IT = "core::iter::traits::iterator::Iterator::"
PI = "rayon::iter::ParallelIterator::"
PX = "rayon::iter::IndexedParallelIterator::"


@model(IT + "enumerate", PX + "enumerate")
@adapter
def it_enum(E, st, cs, it, a):
    return [(st, Iter(("enum", it.seq, ZERO), ZERO, it.end))]


@model(IT + "zip", PX + "zip")
def it_zip(E, st, cs, info, a):
    x, y = to_iter(E, st, cs, a[0]), None
    if x is None:
        return None
    out = []
    for s, i in x:
        y = to_iter(E, s, cs, a[1])
        if y is None:
            return None
        for s2, j in y:
            i2, j2 = norm_it(i), norm_it(j)
            n, m = i2.end, j2.end
            seq = ("zip", i2.seq, j2.seq)
            if n == m or s2.ent_ge(m - n):
                out.append((s2, Iter(seq, ZERO, n)))
            elif s2.ent_ge(n - m):
                out.append((s2, Iter(seq, ZERO, m)))
            else:
                out += [(q, Iter(seq, ZERO, n)) for q in assume(s2, ("ge", m - n))]
                out += [(q, Iter(seq, ZERO, m)) for q in assume(s2, ("ge", n - m - 1))]
    return out


@model("core::iter::adapters::zip::zip")
def zip_fn(E, st, cs, info, a):
    return it_zip(E, st, cs, info, a)


@model(IT + "rev", PX + "rev")
@adapter
def it_rev(E, st, cs, it, a):
    return [(st, Iter(("rev", it.seq, it.end), ZERO, it.end))]


@model(IT + "take", PX + "take")
@adapter
def it_take(E, st, cs, it, a):
    k = E.toint(a[0])
    if st.ent_ge(k - it.end):
        return [(st, it)]
    if st.ent_ge(it.end - k):
        return [(st, Iter(it.seq, ZERO, k))]
    return [(s, it) for s in assume(st, ("ge", k - it.end))] + \
           [(s, Iter(it.seq, ZERO, k)) for s in assume(st, ("ge", it.end - k - 1))]


@model(IT + "skip", PX + "skip")
@adapter
def it_skip(E, st, cs, it, a):
    k = E.toint(a[0])
    if not k.t:
        return [(st, it)]
    seq = ("skip", it.seq, k)
    if st.ent_ge(it.end - k):
        return [(st, Iter(seq, ZERO, it.end - k))]
    return [(s, Iter(seq, ZERO, it.end - k)) for s in assume(st, ("ge", it.end - k))] + \
           [(s, Iter(seq, ZERO, ZERO)) for s in assume(st, ("ge", k - it.end - 1))]


@model(IT + "step_by", PX + "step_by")
@adapter
def it_step(E, st, cs, it, a):
    k = E.toint(a[0])
    out = []
    for s in E.oblige(st, "panic", cs.fr, cs.line, ("ge", k - 1), "step_by(0)"):
        n = E.mkdiv(s, it.end + k - 1, k)
        out.append((s, Iter(("step", it.seq, k), ZERO, n)))
    return out


@model(IT + "map", PI + "map")
@adapter
def it_map(E, st, cs, it, a):
    return [(st, Iter(("map", it.seq, a[0]), ZERO, it.end))]


@model(IT + "copied", IT + "cloned", PI + "copied", PI + "cloned")
@adapter
def it_copied(E, st, cs, it, a):
    return [(st, Iter(("copied", it.seq), ZERO, it.end))]


@model(IT + "by_ref")
def it_byref(E, st, cs, info, a):
    return [(st, a[0])]


@model(IT + "chain")
def it_chain(E, st, cs, info, a):
    x = to_iter(E, st, cs, a[0])
    if x is None:
        return None
    out = []
    for s, i in x:
        y = to_iter(E, s, cs, a[1])
        if y is None:
            return None
        for s2, j in y:
            i, j = norm_it(i), norm_it(j)
            out.append((s2, Iter(("chain", i.seq, i.end, j.seq), ZERO, i.end + j.end)))
    return out


def it_inspect(E, st, cs, info, a):
    return None


@model("core::slice::<impl [T]>::windows")
def s_windows(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    k = E.toint(a[1])
    out = []
    for q in E.oblige(st, "panic", cs.fr, cs.line, ("ge", k - 1), "windows(0)"):
        for q2 in assume(q, ("ge", s.len - k)):
            out.append((q2, Iter(("windows", s.buf, s.off, k), ZERO, s.len - k + 1)))
        for q2 in assume(q, ("ge", k - s.len - 1)):
            out.append((q2, Iter(("windows", s.buf, s.off, k), ZERO, ZERO)))
    return out


def chunker(exact, mut):
    def f(E, st, cs, info, a):
        s = need_slice(E, st, a[0], mut)
        k = E.toint(a[1])
        out = []
        for q in E.oblige(st, "panic", cs.fr, cs.line, ("ge", k - 1), "chunk size 0"):
            n = E.mkdiv(q, s.len if exact else s.len + k - 1, k)
            out.append((q, Iter(("chunks", s.buf, s.off, k, s.len, exact, mut), ZERO, n)))
        return out
    return f


MODELS["core::slice::<impl [T]>::chunks"] = chunker(False, False)
MODELS["core::slice::<impl [T]>::chunks_mut"] = chunker(False, True)
MODELS["core::slice::<impl [T]>::chunks_exact"] = chunker(True, False)
MODELS["core::slice::<impl [T]>::chunks_exact_mut"] = chunker(True, True)
for _n, _e, _m in (("par_chunks", False, False), ("par_chunks_exact", True, False)):
    MODELS["rayon::slice::ParallelSlice::" + _n] = chunker(_e, _m)
for _n, _e, _m in (("par_chunks_mut", False, True), ("par_chunks_exact_mut", True, True)):
    MODELS["rayon::slice::ParallelSliceMut::" + _n] = chunker(_e, _m)


@model(IT + "next")
def it_next(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path)) if isinstance(r, Ref) else None
    if isinstance(v, Ref):
        r = v
        v = E.load(st, (r.base, r.path))
    if isinstance(v, Struct) and isinstance(v.tag, str) and v.tag.endswith("::Range"):
        lo, hi = E.toint(v.f[0]), E.toint(v.f[1])
        out = []
        for s in assume(st, ("ge", hi - lo - 1)):
            E.store(s, (r.base, r.path), v._replace(f=(lo + 1, hi)))
            s.eff = st.eff
            out.append((s, some(lo)))
        for s in assume(st, ("ge", lo - hi)):
            out.append((s, NONE))
        return out
    if isinstance(v, Struct) and isinstance(v.tag, str) and v.tag.endswith("::RangeFrom"):
        lo = E.toint(v.f[0])
        s = st.copy()
        E.store(s, (r.base, r.path), v._replace(f=(lo + 1,)))
        return [(s, some(lo))]
    if isinstance(v, Iter):
        out = []
        for s in assume(st, ("ge", v.end - v.pos - 1)):
            for s2, x in seq_item(E, s, cs, v.seq, v.pos):
                e = s2.eff
                E.store(s2, (r.base, r.path), v._replace(pos=v.pos + 1))
                if r.base[0] == "c":
                    s2.eff = e
                out.append((s2, some(x)))
        for s in assume(st, ("ge", v.pos - v.end)):
            out.append((s, NONE))
        return out
    return None


@model("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next_back(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path)) if isinstance(r, Ref) else None
    if isinstance(v, Struct) and isinstance(v.tag, str) and v.tag.endswith("::Range"):
        lo, hi = E.toint(v.f[0]), E.toint(v.f[1])
        out = []
        for s in assume(st, ("ge", hi - lo - 1)):
            E.store(s, (r.base, r.path), v._replace(f=(lo, hi - 1)))
            out.append((s, some(hi - 1)))
        for s in assume(st, ("ge", lo - hi)):
            out.append((s, NONE))
        return out
    if isinstance(v, Iter):
        out = []
        for s in assume(st, ("ge", v.end - v.pos - 1)):
            for s2, x in seq_item(E, s, cs, v.seq, v.end - 1):
                E.store(s2, (r.base, r.path), v._replace(end=v.end - 1))
                out.append((s2, some(x)))
        for s in assume(st, ("ge", v.pos - v.end)):
            out.append((s, NONE))
        return out
    return None


@model("core::iter::traits::exact_size::ExactSizeIterator::len", PX + "len", IT + "count")
def it_len(E, st, cs, info, a):
    v = deref(E, st, a[0])
    its = to_iter(E, st, cs, v)
    if its is None:
        return None
    return [(s, i.end - i.pos) for s, i in its]


# ---------------------------------------------------------------- consuming loops
def seq_loop(E, st, cs, it, body, acc=None):
    """runs body(state, item) -> list of (state, 'next' | ('exit', value)) for every item; returns
    list of (state, value); value None when the sequence is exhausted"""
    it = norm_it(it)
    E.ncell += 1
    cell = ("it", E.ncell)
    s0 = st.copy()
    s0.cells[cell] = Struct("loopctr", (ZERO,) + ((acc,) if acc is not None else ()))
    N = it.end

    def run(hs):
        backs, exits = [], {}
        for h in hs:
            c = h.cells[cell]
            t = c.f[0]
            for s in assume(h, ("ge", N - t - 1)):
                for s2, x in seq_item(E, s, cs, it.seq, t):
                    cur = s2.cells[cell]
                    for s3, r, na in body(s2, x, cur.f[1] if acc is not None else None):
                        if r == "next":
                            s3.cells[cell] = Struct("loopctr", (t + 1,) + ((na,) if acc is not None else ()))
                            backs.append(s3)
                        else:
                            s3.cells[cell] = Struct("loopctr", (t,) + ((na,) if acc is not None else ()))
                            s3.cells[("x", 0)] = r[1]
                            exits.setdefault("brk", []).append(s3)
            for s in assume(h, ("ge", t - N)):
                exits.setdefault("end", []).append(s)
        from .engine import CAP
        if len(backs) > CAP:
            backs = E.merge(backs, 2)
        return backs, exits

    ex = E.loop(run, s0, lambda s: None, (cs.fn.key, cs.b, "seq"), cs.line)
    out = []
    for s in ex.get("brk", []):
        v = s.cells.pop(("x", 0))
        c = s.cells.pop(cell)
        out.append((s, v, c.f[1] if acc is not None else None))
    ends = ex.get("end", [])
    for s in ends:
        c = s.cells.pop(cell)
        out.append((s, None, c.f[1] if acc is not None else None))
    return out


def each(E, st, cs, a, f):
    its = to_iter(E, st, cs, a)
    if its is None:
        return None
    out = []
    for s, it in its:
        out += f(s, it)
    return out


@model(IT + "for_each", PI + "for_each")
def it_for_each(E, st, cs, info, a):
    def f(s, it):
        def body(s2, x, _):
            return [(s3, "next", None) for s3, v in E.call_closure(s2, cs, a[1], [x])]
        return [(q, UNIT) for q, v, _ in seq_loop(E, s, cs, it, body)]
    return each(E, st, cs, a[0], f)


@model(IT + "try_for_each", PI + "try_for_each")
def it_try_for_each(E, st, cs, info, a):
    def f(s, it):
        def body(s2, x, _):
            out = []
            for s3, v in E.call_closure(s2, cs, a[1], [x]):
                if isinstance(v, Enum) and v.tag == RES:
                    out.append((s3, "next" if v.v == 0 else ("exit", v), None))
                elif isinstance(v, Top):
                    s4 = s3.copy()
                    out.append((s3, "next", None))
                    out.append((s4, ("exit", Enum(RES, 1, (Top(0, "err", EMPTY, "fuzzy"),))), None))
                else:
                    out.append((s3, "next", None))
            return out
        return [(q, ok() if v is None else v) for q, v, _ in seq_loop(E, s, cs, it, body)]
    r = each(E, st, cs, a[0], f)
    return r


def quant(is_all):
    def m(E, st, cs, info, a):
        src = a[0]
        if isinstance(src, Ref):
            src = E.load(st, (src.base, src.path))

        def f(s, it):
            def body(s2, x, _):
                out = []
                for s3, v in E.call_closure(s2, cs, a[1], [x]):
                    if not isinstance(v, BoolV):
                        v = E.opaque("pred", taint_of(v))
                    stop = bnot(v.c) if is_all else v.c
                    for s4 in assume(s3, stop):
                        out.append((s4, ("exit", FALSE if is_all else TRUE), None))
                    for s4 in assume(s3, bnot(stop)):
                        out.append((s4, "next", None))
                return out
            outs = []
            for q, v, _ in seq_loop(E, s, cs, it, body):
                outs.append((q, (TRUE if is_all else FALSE) if v is None else v))
            return outs
        return each(E, st, cs, src, f)
    return m


MODELS[IT + "all"] = quant(True)
MODELS[IT + "any"] = quant(False)
MODELS[PI + "all"] = quant(True)
MODELS[PI + "any"] = quant(False)


@model(IT + "fold", PI + "fold")
def it_fold(E, st, cs, info, a):
    def f(s, it):
        def body(s2, x, acc):
            return [(s3, "next", v) for s3, v in E.call_closure(s2, cs, a[2], [acc, x])]
        return [(q, v2) for q, v, v2 in seq_loop(E, s, cs, it, body, acc=a[1])]
    return each(E, st, cs, a[0], f)


def summer(op):
    def m(E, st, cs, info, a):
        t = E.tys[cs.dstty]
        if t["k"] == "float":
            init = fe("const", 0.0 if op == "add" else 1.0, bits=t["bits"])
        elif t["k"] == "int":
            init = ZERO if op == "add" else ONE
        else:
            return None

        def f(s, it):
            def body(s2, x, acc):
                x = deref(E, s2, x)
                if isinstance(acc, FE):
                    return [(s2, "next", fe(op, acc, E.tofloat(x), bits=acc.bits))]
                return [(s2, "next", acc + E.toint(x) if op == "add" else acc * E.toint(x))]
            return [(q, v2) for q, v, v2 in seq_loop(E, s, cs, it, body, acc=init)]
        return each(E, st, cs, a[0], f)
    return m


MODELS[IT + "sum"] = summer("add")
MODELS[IT + "product"] = summer("mul")
MODELS[PI + "sum"] = summer("add")


@model(IT + "max", IT + "min")
def it_max(E, st, cs, info, a):
    its = to_iter(E, st, cs, a[0])
    if its is None:
        return None
    out = []
    for s, it in its:
        n = it.end - it.pos
        for q in assume(s, ("ge", -n)):
            out.append((q, NONE))
        for q in assume(s, ("ge", n - 1)):
            x = E.fresh("max", FUZZY, None, None)
            out.append((q, some(x)))
    return out


@model(IT + "collect", PI + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def it_collect(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    if t["k"] != "adt":
        return None
    wrap = None
    if t["path"] == RES:
        wrap = t
        t = E.tys[t["args"][0][1]]
    if t.get("path") != "alloc::vec::Vec":
        return None
    ety = t["args"][0][1]

    def f(s, it):
        it = norm_it(it)
        s = s.copy()
        bid = E.new_buf(s, ety, "alloc")
        bb = s.bufs[bid]
        s.bufs[bid] = bb._replace(root=f"alloc")

        def body(s2, x, n):
            if wrap is not None:
                if isinstance(x, Enum) and x.tag == RES:
                    if x.v == 1:
                        return [(s2, ("exit", x), n)]
                    x = x.f[0]
                else:
                    s9 = s2.copy()
                    E.wr(s2, bid, n, Top(ety, "item", taint_of(x), "fuzzy"))
                    return [(s2, "next", n + 1), (s9, ("exit", Enum(RES, 1, (Top(0, "err", EMPTY, "fuzzy"),))), n)]
            E.wr(s2, bid, n, x)
            return [(s2, "next", n + 1)]
        out = []
        for q, v, n in seq_loop(E, s, cs, it, body, acc=ZERO):
            if v is not None:
                out.append((q, v))
            else:
                q.bufs[bid] = q.bufs[bid]._replace(length=n)
                q.evs = q.evs
                out.append((q, ok(Vec(bid, n)) if wrap is not None else Vec(bid, n)))
        return out
    return each(E, st, cs, a[0], f)


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append")
def v_extend(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    src = a[1]
    if info["fn"].endswith("extend_from_slice"):
        s = need_slice(E, st, src)
        E.wr_copy(st, v.buf, v.len, s.len, s.buf, s.off)
        E.store(st, (r.base, r.path), Vec(v.buf, v.len + s.len))
        st.bufs[v.buf] = st.bufs[v.buf]._replace(length=v.len + s.len)
        return [(st, UNIT)]

    def f(s, it):
        def body(s2, x, n):
            x = deref(E, s2, x) if isinstance(x, Ref) else x
            E.wr(s2, v.buf, v.len + n, x)
            return [(s2, "next", n + 1)]
        out = []
        for q, w, n in seq_loop(E, s, cs, it, body, acc=ZERO):
            E.store(q, (r.base, r.path), Vec(v.buf, v.len + n))
            q.bufs[v.buf] = q.bufs[v.buf]._replace(length=v.len + n)
            out.append((q, UNIT))
        return out
    return each(E, st, cs, src, f)


@model(IT + "find", IT + "position", IT + "find_map", IT + "rposition")
def it_find(E, st, cs, info, a):
    src = a[0]
    if isinstance(src, Ref):
        src = E.load(st, (src.base, src.path))
    kind = info["fn"].rsplit("::", 1)[1]
    E.ncell += 1

    def f(s, it):
        def body(s2, x, n):
            out = []
            arg = x
            if kind == "find":
                c = E.new_cell(s2, x)
                arg = Ref(("c", c), ())
            for s3, v in E.call_closure(s2, cs, a[1], [arg]):
                if not isinstance(v, BoolV):
                    v = E.opaque("pred", taint_of(v))
                for s4 in assume(s3, v.c):
                    out.append((s4, ("exit", some(x if kind == "find" else n)), n))
                for s4 in assume(s3, bnot(v.c)):
                    out.append((s4, "next", n + 1))
            return out
        return [(q, NONE if v is None else v) for q, v, _ in seq_loop(E, s, cs, it, body, acc=ZERO)]
    if kind == "find_map":
        return None
    return each(E, st, cs, src, f)


# ---------------------------------------------------------------- slices
@model("core::slice::<impl [T]>::len", "alloc::vec::Vec::<T, A>::len")
def s_len(E, st, cs, info, a):
    s = as_slice(E, st, a[0])
    if s is None:
        return None
    return [(st, s.len)]


@model("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::<T, A>::is_empty")
def s_is_empty(E, st, cs, info, a):
    s = as_slice(E, st, a[0])
    if s is None:
        return None
    return [(st, E.binop(st, cs.fr, "Eq", s.len, ZERO, USZ_TY(E)))]


def USZ_TY(E):
    k = "usz"
    if k not in E.memo:
        E.memo[k] = next(i for i, t in enumerate(E.tys) if t["s"] == "usize")
    return E.memo[k]


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
       "core::convert::AsMut::as_mut", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
       "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut")
def v_deref(E, st, cs, info, a):
    v = a[0]
    mut = info["fn"].endswith("_mut") or info["fn"].endswith("as_mut_slice")
    w = E.load(st, (v.base, v.path)) if isinstance(v, Ref) else v
    if isinstance(w, Top):
        w2 = E.expand(st, w)
        if w2 is not w and isinstance(v, Ref):
            E.store(st, (v.base, v.path), w2)
        w = w2
    if isinstance(w, (Vec, Arr)):
        return [(st, Slc(w.buf, ZERO, w.len, mut))]
    if isinstance(w, Slc):
        return [(st, w)]
    if isinstance(w, BoxS):
        return [(st, w.s)]
    if isinstance(w, BoxC):
        return [(st, Ref(("c", w.cell), (), mut))]
    if isinstance(w, StrV):
        return [(st, w)]
    return None


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "alloc::vec::Vec::<T, A>::as_ptr",
       "alloc::vec::Vec::<T, A>::as_mut_ptr")
def s_ptr(E, st, cs, info, a):
    s = as_slice(E, st, a[0])
    if s is None:
        return None
    return [(st, RawP(s.buf, s.off))]


@model("core::ptr::const_ptr::<impl *const T>::add", "core::ptr::mut_ptr::<impl *mut T>::add",
       "core::ptr::const_ptr::<impl *const T>::offset", "core::ptr::mut_ptr::<impl *mut T>::offset",
       "core::ptr::const_ptr::<impl *const T>::wrapping_add", "core::ptr::mut_ptr::<impl *mut T>::wrapping_add")
def p_add(E, st, cs, info, a):
    if isinstance(a[0], RawP):
        return [(st, RawP(a[0].buf, a[0].off + E.toint(a[1])))]
    return None


@model("core::ptr::const_ptr::<impl *const T>::cast", "core::ptr::mut_ptr::<impl *mut T>::cast",
       "core::ptr::mut_ptr::<impl *mut T>::cast_const", "core::ptr::const_ptr::<impl *const T>::cast_mut")
def p_cast(E, st, cs, info, a):
    return [(st, a[0])]


def raw_access(E, st, cs, p, n, what):
    """the raw access [p, p+n) must stay inside the buffer"""
    b = st.bufs.get(p.buf)
    L = b.length if b is not None else None
    if L is None:
        for c, v in st.cells.items():
            if isinstance(v, (Vec, Arr)) and v.buf == p.buf:
                L = v.len
    if L is None:
        return [st]
    out = []
    for s in E.oblige(st, "rawbounds", cs.fr, cs.line, ("ge", p.off), f"{what}: raw access starts inside the buffer", ordinal=(what, cs.b, 0)):
        out += E.oblige(s, "rawbounds", cs.fr, cs.line, ("ge", L - p.off - n),
                        f"{what}: raw access [{show(p.off)}, +{show(P(n))}) within {show(L)}", ordinal=(what, cs.b, 1))
    return out


@model("core::ptr::copy_nonoverlapping", "core::ptr::copy", "core::intrinsics::copy_nonoverlapping")
def copy_no(E, st, cs, info, a):
    if not (isinstance(a[0], RawP) and isinstance(a[1], RawP)):
        return None
    n = E.toint(a[2])
    out = []
    for s in raw_access(E, st, cs, a[0], n, "copy source"):
        for s2 in raw_access(E, s, cs, a[1], n, "copy destination"):
            E.wr_copy(s2, a[1].buf, a[1].off, n, a[0].buf, a[0].off)
            out.append((s2, UNIT))
    return out


@model("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read",
       "core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read_unaligned")
def p_read(E, st, cs, info, a):
    if not isinstance(a[0], RawP):
        return None
    return [(s, E.rd(s, a[0].buf, a[0].off)) for s in raw_access(E, st, cs, a[0], 1, "read")]


@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def p_write(E, st, cs, info, a):
    if not isinstance(a[0], RawP):
        return None
    out = []
    for s in raw_access(E, st, cs, a[0], 1, "write"):
        E.wr(s, a[0].buf, a[0].off, a[1])
        out.append((s, UNIT))
    return out


@model("core::slice::raw::from_raw_parts_mut", "core::slice::raw::from_raw_parts")
def from_raw(E, st, cs, info, a):
    if isinstance(a[0], RawP):
        n = E.toint(a[1])
        return [(s, Slc(a[0].buf, a[0].off, n, info["fn"].endswith("mut"))) for s in raw_access(E, st, cs, a[0], n, "from_raw_parts")]
    return None


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from(E, st, cs, info, a):
    d, s = need_slice(E, st, a[0], True), need_slice(E, st, a[1])
    out = []
    for q in E.oblige(st, "copylen", cs.fr, cs.line, ("eq", d.len - s.len), "copy_from_slice lengths equal", ordinal=("copy", cs.b)):
        q = q.copy()
        E.wr_copy(q, d.buf, d.off, d.len, s.buf, s.off)
        out.append((q, UNIT))
    return out


@model("core::slice::<impl [T]>::fill")
def s_fill(E, st, cs, info, a):
    d = need_slice(E, st, a[0], True)
    E.wr_fill(st, d.buf, d.off, d.len, a[1])
    return [(st, UNIT)]


@model("core::slice::<impl [T]>::copy_within")
def s_copy_within(E, st, cs, info, a):
    d = need_slice(E, st, a[0], True)
    r = a[1]
    out = []
    for q, lo, hi in range_bounds(E, st, cs, r, d.len):
        dest = E.toint(a[2])
        for q2 in E.oblige(q, "slice", cs.fr, cs.line, ("and", ("ge", hi - lo), ("and", ("ge", d.len - hi), ("ge", d.len - dest - hi + lo))), "copy_within range", ordinal=("cw", cs.b)):
            q2 = q2.copy()
            E.wr_copy(q2, d.buf, d.off + dest, hi - lo, d.buf, d.off + lo)
            out.append((q2, UNIT))
    return out


@model("core::slice::<impl [T]>::swap")
def s_swap(E, st, cs, info, a):
    d = need_slice(E, st, a[0], True)
    i, j = E.toint(a[1]), E.toint(a[2])
    out = []
    for q in E.oblige(st, "bounds", cs.fr, cs.line, ("and", ("ge", d.len - i - 1), ("ge", d.len - j - 1)), "swap indices in range", ordinal=("swap", cs.b)):
        q = q.copy()
        x, y = E.rd(q, d.buf, d.off + i), E.rd(q, d.buf, d.off + j)
        E.wr(q, d.buf, d.off + i, y)
        E.wr(q, d.buf, d.off + j, x)
        out.append((q, UNIT))
    return out


@model("core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_by",
       "core::slice::<impl [T]>::sort_unstable_by", "core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right")
def s_perm(E, st, cs, info, a):
    d = need_slice(E, st, a[0], True)
    out = [st]
    if "rotate" in info["fn"]:
        out = E.oblige(st, "slice", cs.fr, cs.line, ("ge", d.len - E.toint(a[1])), "rotate amount", ordinal=("rot", cs.b))
    res = []
    for q in out:
        q = q.copy()
        E.havoc_slice(q, d, EMPTY, "perm")
        res.append((q, UNIT))
    return res


def opt_ref(E, st, cs, s, idx, mut=False):
    return Ref(("b", s.buf, s.off + idx), (), mut)


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def s_get(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    if not isinstance(a[1], Poly):
        out = []
        for q, lo, hi in range_bounds(E, st, cs, a[1], s.len):
            good = ("and", ("ge", hi - lo), ("ge", s.len - hi))
            for q2 in assume(q, good):
                out.append((q2, some(Slc(s.buf, s.off + lo, hi - lo, s.mut))))
            for q2 in assume(q, bnot(good)):
                out.append((q2, NONE))
        return out
    i = a[1]
    return [(q, some(opt_ref(E, q, cs, s, i, info["fn"].endswith("mut")))) for q in assume(st, ("ge", s.len - i - 1))] + \
           [(q, NONE) for q in assume(st, ("ge", i - s.len))]


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut")
def s_last(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    i = ZERO if "first" in info["fn"].rsplit("::", 1)[1] else s.len - 1
    return [(q, some(opt_ref(E, q, cs, s, i))) for q in assume(st, ("ge", s.len - 1))] + [(q, NONE) for q in assume(st, ("ge", -s.len))]


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def s_getu(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    if not isinstance(a[1], Poly):
        return None
    return [(q, opt_ref(E, q, cs, s, a[1], info["fn"].endswith("mut"))) for q in
            E.oblige(st, "rawbounds", cs.fr, cs.line, ("ge", s.len - a[1] - 1), "get_unchecked in range", ordinal=("getu", cs.b))]


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def s_split(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    m = E.toint(a[1])
    mut = info["fn"].endswith("mut")
    return [(q, tup(Slc(s.buf, s.off, m, mut), Slc(s.buf, s.off + m, s.len - m, mut)))
            for q in E.oblige(st, "slice", cs.fr, cs.line, ("ge", s.len - m), f"split_at({show(m)}) within {show(s.len)}", ordinal=("split", cs.b))]


@model("core::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned", "alloc::slice::<impl [T]>::into_vec")
def s_to_vec(E, st, cs, info, a):
    s = need_slice(E, st, a[0])
    src = st.bufs.get(s.buf)
    if src is None:
        E.rd(st, s.buf, s.off)
        src = st.bufs[s.buf]
    st = st.copy()
    b = E.new_buf(st, src.ety, "alloc", length=s.len)
    st.bufs[b] = st.bufs[b]._replace(log=(("r", ZERO, s.len, src, s.off),))
    return [(st, Vec(b, s.len))]


def range_bounds(E, st, cs, r, n):
    """list of (state, lo, hi) of a range argument over a sequence of length n"""
    if isinstance(r, Struct):
        t = str(r.tag)
        if t.endswith("RangeFull"):
            return [(st, ZERO, n)]
        if t.endswith("::Range"):
            return [(st, E.toint(r.f[0]), E.toint(r.f[1]))]
        if t.endswith("RangeTo"):
            return [(st, ZERO, E.toint(r.f[0]))]
        if t.endswith("RangeFrom"):
            return [(st, E.toint(r.f[0]), n)]
        if t.endswith("RangeInclusive") or t.endswith("RangeToInclusive"):
            if t.endswith("RangeToInclusive"):
                return [(st, ZERO, E.toint(r.f[0]) + 1)]
            return [(st, E.toint(r.f[0]), E.toint(r.f[1]) + 1)]
        if r.tag == "zst":
            return [(st, ZERO, n)]
    return []


@model("core::ops::range::RangeInclusive::<Idx>::new")
def ri_new(E, st, cs, info, a):
    return [(st, Struct("core::ops::range::RangeInclusive", (a[0], a[1])))]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def x_index(E, st, cs, info, a):
    mut = info["fn"].endswith("_mut")
    if isinstance(deref(E, st, a[0]), StrV):
        return None
    s = as_slice(E, st, a[0], mut)
    if s is None:
        return None
    s = s._replace(mut=s.mut or mut)
    ix = a[1]
    if isinstance(ix, Poly):
        return [(q, opt_ref(E, q, cs, s, ix, mut)) for q in
                E.oblige(st, "bounds", cs.fr, cs.line, ("and", ("ge", ix), ("ge", s.len - ix - 1)), f"index {show(ix)} < length {show(s.len)}", ordinal=("ix", cs.b))]
    out = []
    rb = range_bounds(E, st, cs, ix, s.len)
    if not rb:
        return None
    for q, lo, hi in rb:
        full = not lo.t and hi == s.len
        sts = [q] if full else E.oblige(q, "slice", cs.fr, cs.line, ("and", ("ge", hi - lo), ("ge", s.len - hi)),
                                         f"range {show(lo)}..{show(hi)} within length {show(s.len)}", ordinal=("rng", cs.b))
        for q2 in sts:
            out.append((q2, Slc(s.buf, s.off + lo, hi - lo, s.mut)))
    return out


# ---------------------------------------------------------------- vec
@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::with_capacity_in", "alloc::vec::Vec::<T, A>::new_in")
def v_new(E, st, cs, info, a):
    ety = info["args"][0][1] if info.get("args") else E.tys[cs.dstty]["args"][0][1]
    st = st.copy()
    b = E.new_buf(st, ety, "alloc", length=ZERO)
    return [(st, Vec(b, ZERO))]


@model("alloc::vec::from_elem")
def v_from_elem(E, st, cs, info, a):
    n = E.toint(a[1])
    ety = info["args"][0][1]
    st = st.copy()
    base = a[0]
    if isinstance(base, Vec):
        # vec![Vec::..; n]: every element is its own vector of that length and content
        b = E.new_buf(st, ety, "alloc", base=("fill", base), length=n)
        return [(st, Vec(b, n))]
    b = E.new_buf(st, ety, "alloc", base=("fill", base), length=n)
    return [(st, Vec(b, n))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec")
def box_vec(E, st, cs, info, a):
    v = a[0]
    if isinstance(v, BoxC):
        w = st.cells.get(v.cell)
        while isinstance(w, Struct) and len(w.f) == 1:
            w = w.f[0]
        if isinstance(w, Struct) and len(w.f) == 2:
            w = w.f[1]
            while isinstance(w, Struct) and len(w.f) == 1:
                w = w.f[0]
        if isinstance(w, Arr):
            return [(st, Vec(w.buf, w.len))]
    t = E.tys[cs.dstty]
    # vec![..] literal: length from the array type argument
    n = None
    for x in info.get("args", []):
        if x[0] == "c":
            n = E.const_len(x[1])
    if n is None and isinstance(v, BoxC):
        n = None
    b = E.new_buf(st, t["args"][0][1], "alloc", length=n)
    return [(st, Vec(b, n if n is not None else E.fresh("veclen", FUZZY)))]


@model("alloc::boxed::Box::<T>::new_uninit")
def box_uninit(E, st, cs, info, a):
    c = E.new_cell(st, UNINIT)
    return [(st, BoxC(c))]


@model("alloc::boxed::Box::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::rcs::arc::Arc::<T>::new", "alloc::rc::Rc::<T>::new")
def box_new(E, st, cs, info, a):
    return [(st, BoxC(E.new_cell(st, a[0])))]


@model("alloc::vec::Vec::<T, A>::push")
def v_push(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    st = st.copy()
    E.wr(st, v.buf, v.len, a[1])
    E.store(st, (r.base, r.path), Vec(v.buf, v.len + 1))
    st.bufs[v.buf] = st.bufs[v.buf]._replace(length=v.len + 1)
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::pop")
def v_pop(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    out = []
    for q in assume(st, ("ge", v.len - 1)):
        q = q.copy()
        x = E.rd(q, v.buf, v.len - 1)
        E.store(q, (r.base, r.path), Vec(v.buf, v.len - 1))
        out.append((q, some(x)))
    for q in assume(st, ("ge", -v.len)):
        out.append((q, NONE))
    return out


def v_setlen(E, q, r, v, n):
    E.store(q, (r.base, r.path), Vec(v.buf, n))
    q.bufs[v.buf] = q.bufs[v.buf]._replace(length=n)


@model("alloc::vec::Vec::<T, A>::resize")
def v_resize(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    n = E.toint(a[1])
    out = []
    for q in assume(st, ("ge", n - v.len)):
        q = q.copy()
        if not (n - v.len).t:
            out.append((q, UNIT))
            continue
        E.wr_fill(q, v.buf, v.len, n - v.len, a[2])
        v_setlen(E, q, r, v, n)
        out.append((q, UNIT))
    for q in assume(st, ("ge", v.len - n - 1)):
        q = q.copy()
        v_setlen(E, q, r, v, n)
        out.append((q, UNIT))
    return out


@model("alloc::vec::Vec::<T, A>::truncate")
def v_truncate(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    n = E.toint(a[1])
    out = []
    for q in assume(st, ("ge", n - v.len)):
        out.append((q, UNIT))
    for q in assume(st, ("ge", v.len - n - 1)):
        q = q.copy()
        v_setlen(E, q, r, v, n)
        out.append((q, UNIT))
    return out


@model("alloc::vec::Vec::<T, A>::set_len")
def v_set_len(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    n = E.toint(a[1])
    st = st.copy()
    b = st.bufs[v.buf]
    if not st.ent_ge(v.len - n):
        E.oblige(st.copy(), "uninit", cs.fr, cs.line, ("ge", v.len - n), "set_len exposes no unwritten element", ordinal=("set_len", cs.b))
        E.mark = True
        st.eff = st.eff | {("uninit", cs.fn.path)}
        st.bufs[v.buf] = b._replace(root="uninit", taint=b.taint | {"uninit"})
    v_setlen(E, st, r, v, n)
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::clear")
def v_clear(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    st = st.copy()
    v_setlen(E, st, r, v, ZERO)
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact", "alloc::vec::Vec::<T, A>::shrink_to_fit")
def v_reserve(E, st, cs, info, a):
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::drain")
def v_drain(E, st, cs, info, a):
    r = a[0]
    v = E.load(st, (r.base, r.path))
    if not isinstance(v, Vec):
        return None
    out = []
    for q, lo, hi in range_bounds(E, st, cs, a[1], v.len):
        for q2 in E.oblige(q, "slice", cs.fr, cs.line, ("and", ("ge", hi - lo), ("ge", v.len - hi)), "drain range", ordinal=("drain", cs.b)):
            q2 = q2.copy()
            src = q2.bufs[v.buf]
            sb = E.new_buf(q2, src.ety, src.root, length=hi - lo)
            q2.bufs[sb] = src._replace(length=None)
            nb = E.new_buf(q2, src.ety, src.root, length=v.len - hi + lo)
            q2.bufs[nb] = q2.bufs[nb]._replace(log=(("r", ZERO, lo, src, ZERO), ("r", lo, v.len - hi, src, hi)), taint=EMPTY)
            E.store(q2, (r.base, r.path), Vec(nb, v.len - hi + lo))
            out.append((q2, Iter(("vals", sb, lo), ZERO, hi - lo)))
    return out


@model("core::convert::From::from", "core::convert::Into::into")
def from_(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    v = a[0]
    if t["k"] == "adt" and t["path"] in ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::boxed::Box", "alloc::rc::Rc"):
        e = E.tys[t["args"][0][1]]
        if e["k"] == "slice":
            s = as_slice(E, st, v)
            if s is not None:
                return [(st, BoxS(Slc(s.buf, s.off, s.len)))]
    if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
        s = as_slice(E, st, v)
        if s is not None:
            return s_to_vec(E, st, cs, info, a)
    if t["k"] == "float":
        x = E.tofloat(v, t["bits"])
        if x.bits != t["bits"]:
            x = fe("cast", x, bits=t["bits"])
        return [(st, x)]
    if t["k"] == "int" and isinstance(v, Poly):
        return [(st, v)]
    if isinstance(v, (Struct, Enum)) and t["k"] == "adt" and v.tag == t.get("path"):
        return [(st, v)]
    return None


@model("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned")
def clone(E, st, cs, info, a):
    v = deref1(E, st, a[0])
    if isinstance(v, (Vec, Arr)):
        st = st.copy()
        src = st.bufs.get(v.buf)
        if src is None:
            E.rd(st, v.buf, ZERO)
            src = st.bufs[v.buf]
        b = E.new_buf(st, src.ety, "alloc", length=v.len)
        st.bufs[b] = st.bufs[b]._replace(log=(("r", ZERO, v.len, src, ZERO),))
        return [(st, type(v)(b, v.len))]
    if isinstance(v, Slc):
        return [(st, v)]
    return [(st, v)]


# ---------------------------------------------------------------- mem
@model("core::mem::swap")
def m_swap(E, st, cs, info, a):
    st = st.copy()
    x, y = E.load(st, (a[0].base, a[0].path)), E.load(st, (a[1].base, a[1].path))
    E.store(st, (a[0].base, a[0].path), y)
    E.store(st, (a[1].base, a[1].path), x)
    return [(st, UNIT)]


@model("core::mem::take")
def m_take(E, st, cs, info, a):
    st = st.copy()
    r = a[0]
    v = E.load(st, (r.base, r.path))
    t = E.tys[cs.dstty]
    if isinstance(v, Vec) or (t["k"] == "adt" and t["path"] == "alloc::vec::Vec"):
        if isinstance(v, Top):
            v = E.fresh_val(st, cs.dstty, v.name, v.taint, v.kind)
        b = E.new_buf(st, t["args"][0][1], "alloc", length=ZERO)
        E.store(st, (r.base, r.path), Vec(b, ZERO))
        return [(st, v)]
    if t["k"] in ("ref",) and isinstance(v, Slc):
        E.store(st, (r.base, r.path), Slc(v.buf, v.off, ZERO, v.mut))
        return [(st, v)]
    if isinstance(v, Enum) and v.tag == OPT:
        E.store(st, (r.base, r.path), NONE)
        return [(st, v)]
    if isinstance(v, FE):
        E.store(st, (r.base, r.path), fe("const", 0.0, bits=v.bits))
        return [(st, v)]
    if isinstance(v, Poly):
        E.store(st, (r.base, r.path), ZERO)
        return [(st, v)]
    return None


@model("core::mem::replace")
def m_replace(E, st, cs, info, a):
    st = st.copy()
    v = E.load(st, (a[0].base, a[0].path))
    E.store(st, (a[0].base, a[0].path), a[1])
    return [(st, v)]


@model("core::mem::size_of", "core::mem::align_of", "core::mem::size_of_val")
def m_size(E, st, cs, info, a):
    try:
        t = E.tys[info["args"][0][1]]
        n = size_of(E, t)
        if n is not None:
            return [(st, P(n))]
    except Exception:
        pass
    return [(st, E.fresh("size", FUZZY, 1, 4096))]


def size_of(E, t):
    if t["k"] in ("float", "int"):
        return t["bits"] // 8
    if t["k"] == "adt" and t.get("variants"):
        r = [size_of(E, E.tys[f[1]]) for f in t["variants"][0]["fields"]]
        return sum(r) if all(r) else None
    return None


@model("core::mem::drop", "core::mem::forget")
def m_drop(E, st, cs, info, a):
    return [(st, UNIT)]


@model("core::intrinsics::transmute", "core::mem::transmute")
def m_transmute(E, st, cs, info, a):
    return [(st, a[0])]


@model("core::default::Default::default")
def default(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    st = st.copy()
    return [(st, default_val(E, st, cs.dstty))]


def default_val(E, st, ty):
    t = E.tys[ty]
    k = t["k"]
    if k == "float":
        return fe("const", 0.0, bits=t["bits"])
    if k == "int":
        return ZERO
    if k == "bool":
        return FALSE
    if k == "adt" and t["path"] == "alloc::vec::Vec":
        return Vec(E.new_buf(st, t["args"][0][1], "alloc", length=ZERO), ZERO)
    if k == "adt" and t["path"].endswith("HashMap"):
        return MapV("new", t["args"][0][1], t["args"][1][1])
    if k == "adt" and t["path"] == OPT:
        return NONE
    if k == "adt" and t["path"] == "alloc::string::String":
        return StrV("")
    return E.fresh_val(st, ty, "default", EMPTY, FUZZY)


# ---------------------------------------------------------------- option / result
def variant(E, st, v, ty=None):
    if isinstance(v, Enum):
        return v
    return None


def split_enum(E, st, v):
    """(state, Enum) alternatives of an Option/Result value"""
    if isinstance(v, Enum):
        return [(st, v)]
    if isinstance(v, Top):
        t = E.tys[v.ty]
        if t.get("variants"):
            out = []
            for i, var in enumerate(t["variants"]):
                s = st.copy()
                fs = tuple(E.fresh_val(s, f[1], v.name, v.taint, v.kind if v.kind in (INPUT, HIST) else FUZZY) for f in var["fields"])
                out.append((s, Enum(t["path"], i, fs)))
            return out
    return None


@model("core::ops::try_trait::Try::branch")
def try_branch(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    out = []
    CF = "core::ops::control_flow::ControlFlow"
    for s, v in r:
        if v.tag == RES:
            out.append((s, Enum(CF, 0, v.f) if v.v == 0 else Enum(CF, 1, (Enum(RES, 1, v.f),))))
        else:
            out.append((s, Enum(CF, 0, v.f) if v.v == 1 else Enum(CF, 1, (NONE,))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(E, st, cs, info, a):
    return [(st, a[0])]


@model("core::option::Option::<T>::unwrap", "core::option::Option::<T>::expect", "core::result::Result::<T, E>::unwrap",
       "core::result::Result::<T, E>::expect")
def unwrap(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        good = (v.v == 0) if v.tag == RES else (v.v == 1)
        if good:
            if not E.mute:
                E.log.append(((cs.fr.fn.path, "unwrap", cs.b), "unwrap", cs.fr, cs.line, "unwrap", "ok", None))
            out.append((s, v.f[0]))
        else:
            E.reach(s, "unwrap", cs.fr, cs.line, "unwrap of " + ("Err" if v.tag == RES else "None"))
    return out


@model("core::option::Option::<T>::unwrap_or", "core::result::Result::<T, E>::unwrap_or")
def unwrap_or(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    return [(s, v.f[0] if (v.v == 0) == (v.tag == RES) else a[1]) for s, v in r]


@model("core::option::Option::<T>::unwrap_or_else", "core::result::Result::<T, E>::unwrap_or_else")
def unwrap_or_else(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if (v.v == 0) == (v.tag == RES):
            out.append((s, v.f[0]))
        else:
            out += E.call_closure(s, cs, a[1], [v.f[0]] if v.tag == RES else [])
    return out


@model("core::option::Option::<T>::unwrap_or_default")
def unwrap_or_default(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    return [(s, v.f[0] if v.v == 1 else default_val(E, s, cs.dstty)) for s, v in r]


@model("core::option::Option::<T>::map")
def opt_map(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v.v == 1:
            out += [(s2, some(x)) for s2, x in E.call_closure(s, cs, a[1], [v.f[0]])]
        else:
            out.append((s, NONE))
    return out


@model("core::result::Result::<T, E>::map", "core::result::Result::<T, E>::map_err", "core::result::Result::<T, E>::and_then")
def res_map(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    k = info["fn"].rsplit("::", 1)[1]
    out = []
    for s, v in r:
        if v.v == 0:
            if k == "map":
                out += [(s2, ok(x)) for s2, x in E.call_closure(s, cs, a[1], [v.f[0]])]
            elif k == "and_then":
                out += E.call_closure(s, cs, a[1], [v.f[0]])
            else:
                out.append((s, v))
        else:
            if k == "map_err":
                out += [(s2, err(x)) for s2, x in E.call_closure(s, cs, a[1], [v.f[0]])]
            else:
                out.append((s, v))
    return out


@model("core::option::Option::<T>::and_then")
def opt_and_then(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    out = []
    for s, v in r:
        if v.v == 1:
            out += E.call_closure(s, cs, a[1], [v.f[0]])
        else:
            out.append((s, NONE))
    return out


@model("core::option::Option::<T>::map_or", "core::option::Option::<T>::map_or_else", "core::option::Option::<T>::is_some_and", "core::option::Option::<T>::is_none_or")
def opt_map_or(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    k = info["fn"].rsplit("::", 1)[1]
    out = []
    for s, v in r:
        if v.v == 1:
            out += E.call_closure(s, cs, a[-1], [v.f[0]])
        elif k == "map_or":
            out.append((s, a[1]))
        elif k == "map_or_else":
            out += E.call_closure(s, cs, a[1], [])
        else:
            out.append((s, FALSE if k == "is_some_and" else TRUE))
    return out


@model("core::result::Result::<T, E>::ok")
def res_ok(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    return [(s, some(v.f[0]) if v.v == 0 else NONE) for s, v in r]


@model("core::option::Option::<T>::ok_or")
def ok_or(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    return [(s, ok(v.f[0]) if v.v == 1 else err(a[1])) for s, v in r]


@model("core::option::Option::<T>::is_some", "core::option::Option::<T>::is_none", "core::result::Result::<T, E>::is_ok", "core::result::Result::<T, E>::is_err")
def is_some(E, st, cs, info, a):
    r = a[0]
    v = deref1(E, st, r)
    alts = split_enum(E, st, v)
    if alts is None:
        return None
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[info["fn"].rsplit("::", 1)[1]]
    out = []
    for s, e in alts:
        if e is not v and isinstance(r, Ref):
            E.store(s, (r.base, r.path), e)
        out.append((s, TRUE if e.v == want else FALSE))
    return out


@model("core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_mut", "core::option::Option::<T>::as_deref")
def opt_as_ref(E, st, cs, info, a):
    r = a[0]
    v = deref1(E, st, r)
    alts = split_enum(E, st, v)
    if alts is None or not isinstance(r, Ref):
        return None
    out = []
    for s, e in alts:
        if e is not v:
            E.store(s, (r.base, r.path), e)
        out.append((s, NONE if e.v == 0 else some(Ref(r.base, r.path + (("v", 1), ("f", 0, 0)), r.mut))))
    return out


@model("core::option::Option::<&T>::copied", "core::option::Option::<&T>::cloned")
def opt_copied(E, st, cs, info, a):
    r = split_enum(E, st, a[0])
    if r is None:
        return None
    return [(s, NONE if v.v == 0 else some(deref1(E, s, v.f[0]))) for s, v in r]


# ---------------------------------------------------------------- integers
@model("core::num::<impl usize>::is_power_of_two", "core::num::<impl u32>::is_power_of_two", "core::num::<impl u64>::is_power_of_two")
def is_pow2(E, st, cs, info, a):
    p = E.toint(a[0])
    if p.is_const():
        return [(st, TRUE if p.const > 0 and p.const & (p.const - 1) == 0 else FALSE)]
    return [(st, BoolV(("pow2", p)))]


@model("core::num::<impl usize>::next_power_of_two")
def npot_(E, st, cs, info, a):
    p = E.toint(a[0])
    if p.is_const():
        from .poly import npot
        return [(st, P(npot(p.const)))]
    if st._is_pow2(p):
        return [(st, p)]
    st = st.copy()
    if st.npow2 and p in st.npow2:
        pass
    # result must be representable
    out = []
    for s in E.oblige(st, "overflow", cs.fr, cs.line, ("ge", P(1 << 63) - p), "next_power_of_two overflows", ordinal=("npot", cs.b)):
        x, cons = derived("npot", [p])
        s = s.copy()
        for c in cons:
            s.cons = s.cons | {c}
        s.pow2 = s.pow2 | {x}
        if s.ent_ge(p - 1):
            s.cons = s.cons | {p.scale(2) - x - (0 if not s.ent_ge(p - 2) else 1)}
        out.append((s, x))
    return out


def mulof(E, st, cs, info, a):
    x, y = E.toint(a[0]), E.toint(a[1])
    if st.ent_ge(y - 1):
        r = x - y * E.mkdiv(st, x, y)
        return [(st, E.binop(st, cs.fr, "Eq", r, ZERO, USZ_TY(E)))]
    out = []
    for s in assume(st, ("eq", y)):
        out.append((s, E.binop(s, cs.fr, "Eq", x, ZERO, USZ_TY(E))))
    for s in assume(st, ("ge", y - 1)):
        s = s.copy()
        r = x - y * E.mkdiv(s, x, y)
        out.append((s, E.binop(s, cs.fr, "Eq", r, ZERO, USZ_TY(E))))
    return out


for _t in ("usize", "u32", "u64", "u8"):
    MODELS[f"core::num::<impl {_t}>::is_multiple_of"] = mulof


@model("core::num::<impl usize>::div_ceil", "core::num::<impl u32>::div_ceil", "core::num::<impl u64>::div_ceil")
def div_ceil(E, st, cs, info, a):
    x, y = E.toint(a[0]), E.toint(a[1])
    out = []
    for s in E.oblige(st, "div0", cs.fr, cs.line, ("ge", y - 1), "div_ceil by zero", ordinal=("dc", cs.b)):
        s = s.copy()
        q = E.mkdiv(s, x + y - 1, y)
        out.append((s, q))
    return out


def un_int(op):
    def f(E, st, cs, info, a):
        p = E.toint(a[0])
        if p.is_const():
            v = p.const
            r = {"popcnt": bin(v).count("1"), "tz": 64 if v == 0 else (v & -v).bit_length() - 1, "lz": 64 - v.bit_length()}[op]
            return [(st, P(r))]
        x, _ = derived(op, [p])
        return [(st, x)]
    return f


for _t in ("usize", "u64"):
    MODELS[f"core::num::<impl {_t}>::count_ones"] = un_int("popcnt")
    MODELS[f"core::num::<impl {_t}>::trailing_zeros"] = un_int("tz")
    MODELS[f"core::num::<impl {_t}>::leading_zeros"] = un_int("lz")


def arith(op, mode):
    def f(E, st, cs, info, a):
        x, y = E.toint(a[0]), E.toint(a[1])
        lo, hi = E.int_range(E.tys[USZ_TY(E)])
        r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
        fit = ("and", ("ge", r), ("ge", P(hi) - r))
        out = []
        for s in assume(st, fit):
            out.append((s, r if mode != "checked" else some(r)))
        for s in assume(st, bnot(fit)):
            if mode == "checked":
                out.append((s, NONE))
            elif mode == "saturating":
                out.append((s, ZERO if op == "sub" else P(hi)))
            else:
                out.append((s, r + (hi + 1) if op == "sub" else E.fresh("wrap", FUZZY)))
        return out
    return f


for _o in ("add", "sub", "mul"):
    for _m in ("checked", "saturating", "wrapping"):
        MODELS[f"core::num::<impl usize>::{_m}_{_o}"] = arith(_o, _m)


@model("core::num::<impl usize>::abs_diff")
def abs_diff(E, st, cs, info, a):
    x, y = E.toint(a[0]), E.toint(a[1])
    return [(s, x - y) for s in assume(st, ("ge", x - y))] + [(s, y - x) for s in assume(st, ("ge", y - x - 1))]


def minmax(which):
    def f(E, st, cs, info, a):
        x, y = a[0], a[1]
        if isinstance(x, FE) or isinstance(y, FE):
            return [(st, fe(which, E.tofloat(x), E.tofloat(y), bits=x.bits))]
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            return None
        hi, lo = (x, y) if which == "max" else (y, x)
        # returns x when x>=y (max) / x<=y (min)
        if st.ent_ge(hi - lo):
            return [(st, x)]
        if st.ent_ge(lo - hi):
            return [(st, y)]
        return [(s, x) for s in assume(st, ("ge", hi - lo))] + [(s, y) for s in assume(st, ("ge", lo - hi - 1))]
    return f


for _p in ("core::cmp::max", "core::cmp::Ord::max", "core::f32::<impl f32>::max", "core::f64::<impl f64>::max"):
    MODELS[_p] = minmax("max")
for _p in ("core::cmp::min", "core::cmp::Ord::min", "core::f32::<impl f32>::min", "core::f64::<impl f64>::min"):
    MODELS[_p] = minmax("min")


@model("core::cmp::Ord::clamp")
def ord_clamp(E, st, cs, info, a):
    out = []
    for s, v in minmax("max")(E, st, cs, info, [a[0], a[1]]):
        out += minmax("min")(E, s, cs, info, [v, a[2]])
    return out


# ---------------------------------------------------------------- equality / arithmetic traits on std types
@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def p_eq(E, st, cs, info, a):
    x, y = deref(E, st, a[0]), deref(E, st, a[1])
    neg = info["fn"].endswith("::ne")
    if isinstance(x, Struct) and x.tag == "typeid" and isinstance(y, Struct) and y.tag == "typeid":
        if x.f[0] is None or y.f[0] is None:
            return [(st, E.opaque("typeid"))]
        return [(st, TRUE if (x.f == y.f) != neg else FALSE)]
    if isinstance(x, (Poly, FE)) and isinstance(y, (Poly, FE)):
        ty = USZ_TY(E)
        return [(st, E.binop(st, cs.fr, "Ne" if neg else "Eq", x, y, ty))]
    if isinstance(x, Enum) and isinstance(y, Enum) and x.tag == y.tag:
        if x.v != y.v:
            return [(st, TRUE if neg else FALSE)]
        if not x.f:
            return [(st, FALSE if neg else TRUE)]
        if len(x.f) == 1 == len(y.f) and isinstance(x.f[0], Poly) and isinstance(y.f[0], Poly):
            return [(st, E.binop(st, cs.fr, "Ne" if neg else "Eq", x.f[0], y.f[0], USZ_TY(E)))]
    t = taint_of(x, st) | taint_of(y, st)
    return [(st, E.opaque("eq", t))]


def fop(op):
    def f(E, st, cs, info, a):
        x, y = deref(E, st, a[0]), deref(E, st, a[1]) if len(a) > 1 else None
        if isinstance(x, FE) or isinstance(y, FE):
            x = E.tofloat(x)
            if y is None:
                return [(st, fe(op, x, bits=x.bits))]
            return [(st, fe(op, x, E.tofloat(y), bits=x.bits))]
        if isinstance(x, Poly) and isinstance(y, Poly):
            if op == "add":
                return [(st, x + y)]
            if op == "mul":
                return [(st, x * y)]
            if op == "sub":
                return [(st, x - y)]
        if isinstance(x, Top) and E.tys[x.ty]["k"] == "param":
            t = taint_of(x) | (taint_of(y) if y is not None else EMPTY)
            return [(st, Top(x.ty, "op", t, "fuzzy"))]
        return None
    return f


for _o, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Neg", "neg"), ("Rem", "rem")):
    MODELS[f"core::ops::arith::{_o}::{_m}"] = fop(_m)


def assign_op(op):
    def f(E, st, cs, info, a):
        r = a[0]
        v = E.load(st, (r.base, r.path))
        y = deref(E, st, a[1])
        st = st.copy()
        if isinstance(v, FE):
            E.store(st, (r.base, r.path), fe(op, v, E.tofloat(y), bits=v.bits))
            return [(st, UNIT)]
        if isinstance(v, Poly) and isinstance(y, Poly) and op in ("add", "mul", "sub"):
            E.store(st, (r.base, r.path), v + y if op == "add" else v * y if op == "mul" else v - y)
            return [(st, UNIT)]
        return None
    return f


for _o, _m in (("AddAssign", "add"), ("SubAssign", "sub"), ("MulAssign", "mul"), ("DivAssign", "div")):
    MODELS[f"core::ops::arith::{_o}::{_m}_assign"] = assign_op(_m)


# ---------------------------------------------------------------- floats
def fcall(name, n=1):
    def f(E, st, cs, info, a):
        xs = [E.tofloat(deref(E, st, v)) for v in a]
        return [(st, fe("call", name, *xs, bits=xs[0].bits))]
    return f


for _b in ("f32", "f64"):
    for _n in ("sin", "cos", "tan", "sqrt", "ln", "log10", "log2", "exp", "powf", "powi", "floor", "ceil", "round", "trunc", "abs",
               "atan2", "hypot", "signum", "recip", "exp2", "tanh", "sinh", "cosh", "fract", "copysign", "to_radians", "acos", "asin", "atan"):
        for _pre in (f"std::{_b}::<impl {_b}>::", f"core::{_b}::<impl {_b}>::"):
            MODELS[_pre + _n] = fcall({"ln": "log", "powf": "pow"}.get(_n, _n))
    for _pre in (f"std::{_b}::<impl {_b}>::", f"core::{_b}::<impl {_b}>::"):
        MODELS[_pre + "mul_add"] = lambda E, st, cs, info, a: [(st, fe("add", fe("mul", E.tofloat(a[0]), E.tofloat(a[1]), bits=E.tofloat(a[0]).bits), E.tofloat(a[2]), bits=E.tofloat(a[0]).bits))]
        MODELS[_pre + "sin_cos"] = lambda E, st, cs, info, a: [(st, tup(fe("call", "sin", E.tofloat(a[0]), bits=E.tofloat(a[0]).bits), fe("call", "cos", E.tofloat(a[0]), bits=E.tofloat(a[0]).bits)))]
        MODELS[_pre + "clamp"] = fcall("clamp")
        MODELS[_pre + "is_nan"] = lambda E, st, cs, info, a: [(st, BoolV(("opq", ("isnan", E.tofloat(a[0])), E.tofloat(a[0]).taint)))]
        MODELS[_pre + "is_finite"] = lambda E, st, cs, info, a: [(st, BoolV(("opq", ("isfin", E.tofloat(a[0])), E.tofloat(a[0]).taint)))]
        MODELS[_pre + "to_bits"] = lambda E, st, cs, info, a: [(st, E.fresh("bits", FUZZY, 0, (1 << 64) - 1))]
for _n, _m in (("cosf", "cos"), ("sinf", "sin"), ("sqrtf", "sqrt"), ("logf", "log"), ("log10f", "log10"), ("powf", "pow"), ("fabsf", "abs"),
               ("floorf", "floor"), ("expf", "exp"), ("log2f", "log2"), ("roundf", "round"), ("ceilf", "ceil"), ("tanf", "tan"),
               ("cos", "cos"), ("sin", "sin"), ("sqrt", "sqrt"), ("log", "log"), ("log10", "log10"), ("pow", "pow"), ("fabs", "abs"),
               ("floor", "floor"), ("exp", "exp"), ("atan2f", "atan2"), ("hypotf", "hypot")):
    MODELS[f"libm::math::{_n}::{_n}"] = fcall(_m)
    MODELS[f"libm::math::{_n[:-1]}::{_n}"] = fcall(_m)
    MODELS[f"libm::math::{_n}"] = fcall(_m)


@model("colorous::gradient::Gradient::eval_continuous", "colorous::gradient::Gradient::eval_rational")
def grad(E, st, cs, info, a):
    E.uid += 1
    return [(st, E.fresh_val(st, cs.dstty, f"color#{E.uid}", taint_of(a[1], st), INPUT))]


@model("libm::math::fmaf::fmaf", "libm::math::fma::fmaf", "libm::math::fma::fma", "libm::math::fmaf", "libm::math::generic::fma")
def libm_fma(E, st, cs, info, a):
    x = [E.tofloat(v) for v in a]
    return [(st, fe("add", fe("mul", x[0], x[1], bits=x[0].bits), x[2], bits=x[0].bits))]


@model("libm::math::sincosf::sincosf", "libm::math::sincos::sincos")
def libm_sincos(E, st, cs, info, a):
    x = E.tofloat(a[0])
    return [(st, tup(fe("call", "sin", x, bits=x.bits), fe("call", "cos", x, bits=x.bits)))]


# ---------------------------------------------------------------- SIMD (lane-wise)
def lanes(v, n):
    if isinstance(v, Lanes):
        return v.e
    return None


def simd(op):
    def f(E, st, cs, info, a):
        ls = [lanes(v, 0) for v in a]
        if any(x is None for x in ls):
            return None
        n = len(ls[0])
        return [(st, Lanes(tuple(op(*[x[i] for x in ls]) for i in range(n))))]
    return f


def b2(o):
    return lambda x, y: fe(o, x, y, bits=x.bits)


def fma3(s1, s2):
    def f(x, y, z):
        m = fe("mul", x, y, bits=x.bits)
        if s1 < 0:
            m = fe("neg", m, bits=x.bits)
        return fe("add" if s2 > 0 else "sub", m, z, bits=x.bits)
    return f


X86 = "core::core_arch::x86::"
for _mod, _pre, _suf, _n in (("sse", "_mm_", "ps", 4), ("sse2", "_mm_", "pd", 2), ("avx", "_mm256_", "ps", 8), ("avx", "_mm256_", "pd", 4)):
    for _o, _f in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "div")):
        MODELS[f"{X86}{_mod}::{_pre}{_o}_{_suf}"] = simd(b2(_f))
    _bits = 32 if _suf == "ps" else 64

    def _set1(n):
        return lambda E, st, cs, info, a: [(st, Lanes((E.tofloat(a[0]),) * n))]

    def _setzero(n, bits):
        return lambda E, st, cs, info, a: [(st, Lanes((fe("const", 0.0, bits=bits),) * n))]

    def _set(n, rev):
        return lambda E, st, cs, info, a: [(st, Lanes(tuple(E.tofloat(x) for x in (a[::-1] if rev else a))))]

    def _load(n):
        def f(E, st, cs, info, a):
            if not isinstance(a[0], RawP):
                return None
            out = []
            for s in raw_access(E, st, cs, a[0], n, "vector load"):
                out.append((s, Lanes(tuple(E.tofloat(E.rd(s, a[0].buf, a[0].off + i)) for i in range(n)))))
            return out
        return f

    def _store(n):
        def f(E, st, cs, info, a):
            if not isinstance(a[0], RawP) or not isinstance(a[1], Lanes):
                return None
            out = []
            for s in raw_access(E, st, cs, a[0], n, "vector store"):
                s = s.copy()
                for i in range(n):
                    E.wr(s, a[0].buf, a[0].off + i, a[1].e[i])
                out.append((s, UNIT))
            return out
        return f
    MODELS[f"{X86}{_mod}::{_pre}set1_{_suf}"] = _set1(_n)
    MODELS[f"{X86}{_mod}::{_pre}setzero_{_suf}"] = _setzero(_n, _bits)
    MODELS[f"{X86}{_mod}::{_pre}set_{_suf}"] = _set(_n, True)
    MODELS[f"{X86}{_mod}::{_pre}setr_{_suf}"] = _set(_n, False)
    for _u in ("loadu", "load"):
        MODELS[f"{X86}{_mod}::{_pre}{_u}_{_suf}"] = _load(_n)
    for _u in ("storeu", "store"):
        MODELS[f"{X86}{_mod}::{_pre}{_u}_{_suf}"] = _store(_n)
    for _o, _s in (("fmadd", (1, 1)), ("fmsub", (1, -1)), ("fnmadd", (-1, 1)), ("fnmsub", (-1, -1))):
        MODELS[f"{X86}fma::{_pre}{_o}_{_suf}"] = simd(fma3(*_s))


@model(X86 + "sse::_mm_set_ss")
def set_ss(E, st, cs, info, a):
    z = fe("const", 0.0, bits=32)
    return [(st, Lanes((E.tofloat(a[0]), z, z, z)))]


@model(X86 + "sse::_mm_cvtss_f32", X86 + "sse2::_mm_cvtsd_f64", X86 + "avx::_mm256_cvtss_f32")
def cvtss(E, st, cs, info, a):
    if isinstance(a[0], Lanes):
        return [(st, a[0].e[0])]
    return None


@model(X86 + "sse2::_mm_set_sd")
def set_sd(E, st, cs, info, a):
    return [(st, Lanes((E.tofloat(a[0], 64), fe("const", 0.0, bits=64))))]


def ss_op(o):
    def f(E, st, cs, info, a):
        if not all(isinstance(x, Lanes) for x in a):
            return None
        return [(st, Lanes((o(*[x.e[0] for x in a]),) + a[0].e[1:]))]
    return f


for _o in ("add", "sub", "mul", "div"):
    MODELS[f"{X86}sse::_mm_{_o}_ss"] = ss_op(b2(_o))
    MODELS[f"{X86}sse2::_mm_{_o}_sd"] = ss_op(b2(_o))
for _o, _s in (("fmadd", (1, 1)), ("fmsub", (1, -1)), ("fnmadd", (-1, 1)), ("fnmsub", (-1, -1))):
    MODELS[f"{X86}fma::_mm_{_o}_ss"] = ss_op(fma3(*_s))
    MODELS[f"{X86}fma::_mm_{_o}_sd"] = ss_op(fma3(*_s))


# ---------------------------------------------------------------- any / cell / maps
@model("core::any::TypeId::of")
def typeid(E, st, cs, info, a):
    t = E.tys[info["args"][0][1]]
    if E.cfg.get("foreign"):        # the type parameter stands for a caller's own element type
        ga = next((x[2] for x in cs.fn.d["gcall"] if x[0] == cs.b), None)
        if ga and ga[0] in cs.fn.d["gens"]:
            return [(st, Struct("typeid", ("a caller's own type",)))]
    return [(st, Struct("typeid", (None if t["k"] == "param" else t["s"],)))]


@model("core::any::Any::type_id")
def any_typeid(E, st, cs, info, a):
    t = info["args"][0][1] if info.get("args") else None
    t = E.tys[t] if t is not None else None
    return [(st, Struct("typeid", (None if t is None or t["k"] in ("param", "dyn") else t["s"],)))]


@model("core::cell::UnsafeCell::<T>::new", "core::cell::RefCell::<T>::new", "core::cell::Cell::<T>::new")
def cell_new(E, st, cs, info, a):
    return [(st, Struct("core::cell::UnsafeCell", (a[0],)))]


@model("core::cell::UnsafeCell::<T>::get")
def cell_get(E, st, cs, info, a):
    r = a[0]
    if isinstance(r, Ref):
        return [(st, Ref(r.base, r.path + (("f", 0, 0),), True))]
    return None


@model("hashbrown::map::HashMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::new")
def map_new(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    E.uid += 1
    return [(st, MapV(f"new#{E.uid}", t["args"][0][1], t["args"][1][1]))]


def map_of(E, st, r):
    v = deref(E, st, r)
    return v if isinstance(v, MapV) else None


def map_name(E, st, r):
    """name of the map: the struct field path it is stored in"""
    v = deref(E, st, r)
    return v.name if isinstance(v, MapV) else None


def mkey(E, st, k):
    v = deref(E, st, k)
    if isinstance(v, (Poly,)):
        return v
    return v


@model("hashbrown::map::HashMap::<K, V, S, A>::contains_key", "std::collections::hash::map::HashMap::<K, V, S, A>::contains_key")
def map_contains(E, st, cs, info, a):
    m = map_of(E, st, a[0])
    if m is None:
        return None
    k = mkey(E, st, a[1])
    for n, kk, vv in reversed(st.maps):
        if n == m.name and kk == k:
            return [(st, TRUE)]
    return [(st, BoolV(("opq", ("contains", m.name, k), EMPTY)))]


def map_ident(E, m):
    return m.ident or E.mapid.get(m.name) or E.cfg.get("mapid", {}).get(m.name.split("#")[0])


def cached(E, st, m, k, name):
    """value stored in the map for key k by an earlier call: its lengths follow the invariant inferred from every insertion"""
    ident = m.ident or E.mapid.get(m.name)
    inv = E.cfg.get("mapinv", {}).get(ident)
    v = E.fresh_val(st, m.vty, f"cached {m.name}", frozenset({f"table:{m.name}"}), FUZZY, f"cache:{m.name}")
    if inv:
        for (path, n), tmpl in zip(seq_lens(E, v), inv):
            if tmpl is None:
                continue
            want = tmpl_len(E, st, tmpl, k)
            if want is not None:
                st.add_eq(n - want)
    return v


def seq_lens(E, v, path=()):
    """lengths of the sequences inside a stored value"""
    if isinstance(v, BoxS):
        return [(path, v.s.len)]
    if isinstance(v, (Slc, Vec, Arr)):
        return [(path, v.len)]
    if isinstance(v, Struct):
        out = []
        for i, x in enumerate(v.f):
            out += seq_lens(E, x, path + (i,))
        return out
    return []


def tmpl_len(E, st, t, k):
    if not isinstance(k, Poly):
        return None
    if t == "key":
        return k
    if t == "half":
        return E.mkdiv(st, k, P(2))
    if t == "chirp":
        return E.npot(st, k * 2 - 1)
    if t == "key+1":
        return k + 1
    if t == "double":
        return k * 2
    if isinstance(t, int):
        return P(t)
    return None


TEMPLATES = ("key", "half", "chirp", "key+1", "double")


@model("hashbrown::map::HashMap::<K, V, S, A>::get", "std::collections::hash::map::HashMap::<K, V, S, A>::get",
       "hashbrown::map::HashMap::<K, V, S, A>::get_mut", "std::collections::hash::map::HashMap::<K, V, S, A>::get_mut")
def map_get(E, st, cs, info, a):
    m = map_of(E, st, a[0])
    if m is None:
        return None
    k = mkey(E, st, a[1])
    for n, kk, vv in reversed(st.maps):
        if n == m.name and kk == k:
            return [(st, some(Ref(("c", vv), ())))]
    c = ("opq", ("contains", m.name, k), EMPTY)
    out = []
    for s in assume(st, bnot(c)):
        out.append((s, NONE))
    for s in assume(st, c):
        v = cached(E, s, m, k, "get")
        cell = E.new_cell(s, v)
        s.maps = s.maps + ((m.name, k, cell),)
        E.recs.append(("maphit", m, k, cs.fn))
        out.append((s, some(Ref(("c", cell), ()))))
    return out


@model("hashbrown::map::HashMap::<K, V, S, A>::insert", "std::collections::hash::map::HashMap::<K, V, S, A>::insert")
def map_insert(E, st, cs, info, a):
    m = map_of(E, st, a[0])
    if m is None:
        return None
    k = mkey(E, st, a[1])
    st = st.copy()
    cell = E.new_cell(st, a[2])
    st.maps = st.maps + ((m.name, k, cell),)
    st.eff = st.eff | {("insert", m.name)}
    if not E.mute:
        E.recs.append(("insert", m, k, a[2], st.copy(), cs.fn, cs.line, tuple(E.stack)))
    E.uid += 1
    return [(st, Top(cs.dstty, f"old#{E.uid}", EMPTY, "fuzzy"))]


@model("hashbrown::map::HashMap::<K, V, S, A>::entry", "std::collections::hash::map::HashMap::<K, V, S, A>::entry")
def map_entry(E, st, cs, info, a):
    m = map_of(E, st, a[0])
    if m is None:
        return None
    return [(st, Struct("entry", (m, mkey(E, st, a[1]))))]


@model("hashbrown::map::Entry::<'a, K, V, S, A>::or_insert_with", "std::collections::hash::map::Entry::<'a, K, V>::or_insert_with",
       "std::collections::hash::map::Entry::<'a, K, V, A>::or_insert_with",
       "hashbrown::map::Entry::<'a, K, V, S, A>::or_insert", "std::collections::hash::map::Entry::<'a, K, V>::or_insert",
       "hashbrown::map::Entry::<'a, K, V, S, A>::or_insert_with_key")
def entry_or(E, st, cs, info, a):
    e = a[0]
    if not (isinstance(e, Struct) and e.tag == "entry"):
        return None
    m, k = e.f
    for n, kk, vv in reversed(st.maps):
        if n == m.name and kk == k:
            return [(st, Ref(("c", vv), (), True))]
    c = ("opq", ("contains", m.name, k), EMPTY)
    out = []
    for s in assume(st, c):
        v = cached(E, s, m, k, "entry")
        cell = E.new_cell(s, v)
        s.maps = s.maps + ((m.name, k, cell),)
        E.recs.append(("maphit", m, k, cs.fn))
        out.append((s, Ref(("c", cell), (), True)))
    for s in assume(st, bnot(c)):
        if info["fn"].endswith("or_insert"):
            vals = [(s, a[1])]
        elif info["fn"].endswith("with_key"):
            kc = E.new_cell(s, k)
            vals = E.call_closure(s, cs, a[1], [Ref(("c", kc), ())])
        else:
            vals = E.call_closure(s, cs, a[1], [])
        for s2, v in vals:
            s2 = s2.copy()
            cell = E.new_cell(s2, v)
            s2.maps = s2.maps + ((m.name, k, cell),)
            s2.eff = s2.eff | {("insert", m.name)}
            if not E.mute:
                E.recs.append(("insert", m, k, v, s2.copy(), cs.fn, cs.line, tuple(E.stack)))
            out.append((s2, Ref(("c", cell), (), True)))
    return out


@model("std::sync::once_lock::OnceLock::<T>::get_or_init")
def once(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    c = E.new_cell(st, E.fresh_val(st, t["e"], "config", frozenset({"config"}), INPUT))
    return [(st, Ref(("c", c), ()))]


@model("core::sync::atomic::Atomic::<usize>::load", "core::sync::atomic::AtomicUsize::load")
def at_load(E, st, cs, info, a):
    return [(st, E.fresh("setting", INPUT))]


@model("core::sync::atomic::Atomic::<usize>::store", "core::sync::atomic::AtomicUsize::store")
def at_store(E, st, cs, info, a):
    return [(st, UNIT)]


def feature(E, st, cs, info, a):
    return [(st, BoolV(("opq", "cpu:" + info["fn"].rsplit("::", 1)[1], EMPTY)))]


for _f in ("avx", "avx2", "avx512f", "fma", "sse", "sse2", "sse3", "sse4_1"):
    MODELS[f"std_detect::detect::arch::x86::__is_feature_detected::{_f}"] = feature


# ---------------------------------------------------------------- closures called through traits
@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def fn_call(E, st, cs, info, a):
    f = a[0]
    args = list(a[1].f) if isinstance(a[1], Struct) else [a[1]]
    g = f
    if isinstance(g, Ref):
        w = E.load(st, (g.base, g.path))
        if isinstance(w, Top) or w is UNINIT or (isinstance(w, Struct) and w.tag == "zst"):
            # call through a type parameter: resolved by type argument when it is a fn item
            t = E.tys[info["args"][0][1]]
            while t["k"] == "ref":
                t = E.tys[t["e"]]
            if t["k"] in ("fndef", "closure"):
                w = E.zst(st, E.tys.index(t)) if t["k"] == "fndef" else w
                return E.call_closure(st, cs, w, args)
            h = E.hooks.get("opaque_fn")
            if h:
                return h(E, st, cs, args)
            return None
    if isinstance(g, (Ref, Struct, FnV, BoxC)):
        return E.call_closure(st, cs, g, args)
    h = E.hooks.get("opaque_fn")
    if h:
        return h(E, st, cs, args)
    return None


# ---------------------------------------------------------------- panics
def panic_model(kind):
    def f(E, st, cs, info, a):
        msg = ""
        for v in a:
            if isinstance(v, StrV) and v.s:
                msg = v.s
        E.reach(st, kind, cs.fr, cs.line, (msg or info["fn"].rsplit("::", 1)[1]))
        return []
    return f


for _p in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::unreachable_default_msg", "core::panicking::assert_failed",
           "core::panicking::panic_str_2015", "core::panicking::panic_display", "std::rt::begin_panic", "core::panicking::panic_explicit",
           "core::panicking::panic_nounwind", "core::panicking::unreachable_display", "core::option::expect_failed", "core::option::unwrap_failed",
           "core::result::unwrap_failed"):
    MODELS[_p] = panic_model("panic")
MODELS["core::panicking::assert_failed"] = panic_model("assertfail")


@model("core::hint::black_box")
def bb(E, st, cs, info, a):
    return [(st, a[0])]


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new_const")
def fmt_str(E, st, cs, info, a):
    return [(st, a[0])]
