"""Delegation discipline.  Every batch, multi-channel, multi-level, vector, split, strided, planned and convenience form is traced path by
path down to the calls of the transforms it forwards to (helpers and closures inlined, lazy iterator chains applied to a generic item).
Rules: (1) a form that does no arithmetic of its own calls exactly one transform per item on every successful path, of its own kind, direction
and wavelet family; (2) the items are all elements of the argument in order - no skipping adapter, no shortened range, no partial slice;
(3) what the transform returns for an item is stored back to that same item or appended to the result; (4) gathering and scattering loops
around the call use the same index function over the same range."""
import re
from kai.mir import Prog
from kai.trace import Tracer, TooMany, Ev, contains, subterms, UNIT
from .graph import Graph, short
from .absint import configs

ASSUMPTIONS = ("forms that compute on the samples themselves (kernels, Bluestein, conjugation-based inverses) are outside rule 1",
               "two iterations of every loop are followed; branch outcomes are symbolic")

SKIP = re.compile(r"kofft::(media|visual)::|__test_|::tests?::")
DIR = re.compile(r"^(stockham_|bluestein_)?(i?)(r?)fft([A-Z_0-9]\w*)?$")
BATCHN = {"batch": "fwd", "multi_channel": "fwd", "batch_inverse": "inv", "multi_channel_inverse": "inv"}
LOSSY = re.compile(r"Iterator::(skip|skip_while|take_while|filter|filter_map|map_while|step_by|nth|last|find|find_map|position|flat_map|chunks_exact|dedup)$|"
                   r"slice::.*::(chunks_exact|chunks_exact_mut|split_first|split_last|split_first_mut|split_last_mut|first|last|first_mut|last_mut|get|get_mut)$")
ROMAN = {"i": "1", "ii": "2", "iii": "3", "iv": "4"}
NEXT = re.compile(r"Iterator\b.*::next$")
FARITH = re.compile(r"^<f(32|64) as core::ops::arith::|^kofft::num::Complex::<T>::(mul|add|sub|mul_fma|conj|scale)|^kofft::<num::Complex<T> as core::ops|core::ops::arith::\w+Assign|"
                    r"std::f(32|64)::|core::f(32|64)::|libm::|_mm\d*_")


def seg(name):
    return name.split("::")[-1]


def mod(name):
    m = re.match(r"kofft::(?:<)?(\w+)::", name)
    return m.group(1) if m else ""


def table(path):
    """expected transforms of a named form: a predicate on the callee's path, or None"""
    m, s = mod(path), seg(path)
    if m in ("dct", "dst"):
        x = re.match(r"(batch|multi_channel)_(i{1,3}|iv)$", s)
        if x:
            want = {f"{m}{ROMAN[x.group(2)]}", f"batch_{x.group(2)}", f"multi_channel_{x.group(2)}"}
            return lambda y: mod(y) == m and seg(y) in want
        if re.match(rf"kofft::{m}::\w+::{m}[1-4]$", path):
            return lambda y: mod(y) == m and seg(y) == s
    if m == "hartley" and s in ("batch", "multi_channel"):
        return lambda y: mod(y) == m and seg(y) in ("dht", "batch", "multi_channel")
    if m == "wavelet":
        x = re.match(r"batch_(forward|inverse)$", s)
        if x:
            return lambda y: mod(y) == m and seg(y) == "haar_" + x.group(1)
        x = re.match(r"(\w+?)_(forward|inverse)_(batch|multi)$", s)
        if x:
            if x.group(1) == "multi_level":
                return lambda y: mod(y) == m and seg(y) == f"multi_level_{x.group(2)}"
            return lambda y: mod(y) == m and seg(y) == f"{x.group(1)}_{x.group(2)}"
    if m == "cepstrum" and s == "mfcc_batch":
        return lambda y: mod(y) == m and seg(y) == "mfcc"
    return None


def direction(name):
    m, s = mod(name), seg(name)
    if m in ("fft", "rfft", "fft_kernels", "ndfft") or "FftImpl" in name:
        if s in BATCHN and m == "fft":
            return BATCHN[s]
        x = DIR.match(s)
        if x:
            return "inv" if x.group(2) else "fwd"
    return None


class T16(Tracer):
    def std(self, name, path, raw, fn, line, st, stack):
        n = path or name
        if re.search(r"(Iterator::(collect|for_each|try_for_each|unzip|sum|count|last|fold|collect_into_vec)|FromIterator::from_iter|Extend::extend)$", n):
            i = 1 if n.endswith("extend") else 0
            it = self.resolve(st, raw[i])
            chain = []
            f = None
            if re.search(r"for_each$", n):
                f = raw[1]
                chain = [it]
            elif it[0] == "call" and re.search(r"Iterator::map$", it[1]) and len(it[3]) == 2:
                f = it[3][1]
                it = it[3][0]
            if f is not None and f[0] in ("agg", "fn"):
                out = []
                self.uid += 1
                nx = ("call", "lazy::Iterator::next", self.uid, (it,))
                for some in (0, 1):
                    s = self.put_dec(st, ("variant", nx), some)
                    e = Ev("lazy::Iterator::next", (it,), (), nx, fn, line, None, len(s.dec))
                    e.ty = ""
                    s.evs += (e,)
                    if not some:
                        self.uid += 1
                        out.append((s, ("call", n, self.uid, (it,))))
                        continue
                    for s2, v in self.apply(f, [("fld", ("var", nx, 1), 0)], fn, line, s, stack):
                        self.uid += 1
                        v = self.resolve(s2, v)
                        r = ("call", n, self.uid, (it, v))
                        e = Ev("collected", (it, v), (), r, fn, line, None, len(s2.dec))
                        e.ty = ""
                        s2.evs += (e,)
                        out.append((s2, r))
                return out
        return super().std(name, path, raw, fn, line, st, stack)


def base_iter(t):
    while t[0] == "mut":
        t = t[3][0]
    return t


def strip(t):
    """the storage a term designates: mutation wrappers and identity calls removed"""
    while isinstance(t, tuple) and t:
        if t[0] == "mut":
            t = t[3][0]
        elif t[0] == "cast":
            t = t[1]
        else:
            break
    return t


def has_arg(t, i):
    return contains(t, lambda x: x[0] == "arg" and x[1] == i)


def nexts(st):
    """[(event, iterator term, taken)] of the loops over collections"""
    out = []
    for e in st.evs:
        if re.search(r"Iterator\b.*::next$", e.name):
            v = st.dec.get(("variant", e.res))
            if v is not None:
                out.append((e, base_iter(e.args[0]), v == 1))
    return out


def islen(t, i):
    """the length of argument i"""
    t = strip(t)
    if t[0] == "call" and t[1].endswith(("::saturating_sub", "::wrapping_sub")) and t[3][1] == ("int", 0):
        t = strip(t[3][0])
    return t[0] == "call" and t[1].endswith("::len") and strip(t[3][0])[:2] == ("arg", i)


def shortened(t, i):
    """how an iterator over argument i leaves items out, or None"""
    for x in subterms(t):
        if x[0] == "call" and LOSSY.search(x[1]):
            n = seg(x[1])
            if n == "skip" and x[3][1] == ("int", 0) or n == "step_by" and x[3][1] == ("int", 1):
                continue
            if not has_arg(x, i):
                continue
            return f"{n}({', '.join(str(a[1]) for a in x[3][1:] if a[0] == 'int')})"
        if x[0] == "call" and x[1].endswith("Iterator::take") and has_arg(x[3][0], i) and not any(islen(y, i) for y in subterms(x[3][1])):
            if x[3][1][0] == "int":
                return f"take({x[3][1][1]})"
        if x[0] == "call" and x[1].endswith("Iterator::take") and has_arg(x[3][0], i) and x[3][1][0] == "bin" and x[3][1][1].startswith("Sub"):
            return "take(len - ..)"
        if x[0] == "call" and re.search(r"Index(Mut)?\b.*::index(_mut)?$", x[1]) and has_arg(x[3][0], i):
            r = x[3][1]
            if r[0] == "agg" and isinstance(r[1], str) and "range::Range" in r[1]:
                b = badrange(r, i)
                if b:
                    return b
    return None


def badrange(r, i):
    """a Range/RangeFrom/RangeTo aggregate that leaves out items of argument i for certain"""
    kind = seg(r[1])
    lo = r[3][0] if kind in ("Range", "RangeFrom", "RangeInclusive") else ("int", 0)
    hi = r[3][1] if kind in ("Range", "RangeInclusive") else r[3][0] if kind in ("RangeTo", "RangeToInclusive") else None
    if lo[0] == "int" and lo[1] > 0:
        return f"the range starts at {lo[1]}"
    if hi is not None and kind in ("Range", "RangeTo") and hi[0] == "bin" and hi[1].startswith("Sub") and hi[3][0] == "int" and hi[3][1] > 0 and islen(hi[2], i):
        return f"the range ends {hi[3][1]} before the end"
    if hi is not None and kind in ("Range", "RangeTo") and hi[0] == "bin" and hi[1].startswith("Sub") and islen(hi[2], i) and hi[3][0] == "bin" and \
            (hi[3][1] == "Rem" and hi[3][3][0] == "int" and hi[3][3][1] > 1 or hi[3][1] == "BitAnd" and hi[3][3][0] == "int" and hi[3][3][1] > 0):
        return "the range ends at a rounded length"
    if hi is not None and kind in ("Range", "RangeTo") and hi[0] == "bin" and hi[1] in ("Div", "Shr") and islen(hi[2], i):
        return "the range covers only a part of the length"
    return None


def successful(prog, f, st, ret):
    t = prog.tys[f.locals[0][0]]["s"]
    if "Result<" not in t:
        return True
    if ret[0] == "agg" and isinstance(ret[1], str) and ret[1].endswith("Result"):
        return ret[2] == 0
    return True     # the result of a call handed on


def computing(prog, g, f, isu):
    """the form touches sample values itself"""
    seen = [f.key]
    for k in seen:
        h = prog.fns[k]
        for c in g.calls(h):
            n = (c.inst or c.callee or "").split("|")[0]
            if FARITH.search(n) and not (n.endswith("::mul") and "usize" in (c.inst or "")):
                return True
            if c.inst in prog.fns and not isu(c.inst) and c.inst not in seen:
                seen.append(c.inst)
        for y in g.closures(h):
            if y not in seen:
                seen.append(y)
        for b in h.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("bin", "un", "neg"):
                    t = prog.tys[h.locals[s[1][0]][0]]["s"]
                    if re.match(r"f(32|64)$", t):
                        return True
    return False


def run(w, rep, tier):
    cov = {"forms": set(), "paths": 0, "calls": 0, "undecided": set(), "loops": 0, "computing": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        named = {}
        for k, f in prog.fns.items():
            if SKIP.search(k) or f.d.get("closure"):
                continue
            if table(f.path) or direction(f.path):
                named[k] = f
        uni = set()
        for k, f in prog.fns.items():
            if not f.d.get("closure") and not SKIP.search(k) and (direction(f.path) or re.match(
                    r"kofft::(dct::dct[1-4]|dst::dst[1-4]|(dct|dst)::(batch|multi_channel)_\w+|hartley::(dht|batch|multi_channel)|wavelet::\w+_(forward|inverse)|cepstrum::mfcc)$", f.path)):
                if direction(f.path) and not takes_data(prog, f):
                    continue
                if mod(f.path) == "wavelet" and seg(f.path).startswith("batch"):
                    continue
                uni.add(k)
        for k, f in sorted(named.items()):
            exp = table(f.path)
            d = direction(f.path)
            if not exp and (not takes_data(prog, f) or "fft_kernels" in k):
                continue
            multi = exp and seg(f.path).endswith("_multi")

            def isu(y, k=k, exp=exp, multi=multi):
                if y == k or y not in uni:
                    return False
                if multi and seg(prog.fns[y].path).startswith("multi_level"):
                    return False
                if exp and "multi_level" not in f.path and seg(prog.fns[y].path).startswith("multi_level"):
                    return False
                return True
            if not exp and computing(prog, g, f, isu):
                cov["computing"].add(short(k))
                continue
            check(rep, cov, prog, cfg, k, f, exp, d, isu)
    rep.cov.update(forms=len(cov["forms"]), paths=cov["paths"], transform_calls=cov["calls"], item_loops=cov["loops"],
                   forms_that_compute_themselves=sorted(cov["computing"]), undecided=sorted(cov["undecided"]))


def takes_data(prog, f):
    return any(re.search(r"^&mut .*(\[|Vec|SplitComplex|C64|Complex)|SplitComplex<|&mut num::ComplexVec", prog.tys[f.locals[i][0]]["s"]) for i in range(1, f.argc + 1)) or \
        any(re.search(r"^&\[", prog.tys[f.locals[i][0]]["s"]) for i in range(1, f.argc + 1))


def check(rep, cov, prog, cfg, k, f, exp, d, isu):
    T = T16(prog, lambda y: isu(y), visits=2)
    T.exits = []
    args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
    try:
        outs = T.run(f, args)
    except TooMany:
        cov["undecided"].add(short(k))
        return
    cov["forms"].add(k)
    items = [i for i in range(1, f.argc + 1) if re.match(r"^&(mut )?\[alloc::vec::Vec<", prog.tys[f.locals[i][0]]["s"])]
    multi = exp and (seg(f.path).endswith("_multi"))
    if multi:
        items = []

    def viol(kind, line, text):
        rep.viol(f.path, f.file, line, kind, text, config=cfg)

    complaints = []

    def transform(e):
        n = (e.inst or e.name).split("|")[0]
        if e.inst and e.inst in prog.fns and isu(e.inst):
            return prog.fns[e.inst].path
        if n.startswith("kofft::fft::FftImpl::") and direction(n):
            return n
        if n.startswith("kofft::rfft::") and direction(n):
            return n
        return None
    for st, ret in outs:
        cov["paths"] += 1
        if not successful(prog, f, st, ret):
            continue
        us = [(e, transform(e)) for e in st.evs]
        us = [(e, n) for e, n in us if n]
        cov["calls"] += len(us)
        for e, n in us:
            if exp:
                if not exp(n):
                    viol("wrong-transform", e.line, f"{short(k)} applies {short(n)}")
            elif d and direction(n) and direction(n) != d:
                viol("wrong-direction", e.line, f"{short(k)} applies {short(n)}, which goes the other way")
            q = prog.fns.get(e.inst)
            if q is not None and (seg(q.path) == seg(f.path) or exp):
                args_in_order(viol, f, q, e, k, n)
        if not items:
            lens = any(contains(x, lambda y: y[0] == "call" and y[1].endswith(("::len", "::is_empty")) or y[0] == "cst") for x in st.dec)
            if len(us) == 0 and d and not exp and not lens and outs and any(transform(e) for s2, _ in outs for e in s2.evs):
                viol("not-applied", f.line, f"{short(k)} can return without applying any transform")
            if len(us) > 1 and not multi:
                a, b = us[0], us[1]
                if direction(a[1]) and strip_data(a[0]) == strip_data(b[0]):
                    viol("applied-twice", b[0].line, f"{short(k)} applies {short(a[1])} and then {short(b[1])} to the same data")
            if not multi:
                gather(viol, cov, st, us, k, f)
            continue
        # ---- item loops
        root = items[0]
        short_items, outside = [], []
        its = [(e, it, some) for e, it, some in nexts(st)]
        loops = {}
        for e, it, some in its:
            if has_arg(it, root):
                bad = shortened(it, root)
                if bad:
                    short_items.append((e.line, bad))
            loops.setdefault(it, []).append((e, some))
        used, twice = set(), set()
        for e, n in us:
            data = [x for a in e.args for x in subterms(a)]
            mine = [x for x in data if x[0] == "call" and re.search(r"Iterator\b.*::next$", x[1])]
            key = None
            for x in mine:
                it = base_iter(x[3][0])
                rng = it[0] == "agg" and isinstance(it[1], str) and it[1].endswith("Range")
                if has_arg(it, root) and not rng:
                    key = x
                elif it[0] == "agg" and isinstance(it[1], str) and it[1].endswith("Range"):
                    key = key or x
                    lo, hi = it[3][0], it[3][1]
                    b = badrange(it, root)
                    if b:
                        short_items.append((e.line, b))
            rest = any(x[0] == "call" and re.search(r"::(into_)?remainder(_mut)?$", x[1]) or x[0] == "fld" and x[2] == 0 and x[1][0] == "fld" and x[1][1][0] == "var" and
                       contains(x[1], lambda y: y[0] == "call" and re.search(r"::split_(first|last)(_mut)?$", y[1])) for x in data)
            if rest or not any(x[0] == "call" and (LOSSY.search(x[1]) or NEXT.search(x[1]) and (shortened(base_iter(x[3][0]), root) or isrange(x) and badrange(base_iter(x[3][0]), root))) for x in data) and \
                    not any(shortened(a, root) for a in e.args):
                outside.append(e.line)
            if key is None:
                cut = [b for b in (shortened(a, root) for a in e.args) if b]
                if cut:
                    short_items.append((e.line, cut[0]))
                if any(strip(a)[:2] == ("arg", root) for a in e.args) or cut:
                    key = ("whole",)
                elif any(contains(a, lambda y: y[0] in ("idx",) or y[0] == "call" and "index" in y[1]) for a in e.args):
                    cov["undecided"].add(short(k))
                    key = ("?", e.line)
                else:
                    key = ("?", e.line)
            if key[0] == "call":
                if (key, strip_data(e)) in twice:
                    viol("applied-twice", e.line, f"{short(k)} applies the transform to one item more than once")
                used.add(key)
                twice.add((key, strip_data(e)))
            # what becomes of the result
            res = e.res
            later = st.evs[st.evs.index(e) + 1:]
            rt = getattr(e, "ty", "")
            if "Result<()" in rt or rt == "()" or direction(n) and "Result<" in rt:
                continue
            kept = contains(ret, lambda y: y == res) or any(contains(a, lambda y: y == res) for l in later for a in l.args if l.name not in ("drop",)) or e.res is None
            if not kept:
                viol("result-dropped", e.line, f"{short(k)} drops the result of {short(n)}")
                continue
            if key[0] == "call":
                for l in later:
                    if re.search(r"(copy_from_slice|clone_from_slice|clone_from|copy_within|swap_with_slice)$", l.name) and contains(l.args[1], lambda y: y == res):
                        tgt = [x for x in subterms(l.args[0]) if x[0] == "call" and re.search(r"Iterator\b.*::next$", x[1])]
                        if tgt and key not in tgt and not has_arg(base_iter(key[3][0]), root):
                            pass
                        elif tgt and key not in tgt:
                            viol("wrong-item", l.line, f"{short(k)} stores the result of one item into another")
                        for a in l.args[:2]:
                            for x in subterms(a):
                                if x[0] == "call" and re.search(r"index(_mut)?$", x[1]):
                                    r = x[3][1] if len(x[3]) > 1 else None
                                    if r and r[0] == "agg" and isinstance(r[1], str) and "Range" in r[1]:
                                        lo = r[3][0] if seg(r[1]) in ("Range", "RangeFrom") else ("int", 0)
                                        if lo[0] == "int" and lo[1] > 0:
                                            viol("partial-result", l.line, f"{short(k)} stores only a part of the result (from {lo[1]})")
        # order of the results
        for l in st.evs:
            if l.name == "collected" or re.search(r"Vec::<.*>::push$|Vec::push$", l.name):
                it = l.args[0] if l.name == "collected" else None
                its2 = [it] if it is not None else [base_iter(x[3][0]) for a in l.args[1:] for x in subterms(a) if x[0] == "call" and re.search(r"Iterator\b.*::next$", x[1])]
                for it in its2:
                    back = [x for x in subterms(it) if x[0] == "call" and x[1].endswith("Iterator::rev") and has_arg(x, root)]
                    if len(back) % 2 and not any(re.search(r"::(reverse|rev)$", m.name) for m in st.evs if m is not l and not has_rev_only(m)):
                        viol("order", l.line, f"{short(k)} collects the results in reverse order")
        # items visited without a call
        for it, es in loops.items():
            mine = has_arg(it, root) or it[0] == "agg" and isinstance(it[1], str) and it[1].endswith("Range") and len(it[3]) == 2 and islen(it[3][1], root)
            if not mine:
                continue
            cov["loops"] += 1
            for e, some in es:
                if some and e.res not in used and not any(u[0] == "?" or u[0] == "whole" for u in used) and not undecided_calls(us, e.res):
                    small = any(contains(x, lambda y: y == e.res) and contains(x, lambda y: y[0] == "call" and y[1].endswith(("::len", "::is_empty"))) and tiny(x, v) for x, v in st.dec.items())
                    if not small:
                        viol("item-skipped", e.line, f"{short(k)} passes over an item without transforming it")
        complaints.append((set(short_items), bool(outside)))
    report_short(viol, k, complaints)


def has_rev_only(m):
    """the event is the rev() adapter call on the items themselves"""
    return m.name.endswith("Iterator::rev")


def isrange(x):
    it = base_iter(x[3][0])
    return it[0] == "agg" and isinstance(it[1], str) and it[1].endswith("Range") and len(it[3]) == 2


def report_short(viol, k, complaints):
    """items left out by one loop are no fault when another call on a path through that loop takes the rest"""
    made_up = {c for cs, o in complaints if o for c in cs}
    for line, bad in sorted({c for cs, _ in complaints for c in cs} - made_up):
        viol("items-skipped", line, f"{short(k)} does not visit every item: {bad}")


def args_in_order(viol, f, q, e, k, n):
    """two arguments of the same name on both sides are not exchanged"""
    mine = {f.locals[i][1]: i for i in range(1, f.argc + 1) if f.locals[i][1]}
    got = {}
    for j in range(1, q.argc + 1):
        nm = q.locals[j][1]
        if nm not in mine or j - 1 >= len(e.args):
            continue
        r = strip(e.args[j - 1])
        if r[:1] == ("arg",):
            got[nm] = f.locals[r[1]][1]
    for a, b in got.items():
        if a != b and got.get(b) == a:
            viol("arguments-exchanged", e.line, f"{short(k)} hands {a} and {b} to {short(n)} the wrong way round")
            return


def undecided_calls(us, res):
    return any(not any(contains(a, lambda y: y[0] == "call" and re.search(r"Iterator\b.*::next$", y[1])) for a in e.args) for e, n in us)


def tiny(x, v):
    """a decision saying that an item has at most one element"""
    if x[0] == "call" and x[1].endswith("is_empty"):
        return v == 1
    if x[0] == "bin" and x[1] == "Eq" and x[3][0] == "int":
        return v == 1 and x[3][1] <= 1
    if x[0] == "bin" and x[1] == "Lt" and x[3][0] == "int":
        return v == 1 and x[3][1] <= 2
    return False


def strip_data(e):
    return tuple(strip(a) for a in e.args)


def rename(t, ren):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call" and re.search(r"Iterator\b.*::next$", t[1]):
        return ("next", rename(base_iter(t[3][0]), ren))
    if t and t[0] == "call" and len(t) == 4:
        return ("call", t[1], None if t[2] is None else ren.setdefault(t[2], len(ren)), tuple(rename(x, ren) for x in t[3]))
    if t and t[0] == "mut":
        return rename(t[3][0], ren)
    return tuple(rename(x, ren) if isinstance(x, tuple) else x for x in t)


def place(t):
    """(array term, index term) of an element place"""
    t = strip(t)
    fld = ()
    while t[0] == "fld":
        fld = (t[2],) + fld
        t = strip(t[1])
    if t[0] == "idx":
        return t[1], t[2], fld
    if t[0] == "call" and re.search(r"index(_mut)?$", t[1]) and len(t[3]) == 2:
        return t[3][0], t[3][1], fld
    return None


def gather(viol, cov, st, us, k, f):
    """copies into the transformed buffer before the call and out of it afterwards have to use the same places"""
    if len(us) != 1:
        return
    e0 = us[0][0]
    pos = st.evs.index(e0)
    before, after = {}, {}
    for i, e in enumerate(st.evs):
        if e.name != "write":
            continue
        d, s = place(e.args[0]), place(e.args[1])
        if not d or not s:
            continue
        da, sa = strip(d[0]), strip(s[0])
        if da == sa:
            continue
        (before if i < pos else after).setdefault((rename(d[0], {}), rename(s[0], {})), set()).add((rename(d[1], {}), rename(s[1], {}), d[2], s[2]))
    for (da, sa), ps in before.items():
        back = after.get((sa, da))
        if not back:
            continue
        cov["loops"] += 1
        want = {(s, d, fs, fd) for d, s, fd, fs in ps}
        if back != want and plain(back) and plain(want):
            viol("gather-scatter", e0.line, f"{short(k)} writes the transformed samples back to other places than it took them from")


def plain(ps):
    return all(not contains(x, lambda y: y[0] in ("agg",) and not (isinstance(y[1], str) and y[1].endswith("Range"))) for p in ps for x in p[:2])
