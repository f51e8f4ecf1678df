"""Four static arguments about every unsafe operation of the library, none of which depends on how it is written down.
(1) Reinterpreting casts: a forward dataflow over each function's own generic form tracks which `TypeId` equalities hold on every path
(through boolean locals, `&&`, `||`, `!`, boolean helper functions and, for private or unsafe helpers and closures, the places that call
or create them); a cast between pointers or values that equates a type parameter with a concrete type must be reached only under that
equality, and a cast to a different or larger concrete element is rejected.
(2) Optional CPU instructions: the same dataflow tracks `is_x86_feature_detected!` results; every call or mention of a function compiled
for a target feature must be reached only where the feature is known (detected, enabled for the caller, or enabled for the whole build),
and memory operands of instructions that require alignment are rejected unless alignment is tested.
(3) Raw accesses: the abstract interpreter's obligations at pointer reads, writes, copies, vector loads and stores, unchecked indexing
and slices made from raw parts.
(4) Initialisation: vectors grown with set_len over elements never written, and values assumed initialised straight after creation."""
import os, re
from kai.mir import Prog
from kai.contracts import CONTRACTS
from .graph import Graph, short, walk_consts
from . import absint

ASSUMPTIONS = ("a type parameter equal to a concrete type by TypeId is that type", "std's run-time feature detection is right",
               "slices hold at most 2^31 elements")

ALL = None      # every fact: an unreachable path


def meet(a, b):
    if a is ALL:
        return b
    if b is ALL:
        return a
    return a & b


def join(a, b):
    """facts of both (conjunction)"""
    if a is ALL or b is ALL:
        return ALL
    return a | b


NONE = frozenset()
DETECT = re.compile(r"std_detect::detect::arch::\w+::__is_feature_detected::(\w+)$")
ENABLED = {"avx512f": ("avx512f", "avx2", "fma", "avx", "f16c"), "avx2": ("avx2", "avx"), "fma": ("fma", "avx"), "avx": ("avx",)}
AFTER_AVX = ("sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt")


def implied(f):
    f = f.replace("_", ".") if f.startswith("sse4_") else f
    r = set(ENABLED.get(f, (f,)))
    if "avx" in r:
        r |= set(AFTER_AVX)
    ch = ["sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2"]
    if f in ch:
        r |= set(ch[:ch.index(f) + 1])
    return r


class Facts:
    """per function: facts at every block, facts at the exits for a boolean result"""

    def __init__(self, prog, g):
        self.prog, self.g = prog, g
        self.memo = {}
        self.ret = {}

    def of(self, fn):
        k = fn.key
        if k not in self.memo:
            self.memo[k] = ({}, NONE)
            self.ret[k] = (NONE, NONE)      # recursion: nothing known
            self.solve(fn)
        return self.memo[k][0]

    def summary(self, key):
        self.of(self.prog.fns[key])
        return self.ret[key]

    def solve(self, fn):
        prog = self.prog
        gcall = {x[0]: x for x in fn.d["gcall"]}
        isbool = [prog.tys[l[0]]["s"] == "bool" for l in fn.locals]
        # block -> (facts, {bool local: (if true, if false)}, {local: type of the TypeId it holds or points to})
        st = {0: (NONE, {}, {})}
        order = [0]
        seen_n = 0
        rets = []
        while order and seen_n < 5000:
            seen_n += 1
            b = order.pop(0)
            facts, bl, ids = st[b][0], dict(st[b][1]), dict(st[b][2])
            blk = fn.blocks[b]
            if blk["c"]:
                continue

            def operand(o):
                if o[0] == "const":
                    v = o[1].get("bits")
                    if v in ("0", "1") and prog.tys[o[1]["ty"]]["s"] == "bool":
                        return (ALL, NONE) if v == "0" else (NONE, ALL)
                    return (NONE, NONE)
                if not o[1][1]:
                    return bl.get(o[1][0], (NONE, NONE))
                return (NONE, NONE)

            def idop(o):
                return ids.get(o[1][0]) if o[0] in ("copy", "move") else None
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                d, r = s[1], s[2]
                if d[1]:
                    continue
                bl.pop(d[0], None)
                ids.pop(d[0], None)
                if r[0] == "use":
                    if isbool[d[0]]:
                        bl[d[0]] = operand(r[1])
                    t = idop(r[1])
                    if t is not None:
                        ids[d[0]] = t
                elif r[0] == "ref" and r[2][0] in ids:
                    ids[d[0]] = ids[r[2][0]]
                elif r[0] == "un" and r[1] == "Not" and isbool[d[0]]:
                    t, f = operand(r[2])
                    bl[d[0]] = (f, t)
                elif r[0] == "bin" and isbool[d[0]] and r[1] in ("BitAnd", "BitOr", "Eq", "Ne", "BitXor"):
                    (at, af), (bt, bf) = operand(r[2]), operand(r[3])
                    if r[1] == "BitAnd":
                        bl[d[0]] = (join(at, bt), meet(af, bf))
                    elif r[1] == "BitOr":
                        bl[d[0]] = (meet(at, bt), join(af, bf))
                    else:
                        same, diff = meet(join(at, bt), join(af, bf)), meet(join(at, bf), join(af, bt))
                        bl[d[0]] = (same, diff) if r[1] == "Eq" else (diff, same)
            t = blk["t"]
            nxt = []
            if t[0] == "switch":
                o = t[1]
                if o[0] in ("copy", "move") and not o[1][1] and isbool[o[1][0]]:
                    tr, fa = operand(o)
                    for v, y in t[2]:
                        nxt.append((y, join(facts, fa if v == "0" else tr)))
                    nxt.append((t[3], join(facts, tr if [x[0] for x in t[2]] == ["0"] else fa)))
                else:
                    nxt = [(y, facts) for y in fn.succs(b)]
            elif t[0] == "call":
                d = t[3]
                if not d[1]:
                    bl.pop(d[0], None)
                    ids.pop(d[0], None)
                    gcl = gcall.get(b)
                    if gcl:
                        name = gcl[1]
                        if name in ("core::any::TypeId::of", "std::any::TypeId::of"):
                            ids[d[0]] = gcl[2][0]
                        elif name.endswith(("PartialEq::eq", "PartialEq::ne")) and len(t[2]) == 2:
                            x, y = idop(t[2][0]), idop(t[2][1])
                            if x is not None and y is not None and x != y:
                                e = frozenset([("ty", x, y), ("ty", y, x)])
                                bl[d[0]] = (e, NONE) if name.endswith("eq") else (NONE, e)
                        elif DETECT.search(name):
                            bl[d[0]] = (frozenset(("cpu", f) for f in implied(DETECT.search(name)[1])), NONE)
                        elif isbool[d[0]]:
                            f = t[1]
                            k = f[1].get("inst") if f[0] == "const" else None
                            if k in prog.fns:
                                tr, fa = self.summary(k)
                                m = dict(zip(prog.fns[k].d["gens"], gcl[2]))
                                bl[d[0]] = (self.rename(tr, m), self.rename(fa, m))
                            elif name.endswith(("OnceLock::<T>::get_or_init", "LazyLock::<T, F>::force")):
                                pass
                            elif name.endswith("Not::not") and len(t[2]) == 1:
                                tr, fa = operand(t[2][0])
                                bl[d[0]] = (fa, tr)
                nxt = [(y, facts) for y in fn.succs(b)]
            elif t[0] == "return":
                rets.append((facts, bl.get(0, (NONE, NONE))))
            else:
                nxt = [(y, facts) for y in fn.succs(b)]
            for y, f in nxt:
                if y not in st:
                    st[y] = (f, bl, ids)
                    order.append(y)
                    continue
                f0, b0, i0 = st[y]
                nb = {}
                for l in set(b0) | set(bl):
                    (t0, e0), (t1, e1) = b0.get(l, (NONE, NONE)), bl.get(l, (NONE, NONE))
                    nb[l] = (meet(join(f0, t0), join(f, t1)), meet(join(f0, e0), join(f, e1)))
                # a boolean unknown on one side still carries that side's block facts only
                new = (meet(f0, f), nb, {l: v for l, v in i0.items() if ids.get(l) == v})
                if new != st[y]:
                    st[y] = new
                    if y not in order:
                        order.append(y)
        self.memo[fn.key] = ({b: x[0] for b, x in st.items()}, NONE)
        rt = rf = ALL
        for f, (tr, fa) in rets:
            rt = meet(rt, join(f, tr))
            rf = meet(rf, join(f, fa))
        self.ret[fn.key] = (rt, rf)

    @staticmethod
    def rename(fs, m):
        if fs is ALL:
            return ALL
        return frozenset(("ty", subst(x[1], m), subst(x[2], m)) if x[0] == "ty" else x for x in fs)


def subst(t, m):
    return re.sub(r"[A-Za-z_]\w*", lambda w: m.get(w[0], w[0]), t)


# ---------------------------------------------------------------- casts
def parse(s):
    """type string -> (head, [args])"""
    s = s.strip()
    for p in ("*const ", "*mut ", "&mut ", "&"):
        if s.startswith(p):
            r = s[len(p):]
            if p == "&" and r.startswith("'"):
                r = r.split(" ", 1)[1]
            return ("*", [parse(r)])
    if s.startswith("[") and s.endswith("]"):
        i = split_top(s[1:-1], ";")
        return ("[]", [parse(i[0])])
    m = re.match(r"^([\w:]+)<(.*)>$", s)
    if m:
        return (m[1], [parse(x) for x in split_top(m[2], ",")])
    return (s, [])


def split_top(s, sep):
    out, dep, cur = [], 0, ""
    for c in s:
        if c in "<([":
            dep += 1
        elif c in ">)]":
            dep -= 1
        if c == sep and dep == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def show(t):
    h, a = t
    if h == "*":
        return "*" + show(a[0])
    if h == "[]":
        return "[" + show(a[0]) + "]"
    return h + ("<" + ", ".join(map(show, a)) + ">" if a else "")


SIZE = {"f32": 4, "f64": 8, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u16": 2, "i16": 2}
OPAQUE = {"()", "u8", "i8", "core::ffi::c_void"}


def equations(a, b, gens):
    """([(param, type)], problem): what must hold for values of type a to be used as type b"""
    ha, xa = a
    hb, xb = b
    if a == b:
        return [], None
    if (ha == "*") != (hb == "*"):
        return [], None             # pointer to address and back
    if ha == "*":
        pa, pb = xa[0], xb[0]
        if pb[0] in OPAQUE or pa[0] in OPAQUE or pb[0].startswith("core::core_arch"):
            return [], None
        fa, fb = pa[0] == "[]", pb[0] == "[]"
        ia, ib = (pa[1][0] if fa else pa), (pb[1][0] if fb else pb)
        if ia[0] == "[]" and not fa or ib[0].startswith("core::core_arch"):
            return [], None
        # a complex number seen as its two parts
        if ia[0] == "num::Complex" and ib[0] != "num::Complex" and (ib[0] in gens or ib[0] in SIZE):
            if fa and fb:
                return [], None
            return equations(ia[1][0], ib, gens)
        if ib[0] == "num::Complex" and ia[0] != "num::Complex" and (ia[0] in gens or ia[0] in SIZE):
            if fa and fb:
                return [], f"a slice keeps its length but {show(ib)} is larger than {show(ia)}"
            return equations(ia, ib[1][0], gens)
        return equations(ia, ib, gens)
    if ha in gens and not xa and ha != hb or hb in gens and not xb:
        if ha in gens and ("*" in hb):
            return [], None
        return [(show(a), show(b))], None
    if ha == hb and len(xa) == len(xb):
        out = []
        for x, y in zip(xa, xb):
            e, p = equations(x, y, gens)
            if p:
                return out, p
            out += e
        return out, None
    if ha in SIZE and hb in SIZE:
        if SIZE[ha] != SIZE[hb]:
            return [], f"{ha} and {hb} differ in size"
        return [], None
    return [], None


MEMFN = re.compile(r"core::(mem|intrinsics)::(transmute_copy|transmute_unchecked|transmute)$")
ALIGNED = re.compile(r"core_arch::x86(_64)?::\w+::_mm(256|512)?_(load|store|stream)_(ps|pd|si128|si256|si512)$")
RAWOP = re.compile(r"(get_unchecked(_mut)?|ptr::(const|mut)_ptr::.*::(add|sub|offset|read\w*|write\w*|copy_\w+)|copy_nonoverlapping|ptr::copy|from_raw_parts(_mut)?|"
                   r"_mm\d*_\w*(load|store)\w*|set_len|ptr::(read|write)\w*|unreachable_unchecked|assume_init\w*|unwrap_unchecked)$")


class Guards:
    def __init__(self, prog):
        self.prog = prog
        self.g = Graph(prog)
        self.F = Facts(prog, self.g)
        self.n = {"casts": 0, "cpu": 0, "sites": 0}
        # one instance per generic function is enough: casts are judged in generic terms
        self.rep = {}
        for k in sorted(prog.fns):
            self.rep.setdefault(prog.fns[k].path, prog.fns[k])
        self.makers, self.callers = {}, {}
        for f in self.rep.values():
            for i, b in enumerate(f.blocks):
                if b["c"]:
                    continue
                for c in self.made(b):
                    self.makers.setdefault(prog.fns[c].path, []).append((f, i))
            for x in f.d["gcall"]:
                self.callers.setdefault(x[1], []).append((f, x[0], x[2]))
            for i, b in enumerate(f.blocks):
                if b["c"]:
                    continue
                for c in walk_consts([b["s"], b["t"][2:] if b["t"][0] == "call" else b["t"]]):
                    if "fn" in c and c.get("local"):
                        self.callers.setdefault(c["fn"], []).append((f, i, None))

    def made(self, b):
        out = []

        def rec(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "closure" and isinstance(x[2], str):
                    out.append(x[2])
                for y in x:
                    rec(y)
            elif isinstance(x, dict):
                for y in x.values():
                    rec(y)
        rec([b["s"], b["t"]])
        return [c for c in out if c in self.prog.fns]

    def holds(self, fn, block, want, seen=()):
        """None when the fact is established on every way to this block, otherwise the chain of places where it is not"""
        f = self.F.of(fn).get(block, ALL)
        if f is ALL or want(f, None):
            return None
        here = (short(fn.key), fn.line)
        if fn.key in seen or len(seen) > 6:
            return [here]
        if fn.d.get("closure"):
            ms = self.makers.get(fn.path, [])
            for p, i in ms:
                r = self.holds(p, i, want, seen + (fn.key,))
                if r:
                    return [here] + r
            return None if ms else [here]
        if fn.d.get("exported") and not fn.d.get("unsafe") or fn.d.get("of_trait") or fn.d.get("impl_trait"):
            return [here]
        cs = self.callers.get(fn.path, [])
        for p, i, ga in cs:
            m = dict(zip(fn.d["gens"], ga)) if ga else {}
            r = self.holds(p, i, lambda fs, mm, m=m: want(fs, m if mm is None else {k: subst(v, mm) for k, v in m.items()}), seen + (fn.key,))
            if r:
                return [here] + r
        if not cs:
            return [here] if fn.d.get("exported") else None
        return None

    def casts(self, fn):
        out = [(b, a, t, ln) for b, kind, a, t, ln in fn.d["gcast"]]
        for b, name, ga, _ in fn.d["gcall"]:
            if MEMFN.search(name) and len(ga) == 2:
                out.append((b, ga[0], ga[1], fn.blocks[b]["t"][6]))
            elif re.search(r"ptr::(const|mut)_ptr::<impl \*(const|mut) T>::cast$", name) and len(ga) == 2:
                out.append((b, "*const " + ga[0], "*const " + ga[1], fn.blocks[b]["t"][6]))
        return out

    def check_casts(self, viol):
        for fn in self.rep.values():
            gens = set(fn.d["gens"])
            for b, a, t, ln in self.casts(fn):
                if a == t or fn.blocks[b]["c"]:
                    continue
                self.n["casts"] += 1
                if self.F.of(fn).get(b, ALL) is ALL:
                    continue
                eqs, bad = equations(parse(a), parse(t), gens)
                if bad:
                    viol(fn, ln, "cast", f"{a} reinterpreted as {t}: {bad}")
                    continue
                for x, y in eqs:
                    if x in gens and y in gens and x == y:
                        continue

                    def want(fs, m, x=x, y=y):
                        x2, y2 = (subst(x, m), subst(y, m)) if m else (x, y)
                        if x2 == y2:
                            return True
                        h = {(q[1], q[2]) for q in fs if q[0] == "ty"}
                        return (x2, y2) in h
                    r = self.holds(fn, b, want)
                    if r:
                        viol(fn, ln, "cast", f"{a} is reinterpreted as {t} where {x} has not been found equal to {y}", path=r)
                        break

    def check_cpu(self, viol):
        prog = self.prog
        base = set(prog.raw["session_tf"])
        tfs = {}
        for f in prog.fns.values():
            if f.d.get("target_features"):
                tfs[f.key] = tfs[f.path] = f.d["target_features"]
        for fn in self.rep.values():
            own = base | set(fn.d.get("target_features") or ())
            par = fn
            while par.d.get("closure"):
                ms = self.makers.get(par.path)
                if not ms:
                    break
                par = ms[0][0]
                own |= set(par.d.get("target_features") or ())
            sites = [(x[0], x[1], x[3]) for x in fn.d["gcall"] if x[3]]
            for i, b in enumerate(fn.blocks):
                if not b["c"]:
                    for c in walk_consts([b["s"], b["t"][2:] if b["t"][0] == "call" else []]):
                        if c.get("fn") in tfs:
                            sites.append((i, c["fn"], tfs[c["fn"]]))
            for b, name, need in sites:
                if fn.blocks[b]["c"]:
                    continue
                self.n["cpu"] += 1
                miss = set(need) - own
                if miss:
                    r = self.holds(fn, b, lambda fs, m, miss=miss: miss <= {q[1] for q in fs if q[0] == "cpu"})
                    if r:
                        viol(fn, fn.blocks[b]["t"][6] if fn.blocks[b]["t"][0] == "call" else fn.line, "cpu-feature",
                             f"{name.split('::')[-1]} needs {', '.join(sorted(miss))}, which is not known to be available here", path=r)
                m = ALIGNED.search(name)
                if m and not self.tests_alignment(fn):
                    viol(fn, fn.blocks[b]["t"][6], "alignment", f"{name.split('::')[-1]} needs an aligned address, which nothing establishes")

    def tests_alignment(self, fn):
        """the function looks at the low bits of an address"""
        for c in self.g.calls(fn):
            if c.callee and c.callee.endswith(("align_offset", "align_to", "align_to_mut", "is_aligned", "is_aligned_to")):
                return True
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Rem", "BitAnd") and self.prog.tys[fn.locals[s[1][0]][0]]["s"] == "usize":
                    o = s[2][3]
                    if o[0] == "const" and o[1].get("bits") in ("15", "16", "31", "32", "63", "64"):
                        return True
        return False

    def check_assume(self, viol):
        """values assumed initialised although nothing was written since they were created"""
        for fn in self.rep.values():
            fresh = {}
            for i, b in enumerate(fn.blocks):
                t = b["t"]
                if b["c"] or t[0] != "call" or t[1][0] != "const":
                    continue
                n = t[1][1].get("fn") or ""
                if n.endswith(("mem::uninitialized",)):
                    viol(fn, t[6], "uninitialised", "mem::uninitialized is never initialised")
                if re.search(r"MaybeUninit::<T>::(uninit|uninit_array)$", n) and not t[3][1]:
                    fresh[t[3][0]] = t[6]
            if not fresh:
                continue
            touched, copies = set(), dict((x, x) for x in fresh)
            ch = True
            while ch:
                ch = False
                for b in fn.blocks:
                    for s in b["s"]:
                        if s[0] != "=":
                            continue
                        d, r = s[1], s[2]
                        if r[0] == "use" and r[1][0] in ("copy", "move") and not r[1][1][1] and not d[1] and r[1][1][0] in copies and d[0] not in copies:
                            copies[d[0]] = copies[r[1][1][0]]
                            ch = True
                        if r[0] in ("ref", "rawptr") and r[1] != "shared" and r[2][0] in copies:
                            touched.add(copies[r[2][0]])
                        if d[1] and d[0] in copies:
                            touched.add(copies[d[0]])
            for b in fn.blocks:
                t = b["t"]
                if b["c"] or t[0] != "call" or t[1][0] != "const":
                    continue
                n = t[1][1].get("fn") or ""
                if n.endswith(("::assume_init", "::array_assume_init", "::assume_init_read")) and t[2] and t[2][0][0] in ("copy", "move"):
                    l = t[2][0][1][0]
                    if copies.get(l) in fresh and copies[l] not in touched:
                        ret = self.prog.tys[fn.locals[t[3][0]][0]]["s"]
                        if "MaybeUninit" not in ret:
                            viol(fn, t[6], "uninitialised", f"a {ret} is assumed initialised although nothing was written to it")


QUICK = [("rel", {"std": True}), ("nostd-rel", {"std": False})]
THOROUGH = QUICK + [("sse", {"std": True}), ("default", {"std": True}), ("avx", {"std": True})]
if os.environ.get("KAI_CONFIGS"):
    QUICK = [(c, {"std": not c.startswith("nostd")}) for c in os.environ["KAI_CONFIGS"].split(",")]


def touches_memory(prog, g):
    """functions performing raw accesses, and the entry points whose own analysis reaches one (summarised callees are entry points
    themselves)"""
    raw = {f.key for f in prog.fns.values() if any(RAWOP.search(c.callee or "") for c in g.calls(f)) or raw_deref(prog, f)}
    rev = {}
    for f in prog.fns.values():
        for y in g.refs(f):
            rev.setdefault(y, set()).add(f.key)
    todo, s = list(raw), set(raw)
    while todo:
        k = todo.pop()
        if prog.fns[k].path in CONTRACTS:
            continue
        for y in rev.get(k, ()):
            if y not in s:
                s.add(y)
                todo.append(y)
    return raw, s


def raw_deref(prog, f):
    def rec(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[1] and x[1][0] == ["deref"]:
                t = prog.tys[f.locals[x[0]][0]]
                return t["k"] == "ptr" and prog.tys[t["e"]]["k"] != "slice" and "UnsafeCell" not in t["s"] and not re.search("Planner|MaybeUninit", t["s"])
            return any(rec(y) for y in x)
        return False
    return any(rec(s[1:3]) for b in f.blocks if not b["c"] for s in b["s"] if s[0] == "=")


def run(w, rep, tier):
    tot = {"ok": 0, "viol": 0, "undec": 0}
    n = {"casts": 0, "cpu": 0}
    und, allrs, rawfns, sl = set(), [], set(), 0
    absint._done.clear()
    for cfg, c in (QUICK if tier == "quick" else THOROUGH):
        path = w.kofft(cfg)
        prog = Prog(path)
        g = Graph(prog)
        raw, reach = touches_memory(prog, g)
        rawfns.update(short(x) for x in raw)
        G = Guards(prog)

        def viol(fn, line, kind, what, **x):
            rep.viol(fn.path, fn.file, line, kind, what, config=cfg, **x)
        G.check_casts(viol)
        G.check_cpu(viol)
        G.check_assume(viol)
        n["casts"] += G.n["casts"]
        n["cpu"] += G.n["cpu"]
        _, rs = absint.analyse(path, lambda k, p: k in reach, c)
        if c["std"]:
            # once more with the type parameter standing for a caller's own element type
            tid = {f.key for f in prog.fns.values() if any((x.callee or "").endswith("TypeId::of") for x in g.calls(f))}
            keep = dict(absint._done)
            absint._done.clear()
            rs = rs + absint.analyse(path, lambda k, p: k in reach and k in tid, dict(c, foreign=True))[1]
            absint._done.clear()
            absint._done.update(keep)
        allrs += rs
        for r in rs:
            for x in r["obls"]:
                if x["kind"] not in ("rawbounds", "uninit"):
                    continue
                if x["kind"] == "uninit":
                    sl += 1
                    fn = prog.by_path[x["fn"]][0]
                    if any(re.search(r"Vec::<T, A>::(spare_capacity_mut|as_mut_ptr)$", y.callee or "") for y in g.calls(fn)):
                        continue        # written through a pointer first: not followed
                tot[x["st"]] += 1
                if x["st"] == "viol":
                    rep.viol(x["fn"], x["file"], x["line"], x["kind"], x["desc"], entry=r["key"], model=x.get("model"), call_path=x.get("trail"), config=cfg)
                elif x["st"] == "undec":
                    und.add(f"{x['fn']}:{x['line']} {x['desc']}")
    rep.cov.update(absint.coverage(allrs))
    rep.cov.update(reinterpreting_casts=n["casts"], feature_gated_call_sites=n["cpu"], functions_with_raw_accesses=sorted(rawfns),
                   raw_access_obligations=sum(tot.values()), proved=tot["ok"], undecided=tot["undec"], undecided_sites=sorted(und), set_len_sites=sl)
